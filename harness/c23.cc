// needs: pir
// C23: hash functions are deterministic, in range, seed-separated and
// interoperable.
#include <array>
#include <limits>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include "absl/strings/str_cat.h"
#include "common/vh.h"
#include "farmhash/farmhash.h"
#include "openssl/sha.h"
#include "pir/hashing/farm_hash_family.h"
#include "pir/hashing/hash_family.h"
#include "pir/hashing/hash_family_config.h"
#include "pir/hashing/sha256_hash_family.h"

namespace vh {
namespace {

using namespace distributed_point_functions;
constexpr auto kInvalid = absl::StatusCode::kInvalidArgument;

// SHA-256 as in FIPS 180-4.
std::array<uint8_t, 32> Sha256(const std::string& in) {
  static const uint32_t k[64] = {
      0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be,
      0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa,
      0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967, 0x27b70a85,
      0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3,
      0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f,
      0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2};
  uint32_t h[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
  std::string m = in;
  uint64_t bits = static_cast<uint64_t>(in.size()) * 8;
  m.push_back('\x80');
  while (m.size() % 64 != 56) m.push_back('\0');
  for (int i = 7; i >= 0; --i) m.push_back(static_cast<char>(bits >> (8 * i)));
  auto rot = [](uint32_t x, int n) { return (x >> n) | (x << (32 - n)); };
  for (size_t p = 0; p < m.size(); p += 64) {
    uint32_t w[64];
    for (size_t i = 0; i < 16; ++i) {
      w[i] = 0;
      for (size_t j = 0; j < 4; ++j) w[i] = w[i] << 8 | static_cast<uint8_t>(m[p + 4 * i + j]);
    }
    for (size_t i = 16; i < 64; ++i) {
      uint32_t s0 = rot(w[i - 15], 7) ^ rot(w[i - 15], 18) ^ (w[i - 15] >> 3);
      uint32_t s1 = rot(w[i - 2], 17) ^ rot(w[i - 2], 19) ^ (w[i - 2] >> 10);
      w[i] = w[i - 16] + s0 + w[i - 7] + s1;
    }
    uint32_t v[8];
    for (int i = 0; i < 8; ++i) v[i] = h[i];
    for (int i = 0; i < 64; ++i) {
      uint32_t t1 = v[7] + (rot(v[4], 6) ^ rot(v[4], 11) ^ rot(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + k[i] + w[i];
      uint32_t t2 = (rot(v[0], 2) ^ rot(v[0], 13) ^ rot(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
      for (int j = 7; j > 0; --j) v[j] = v[j - 1];
      v[4] += t1;
      v[0] = t1 + t2;
    }
    for (int i = 0; i < 8; ++i) h[i] += v[i];
  }
  std::array<uint8_t, 32> out;
  for (size_t i = 0; i < 32; ++i) out[i] = static_cast<uint8_t>(h[i / 4] >> (24 - 8 * (i % 4)));
  return out;
}

// The digest as a little-endian number modulo `bound`.
template <typename D>
int Reduce(const D& digest, int bound) {
  unsigned __int128 r = 0;
  for (int i = 31; i >= 0; --i) r = (r * 256 + digest[static_cast<size_t>(i)]) % static_cast<unsigned>(bound);
  return static_cast<int>(r);
}
int RefSha(const std::string& seed, const std::string& in, int bound) { return Reduce(Sha256(seed + in), bound); }
int RefFarm(const std::string& seed, const std::string& in, int bound) {
  auto s = util::Hash128(seed.data(), seed.size());
  auto h = util::Hash128WithSeed(in.data(), in.size(), s);
  unsigned __int128 v = (static_cast<unsigned __int128>(h.second) << 64) | h.first;
  return static_cast<int>(v % static_cast<unsigned>(bound));
}

std::string RandomBytes(Rng& r) {
  static const size_t edges[] = {0, 1, 15, 16, 17, 54, 55, 56, 57, 62, 63, 64, 65, 118, 119, 120, 127, 128, 129, 256};
  switch (r.below(5)) {
    case 0: return r.bytes(edges[r.below(sizeof edges / sizeof *edges)]);
    case 1: return std::string(r.below(70), '\0');
    case 2: return absl::StrCat(r.below(200));
    default: return r.bytes(r.below(r.chance(1, 20) ? 3000 : 100));
  }
}
int RandomBound(Rng& r) {
  switch (r.below(6)) {
    case 0: return 1;
    case 1: return std::numeric_limits<int>::max() - static_cast<int>(r.below(3));
    case 2: return 1 << r.below(31);
    case 3: return static_cast<int>(r.range(1, 20));
    default: return static_cast<int>(r.range(1, std::numeric_limits<int>::max()));
  }
}

VH_GROUP(functions, 36000, 400000) {
  Rng& r = c.rng;
  std::string seed = RandomBytes(r);
  bool sha = r.chance(2, 3);
  c.Desc("sha=%d seed=%s", sha, Hex(seed).c_str());
  auto ref = [&](const std::string& in, int b) { return sha ? RefSha(seed, in, b) : RefFarm(seed, in, b); };
  std::string* doomed = new std::string(seed);
  HashFunction f = sha ? SHA256HashFamily{}(*doomed) : FarmHashFamily{}(*doomed);
  auto a = std::make_unique<SHA256HashFunction>(*doomed);
  FarmHashFunction b(*doomed);
  // The seed's memory is the caller's.
  doomed->assign(doomed->size(), 'x');
  delete doomed;
  SHA256HashFunction a2(*a);
  FarmHashFunction b2(b);
  for (int i = 0; i < 6; ++i) {
    std::string in = RandomBytes(r);
    std::unique_ptr<char[]> exact(new char[in.size()]);
    std::copy(in.begin(), in.end(), exact.get());
    absl::string_view view(exact.get(), in.size());
    int bound = RandomBound(r);
    int want = ref(in, bound), got = f(view, bound);
    VH_CHECK(c, got >= 0 && got < bound, "out_of_range", "%d of %d", got, bound);
    VH_CHECK(c, got == want, "hash_differs", "input %s bound %d: %d, want %d", Hex(in).c_str(), bound, got, want);
    VH_CHECK(c, f(in, bound) == want, "not_deterministic", "input %s bound %d", Hex(in).c_str(), bound);
    // Objects of the class itself, and their copies.
    int g = sha ? (a ? (*a)(view, bound) : a2(view, bound)) : b(view, bound);
    int h = sha ? a2(view, bound) : b2(view, bound);
    VH_CHECK(c, g == want && h == want, "copy_differs", "input %s: %d, %d, want %d", Hex(in).c_str(), g, h, want);
    if (i == 2) a.reset();
    if (i == 3) {
      HashFunction moved = std::move(f);
      f = std::move(moved);
    }
    if (i == 4 && sha) {
      SHA256HashFunction other(seed + "?");
      other = a2;
      VH_CHECK(c, other(in, bound) == want, "copy_differs", "assigned");
    }
    c.Count("hashes");
  }
}

VH_GROUP(families, 9000, 100000) {
  Rng& r = c.rng;
  std::string seed = RandomBytes(r);
  if (seed.empty() || r.chance(1, 4)) seed = absl::StrCat("seed", r.below(100));
  int k = c.index % 100 == 99 ? 256 + static_cast<int>(r.below(900)) : r.chance(1, 10) ? static_cast<int>(r.below(130)) : static_cast<int>(r.below(8));
  int k2 = static_cast<int>(r.below(8));
  bool sha = r.chance(2, 3), config = sha && r.chance(1, 2);
  c.Desc("sha=%d config=%d k=%d/%d seed=%s", sha, config, k, k2, Hex(seed).c_str());
  auto family = [&]() -> absl::StatusOr<HashFamily> {
    if (config) {
      HashFamilyConfig h;
      h.set_hash_family(HashFamilyConfig::HASH_FAMILY_SHA256);
      h.set_seed(seed);
      // Stored and read again.
      HashFamilyConfig stored;
      if (!stored.ParseFromString(h.SerializeAsString())) return absl::InternalError("parse");
      return CreateHashFamilyFromConfig(stored);
    }
    std::string temporary = seed;
    HashFamily f = sha ? HashFamily(WrapWithSeed(SHA256HashFamily{}, temporary)) : HashFamily(WrapWithSeed(FarmHashFamily{}, temporary));
    temporary.assign(temporary.size(), 'x');
    return f;
  };
  auto f1 = family(), f2 = family();
  VH_CHECK(c, f1.ok() && f2.ok(), "family_refused", "%s", S(f1.status()).c_str());
  // A family called directly.
  std::string sub = RandomBytes(r), in = RandomBytes(r);
  int bound = RandomBound(r);
  auto ref = [&](const std::string& s, const std::string& x, int b) { return sha ? RefSha(seed + s, x, b) : RefFarm(seed + s, x, b); };
  VH_CHECK(c, (*f1)(sub)(in, bound) == ref(sub, in, bound), "family_member_differs", "%s", Hex(sub).c_str());
  auto a = CreateHashFunctions(*std::move(f1), k);
  auto b = CreateHashFunctions(*std::move(f2), k2);
  VH_CHECK(c, a.ok() && b.ok(), "functions_refused", "%s", S(a.status()).c_str());
  VH_CHECK(c, a->size() == static_cast<size_t>(k) && b->size() == static_cast<size_t>(k2), "number_of_functions", "%zu, %zu", a->size(), b->size());
  for (int i = 0; i < 3; ++i) {
    in = RandomBytes(r);
    bound = RandomBound(r);
    for (int j = 0; j < std::max(k, k2); ++j) {
      int want = ref(absl::StrCat(j), in, bound);
      size_t u = static_cast<size_t>(j);
      if (j < k) VH_CHECK(c, (*a)[u](in, bound) == want, "member_differs", "function %d of %d", j, k);
      if (j < k2) VH_CHECK(c, (*b)[u](in, bound) == want, "member_differs", "function %d of %d", j, k2);
      c.Count("members");
    }
  }
  // Different functions of a family differ.
  if (k >= 2) {
    for (int j = 1; j < std::min(k, 12); ++j) {
      int same = 0;
      for (int i = 0; i < 8; ++i) {
        std::string x = absl::StrCat("input", i);
        same += (*a)[0](x, 1 << 30) == (*a)[static_cast<size_t>(j)](x, 1 << 30);
      }
      VH_CHECK(c, same < 3, "functions_agree", "0 and %d", j);
    }
    c.Count("separated");
  }
}

// One function called very often.
VH_GROUP(long_life, 24, 300) {
  Rng& r = c.rng;
  std::string seed = RandomBytes(r);
  bool sha = c.index % 3 != 0;
  int n = c.index % 4 == 0 ? 70000 : 300 + static_cast<int>(r.below(5000));
  c.Desc("sha=%d seed=%s, %d calls", sha, Hex(seed, 60).c_str(), n);
  HashFunction f = sha ? SHA256HashFamily{}(seed) : FarmHashFamily{}(seed);
  std::string in;
  int bound = 1, want = 0;
  for (int k = 0; k < n; ++k) {
    if (k % 16 == 0) {
      in = r.chance(1, 2) ? absl::StrCat("key ", k) : r.bytes(r.below(80));
      bound = RandomBound(r);
      want = sha ? RefSha(seed, in, bound) : RefFarm(seed, in, bound);
    }
    int got = f(in, bound);
    VH_CHECK(c, got == want, "hash_differs", "call %d, input %s bound %d: %d, want %d", k, Hex(in).c_str(), bound, got, want);
    c.Count("hashes");
  }
}

VH_GROUP(configs, 12000, 100000) {
  Rng& r = c.rng;
  HashFamilyConfig h;
  static const int kinds[] = {0, 1, 2, 3, -1, 100, std::numeric_limits<int>::max(), std::numeric_limits<int>::min()};
  int kind = kinds[r.below(8)];
  std::string seed = r.chance(1, 3) ? "" : RandomBytes(r);
  h.set_hash_family(static_cast<HashFamilyConfig::HashFamily>(kind));
  h.set_seed(seed);
  c.Desc("%d %s", kind, Hex(seed).c_str());
  auto f = CreateHashFamilyFromConfig(h);
  if (kind == HashFamilyConfig::HASH_FAMILY_SHA256 && !seed.empty()) {
    VH_CHECK(c, f.ok(), "valid_refused", "%s", S(f.status()).c_str());
    std::string in = RandomBytes(r);
    int b = RandomBound(r);
    VH_CHECK(c, (*f)("7")(in, b) == RefSha(seed + "7", in, b), "config_family_differs", "%s", Hex(seed).c_str());
    int neg = -1 - static_cast<int>(r.below(1000));
    VH_CHECK(c, CreateHashFunctions(*std::move(f), neg).status().code() == kInvalid, "negative_count", "%d", neg);
    c.Count("accepted");
  } else {
    VH_CHECK(c, f.status().code() == kInvalid, "invalid_accepted", "%d, seed of %zu: %s", kind, seed.size(), S(f.status()).c_str());
    c.Count("refused");
  }
  VH_CHECK(c, CreateHashFunctions(SHA256HashFamily{}, std::numeric_limits<int>::min()).status().code() == kInvalid, "negative_count", "min");
  auto none = CreateHashFunctions(FarmHashFamily{}, 0);
  VH_CHECK(c, none.ok() && none->empty(), "zero_functions", "%s", S(none.status()).c_str());
}

// Spread over the range, for two bounds that divide no power of two.
VH_GROUP(spread, 120, 1000) {
  Rng& r = c.rng;
  bool sha = r.chance(1, 2);
  std::string seed = RandomBytes(r);
  int bound = 3 + static_cast<int>(r.below(60)), n = 60 * bound;
  c.Desc("sha=%d seed=%s bound=%d", sha, Hex(seed).c_str(), bound);
  HashFunction f = sha ? SHA256HashFamily{}(seed) : FarmHashFamily{}(seed);
  std::vector<int> hits(static_cast<size_t>(bound));
  uint64_t start = r.u64();
  for (int i = 0; i < n; ++i) {
    int h = f(absl::StrCat(start + static_cast<uint64_t>(i)), bound);
    VH_CHECK(c, h >= 0 && h < bound, "out_of_range", "%d of %d", h, bound);
    ++hits[static_cast<size_t>(h)];
  }
  double x = 0;
  for (int h : hits) x += (h - 60.0) * (h - 60.0) / 60.0;
  // Mean bound-1, deviation sqrt(2 bound); ten deviations never happen.
  VH_CHECK(c, x < bound + 10 * std::sqrt(2.0 * bound) + 20, "not_spread", "chi-square %f for %d", x, bound);
  c.Count("spread_samples", static_cast<uint64_t>(n));
}

VH_GROUP(threads, 180, 1500) {
  Rng& r = c.rng;
  std::string seed = RandomBytes(r);
  bool sha = r.chance(1, 2);
  c.Desc("sha=%d seed=%s", sha, Hex(seed).c_str());
  HashFunction f = sha ? SHA256HashFamily{}(seed) : FarmHashFamily{}(seed);
  std::vector<std::string> in;
  std::vector<int> want, bounds;
  for (int i = 0; i < 60; ++i) {
    in.push_back(RandomBytes(r));
    bounds.push_back(RandomBound(r));
    want.push_back(sha ? RefSha(seed, in.back(), bounds.back()) : RefFarm(seed, in.back(), bounds.back()));
  }
  std::vector<int> bad(4);
  std::vector<std::thread> t;
  for (size_t k = 0; k < 4; ++k) {
    t.emplace_back([&, k] {
      for (int rep = 0; rep < 3; ++rep) {
        for (size_t i = 0; i < in.size(); ++i) {
          size_t j = (i + k * 15) % in.size();
          bad[k] += f(in[j], bounds[j]) != want[j];
        }
      }
    });
  }
  for (auto& x : t) x.join();
  VH_CHECK(c, bad[0] + bad[1] + bad[2] + bad[3] == 0, "thread_differs", "%d", bad[0] + bad[1] + bad[2] + bad[3]);
  c.Count("hashes_in_threads", 720);
}

// Inputs that are hashed in pieces of 2^30 bytes.
VH_GROUP(huge_inputs, 1, 6) {
  size_t n = (size_t{1} << 30) + (c.index == 0 ? 77 : c.rng.below(200));
  std::string seed = "seed";
  c.Desc("%zu", n);
  std::string in(n, 'a');
  for (size_t i = 0; i < n; i += 4093) in[i] = static_cast<char>(i * 2654435761u >> 20);
  SHA256_CTX ctx;
  SHA256_Init(&ctx);
  SHA256_Update(&ctx, seed.data(), seed.size());
  for (size_t p = 0; p < n; p += 1 << 20) SHA256_Update(&ctx, &in[p], std::min(n - p, size_t{1} << 20));
  std::array<uint8_t, 32> d;
  SHA256_Final(d.data(), &ctx);
  int got = SHA256HashFunction(seed)(in, 1000003);
  VH_CHECK(c, got == Reduce(d, 1000003), "hash_differs", "of %zu bytes", n);
  c.Count("huge");
}

}  // namespace
}  // namespace vh
