// needs: pir
// C13: the seeded PRNG is one fixed stream per seed, however it is read.
#include <memory>
#include <set>

#include "common/refaes.h"
#include "common/vh.h"
#include "pir/prng/aes_128_ctr_seeded_prng.h"

namespace vh {
namespace {

using Prng = distributed_point_functions::Aes128CtrSeededPrng;
constexpr auto kInvalid = absl::StatusCode::kInvalidArgument;

// AES-128-CTR with a big-endian 128-bit counter, from its definition.
std::string Keystream(const std::string& seed, const std::string& nonce, size_t n) {
  Aes128 aes(reinterpret_cast<const uint8_t*>(seed.data()));
  std::string ctr = nonce, out;
  while (out.size() < n) {
    uint8_t b[16];
    aes.Encrypt(reinterpret_cast<const uint8_t*>(ctr.data()), b);
    out.append(reinterpret_cast<char*>(b), 16);
    for (int i = 15; i >= 0; --i) {
      uint8_t x = static_cast<uint8_t>(ctr[static_cast<size_t>(i)]) + 1;
      ctr[static_cast<size_t>(i)] = static_cast<char>(x);
      if (x != 0) break;
    }
  }
  out.resize(n);
  return out;
}

std::string RandomSeed(Rng& r) {
  switch (r.below(6)) {
    case 0: return std::string(16, '\0');
    case 1: return std::string(16, '\xff');
    case 2: {
      std::string s(16, '\0');
      s[r.below(16)] = static_cast<char>(1 << r.below(8));
      return s;
    }
    default: return r.bytes(16);
  }
}
// Starting offsets, many close to where counter bytes carry over.
std::string RandomNonce(Rng& r) {
  std::string s = r.chance(1, 3) ? r.bytes(16) : std::string(16, '\0');
  if (r.chance(2, 3)) {
    size_t k = 1 + r.below(16);
    for (size_t i = 0; i < k; ++i) s[15 - i] = '\xff';
    s[15] = static_cast<char>(0xff - r.below(6));
  }
  return s;
}
size_t RandomLength(Rng& r) {
  switch (r.below(7)) {
    case 0: return 0;
    case 1: return 16 * (1 + r.below(6));
    case 2: return 16 * (1 + r.below(6)) + r.below(3) - 1;
    case 3: return r.below(2000);
    case 4: return 1;
    default: return r.below(40);
  }
}

VH_GROUP(stream, 60000, 600000) {
  Rng& r = c.rng;
  std::string seed = RandomSeed(r);
  bool with_nonce = r.chance(2, 3);
  std::string nonce = with_nonce ? RandomNonce(r) : std::string(16, '\0');
  c.Desc("seed=%s nonce=%s", Hex(seed).c_str(), Hex(nonce).c_str());
  auto make = [&] { return with_nonce ? Prng::CreateWithNonce(seed, nonce) : Prng::Create(seed); };
  auto a = make(), b = make();
  VH_CHECK(c, a.ok() && b.ok(), "create", "%s", S(a.status()).c_str());
  std::string sa, sb;
  int k = 1 + static_cast<int>(r.below(30));
  if (r.chance(1, 200)) {  // long reads
    sa += (*a)->GetRandomBytes(70000 + r.below(5000));
    c.Count("long_reads");
  }
  for (int i = 0; i < k; ++i) {
    size_t n = RandomLength(r);
    std::string x = (*a)->GetRandomBytes(n);
    VH_CHECK(c, x.size() == n, "length", "%zu, want %zu", x.size(), n);
    sa += x;
    if (r.chance(1, 3) && sb.size() < sa.size()) {  // the other instance, interleaved, split elsewhere
      size_t m = 1 + r.below(sa.size() - sb.size());
      sb += (*b)->GetRandomBytes(m);
    }
    c.Count("reads");
  }
  if (sb.size() < sa.size()) sb += (*b)->GetRandomBytes(sa.size() - sb.size());
  VH_CHECK(c, sa == sb, "split_dependent", "%zu bytes", sa.size());
  VH_CHECK(c, sa == Keystream(seed, nonce, sa.size()), "keystream_differs", "%zu bytes", sa.size());
  if (sa.size() > 16) {
    std::set<std::string> blocks;
    for (size_t i = 0; i + 16 <= sa.size(); i += 16)
      VH_CHECK(c, blocks.insert(sa.substr(i, 16)).second, "repeated_block", "at %zu", i);
  }
  c.Count("bytes", sa.size());
}

// Megabytes, in reads of any size, next to counter carries.
VH_GROUP(long_streams, 16, 300) {
  Rng& r = c.rng;
  std::string seed = RandomSeed(r), nonce = RandomNonce(r);
  c.Desc("seed=%s nonce=%s long", Hex(seed).c_str(), Hex(nonce).c_str());
  auto a = Prng::CreateWithNonce(seed, nonce);
  VH_CHECK(c, a.ok(), "create", "%s", S(a.status()).c_str());
  size_t total = (size_t{1} << 20) + r.below(3000000);
  std::string sa;
  while (sa.size() < total) {
    size_t n = r.chance(1, 3) ? r.below(2000000) : r.chance(1, 2) ? 65536 + r.below(3) - 1 : r.below(100000);
    std::string x = (*a)->GetRandomBytes(n);
    VH_CHECK(c, x.size() == n, "length", "%zu, want %zu", x.size(), n);
    sa += x;
  }
  std::string want = Keystream(seed, nonce, sa.size());
  if (sa != want) {
    size_t at = 0;
    while (at < sa.size() && sa[at] == want[at]) ++at;
    c.Fail("keystream_differs", "at byte %zu of %zu", at, sa.size());
  }
  c.Count("long_bytes", sa.size());
}

// Very many small reads from one generator.
VH_GROUP(many_reads, 24, 300) {
  Rng& r = c.rng;
  std::string seed = RandomSeed(r), nonce = RandomNonce(r);
  int reads = c.index % 4 == 0 ? 70000 : 500 + static_cast<int>(r.below(8000));
  size_t top = 1 + r.below(40);
  bool fixed = r.chance(1, 3);
  c.Desc("seed=%s nonce=%s, %d reads of up to %zu", Hex(seed).c_str(), Hex(nonce).c_str(), reads, top);
  auto a = Prng::CreateWithNonce(seed, nonce);
  VH_CHECK(c, a.ok(), "create", "%s", S(a.status()).c_str());
  std::string sa;
  for (int i = 0; i < reads; ++i) {
    size_t n = fixed ? top : r.below(top + 1);
    std::string x = (*a)->GetRandomBytes(n);
    VH_CHECK(c, x.size() == n, "length", "read %d: %zu, want %zu", i, x.size(), n);
    sa += x;
    c.Count("reads");
  }
  std::string want = Keystream(seed, nonce, sa.size());
  size_t at = 0;
  while (at < sa.size() && sa[at] == want[at]) ++at;
  VH_CHECK(c, at == sa.size(), "keystream_differs", "at byte %zu of %zu", at, sa.size());
}

VH_GROUP(seeds, 18000, 200000) {
  Rng& r = c.rng;
  // Lengths other than 16.
  size_t n = r.below(40), m = r.chance(1, 2) ? 16 : r.below(40);
  std::string s = r.bytes(n), t = r.bytes(m);
  c.Desc("lengths %zu %zu", n, m);
  auto p = Prng::Create(s);
  VH_CHECK(c, n == 16 ? p.ok() : p.status().code() == kInvalid, "seed_length", "%zu: %s", n, S(p.status()).c_str());
  auto q = Prng::CreateWithNonce(s, t);
  VH_CHECK(c, n == 16 && m == 16 ? q.ok() : q.status().code() == kInvalid, "nonce_length", "%zu, %zu: %s", n, m, S(q.status()).c_str());
  if (n != 16 || m != 16) c.Count("lengths_refused");
  VH_CHECK(c, Prng::SeedSize() == 16, "seed_size", "%zu", Prng::SeedSize());
  // Close seeds have unrelated streams.
  std::string a = RandomSeed(r), b = a;
  b[r.below(16)] ^= static_cast<char>(1 << r.below(8));
  auto pa = Prng::Create(a), pb = Prng::Create(b);
  VH_CHECK(c, pa.ok() && pb.ok(), "create", "%s", S(pa.status()).c_str());
  std::string xa = (*pa)->GetRandomBytes(256), xb = (*pb)->GetRandomBytes(256);
  int differ = 0;
  for (size_t i = 0; i < 256; ++i) differ += __builtin_popcount(static_cast<uint8_t>(xa[i] ^ xb[i]));
  VH_CHECK(c, differ > 700 && differ < 1350, "related_streams", "%d of 2048 bits differ", differ);
  // Generated seeds are exactly the random source's bytes.
  rand::Reset(c.rng.u64());
  std::set<std::string> seen;
  for (int i = 0; i < 4; ++i) {
    uint64_t before = rand::TotalBytes();
    size_t draws = rand::Log().size();
    auto g = Prng::GenerateSeed();
    VH_CHECK(c, g.ok() && g->size() == 16, "generated_size", "%zu", g.ok() ? g->size() : 0);
    VH_CHECK(c, rand::TotalBytes() - before == 16, "generated_draws", "%llu bytes", (unsigned long long)(rand::TotalBytes() - before));
    std::string drawn;
    for (size_t j = draws; j < rand::Log().size(); ++j) drawn += rand::Log()[j].bytes;
    VH_CHECK(c, drawn == *g, "generated_not_random", "%s drawn, %s returned", Hex(drawn).c_str(), Hex(*g).c_str());
    VH_CHECK(c, seen.insert(*g).second, "seed_repeated", "%s", Hex(*g).c_str());
    auto ok = Prng::Create(*g);
    VH_CHECK(c, ok.ok(), "own_seed_refused", "%s", S(ok.status()).c_str());
    VH_CHECK(c, (*ok)->GetRandomBytes(33) == Keystream(*g, std::string(16, '\0'), 33), "keystream_differs", "%s", Hex(*g).c_str());
    c.Count("seeds_generated");
  }
  VH_CHECK(c, rand::TotalBytes() == 64, "stream_draws_randomness", "%llu", (unsigned long long)rand::TotalBytes());
}

}  // namespace
}  // namespace vh
