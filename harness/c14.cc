// needs: pir dcf
// C14: secrets are fresh bytes of the random source, all of them and once.
#include <algorithm>
#include <cmath>
#include <map>
#include <set>

#include "common/pirkv.h"
#include "common/pirutil.h"
#include "common/vh.h"
#include "dcf/fss_gates/multiple_interval_containment.h"
#include "dcf/fss_gates/prng/basic_rng.h"
#include "pir/prng/aes_128_ctr_seeded_prng.h"

namespace vh {
namespace {

using namespace distributed_point_functions;
using fss_gates::MicKey;
using fss_gates::MicParameters;
using fss_gates::MultipleIntervalContainmentGate;

std::string Le(uint64_t x, size_t n) {
  std::string s;
  for (size_t i = 0; i < n; ++i) s.push_back(static_cast<char>(x >> (8 * i)));
  return s;
}
std::string Le(u128 x, size_t n) {
  std::string s = Le(absl::Uint128Low64(x), 8) + Le(absl::Uint128High64(x), 8);
  s.resize(n);
  return s;
}

// The bytes handed out since `from`.
std::string Drawn(size_t from) {
  std::string s;
  for (size_t i = from; i < rand::Log().size(); ++i) s += rand::Log()[i].bytes;
  return s;
}

// Follows which handed-out bytes are in which secret.
class Ledger {
 public:
  explicit Ledger(std::string drawn) : drawn_(std::move(drawn)), used_(drawn_.size(), false) {}
  // False if `secret` does not consist of consecutive, so far unused bytes.
  bool Claim(const std::string& secret) {
    for (size_t at = drawn_.find(secret); at != std::string::npos; at = drawn_.find(secret, at + 1)) {
      if (std::none_of(used_.begin() + static_cast<long>(at), used_.begin() + static_cast<long>(at + secret.size()), [](bool b) { return b; })) {
        std::fill(used_.begin() + static_cast<long>(at), used_.begin() + static_cast<long>(at + secret.size()), true);
        return true;
      }
    }
    return false;
  }

 private:
  std::string drawn_;
  std::vector<bool> used_;
};

std::string SeedOf(const DpfKey& k) { return Le(k.seed().low(), 8) + Le(k.seed().high(), 8); }

u128 Share(const MicKey& k, int i) {
  auto& v = k.output_mask_share(i).value_uint128();
  return absl::MakeUint128(v.high(), v.low());
}

MicParameters RandomMic(Rng& r, int bits, int intervals) {
  MicParameters p;
  p.set_log_group_size(bits);
  for (int i = 0; i < intervals; ++i) {
    u128 a = r.edgy(bits), b = r.edgy(bits);
    if (a > b) std::swap(a, b);
    auto* x = p.add_intervals();
    x->mutable_lower_bound()->mutable_value_uint128()->set_high(absl::Uint128High64(a));
    x->mutable_lower_bound()->mutable_value_uint128()->set_low(absl::Uint128Low64(a));
    x->mutable_upper_bound()->mutable_value_uint128()->set_high(absl::Uint128High64(b));
    x->mutable_upper_bound()->mutable_value_uint128()->set_low(absl::Uint128Low64(b));
  }
  return p;
}

VH_GROUP(interval_gates, 3000, 40000) {
  Rng& r = c.rng;
  int bits = static_cast<int>(r.chance(1, 3) ? r.range(120, 127) : r.range(64, 127));
  int m = static_cast<int>(r.chance(1, 30) ? 7 + r.below(200) : 1 + r.below(6));
  MicParameters p = RandomMic(r, bits, m);
  c.Desc("bits=%d intervals=%d v=%016llx", bits, m, (unsigned long long)r.u64());
  auto gate = MultipleIntervalContainmentGate::Create(p);
  VH_CHECK(c, gate.ok(), "gate_refused", "%s", S(gate.status()).c_str());
  size_t start = rand::Log().size();
  std::vector<std::pair<MicKey, MicKey>> all;
  std::vector<std::vector<u128>> masks;
  for (int k = 0; k < 3; ++k) {
    std::vector<u128> out;
    for (int i = 0; i < m; ++i) out.push_back(r.edgy(bits));
    size_t from = rand::Log().size();
    auto keys = (*gate)->Gen(r.edgy(bits), out);
    VH_CHECK(c, keys.ok(), "gen_refused", "%s", S(keys.status()).c_str());
    std::string drawn = Drawn(from);
    Ledger here(drawn);
    VH_CHECK(c, here.Claim(SeedOf(keys->first.dcfkey().key())) && here.Claim(SeedOf(keys->second.dcfkey().key())), "dcf_seed_not_fresh", "%d", k);
    VH_CHECK(c, keys->first.output_mask_share_size() == m && keys->second.output_mask_share_size() == m, "share_count", "%d", m);
    size_t n = static_cast<size_t>(bits / 8);
    for (int i = 0; i < m; ++i) {
      u128 limit = bits == 128 ? 0 : u128{1} << bits;
      VH_CHECK(c, Share(keys->first, i) < limit && Share(keys->second, i) < limit, "share_range", "%d", i);
      VH_CHECK(c, here.Claim(Le(Share(keys->first, i), n)) || here.Claim(Le(Share(keys->second, i), n)), "share_not_fresh",
               "gate of %d bits, share %d of %d: %s / %s, drawn %s", bits, i, m, Str(Share(keys->first, i)).c_str(), Str(Share(keys->second, i)).c_str(),
               Hex(drawn, 200).c_str());
      c.Count("shares");
    }
    all.push_back(*keys);
  }
  // No share twice within a history either.
  Ledger whole(Drawn(start));
  for (auto& k : all)
    for (int i = 0; i < m; ++i) {
      size_t n = static_cast<size_t>(bits / 8);
      VH_CHECK(c, whole.Claim(Le(Share(k.first, i), n)) || whole.Claim(Le(Share(k.second, i), n)), "share_reused", "%d", i);
    }
}

// Pearson's statistic far beyond what chance explains (normal approximation at
// more than 8 standard deviations).
bool FarFromUniform(const std::vector<uint64_t>& counts) {
  double total = 0, x = 0;
  for (auto n : counts) total += static_cast<double>(n);
  double want = total / static_cast<double>(counts.size());
  for (auto n : counts) x += (static_cast<double>(n) - want) * (static_cast<double>(n) - want) / want;
  double df = static_cast<double>(counts.size() - 1);
  return x > df + 8 * std::sqrt(2 * df) + 40;
}

VH_GROUP(uniform_shares, 80, 1500) {
  Rng& r = c.rng;
  int bits = static_cast<int>(c.index % 2 ? r.range(1, 6) : r.range(7, 126));
  int m = static_cast<int>(1 + r.below(3));
  MicParameters p = RandomMic(r, bits, m);
  u128 in = r.edgy(bits);
  std::vector<u128> out;
  for (int i = 0; i < m; ++i) out.push_back(r.chance(1, 2) ? 0 : r.edgy(bits));
  c.Desc("bits=%d intervals=%d v=%016llx", bits, m, (unsigned long long)r.u64());
  auto gate = MultipleIntervalContainmentGate::Create(p);
  VH_CHECK(c, gate.ok(), "gate_refused", "%s", S(gate.status()).c_str());
  rand::SetLogging(false);
  // The lowest and the highest bits of every share, for both parties, and of
  // neighbouring shares together.
  int lo = std::min(bits, 4);
  size_t cells = size_t{1} << lo;
  std::vector<std::vector<uint64_t>> low(static_cast<size_t>(2 * m), std::vector<uint64_t>(cells)), high = low;
  std::vector<std::vector<uint64_t>> joint(static_cast<size_t>(m), std::vector<uint64_t>(16));
  int rounds = bits <= 6 ? 2000 : 500;
  for (int k = 0; k < rounds; ++k) {
    auto keys = (*gate)->Gen(in, out);
    if (!keys.ok()) {
      c.Fail("gen_refused", "%s", S(keys.status()).c_str());
      break;
    }
    for (int i = 0; i < m; ++i) {
      for (int party = 0; party < 2; ++party) {
        u128 z = Share(party ? keys->second : keys->first, i);
        ++low[static_cast<size_t>(2 * i + party)][static_cast<size_t>(absl::Uint128Low64(z) & (cells - 1))];
        ++high[static_cast<size_t>(2 * i + party)][static_cast<size_t>(absl::Uint128Low64(z >> (bits - lo)) & (cells - 1))];
      }
      if (i + 1 < m && bits >= 2) {
        ++joint[static_cast<size_t>(i)][static_cast<size_t>(((absl::Uint128Low64(Share(keys->first, i)) & 3) << 2) | (absl::Uint128Low64(Share(keys->first, i + 1)) & 3))];
      }
    }
    c.Count("gates");
  }
  rand::SetLogging(true);
  if (c.failed()) return;
  for (int i = 0; i < 2 * m; ++i) {
    VH_CHECK(c, !FarFromUniform(low[static_cast<size_t>(i)]), "biased_low_bits", "%d bits, share %d, party %d", bits, i / 2, i % 2);
    VH_CHECK(c, !FarFromUniform(high[static_cast<size_t>(i)]), "biased_high_bits", "%d bits, share %d, party %d", bits, i / 2, i % 2);
  }
  for (int i = 0; i + 1 < m && bits >= 2; ++i) VH_CHECK(c, !FarFromUniform(joint[static_cast<size_t>(i)]), "dependent_shares", "%d bits, shares %d and %d", bits, i, i + 1);
}

VH_GROUP(pir_requests, 3000, 40000) {
  Rng& r = c.rng;
  World w = AnyWorld(r, static_cast<PirKind>(c.index % 3), 30);
  c.Desc("%s n=%zu v=%016llx", KindName(w.kind), w.records.size(), (unsigned long long)r.u64());
  Hybrid h(r.u64());
  auto cl = MakeClient(w, &h), cl2 = MakeClient(w, &h);
  VH_CHECK(c, cl.ok() && cl2.ok(), "client_refused", "%s", S(cl.status()).c_str());
  size_t start = rand::Log().size();
  std::vector<std::string> secrets;
  size_t most = r.chance(1, 20) ? 80 : 4;
  Query q = AnyQuery(r, w, most);
  for (int k = 0; k < 5; ++k) {
    if (r.chance(1, 2)) q = AnyQuery(r, w, most);
    const Client& cc = r.chance(1, 2) ? *cl : *cl2;
    size_t from = rand::Log().size();
    DpfPirRequest::PlainRequest lp;
    DpfPirRequest::HelperRequest hr;
    PirRequestClientState st;
    if (r.chance(1, 2)) {
      auto x = cc.CreatePlainRequests(q);
      VH_CHECK(c, x.ok(), "request_refused", "%s", S(x.status()).c_str());
      std::tie(lp, hr, st) = *x;
    } else {
      auto x = cc.CreateRequest(q);
      VH_CHECK(c, x.ok(), "request_refused", "%s", S(x.status()).c_str());
      lp = x->first.dpf_pir_request().leader_request().plain_request();
      st = x->second;
      VH_CHECK(c, hr.ParseFromString(h.encrypts.back().plain), "helper_part", "%d", k);
    }
    std::vector<std::string> mine = {hr.one_time_pad_seed()};
    for (auto& x : lp.dpf_key()) mine.push_back(SeedOf(x));
    for (auto& x : hr.plain_request().dpf_key()) mine.push_back(SeedOf(x));
    VH_CHECK(c, hr.one_time_pad_seed().size() == static_cast<size_t>(Aes128CtrSeededPrng::SeedSize()), "pad_seed_length", "%zu", hr.one_time_pad_seed().size());
    VH_CHECK(c, StateSeed(st) == hr.one_time_pad_seed(), "state_seed", "%s", Hex(StateSeed(st)).c_str());
    Ledger here(Drawn(from));
    for (size_t i = 0; i < mine.size(); ++i)
      VH_CHECK(c, here.Claim(mine[i]), i ? "key_seed_not_fresh" : "pad_seed_not_fresh", "secret %zu of %zu: %s", i, mine.size(), Hex(mine[i]).c_str());
    secrets.insert(secrets.end(), mine.begin(), mine.end());
    c.Count("request_secrets", mine.size());
  }
  Ledger whole(Drawn(start));
  for (auto& s : secrets) VH_CHECK(c, whole.Claim(s), "secret_reused", "%s", Hex(s).c_str());
}

VH_GROUP(generated_parameters, 1000, 20000) {
  Rng& r = c.rng;
  int calls = static_cast<int>(2 + r.below(6));
  c.Desc("calls=%d v=%016llx", calls, (unsigned long long)r.u64());
  PirConfig cuckoo, simple;
  cuckoo.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_hash_family(HashFamilyConfig::HASH_FAMILY_SHA256);
  simple.mutable_simple_hashing_sparse_dpf_pir_config()->set_hash_family(HashFamilyConfig::HASH_FAMILY_SHA256);
  cuckoo.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_num_elements(1 + static_cast<int64_t>(r.below(1000)));
  simple.mutable_simple_hashing_sparse_dpf_pir_config()->set_num_buckets(1 + static_cast<int64_t>(r.below(1000)));
  size_t start = rand::Log().size();
  std::vector<std::string> seeds;
  for (int k = 0; k < calls; ++k) {
    size_t from = rand::Log().size(), want = 0;
    std::string seed;
    switch (r.below(3)) {
      case 0: {
        auto p = CuckooHashingSparseDpfPirServer::GenerateParams(cuckoo);
        VH_CHECK(c, p.ok(), "params_refused", "%s", S(p.status()).c_str());
        seed = p->hash_family_config().seed();
        want = 16;
        break;
      }
      case 1: {
        auto p = SimpleHashingSparseDpfPirServer::GenerateParams(simple);
        VH_CHECK(c, p.ok(), "params_refused", "%s", S(p.status()).c_str());
        seed = p->hash_family_config().seed();
        want = 16;
        break;
      }
      default: {
        auto p = Aes128CtrSeededPrng::GenerateSeed();
        VH_CHECK(c, p.ok(), "seed_refused", "%s", S(p.status()).c_str());
        seed = *p;
        want = static_cast<size_t>(Aes128CtrSeededPrng::SeedSize());
      }
    }
    VH_CHECK(c, want >= 16 && seed.size() == want, "seed_length", "%zu of %zu", seed.size(), want);
    VH_CHECK(c, Ledger(Drawn(from)).Claim(seed), "seed_not_fresh", "%s", Hex(seed).c_str());
    seeds.push_back(seed);
    c.Count("seeds");
  }
  Ledger whole(Drawn(start));
  for (auto& s : seeds) VH_CHECK(c, whole.Claim(s), "seed_reused", "%s", Hex(s).c_str());
}

VH_GROUP(basic_generator, 4000, 50000) {
  Rng& r = c.rng;
  int n = static_cast<int>(1 + r.below(40));
  c.Desc("n=%d v=%016llx", n, (unsigned long long)r.u64());
  auto g = BasicRng::Create(r.chance(1, 2) ? "" : "a seed that is not used"), g2 = BasicRng::Create("");
  VH_CHECK(c, g.ok() && g2.ok(), "create_refused", "%s", S(g.status()).c_str());
  std::set<std::string> big;
  std::set<std::string> bytes;
  for (int i = 0; i < n; ++i) {
    BasicRng& x = r.chance(1, 4) ? **g2 : **g;
    size_t from = rand::Log().size();
    std::string got;
    switch (r.below(3)) {
      case 0: {
        auto v = x.Rand8();
        VH_CHECK(c, v.ok(), "refused", "%s", S(v.status()).c_str());
        got = Le(uint64_t{*v}, 1);
        break;
      }
      case 1: {
        auto v = x.Rand64();
        VH_CHECK(c, v.ok(), "refused", "%s", S(v.status()).c_str());
        got = Le(*v, 8);
        break;
      }
      default: {
        auto v = x.Rand128();
        VH_CHECK(c, v.ok(), "refused", "%s", S(v.status()).c_str());
        got = Le(*v, 16);
      }
    }
    VH_CHECK(c, Ledger(Drawn(from)).Claim(got), "output_not_fresh", "%zu bytes: %s of %s", got.size(), Hex(got).c_str(), Hex(Drawn(from)).c_str());
    VH_CHECK(c, got.size() == 1 || big.insert(got).second, "output_repeated", "%s", Hex(got).c_str());
    c.Count(got.size() == 1 ? "bytes" : got.size() == 8 ? "words" : "blocks");
  }
  // Every bit of every output comes from the source.
  if (c.index % 8 == 0) {
    for (int fill : {0x00, 0xff, 0x5a}) {
      rand::SetFill(fill);
      auto a = (*g)->Rand8();
      auto b = (*g)->Rand64();
      auto d = (*g)->Rand128();
      rand::SetFill(-1);
      std::string all = Le(uint64_t{*a}, 1) + Le(*b, 8) + Le(*d, 16);
      VH_CHECK(c, all == std::string(25, static_cast<char>(fill)), "foreign_bits", "%s", Hex(all).c_str());
    }
    c.Count("filled");
  }
}

// Generators, gates and clients in long use.
VH_GROUP(long_life, 16, 200) {
  Rng& r = c.rng;
  int n = c.index % 8 == 0 ? 66000 : 500 + static_cast<int>(r.below(2500));
  bool slow = n < 10000;
  World w = AnyWorld(r, static_cast<PirKind>(c.index % 3), 10);
  c.Desc("%s, %d secrets, v=%016llx", KindName(w.kind), n, (unsigned long long)r.u64());
  Hybrid h(r.u64());
  auto cl = MakeClient(w, &h);
  auto gate = MultipleIntervalContainmentGate::Create(RandomMic(r, slow ? 64 : 127, 1));
  auto g = BasicRng::Create("");
  VH_CHECK(c, cl.ok() && gate.ok() && g.ok(), "setup_refused", "%s", S(cl.status()).c_str());
  std::set<std::string> seen;
  for (int k = 0; k < n; ++k) {
    rand::Log().clear();
    std::string got;
    switch (r.below(slow ? 5 : 3)) {
      case 0: {
        auto x = (*g)->Rand128();
        VH_CHECK(c, x.ok(), "refused", "%s", S(x.status()).c_str());
        got = Le(*x, 16);
        break;
      }
      case 1: {
        auto x = (*g)->Rand64();
        VH_CHECK(c, x.ok(), "refused", "%s", S(x.status()).c_str());
        got = Le(*x, 8);
        break;
      }
      case 2: {
        auto x = Aes128CtrSeededPrng::GenerateSeed();
        VH_CHECK(c, x.ok(), "seed_refused", "%s", S(x.status()).c_str());
        got = *x;
        break;
      }
      case 3: {
        auto x = (*gate)->Gen(5, {7});
        VH_CHECK(c, x.ok(), "gen_refused", "%s", S(x.status()).c_str());
        got = Le(Share(x->first, 0), 8);
        if (!Ledger(Drawn(0)).Claim(got)) got = Le(Share(x->second, 0), 8);
        break;
      }
      default: {
        auto x = cl->CreatePlainRequests(AnyQuery(r, w, 1));
        VH_CHECK(c, x.ok(), "request_refused", "%s", S(x.status()).c_str());
        got = std::get<1>(*x).one_time_pad_seed();
      }
    }
    VH_CHECK(c, Ledger(Drawn(0)).Claim(got), "output_not_fresh", "secret %d: %s", k, Hex(got).c_str());
    VH_CHECK(c, seen.insert(got).second, "secret_reused", "secret %d: %s", k, Hex(got).c_str());
    c.Count("long_life_secrets");
  }
}

// The bytes of many single draws are spread evenly, and secrets of different
// kinds, sampled in any order, share nothing.
VH_GROUP(histories, 600, 8000) {
  Rng& r = c.rng;
  c.Desc("v=%016llx", (unsigned long long)r.u64());
  World w = AnyWorld(r, static_cast<PirKind>(c.index % 3), 10);
  Hybrid h(r.u64());
  auto cl = MakeClient(w, &h);
  auto gate = MultipleIntervalContainmentGate::Create(RandomMic(r, 127, 3));
  auto g = BasicRng::Create("");
  VH_CHECK(c, cl.ok() && gate.ok() && g.ok(), "setup_refused", "%s", S(cl.status()).c_str());
  PirConfig simple;
  simple.mutable_simple_hashing_sparse_dpf_pir_config()->set_hash_family(HashFamilyConfig::HASH_FAMILY_SHA256);
  simple.mutable_simple_hashing_sparse_dpf_pir_config()->set_num_buckets(9);
  size_t start = rand::Log().size();
  std::vector<std::pair<std::string, std::string>> secrets;  // either of two
  for (int k = 0; k < 15; ++k) {
    switch (r.below(5)) {
      case 0: {
        auto x = cl->CreatePlainRequests(AnyQuery(r, w, 2));
        VH_CHECK(c, x.ok(), "request_refused", "%s", S(x.status()).c_str());
        std::string s = std::get<1>(*x).one_time_pad_seed();
        secrets.emplace_back(s, s);
        for (auto& y : std::get<0>(*x).dpf_key()) secrets.emplace_back(SeedOf(y), SeedOf(y));
        break;
      }
      case 1: {
        auto x = (*gate)->Gen(5, {1, 2, 3});
        VH_CHECK(c, x.ok(), "gen_refused", "%s", S(x.status()).c_str());
        for (int i = 0; i < 3; ++i) secrets.emplace_back(Le(Share(x->first, i), 15), Le(Share(x->second, i), 15));
        break;
      }
      case 2: {
        auto x = (*g)->Rand128();
        VH_CHECK(c, x.ok(), "refused", "%s", S(x.status()).c_str());
        secrets.emplace_back(Le(*x, 16), Le(*x, 16));
        break;
      }
      case 3: {
        auto x = SimpleHashingSparseDpfPirServer::GenerateParams(simple);
        VH_CHECK(c, x.ok(), "params_refused", "%s", S(x.status()).c_str());
        secrets.emplace_back(x->hash_family_config().seed(), x->hash_family_config().seed());
        break;
      }
      default: {
        auto x = (*g)->Rand64();
        VH_CHECK(c, x.ok(), "refused", "%s", S(x.status()).c_str());
        secrets.emplace_back(Le(*x, 8), Le(*x, 8));
      }
    }
  }
  Ledger whole(Drawn(start));
  // Long ones first: short ones could otherwise claim parts of them.
  std::stable_sort(secrets.begin(), secrets.end(), [](auto& a, auto& b) { return a.first.size() > b.first.size(); });
  for (auto& s : secrets) VH_CHECK(c, whole.Claim(s.first) || whole.Claim(s.second), "secret_reused", "%s", Hex(s.first).c_str());
  c.Count("secrets_in_histories", secrets.size());
}

}  // namespace
}  // namespace vh
