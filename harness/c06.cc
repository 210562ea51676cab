// needs: ops dcfops dcf
// C06: one key is freshly random and independent of alpha and beta.
#include <algorithm>
#include <cmath>
#include <set>

#include "common/wire.h"
#include "dcfops/dcfops.h"
#include "ops/ops.h"

namespace vh {
namespace {

u128 SeedOf(const DpfKey& k) { return absl::MakeUint128(k.seed().high(), k.seed().low()); }
std::string Le(u128 v) {
  std::string s(16, '\0');
  StoreLe(v, reinterpret_cast<uint8_t*>(&s[0]));
  return s;
}
std::string Rev(std::string s) {
  std::reverse(s.begin(), s.end());
  return s;
}

// All integers of 64 bits or more anywhere in a key other than its root seed.
void Collect(const Value& v, std::vector<u128>* out) {
  auto integer = [&](const Value::Integer& i) {
    if (auto x = GetInteger(i)) out->push_back(*x);
  };
  if (v.has_integer()) integer(v.integer());
  if (v.has_int_mod_n()) integer(v.int_mod_n());
  if (v.has_xor_wrapper()) integer(v.xor_wrapper());
  for (auto& e : v.tuple().elements()) Collect(e, out);
}
std::vector<u128> Contents(const DpfKey& k) {
  std::vector<u128> out = {SeedOf(k)};
  for (auto& cw : k.correction_words()) {
    out.push_back(absl::MakeUint128(cw.seed().high(), cw.seed().low()));
    for (auto& v : cw.value_correction()) Collect(v, &out);
  }
  for (auto& v : k.last_level_value_correction()) Collect(v, &out);
  return out;
}

// The keys of one key generation whose draws are `log`.
bool CheckFresh(Case& c, const DpfKey& a, const DpfKey& b, const std::vector<rand::Draw>& log) {
  std::string bytes;
  for (auto& d : log) bytes += d.bytes;
  if (bytes.size() != 32) {
    c.Fail("random_bytes", "%zu random bytes drawn in %zu calls, not 32", bytes.size(), log.size());
    return false;
  }
  std::string h0 = bytes.substr(0, 16), h1 = bytes.substr(16), s0 = Le(SeedOf(a)), s1 = Le(SeedOf(b));
  bool ok = (s0 == h0 && s1 == h1) || (s0 == h1 && s1 == h0) || (s0 == Rev(h0) && s1 == Rev(h1)) ||
            (s0 == Rev(h1) && s1 == Rev(h0));
  if (!ok) {
    c.Fail("seeds_not_drawn", "seeds %s %s, drawn %s", Hex(s0).c_str(), Hex(s1).c_str(), Hex(bytes).c_str());
    return false;
  }
  if (a.party() == b.party() || a.party() + b.party() != 1) {
    c.Fail("party", "parties %d and %d", a.party(), b.party());
    return false;
  }
  std::string diff = KeyDiff(a, b, true);
  if (!diff.empty()) {
    c.Fail("keys_differ", "apart from seed and party: %s", diff.c_str());
    return false;
  }
  for (const DpfKey* k : {&a, &b}) {
    if (k->SerializeAsString() != EncodeKey(*k)) {
      c.Fail("extra_content", "the key has undocumented content: %s", k->ShortDebugString().c_str());
      return false;
    }
    u128 other = SeedOf(k == &a ? b : a);
    // (Forced draws may make the seeds equal or tiny.)
    if (SeedOf(a) == SeedOf(b)) continue;
    for (u128 v : Contents(*k))
      if (v == other || v == ~other || LoadLe(reinterpret_cast<const uint8_t*>(Rev(Le(v)).data())) == other) {
        c.Fail("contains_other_seed", "party %d's key contains the other's seed", k->party());
        return false;
      }
    std::string wire = k->SerializeAsString();
    if (wire.find(Le(other)) != std::string::npos || wire.find(Rev(Le(other))) != std::string::npos) {
      c.Fail("contains_other_seed", "party %d's key contains the other's seed", k->party());
      return false;
    }
  }
  c.Count("fresh_pairs");
  return true;
}

VH_GROUP(keygen, 10000, 100000) {
  GenOptions go;
  go.max_levels = 6;
  auto lv = RandomLevels(c.rng, go);
  RefDpf ref(lv);
  auto d = MakeDpf(c, lv);
  if (!d) return;
  rand::SetLogging(true);
  int n = 1 + static_cast<int>(c.rng.below(4));
  std::set<std::string> seeds;
  u128 alpha = c.rng.edgy(lv.back().ld);
  auto beta = RandomBetas(c.rng, lv);
  c.Desc("levels=%s alpha=%s x%d", LevelsName(lv).c_str(), Str(alpha).c_str(), n);
  for (int i = 0; i < n; ++i) {
    if (c.rng.chance(1, 2)) alpha = c.rng.edgy(lv.back().ld), beta = RandomBetas(c.rng, lv);
    // Registering types, refused calls and evaluations in between must not touch the draws.
    if (c.rng.chance(1, 4)) {
      if (!RegisterAll(c, *d, lv)) return;
      if (lv.back().ld < 128) {
        std::vector<Value> vals;
        for (size_t j = 0; j < lv.size(); ++j) vals.push_back(ValProto(lv[j].t, beta[j]));
        auto r = d->GenerateKeysIncremental(Shl(1, lv.back().ld), absl::MakeConstSpan(vals));
        VH_CHECK(c, !r.ok(), "alpha_outside_accepted", "ld=%d", lv.back().ld);
      }
    }
    rand::Log().clear();
    auto k = GenAny(c, *d, lv, alpha, beta);
    VH_CHECK(c, k.ok(), "keygen_refused", "%s", S(k.status()).c_str());
    auto log = rand::Log();
    if (!CheckFresh(c, k->first, k->second, log)) return;
    // Everything but the seeds is the deterministic, documented function of
    // seeds, alpha and beta.
    auto want = ref.Gen(SeedOf(k->first), SeedOf(k->second), alpha, beta);
    std::string diff = KeyDiff(k->first, want.first) + KeyDiff(k->second, want.second);
    VH_CHECK(c, diff.empty(), "key_differs", "%s", diff.c_str());
    for (auto* key : {&k->first, &k->second})
      VH_CHECK(c, seeds.insert(Le(SeedOf(*key))).second, "seed_repeated", "%s", Hex(Le(SeedOf(*key))).c_str());
    // Evaluation draws nothing.
    rand::Log().clear();
    auto e = FindOps(lv[0].t)->EvalAt(*d, k->first, 0, RandomPoints(c.rng, lv, 0, alpha, 3));
    VH_CHECK(c, e.ok() && rand::Log().empty(), "evaluation_draws", "%zu draws", rand::Log().size());
  }
}

// One object that generates very many keys: all seeds are fresh.
VH_GROUP(long_life, 16, 160) {
  GenOptions go;
  go.max_levels = 2;
  go.max_ld = 6;
  go.small_last = true;
  auto lv = RandomLevels(c.rng, go);
  auto d = MakeDpf(c, lv);
  if (!d) return;
  auto beta = RandomBetas(c.rng, lv);
  if (!RegisterAll(c, *d, lv)) return;
  std::vector<Value> values;
  for (size_t j = 0; j < lv.size(); ++j) values.push_back(ValProto(lv[j].t, beta[j]));
  int n = c.index % 8 == 0 ? 66000 : 1000 + static_cast<int>(c.rng.below(4000));
  c.Desc("levels=%s, %d keys", LevelsName(lv).c_str(), n);
  rand::SetLogging(true);
  std::set<std::string> seeds;
  for (int i = 0; i < n; ++i) {
    rand::Log().clear();
    auto k = d->GenerateKeysIncremental(c.rng.bits(lv.back().ld), absl::MakeConstSpan(values));
    VH_CHECK(c, k.ok(), "keygen_refused", "key pair %d: %s", i, S(k.status()).c_str());
    auto log = rand::Log();
    if (!CheckFresh(c, k->first, k->second, log)) return;
    for (auto* key : {&k->first, &k->second})
      VH_CHECK(c, seeds.insert(Le(SeedOf(*key))).second, "seed_repeated", "pair %d: %s", i, Hex(Le(SeedOf(*key))).c_str());
    c.Count("long_life_keys");
  }
}

// Forced draws: all bits of the seeds are the drawn ones, also at the extremes.
VH_GROUP(forced_draws, 3000, 20000) {
  GenOptions go;
  auto lv = RandomLevels(c.rng, go);
  RefDpf ref(lv);
  u128 alpha = c.rng.edgy(lv.back().ld);
  auto beta = RandomBetas(c.rng, lv);
  int fill = c.rng.chance(1, 3) ? 0 : c.rng.chance(1, 2) ? 255 : static_cast<int>(c.rng.below(256));
  c.Desc("levels=%s alpha=%s fill=%d", LevelsName(lv).c_str(), Str(alpha).c_str(), fill);
  auto d = MakeDpf(c, lv);
  if (!d) return;
  rand::SetFill(fill);
  auto k = GenAny(c, *d, lv, alpha, beta);
  rand::SetFill(-1);
  VH_CHECK(c, k.ok(), "keygen_refused", "%s", S(k.status()).c_str());
  u128 f = 0;
  for (int i = 0; i < 16; ++i) f = f << 8 | static_cast<unsigned>(fill);
  VH_CHECK(c, SeedOf(k->first) == f && SeedOf(k->second) == f, "seeds_not_drawn", "%s %s", Str(SeedOf(k->first)).c_str(),
           Str(SeedOf(k->second)).c_str());
  auto want = ref.Gen(f, f, alpha, beta);
  std::string diff = KeyDiff(k->first, want.first) + KeyDiff(k->second, want.second);
  VH_CHECK(c, diff.empty(), "key_differs", "%s", diff.c_str());
  c.Count("forced_pairs");
}

VH_GROUP(comparison_keygen, 3000, 30000) {
  const DcfOps* o = AllDcfOps()[c.rng.below(AllDcfOps().size())];
  int ld = 1 + static_cast<int>(c.rng.below(MaxDcfDomain(o->t)));
  auto d = DistributedComparisonFunction::Create(DcfParams(o->t, ld));
  VH_CHECK(c, d.ok(), "create_refused", "%s", S(d.status()).c_str());
  u128 alpha = c.rng.edgy(ld);
  RVal beta = RandomVal(o->t, c.rng);
  c.Desc("%s/%d alpha=%s beta=%s", o->t.Name().c_str(), ld, Str(alpha).c_str(), Str(beta).c_str());
  RefDpf ref(DcfLevels(o->t, ld));
  std::vector<RVal> betas;
  for (int i = 0; i < ld; ++i) betas.push_back(((alpha >> (ld - 1 - i)) & 1) != 0 ? beta : Zero(o->t));
  rand::SetLogging(true);
  for (int i = 0; i < 2; ++i) {
    rand::Log().clear();
    auto k = o->Gen(**d, alpha, beta);
    VH_CHECK(c, k.ok(), "keygen_refused", "%s", S(k.status()).c_str());
    auto log = rand::Log();
    if (!CheckFresh(c, k->first.key(), k->second.key(), log)) return;
    auto want = ref.Gen(SeedOf(k->first.key()), SeedOf(k->second.key()), alpha >> 1, betas);
    std::string diff = KeyDiff(k->first.key(), want.first) + KeyDiff(k->second.key(), want.second);
    VH_CHECK(c, diff.empty(), "key_differs", "%s", diff.c_str());
  }
}

// Bits of the key as a string of 0/1, without the root seed.
void KeyBits(const RefDpf& ref, const DpfKey& k, std::vector<bool>* out) {
  auto bits = [&](u128 v, int n) {
    for (int i = 0; i < n; ++i) out->push_back(((v >> i) & 1) != 0);
  };
  std::function<void(const RT&, const RVal&)> value = [&](const RT& t, const RVal& v) {
    if (t.kind == RT::TUP)
      for (size_t i = 0; i < t.el.size(); ++i) value(t.el[i], v.e[i]);
    else
      bits(v.v, t.bits);
  };
  out->clear();
  for (auto& cw : k.correction_words()) {
    bits(absl::MakeUint128(cw.seed().high(), cw.seed().low()), 128);
    out->push_back(cw.control_left());
    out->push_back(cw.control_right());
  }
  for (int i = 0; i < ref.levels(); ++i) {
    const auto& cor = i == ref.levels() - 1 ? k.last_level_value_correction()
                                            : k.correction_words(ref.tree_level(i)).value_correction();
    for (auto& v : cor)
      if (auto r = FromProto(ref.level(i).t, v)) value(ref.level(i).t, *r);
  }
}

// The distribution of one party's key does not depend on alpha and beta.
VH_GROUP(distribution, 24, 240) {
  GenOptions go;
  go.max_levels = 3;
  go.max_ld = c.rng.chance(1, 2) ? 10 : 24;
  auto lv = RandomLevels(c.rng, go);
  RefDpf ref(lv);
  auto d = MakeDpf(c, lv);
  if (!d) return;
  rand::SetLogging(false);
  int n = c.thorough ? 20000 : 4000;
  std::vector<std::vector<uint32_t>> ones(2), pairs(2);
  u128 alphas[2] = {c.rng.edgy(lv.back().ld), c.rng.edgy(lv.back().ld)};
  std::vector<RVal> betas[2] = {RandomBetas(c.rng, lv), RandomBetas(c.rng, lv)};
  c.Desc("levels=%s alphas=%s,%s", LevelsName(lv).c_str(), Str(alphas[0]).c_str(), Str(alphas[1]).c_str());
  int party = static_cast<int>(c.rng.below(2));
  for (int w = 0; w < 2; ++w) {
    std::vector<bool> b;
    for (int i = 0; i < n; ++i) {
      auto k = GenAny(c, *d, lv, alphas[w], betas[w]);
      VH_CHECK(c, k.ok(), "keygen_refused", "%s", S(k.status()).c_str());
      KeyBits(ref, party ? k->second : k->first, &b);
      ones[w].resize(b.size());
      pairs[w].resize(b.size());
      for (size_t j = 0; j < b.size(); ++j) {
        ones[w][j] += b[j];
        pairs[w][j] += j > 0 && b[j] && b[j - 1];
      }
    }
  }
  rand::SetLogging(true);
  VH_CHECK(c, ones[0].size() == ones[1].size(), "key_shape", "%zu and %zu bits", ones[0].size(), ones[1].size());
  for (size_t j = 0; j < ones[0].size(); ++j)
    for (auto* t : {&ones, &pairs}) {
      double p = ((*t)[0][j] + (*t)[1][j]) / (2.0 * n), sd = std::sqrt(2.0 * n * p * (1 - p)) + 0.5;
      double diff = std::fabs(static_cast<double>((*t)[0][j]) - (*t)[1][j]);
      VH_CHECK(c, diff < 8 * sd + 4, "distribution_depends_on_alpha_beta", "bit %zu: %u and %u of %d", j, (*t)[0][j], (*t)[1][j], n);
      c.Count("bits_compared");
    }
}

}  // namespace
}  // namespace vh
