// needs: ops dcfops dcf
// C10: comparison-function shares add up to beta below alpha, zero elsewhere.
#include <algorithm>

#include "dcfops/dcfops.h"

namespace vh {
namespace {

u128 MaxOf(int ld) { return ld >= 128 ? absl::Uint128Max() : (u128{1} << ld) - 1; }

std::vector<absl::uint128> Around(Rng& rng, int ld, u128 alpha, int n) {
  u128 max = MaxOf(ld);
  std::vector<absl::uint128> x = {alpha, 0, max, (alpha - 1) & max, (alpha + 1) & max};
  while (static_cast<int>(x.size()) < n) {
    switch (rng.below(5)) {
      case 0: x.push_back(alpha ^ Shl(1, static_cast<int>(rng.below(ld)))); break;
      case 1: {  // alpha's prefix with another tail
        int k = static_cast<int>(rng.below(ld + 1));
        x.push_back((alpha & ~MaxOf(k)) | rng.bits(k));
        break;
      }
      case 2: x.push_back((alpha + u128{rng.below(9)} - 4) & max); break;
      default: x.push_back(rng.edgy(ld));
    }
  }
  if (n < 5) {
    rng.shuffle(x);
    x.resize(n);
  }
  return x;
}

int PickDomain(Rng& rng, int max) {
  switch (rng.below(6)) {
    case 0: return 1 + static_cast<int>(rng.below(std::min(max, 8)));
    case 1: return max - static_cast<int>(rng.below(std::min(max, 3)));
    case 2: return std::min(max, 60 + static_cast<int>(rng.below(8)));
    default: return 1 + static_cast<int>(rng.below(std::min(max, rng.chance(1, 2) ? 24 : 128)));
  }
}

std::unique_ptr<DistributedComparisonFunction> Make(Case& c, const RT& t, int ld) {
  auto d = DistributedComparisonFunction::Create(DcfParams(t, ld));
  if (!d.ok()) {
    c.Fail("create_refused", "%s domain %d: %s", t.Name().c_str(), ld, S(d.status()).c_str());
    return nullptr;
  }
  return std::move(*d);
}

absl::StatusOr<DcfPair> Gen(Case& c, const DcfOps* o, DistributedComparisonFunction& d, u128 alpha, const RVal& beta) {
  switch (o->t.kind == RT::INT ? c.rng.below(3) : 0) {
    case 1: {
      c.Count("keygen_value");
      Value v;
      SetInteger(v.mutable_integer(), beta.v, c.rng.chance(1, 2));
      return d.GenerateKeys(alpha, v);
    }
    case 2: {
      c.Count("keygen_value");
      return d.GenerateKeys(alpha, FindOps(o->t)->ToValue(beta));
    }
    default: {
      c.Count("keygen_typed");
      auto r = o->Gen(d, alpha, beta);
      if (r.ok() && c.rng.chance(1, 2)) {
        // The type is registered now, so its proto form is accepted as well.
        c.Count("keygen_proto");
        return d.GenerateKeys(alpha, ValProto(o->t, beta));
      }
      return r;
    }
  }
}

bool CheckPoint(Case& c, const DcfOps* o, DistributedComparisonFunction& d, const DcfPair& k, u128 alpha,
                const RVal& beta, u128 x) {
  auto a = o->Eval(d, k.first, x), b = o->Eval(d, k.second, x);
  if (!a.ok() || !b.ok()) {
    c.Fail("eval_refused", "x=%s: %s %s", Str(x).c_str(), S(a.status()).c_str(), S(b.status()).c_str());
    return false;
  }
  RVal sum = Add(o->t, *a, *b), want = x < alpha ? beta : Zero(o->t);
  c.Count(x < alpha ? "points_below" : x == alpha ? "points_at" : "points_above");
  if (sum != want) {
    c.Fail(x < alpha ? "wrong_below" : x == alpha ? "wrong_at" : "wrong_above",
           "%s alpha=%s beta=%s x=%s: shares add up to %s", o->t.Name().c_str(), Str(alpha).c_str(),
           Str(beta).c_str(), Str(x).c_str(), Str(sum).c_str());
    return false;
  }
  return true;
}

VH_GROUP(shares, 2500, 60000) {
  const DcfOps* o = AllDcfOps()[c.rng.below(AllDcfOps().size())];
  int ld = PickDomain(c.rng, MaxDcfDomain(o->t));
  u128 alpha = c.rng.edgy(ld);
  RVal beta = RandomVal(o->t, c.rng);
  c.Desc("%s/%d alpha=%s beta=%s", o->t.Name().c_str(), ld, Str(alpha).c_str(), Str(beta).c_str());
  auto d = Make(c, o->t, ld);
  if (!d) return;
  auto k = Gen(c, o, *d, alpha, beta);
  VH_CHECK(c, k.ok(), "keygen_refused", "%s", S(k.status()).c_str());
  int n = ld > 64 ? 8 : 14;
  auto x = Around(c.rng, ld, alpha, n);
  for (auto& p : x)
    if (!CheckPoint(c, o, *d, *k, alpha, beta, p)) return;
  // Shares are those of the construction (evaluated independently).
  if (c.rng.chance(1, 3)) {
    RefDpf ref(DcfLevels(o->t, ld));
    bool second = c.rng.chance(1, 2);
    const DcfKey& key = second ? k->second : k->first;
    for (int i = 0; i < 3; ++i) {
      auto want = RefDcfEval(ref, key, x[i]);
      auto got = o->Eval(*d, key, x[i]);
      VH_CHECK(c, want.has_value(), "key_structure", "keys lack documented fields");
      VH_CHECK(c, got.ok() && *got == *want, "share_differs", "x=%s: %s instead of %s", Str(x[i]).c_str(),
               got.ok() ? Str(*got).c_str() : "error", Str(*want).c_str());
      c.Count("shares_vs_reference");
    }
  }
  // A second pair from the same object, and a serialized key, work the same.
  u128 alpha2 = c.rng.edgy(ld);
  auto k2 = Gen(c, o, *d, alpha2, beta);
  VH_CHECK(c, k2.ok(), "keygen_refused", "%s", S(k2.status()).c_str());
  DcfPair parsed;
  parsed.first.ParseFromString(k2->first.SerializeAsString());
  parsed.second.ParseFromString(k2->second.SerializeAsString());
  for (auto& p : Around(c.rng, ld, alpha2, 3))
    if (!CheckPoint(c, o, *d, parsed, alpha2, beta, p)) return;
}

// Every type on every domain size it supports.
VH_GROUP(all_domains, 2800, 14336) {
  auto& all = AllDcfOps();
  const DcfOps* o = all[c.index % all.size()];
  int ld = 1 + static_cast<int>((c.index / all.size()) % 128);
  // Quick: the sizes are spread over 1..128.
  if (!c.thorough) ld = 1 + static_cast<int>((c.index / all.size()) * 128 / 100 % 128);
  c.Desc("%s/%d", o->t.Name().c_str(), ld);
  auto d = DistributedComparisonFunction::Create(DcfParams(o->t, ld));
  int max = MaxDcfDomain(o->t);
  if (ld > max) {
    c.Trivial();
    auto m = SecurityMargin(o->t, 40.0 + ld - 1);
    if (!m || *m < -0.01)
      VH_CHECK(c, !d.ok() && d.status().code() == absl::StatusCode::kInvalidArgument, "unreachable_accepted", "%s/%d: %s",
               o->t.Name().c_str(), ld, S(d.status()).c_str());
    c.Count("domains_refused");
    return;
  }
  VH_CHECK(c, d.ok(), "create_refused", "%s/%d: %s", o->t.Name().c_str(), ld, S(d.status()).c_str());
  c.Count("domains");
  u128 alpha = c.rng.edgy(ld);
  RVal beta = RandomNonZero(o->t, c.rng);
  auto k = o->Gen(**d, alpha, beta);
  VH_CHECK(c, k.ok(), "keygen_refused", "%s", S(k.status()).c_str());
  for (auto& p : Around(c.rng, ld, alpha, 6))
    if (!CheckPoint(c, o, **d, *k, alpha, beta, p)) return;
}

// One object that generates and evaluates keys very often.
VH_GROUP(long_life, 16, 200) {
  const DcfOps* o = AllDcfOps()[c.rng.below(AllDcfOps().size())];
  int ld = 1 + static_cast<int>(c.rng.below(std::min(6, MaxDcfDomain(o->t))));
  int n = c.index % 8 == 0 ? 66000 : 300 + static_cast<int>(c.rng.below(2500));
  c.Desc("%s/%d, %d keys", o->t.Name().c_str(), ld, n);
  auto d = Make(c, o->t, ld);
  if (!d) return;
  std::vector<std::tuple<u128, RVal, DcfPair>> kept;
  for (int i = 0; i < n; ++i) {
    u128 alpha = c.rng.edgy(ld);
    RVal beta = RandomVal(o->t, c.rng);
    auto k = o->Gen(*d, alpha, beta);
    VH_CHECK(c, k.ok(), "keygen_refused", "key pair %d: %s", i, S(k.status()).c_str());
    if (kept.size() < 4) kept.emplace_back(alpha, beta, *k);
    if (!CheckPoint(c, o, *d, *k, alpha, beta, c.rng.edgy(ld))) return;
    if (c.rng.chance(1, 16)) {
      auto& e = kept[c.rng.below(kept.size())];
      if (!CheckPoint(c, o, *d, std::get<2>(e), std::get<0>(e), std::get<1>(e), c.rng.edgy(ld))) return;
    }
    c.Count("long_life_calls");
  }
}

// All alphas and points of small domains.
VH_GROUP(exhaustive, 280, 2800) {
  auto& all = AllDcfOps();
  const DcfOps* o = all[c.index % all.size()];
  int ld = std::min(1 + static_cast<int>(c.index / all.size() % (c.thorough ? 7 : 5)), MaxDcfDomain(o->t));
  c.Desc("%s/%d all", o->t.Name().c_str(), ld);
  auto d = Make(c, o->t, ld);
  if (!d) return;
  RVal beta = RandomNonZero(o->t, c.rng);
  for (uint64_t alpha = 0; alpha < (uint64_t{1} << ld); ++alpha) {
    auto k = o->Gen(*d, alpha, beta);
    VH_CHECK(c, k.ok(), "keygen_refused", "%s", S(k.status()).c_str());
    for (uint64_t x = 0; x < (uint64_t{1} << ld); ++x)
      if (!CheckPoint(c, o, *d, *k, alpha, beta, x)) return;
  }
}

VH_GROUP(batch, 1500, 30000) {
  const DcfOps* o = AllDcfOps()[c.rng.below(AllDcfOps().size())];
  int ld = PickDomain(c.rng, MaxDcfDomain(o->t));
  int n;
  bool huge = c.index % 90 == 59;
  switch (huge ? 9 : c.rng.below(8)) {
    case 9: n = 250 + static_cast<int>(c.rng.below(c.rng.chance(1, 3) ? 12000 / ld + 1 : 1500)); break;
    case 0: n = 0; break;
    case 1: n = 64 + static_cast<int>(c.rng.below(140)); break;
    default: n = 1 + static_cast<int>(c.rng.below(16));
  }
  c.Desc("%s/%d n=%d seed=%llu", o->t.Name().c_str(), ld, n, (unsigned long long)c.rng.u64());
  auto d = Make(c, o->t, ld);
  if (!d) return;
  std::vector<DcfKey> keys;
  std::vector<absl::uint128> x;
  std::vector<RVal> want;
  DcfPair kp;
  u128 alpha = 0;
  for (int i = 0; i < n; ++i) {
    if (i == 0 || (n < 40 && c.rng.chance(2, 3)) || c.rng.chance(1, 10)) {
      alpha = c.rng.edgy(ld);
      auto k = Gen(c, o, *d, alpha, RandomVal(o->t, c.rng));
      VH_CHECK(c, k.ok(), "keygen_refused", "%s", S(k.status()).c_str());
      kp = std::move(*k);
    }
    keys.push_back(c.rng.chance(1, 2) ? kp.first : kp.second);
    x.push_back(Around(c.rng, ld, alpha, 1)[0]);
    auto v = o->Eval(*d, keys.back(), x.back());
    VH_CHECK(c, v.ok(), "eval_refused", "%s", S(v.status()).c_str());
    want.push_back(*v);
  }
  auto compare = [&](const char* how, const absl::StatusOr<std::vector<RVal>>& got, const std::vector<RVal>& w) {
    if (!got.ok()) { c.Fail(std::string("refused_") + how, "%s", S(got.status()).c_str()); return false; }
    if (got->size() != w.size()) { c.Fail(std::string("size_") + how, "%zu for %zu", got->size(), w.size()); return false; }
    for (size_t i = 0; i < w.size(); ++i)
      if ((*got)[i] != w[i]) {
        c.Fail(std::string("differs_") + how, "position %zu of %zu: %s instead of %s", i, w.size(),
               Str((*got)[i]).c_str(), Str(w[i]).c_str());
        return false;
      }
    c.Count(how, w.size() ? w.size() : 1);
    return true;
  };
  if (!compare("by_value", o->Batch(*d, keys, x), want)) return;
  std::vector<const DcfKey*> ptrs;
  for (auto& k : keys) ptrs.push_back(&k);
  if (!compare("by_pointer", o->BatchPtr(*d, ptrs, x), want)) return;
  if (!compare("to_buffer", o->BatchOut(*d, keys, x, n, RandomVal(o->t, c.rng)), want)) return;
  // The same key object at several positions, in another order.
  if (n > 0) {
    std::vector<const DcfKey*> p2;
    std::vector<absl::uint128> x2;
    std::vector<RVal> w2;
    int m = 1 + static_cast<int>(c.rng.below(2 * n));
    for (int i = 0; i < m; ++i) {
      size_t j = c.rng.below(n);
      p2.push_back(&keys[j]), x2.push_back(x[j]), w2.push_back(want[j]);
    }
    if (!compare("rearranged", o->BatchPtr(*d, p2, x2), w2)) return;
  }
  // Refusals.
  auto refused = [&](const char* how, const absl::Status& s) {
    if (s.code() != absl::StatusCode::kInvalidArgument) {
      c.Fail(std::string("accepted_") + how, "%s", S(s).c_str());
      return false;
    }
    c.Count("refused");
    return true;
  };
  auto y = x;
  if (n == 0 || c.rng.chance(1, 2)) y.push_back(0); else y.pop_back();
  if (!refused("size_mismatch", o->Batch(*d, keys, y).status())) return;
  if (!refused("size_mismatch_ptr", o->BatchPtr(*d, ptrs, y).status())) return;
  size_t other = n == 0 || c.rng.chance(1, 2) ? n + 1 + c.rng.below(3) : c.rng.below(n);
  if (!refused("output_size", o->BatchOut(*d, keys, x, other, Zero(o->t)).status())) return;
  if (n > 0 && ld < 128) {
    y = x;
    size_t at = c.rng.below(n);
    y[at] |= Shl(1, ld + (c.rng.chance(1, 2) ? 0 : static_cast<int>(c.rng.below(128 - ld))));
    if (!refused("point_outside", o->Batch(*d, keys, y).status())) return;
    if (!refused("point_outside_single", o->Eval(*d, keys[at], y[at]).status())) return;
  }
  if (n > 0) {
    auto bad = keys;
    DpfKey* k = bad[c.rng.below(n)].mutable_key();
    bool can_drop = k->correction_words_size() > 0;
    switch (c.rng.below(can_drop ? 4 : 3)) {
      case 0: k->clear_seed(); break;
      case 1: k->clear_last_level_value_correction(); break;
      case 2: k->add_correction_words(); break;
      default: k->mutable_correction_words()->RemoveLast();
    }
    if (!refused("bad_key", o->Batch(*d, bad, x).status())) return;
  }
}

// Invalid alphas and betas.
VH_GROUP(keygen_refusals, 1500, 20000) {
  const DcfOps* o = AllDcfOps()[c.rng.below(AllDcfOps().size())];
  int ld = PickDomain(c.rng, MaxDcfDomain(o->t));
  u128 alpha = c.rng.edgy(ld);
  auto d = Make(c, o->t, ld);
  if (!d) return;
  RVal beta = RandomVal(o->t, c.rng);
  auto k = o->Gen(*d, alpha, beta);
  VH_CHECK(c, k.ok(), "keygen_refused", "%s", S(k.status()).c_str());
  if (ld < 128) {
    u128 bad = alpha | Shl(1, ld + (c.rng.chance(1, 2) ? 0 : static_cast<int>(c.rng.below(128 - ld))));
    auto r = o->Gen(*d, bad, beta);
    VH_CHECK(c, r.status().code() == absl::StatusCode::kInvalidArgument, "alpha_outside_accepted", "alpha=%s ld=%d: %s",
             Str(bad).c_str(), ld, S(r.status()).c_str());
    r = d->GenerateKeys(bad, ValProto(o->t, beta));
    VH_CHECK(c, r.status().code() == absl::StatusCode::kInvalidArgument, "alpha_outside_accepted", "alpha=%s ld=%d: %s",
             Str(bad).c_str(), ld, S(r.status()).c_str());
    c.Count("alpha_refused");
  }
  // A beta of another type.
  RT other = RandomType(c.rng, 2);
  RVal ov = RandomVal(other, c.rng);
  Value v = ValProto(other, ov);
  c.Desc("%s/%d alpha=%s other=%s", o->t.Name().c_str(), ld, Str(alpha).c_str(), other.Name().c_str());
  auto r = d->GenerateKeys(alpha, v);
  auto fits = FromProto(o->t, v);
  if (!fits) {
    VH_CHECK(c, r.status().code() == absl::StatusCode::kInvalidArgument, "beta_accepted", "%s for %s: %s",
             other.Name().c_str(), o->t.Name().c_str(), S(r.status()).c_str());
    c.Count("beta_refused");
  } else {
    VH_CHECK(c, r.ok(), "fitting_beta_refused", "%s for %s: %s", other.Name().c_str(), o->t.Name().c_str(),
             S(r.status()).c_str());
    for (auto& p : Around(c.rng, ld, alpha, 3))
      if (!CheckPoint(c, o, *d, *r, alpha, *fits, p)) return;
  }
  DcfParameters p = DcfParams(o->t, c.rng.chance(1, 3) ? 0 : c.rng.chance(1, 2) ? -1 - (int)c.rng.below(1000) : 129 + (int)c.rng.below(40));
  if (c.rng.chance(1, 10)) p.Clear();
  if (c.rng.chance(1, 10)) p = DcfParams(o->t, ld), p.mutable_parameters()->clear_value_type();
  auto e = DistributedComparisonFunction::Create(p);
  VH_CHECK(c, e.status().code() == absl::StatusCode::kInvalidArgument, "parameters_accepted", "%s: %s",
           p.ShortDebugString().c_str(), S(e.status()).c_str());
  c.Count("parameters_refused");
}

}  // namespace
}  // namespace vh
