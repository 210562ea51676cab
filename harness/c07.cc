// needs: ops dcfops dcf
// C07: malformed parameters, keys, contexts and inputs are refused, never crash.
#include <algorithm>
#include <cmath>
#include <limits>

#include "common/fuzzmsg.h"
#include "dcf/fss_gates/multiple_interval_containment.h"
#include "dcfops/dcfops.h"
#include "ops/ops.h"

namespace vh {
namespace {

constexpr auto kInvalid = absl::StatusCode::kInvalidArgument;

// What the documentation says about a message.
enum Verdict { VALID, INVALID, EITHER };

Verdict Worse(Verdict a, Verdict b) {
  if (a == INVALID || b == INVALID) return INVALID;
  return a == EITHER || b == EITHER ? EITHER : VALID;
}

Verdict IntVerdict(int bits) {
  if (bits == 8 || bits == 16 || bits == 32 || bits == 64 || bits == 128) return VALID;
  // No C++ type has these sizes; the proto may describe them.
  if (bits == 1 || bits == 2 || bits == 4) return EITHER;
  return INVALID;
}

Verdict TypeVerdict(const ValueType& p, RT* t) {
  switch (p.type_case()) {
    case ValueType::kInteger:
      *t = RT::Int(p.integer().bitsize());
      return IntVerdict(p.integer().bitsize());
    case ValueType::kXorWrapper:
      *t = RT::Xor(p.xor_wrapper().bitsize());
      return IntVerdict(p.xor_wrapper().bitsize());
    case ValueType::kIntModN: {
      int b = p.int_mod_n().base_integer().bitsize();
      Verdict v = IntVerdict(b);
      auto m = GetInteger(p.int_mod_n().modulus());
      if (v == INVALID || !m) return INVALID;
      if (b < 128 && (*m >> b) != 0) return INVALID;
      *t = RT::Mod(b, *m);
      // Degenerate moduli, and moduli in the other wire form.
      if (*m < 2) return EITHER;
      if (p.int_mod_n().modulus().has_value_uint128() && absl::Uint128High64(*m) == 0) return EITHER;
      return v;
    }
    case ValueType::kTuple: {
      if (p.tuple().elements().empty()) return INVALID;
      std::vector<RT> el;
      Verdict v = VALID;
      for (auto& e : p.tuple().elements()) {
        RT x;
        v = Worse(v, TypeVerdict(e, &x));
        el.push_back(x);
      }
      *t = RT::Tup(el);
      return v;
    }
    default: return INVALID;
  }
}

// Whether some tuple has elements modulo different numbers: not implemented,
// and that complaint may come before any other.
bool MixedModuli(const ValueType& p) {
  if (!p.has_tuple()) return false;
  std::string first;
  for (auto& e : p.tuple().elements()) {
    if (MixedModuli(e)) return true;
    if (!e.has_int_mod_n()) continue;
    std::string s = e.SerializeAsString();
    if (first.empty()) first = s;
    if (s != first) return true;
  }
  return false;
}

Verdict ParamsVerdictUnmixed(const std::vector<DpfParameters>& ps) {
  if (ps.empty()) return INVALID;
  Verdict v = VALID;
  int last = -1;
  for (auto& p : ps) {
    if (p.log_domain_size() < 0 || p.log_domain_size() > 128 || p.log_domain_size() <= last) return INVALID;
    last = p.log_domain_size();
    double s = p.security_parameter();
    if (!(s >= 0 && s <= 128)) return INVALID;
    RT t;
    Verdict w = p.has_value_type() ? TypeVerdict(p.value_type(), &t) : INVALID;
    if (w == VALID) {
      auto m = SecurityMargin(t, s == 0 ? 40.0 + last : s);
      if (!m) w = EITHER;
      else if (*m < -0.01) w = INVALID;
      else if (*m < 0.01) w = EITHER;
    }
    v = Worse(v, w);
  }
  return v;
}

Verdict ParamsVerdict(const std::vector<DpfParameters>& ps) {
  for (auto& p : ps) {
    if (MixedModuli(p.value_type())) return EITHER;
  }
  return ParamsVerdictUnmixed(ps);
}

bool CheckVerdict(Case& c, Verdict v, const absl::Status& s, const char* what, const std::string& text) {
  if (v == VALID && !s.ok()) {
    c.Fail(std::string("valid_refused_") + what, "%s: %s", text.c_str(), S(s).c_str());
    return false;
  }
  if (v == INVALID && s.code() != kInvalid) {
    c.Fail(std::string("invalid_accepted_") + what, "%s: %s", text.c_str(), S(s).c_str());
    return false;
  }
  c.Count(v == VALID ? "valid_accepted" : v == INVALID ? "invalid_refused" : "undecided");
  return true;
}

std::string Text(const std::vector<DpfParameters>& ps) {
  std::string s;
  for (auto& p : ps) s += "{" + p.ShortDebugString() + "} ";
  return s;
}

VH_GROUP(parameters, 30000, 600000) {
  std::vector<RefLevel> lv(1 + c.rng.below(4));
  int ld = static_cast<int>(c.rng.below(20));
  for (auto& l : lv) {
    l.t = c.rng.chance(1, 2) ? AllOps()[c.rng.below(AllOps().size())]->t : RandomType(c.rng, 3);
    l.ld = std::min(ld, 128);
    ld += 1 + static_cast<int>(c.rng.below(c.rng.chance(1, 2) ? 10 : 60));
    if (c.rng.chance(1, 2)) FixSecurity(c.rng, &l);
    else if (c.rng.chance(1, 2)) l.sec = static_cast<double>(c.rng.below(129));
  }
  auto ps = ParamProtos(lv);
  std::string what;
  switch (c.rng.below(5)) {
    case 0: break;  // mostly valid
    case 1:
      for (auto& p : ps)
        if (c.rng.chance(1, 2)) RandomMessage(c.rng, &p, 4);
      what = "random";
      break;
    case 2:
      if (c.rng.chance(1, 20)) ps.clear();
      else if (c.rng.chance(1, 2)) ps.push_back(c.rng.pick(ps));
      else c.rng.shuffle(ps);
      what = "rearranged";
      break;
    default: what = MutateMessage(c.rng, &c.rng.pick(ps), 2);
  }
  c.Desc("%s %s", Text(ps).c_str(), what.c_str());
  Verdict v = ParamsVerdict(ps);
  auto d = DistributedPointFunction::CreateIncremental(ps);
  if (!CheckVerdict(c, v, d.status(), "parameters", Text(ps))) return;
  if (ps.size() == 1) {
    auto e = DistributedPointFunction::Create(ps[0]);
    VH_CHECK(c, e.status().code() == d.status().code(), "create_overloads_disagree", "%s: %s, %s", Text(ps).c_str(),
             S(e.status()).c_str(), S(d.status()).c_str());
  }
  if (!d.ok()) return;
  VH_CHECK(c, (*d)->parameters().size() == ps.size(), "parameters_changed", "%zu", (*d)->parameters().size());
  // Whatever was accepted also bears use.
  std::vector<Value> betas;
  for (auto& p : ps) {
    RT t;
    TypeVerdict(p.value_type(), &t);
    betas.push_back(ValProto(t, Zero(t)));
    if (auto* o = FindOps(t)) (void)o->Register(**d);
  }
  auto k = (*d)->GenerateKeysIncremental(0, absl::MakeConstSpan(betas));
  if (k.ok()) {
    c.Count("keys_of_accepted");
    auto ctx = (*d)->CreateEvaluationContext(k->first);
    VH_CHECK(c, ctx.ok(), "own_key_refused", "%s: %s", Text(ps).c_str(), S(ctx.status()).c_str());
    std::vector<absl::uint128> x = {0};
    const Ops* o = AllOps()[c.rng.below(AllOps().size())];
    int level = static_cast<int>(c.rng.below(ps.size()));
    auto r = o->EvalAt(**d, k->first, level, x);
    RT t;
    TypeVerdict(ps[level].value_type(), &t);
    VH_CHECK(c, r.ok() == (t == o->t), "wrong_type", "%s evaluated as %s: %s", t.Name().c_str(), o->t.Name().c_str(),
             S(r.status()).c_str());
  }
}

// Alphas, betas and registration.
VH_GROUP(keygen_inputs, 10000, 200000) {
  GenOptions go;
  auto lv = RandomLevels(c.rng, go);
  auto d = MakeDpf(c, lv);
  if (!d) return;
  u128 alpha = c.rng.edgy(lv.back().ld);
  auto beta = RandomBetas(c.rng, lv);
  std::vector<Value> vals;
  bool all_int = true;
  for (size_t i = 0; i < lv.size(); ++i) {
    vals.push_back(ValProto(lv[i].t, beta[i]));
    all_int &= lv[i].t.kind == RT::INT;
  }
  std::string what;
  bool registered = c.rng.chance(3, 4);
  if (registered && !RegisterAll(c, *d, lv)) return;
  bool bad = false;
  switch (c.rng.below(6)) {
    case 0: break;
    case 1:
      what = "count";
      bad = true;
      if (c.rng.chance(1, 2)) vals.pop_back();
      else vals.push_back(c.rng.pick(vals));
      break;
    case 2:
      if (lv.back().ld < 128) {
        alpha |= Shl(1, lv.back().ld + static_cast<int>(c.rng.below(128 - lv.back().ld)));
        bad = true;
        what = "alpha";
      }
      break;
    case 3: {
      size_t i = c.rng.below(vals.size());
      RT t = RandomType(c.rng, 2);
      vals[i] = ValProto(t, RandomVal(t, c.rng));
      what = "type";
      break;
    }
    default: what = MutateMessage(c.rng, &c.rng.pick(vals), 2);
  }
  if (!bad)
    for (size_t i = 0; i < lv.size(); ++i) bad |= !FromProto(lv[i].t, vals[i]);
  c.Desc("levels=%s alpha=%s registered=%d %s", LevelsName(lv).c_str(), Str(alpha).c_str(), registered, what.c_str());
  for (auto& v : vals) c.Desc(" %s", v.ShortDebugString().c_str());
  auto k = vals.size() == 1 && c.rng.chance(1, 2) ? d->GenerateKeys(alpha, vals[0])
                                                  : d->GenerateKeysIncremental(alpha, absl::MakeConstSpan(vals));
  if (bad) {
    // (An unregistered type may be reported first.)
    bool other = !registered && !all_int && k.status().code() == absl::StatusCode::kFailedPrecondition;
    VH_CHECK(c, k.status().code() == kInvalid || other, "invalid_accepted", "%s", S(k.status()).c_str());
    c.Count("invalid_refused");
  } else if (registered || all_int) {
    VH_CHECK(c, k.ok(), "valid_refused", "%s", S(k.status()).c_str());
    c.Count("valid_accepted");
  } else {
    VH_CHECK(c, k.status().code() == absl::StatusCode::kFailedPrecondition, "unregistered_type", "%s", S(k.status()).c_str());
    c.Count("unregistered_refused");
  }
  // The integer overloads.
  std::vector<absl::uint128> ints;
  for (auto& b : beta) ints.push_back(c.rng.chance(1, 3) ? c.rng.edgy(128) : b.v);
  if (c.rng.chance(1, 4)) ints.push_back(1);
  u128 a = c.rng.edgy(lv.back().ld);
  bool ok = ints.size() == lv.size();
  for (size_t i = 0; ok && i < lv.size(); ++i)
    ok = lv[i].t.kind == RT::INT && (lv[i].t.bits == 128 || ints[i] >> lv[i].t.bits == 0);
  auto k2 = d->GenerateKeysIncremental(a, ints);
  VH_CHECK(c, ok ? k2.ok() : k2.status().code() == kInvalid, ok ? "valid_refused" : "invalid_accepted", "integers: %s",
           S(k2.status()).c_str());
  if (lv.size() > 1 || !ok) {
    auto k3 = d->GenerateKeys(a, ints[0]);
    bool ok1 = lv.size() == 1 && lv[0].t.kind == RT::INT && (lv[0].t.bits == 128 || ints[0] >> lv[0].t.bits == 0);
    VH_CHECK(c, ok1 ? k3.ok() : k3.status().code() == kInvalid, "single_keygen", "%s", S(k3.status()).c_str());
  }
}

struct Setup {
  std::vector<RefLevel> lv;
  std::unique_ptr<DistributedPointFunction> d;
  std::unique_ptr<RefDpf> ref;
  DpfKey key;
  u128 alpha = 0;
};
bool Prepare(Case& c, Setup* s, bool small, const Ops* only = nullptr) {
  GenOptions go;
  go.only = only;
  if (small) go.max_ld = 11, go.small_last = true;
  s->lv = RandomLevels(c.rng, go);
  s->d = MakeDpf(c, s->lv);
  if (!s->d) return false;
  s->ref = std::make_unique<RefDpf>(s->lv);
  s->alpha = c.rng.edgy(s->lv.back().ld);
  auto k = GenAny(c, *s->d, s->lv, s->alpha, RandomBetas(c.rng, s->lv));
  if (!k.ok()) {
    c.Fail("keygen_refused", "%s", S(k.status()).c_str());
    return false;
  }
  s->key = c.rng.chance(1, 2) ? k->first : k->second;
  return true;
}

// Whether the key has the documented structure, apart from the corrections' values.
bool KeyShapeOk(const RefDpf& ref, const DpfKey& k) {
  if (!k.has_seed() || k.correction_words_size() != ref.tree_levels() - 1 || k.last_level_value_correction().empty())
    return false;
  for (int i = 0; i + 1 < ref.levels(); ++i)
    if (k.correction_words(ref.tree_level(i)).value_correction().empty()) return false;
  return true;
}

VH_GROUP(keys, 15000, 300000) {
  Setup s;
  if (!Prepare(c, &s, c.rng.chance(1, 2))) return;
  DpfKey key = s.key;
  std::string what;
  if (c.rng.chance(1, 12)) {
    // A key of other parameters.
    Setup t;
    if (!Prepare(c, &t, c.rng.chance(1, 2))) return;
    key = t.key;
    what = "foreign " + LevelsName(t.lv);
  } else if (c.rng.chance(1, 20)) {
    RandomMessage(c.rng, &key, 4);
    what = "random";
  } else {
    what = MutateMessage(c.rng, &key, 3);
  }
  c.Desc("levels=%s alpha=%s %s", LevelsName(s.lv).c_str(), Str(s.alpha).c_str(), what.c_str());
  bool shape = KeyShapeOk(*s.ref, key);
  bool party = key.party() == 0 || key.party() == 1;
  auto ctx = s.d->CreateEvaluationContext(key);
  VH_CHECK(c, shape ? (ctx.ok() || !party) : ctx.status().code() == kInvalid, shape ? "valid_refused" : "invalid_accepted",
           "context of key: %s", S(ctx.status()).c_str());
  for (int i = 0; i < s.ref->levels(); ++i) {
    const Ops* o = FindOps(s.lv[i].t);
    auto x = RandomPoints(c.rng, s.lv, i, s.alpha, 1 + static_cast<int>(c.rng.below(6)));
    auto r = o->EvalAt(*s.d, key, i, x);
    if (!shape) {
      VH_CHECK(c, r.status().code() == kInvalid, "invalid_accepted", "key: %s", S(r.status()).c_str());
      c.Count("malformed_key_refused");
    } else if (party) {
      auto want = s.ref->Eval(key, i, x[0]);
      if (!want) {
        // Corrections of the wrong kind, number or range.
        VH_CHECK(c, !r.ok() || r->size() == x.size(), "wrong_size", "%zu", r->size());
        if (!r.ok()) VH_CHECK(c, r.status().code() == kInvalid, "wrong_code", "%s", S(r.status()).c_str());
        c.Count(r.ok() ? "bad_correction_accepted" : "bad_correction_refused");
      } else {
        VH_CHECK(c, r.ok(), "valid_refused", "level %d: %s", i, S(r.status()).c_str());
        for (size_t j = 0; j < x.size(); ++j)
          VH_CHECK(c, (*r)[j] == *s.ref->Eval(key, i, x[j]), "share_differs", "level %d x=%s", i, Str(x[j]).c_str());
        c.Count("mutated_key_evaluated");
      }
    } else {
      c.Count("odd_party");
    }
    if (ctx.ok() && s.lv[i].ld <= 11) {
      EvaluationContext copy = *ctx;
      auto e = o->EvalUntil(*s.d, i, {}, copy);
      VH_CHECK(c, !e.ok() || e->size() == size_t{1} << s.lv[i].ld, "wrong_size", "%zu", e->size());
      if (r.ok() && e.ok())
        for (size_t j = 0; j < x.size(); ++j)
          VH_CHECK(c, (*e)[static_cast<size_t>(x[j])] == (*r)[j], "interfaces_disagree", "level %d", i);
    }
    if (i == 0 && s.ref->levels() == 1) {
      std::vector<DpfKey> ks = {s.key, key};
      std::vector<absl::uint128> p = {x[0], x[0]};
      auto st = o->Apply(*s.d, absl::MakeConstSpan(ks), p, [](std::vector<RVal> v) { return v.size() == 2; }, 0);
      VH_CHECK(c, shape || st.code() == kInvalid, "invalid_accepted", "multi-key: %s", S(st).c_str());
    }
  }
}

// Levels, points, types and sizes out of range.
VH_GROUP(points_levels_types, 10000, 200000) {
  Setup s;
  if (!Prepare(c, &s, c.rng.chance(1, 2))) return;
  int L = s.ref->levels();
  int i = static_cast<int>(c.rng.below(L));
  const Ops* o = FindOps(s.lv[i].t);
  c.Desc("levels=%s level=%d", LevelsName(s.lv).c_str(), i);
  auto refused = [&](const absl::Status& st, const char* what) {
    if (st.code() == kInvalid) {
      c.Count(what);
      return true;
    }
    c.Fail(std::string("accepted_") + what, "%s", S(st).c_str());
    return false;
  };
  auto x = RandomPoints(c.rng, s.lv, i, s.alpha, 1 + static_cast<int>(c.rng.below(5)));
  int bad_levels[] = {-1, L, L + 1 + static_cast<int>(c.rng.below(1000)), std::numeric_limits<int>::min(),
                      std::numeric_limits<int>::max()};
  int bl = bad_levels[c.rng.below(5)];
  auto ctx = s.d->CreateEvaluationContext(s.key);
  VH_CHECK(c, ctx.ok(), "context_refused", "%s", S(ctx.status()).c_str());
  if (!refused(o->EvalAt(*s.d, s.key, bl, x).status(), "level_at")) return;
  EvaluationContext copy = *ctx;
  if (!refused(o->EvalAt(*s.d, bl, x, copy).status(), "level_at_context")) return;
  copy = *ctx;
  if (!refused(o->EvalUntil(*s.d, bl, {}, copy).status(), "level_until")) return;
  copy = *ctx;
  if (!refused(o->EvalUntil(*s.d, i, x, copy).status(), "prefixes_at_first")) return;
  // Points outside the domain.
  if (s.lv[i].ld < 128) {
    auto y = x;
    y[c.rng.below(y.size())] |= Shl(1, s.lv[i].ld + (c.rng.chance(1, 2) ? 0 : static_cast<int>(c.rng.below(128 - s.lv[i].ld))));
    if (!refused(o->EvalAt(*s.d, s.key, i, y).status(), "point_at")) return;
    copy = *ctx;
    if (!refused(o->EvalAt(*s.d, i, y, copy).status(), "point_at_context")) return;
    // Prefixes outside the previous domain.
    if (i + 1 < L && s.lv[i].ld <= 11) {
      copy = *ctx;
      auto r = o->EvalUntil(*s.d, i, {}, copy);
      VH_CHECK(c, r.ok(), "valid_refused", "%s", S(r.status()).c_str());
      if (!refused(FindOps(s.lv[i + 1].t)->EvalUntil(*s.d, i + 1, y, copy).status(), "prefix_outside")) return;
    }
  }
  // Another type.
  const Ops* p = AllOps()[c.rng.below(AllOps().size())];
  if (p != o) {
    if (!refused(p->EvalAt(*s.d, s.key, i, x).status(), "type_at")) return;
    copy = *ctx;
    if (!refused(p->EvalAt(*s.d, i, x, copy).status(), "type_at_context")) return;
    copy = *ctx;
    if (s.lv[i].ld <= 11 && !refused(p->EvalUntil(*s.d, i, {}, copy).status(), "type_until")) return;
    std::vector<DpfKey> ks(1 + c.rng.below(3), s.key);
    auto z = RandomPoints(c.rng, s.lv, L - 1, s.alpha, static_cast<int>(ks.size()));
    if (!refused(p->Apply(*s.d, absl::MakeConstSpan(ks), z, [](std::vector<RVal>) { return true; }, 0), "type_apply")) return;
    // Multi-key evaluation needs one type on all levels.
    bool same = true;
    for (auto& l : s.lv) same &= l.t == o->t;
    if (!same && !refused(o->Apply(*s.d, absl::MakeConstSpan(ks), z, [](std::vector<RVal>) { return true; }, 0), "type_apply")) return;
    z.push_back(0);
    if (!refused(o->Apply(*s.d, absl::MakeConstSpan(ks), z, [](std::vector<RVal>) { return true; }, 0), "apply_sizes")) return;
  }
  std::vector<DpfKey> ks = {s.key};
  auto z = RandomPoints(c.rng, s.lv, L - 1, s.alpha, 1);
  int shift = c.rng.chance(1, 2) ? -1 - static_cast<int>(c.rng.below(200)) : std::numeric_limits<int>::min();
  bool same = true;
  for (auto& l : s.lv) same &= l.t == o->t;
  if (same && !refused(o->Apply(*s.d, absl::MakeConstSpan(ks), z, [](std::vector<RVal>) { return true; }, shift), "negative_shift")) return;
  if (same) {
    // Any non-negative shift is harmless.
    int big[] = {127, 128, 129, 1000, std::numeric_limits<int>::max()};
    (void)o->Apply(*s.d, absl::MakeConstSpan(ks), z, [](std::vector<RVal>) { return true; }, big[c.rng.below(5)]);
    c.Count("big_shift");
  }
}

// Contexts with arbitrary fields.
VH_GROUP(contexts, 25000, 500000) {
  Setup s;
  if (!Prepare(c, &s, true)) return;
  int L = s.ref->levels();
  auto ctx = s.d->CreateEvaluationContext(s.key);
  VH_CHECK(c, ctx.ok(), "context_refused", "%s", S(ctx.status()).c_str());
  // A context with some history.
  int at = static_cast<int>(c.rng.below(L));
  if (c.rng.chance(2, 3)) {
    auto r = FindOps(s.lv[at].t)->EvalUntil(*s.d, at, {}, *ctx);
    VH_CHECK(c, r.ok(), "valid_refused", "%s", S(r.status()).c_str());
  } else if (c.rng.chance(1, 2)) {
    auto r = FindOps(s.lv[at].t)->EvalAt(*s.d, at, RandomPoints(c.rng, s.lv, at, s.alpha, 5), *ctx);
    VH_CHECK(c, r.ok(), "valid_refused", "%s", S(r.status()).c_str());
  }
  std::string what = c.rng.chance(1, 20) ? (RandomMessage(c.rng, &*ctx, 3), "random") : MutateMessage(c.rng, &*ctx, 3);
  c.Desc("levels=%s at=%d %s", LevelsName(s.lv).c_str(), at, what.c_str());
  int accepted = 0;
  for (int n = 0; n < 4; ++n) {
    int i = c.rng.chance(1, 10) ? static_cast<int>(c.rng.below(7)) - 2 : static_cast<int>(c.rng.below(L));
    const Ops* o = i >= 0 && i < L && !c.rng.chance(1, 15) ? FindOps(s.lv[i].t) : AllOps()[c.rng.below(AllOps().size())];
    std::vector<absl::uint128> pre;
    int m = static_cast<int>(c.rng.below(6)) - 1;
    for (int j = 0; j < m; ++j)
      pre.push_back(c.rng.edgy(c.rng.chance(1, 20) ? 128 : s.lv[c.rng.below(L)].ld));
    EvaluationContext before = *ctx;
    absl::StatusOr<std::vector<RVal>> r;
    switch (c.rng.below(3)) {
      case 0: r = o->EvalUntil(*s.d, i, pre, *ctx); break;
      case 1: r = o->EvalNext(*s.d, pre, *ctx); break;
      default:
        r = o->EvalAt(*s.d, i, pre, *ctx);
        if (r.ok()) VH_CHECK(c, r->size() == pre.size(), "wrong_size", "%zu for %zu", r->size(), pre.size());
    }
    c.Count(r.ok() ? "accepted" : r.status().code() == kInvalid ? "refused" : "refused_otherwise");
    accepted += r.ok();
    if (!r.ok() && c.rng.chance(1, 2)) *ctx = before;
  }
}

// Contexts with one edit each whose outcome is documented.
VH_GROUP(stored_contexts, 10000, 200000) {
  Rng& r = c.rng;
  Setup s;
  for (int k = 0; k < 20 && (k == 0 || s.lv.size() < 2); ++k)
    if (!Prepare(c, &s, true)) return;
  int L = s.ref->levels();
  if (L < 2) return c.Trivial();
  auto made = s.d->CreateEvaluationContext(s.key);
  VH_CHECK(c, made.ok(), "context_refused", "%s", S(made.status()).c_str());
  EvaluationContext ctx = *made;
  int at = static_cast<int>(r.below(L - 1)), next = at + 1 + static_cast<int>(r.below(L - 1 - at));
  auto points = RandomPoints(r, s.lv, at, s.alpha, 2 + static_cast<int>(r.below(12)));
  points[0] = PrefixOf(s.lv, at, s.alpha);
  auto first = FindOps(s.lv[at].t)->EvalAt(*s.d, at, points, ctx);
  VH_CHECK(c, first.ok(), "valid_refused", "%s", S(first.status()).c_str());
  VH_CHECK(c, ctx.partial_evaluations_size() > 0, "no_partial_evaluations", "after EvaluateAt on level %d of %d", at, L);
  // What the untouched context gives.
  const Ops* o = FindOps(s.lv[next].t);
  int gap = s.lv[next].ld - s.lv[at].ld;
  bool until = r.chance(1, 2);
  std::vector<absl::uint128> ask;
  for (size_t j = 0, m = 1 + r.below(4); j < m; ++j) {
    u128 p = points[r.below(points.size())];
    ask.push_back(until ? p : Shl(p, gap) | r.bits(gap));
  }
  auto run = [&](EvaluationContext x) { return until ? o->EvalUntil(*s.d, next, ask, x) : o->EvalAt(*s.d, next, ask, x); };
  auto want = run(ctx);
  VH_CHECK(c, want.ok(), "valid_refused", "%s", S(want.status()).c_str());
  EvaluationContext x = ctx;
  auto* pe = x.mutable_partial_evaluations();
  int n = pe->size(), which = static_cast<int>(r.below(n));
  auto insert = [&](const dpflib::PartialEvaluation& e) {
    *pe->Add() = e;
    for (int j = n, to = static_cast<int>(r.below(n + 1)); j > to; --j) pe->SwapElements(j, j - 1);
  };
  const char* what = "";
  int valid = 0;  // 1: as before; 0: refused
  switch (r.below(13)) {
    case 0: {
      what = "duplicate_control_bit";
      auto e = pe->Get(which);
      e.set_control_bit(!e.control_bit());
      insert(e);
      break;
    }
    case 1: {
      what = "duplicate_seed";
      auto e = pe->Get(which);
      uint64_t flip = uint64_t{1} << r.below(64);
      if (r.chance(1, 2)) e.mutable_seed()->set_low(e.seed().low() ^ flip);
      else e.mutable_seed()->set_high(e.seed().high() ^ flip);
      insert(e);
      break;
    }
    case 2: {
      what = "repeated_entry", valid = 1;
      auto e = pe->Get(which);
      insert(e);
      break;
    }
    case 3:
      what = "reordered", valid = 1;
      for (int j = n - 1; j > 0; --j) pe->SwapElements(j, static_cast<int>(r.below(j + 1)));
      break;
    case 4: {
      what = "surplus_entry", valid = 1;
      dpflib::PartialEvaluation e = pe->Get(which);
      bool known = false;
      u128 p = s.lv[at].ld == 128 ? 0 : Shl(1, s.lv[at].ld);
      for (auto& y : *pe) known |= absl::MakeUint128(y.prefix().high(), y.prefix().low()) == p;
      if (known || p == 0) return c.Trivial();
      e.mutable_prefix()->set_high(absl::Uint128High64(p));
      e.mutable_prefix()->set_low(absl::Uint128Low64(p));
      e.mutable_seed()->set_low(r.u64());
      insert(e);
      break;
    }
    case 5: {
      what = "entry_removed";
      // (all entries with the tree prefix of the first point asked for)
      u128 want_tree = s.ref->block_bits(at) >= 128 ? u128{0} : Shr(until ? ask[0] : Shr(ask[0], gap), s.ref->block_bits(at));
      std::vector<dpflib::PartialEvaluation> keep;
      for (auto& y : *pe)
        if (absl::MakeUint128(y.prefix().high(), y.prefix().low()) != want_tree) keep.push_back(y);
      if (static_cast<int>(keep.size()) == n) return c.Trivial();
      pe->Clear();
      for (auto& y : keep) *pe->Add() = y;
      if (keep.empty()) what = "all_entries_removed", valid = 1;  // evaluation starts at the key
      break;
    }
    case 6:
      what = "no_entries_level_ignored", valid = 1;
      pe->Clear();
      x.set_partial_evaluations_level(r.chance(1, 3) ? std::numeric_limits<int>::min() : r.chance(1, 2) ? -1 : L + static_cast<int>(r.below(1000)));
      break;
    case 7:
      what = "entries_level_negative";
      x.set_partial_evaluations_level(-1 - static_cast<int>(r.below(1000)));
      break;
    case 8:
      what = "entries_level_too_large";
      x.set_partial_evaluations_level(until ? at + 1 + static_cast<int>(r.below(5)) : L + static_cast<int>(r.below(1000)));
      break;
    case 9:
      what = "no_key";
      x.clear_key();
      break;
    case 10: {
      what = "key_without_part";
      DpfKey* k = x.mutable_key();
      switch (r.below(3)) {
        case 0: k->clear_seed(); break;
        case 1: k->clear_last_level_value_correction(); break;
        default:
          if (k->correction_words_size() && r.chance(1, 2)) k->mutable_correction_words()->RemoveLast();
          else k->add_correction_words();
      }
      break;
    }
    case 11: {
      if (!until) return c.Trivial();
      what = "fully_evaluated";
      x.set_previous_hierarchy_level(L - 1 + static_cast<int>(r.below(3)));
      break;
    }
    default: {
      if (!until) return c.Trivial();
      what = "other_parameters";
      int j = static_cast<int>(r.below(L));
      switch (r.below(4)) {
        case 0: x.mutable_parameters(j)->set_log_domain_size(x.parameters(j).log_domain_size() + (r.chance(1, 2) ? 1 : -1)); break;
        case 1: *x.add_parameters() = x.parameters(j); break;
        case 2: x.mutable_parameters()->RemoveLast(); break;
        default: {
          const Ops* p = AllOps()[r.below(AllOps().size())];
          if (p->t == s.lv[j].t) return c.Trivial();
          *x.mutable_parameters(j)->mutable_value_type() = p->ToValueType();
        }
      }
    }
  }
  c.Desc("levels=%s at=%d next=%d %s", LevelsName(s.lv).c_str(), at, next, what);
  if (r.chance(1, 2)) {
    EvaluationContext y;
    VH_CHECK(c, y.ParseFromString(x.SerializeAsString()), "reparse", "%s", what);
    x = y;
  }
  auto got = run(x);
  if (valid) {
    VH_CHECK(c, got.ok(), std::string("refused_") + what, "%s", S(got.status()).c_str());
    VH_CHECK(c, *got == *want, std::string("differs_") + what, "%zu values", got->size());
    c.Count("contexts_as_before");
  } else {
    VH_CHECK(c, got.status().code() == kInvalid, std::string("accepted_") + what, "%s", S(got.status()).c_str());
    c.Count("contexts_refused");
  }
}

// Comparison functions and interval gates on arbitrary messages.
VH_GROUP(comparison, 10000, 200000) {
  const DcfOps* o = AllDcfOps()[c.rng.below(AllDcfOps().size())];
  int ld = 1 + static_cast<int>(c.rng.below(std::min(MaxDcfDomain(o->t), c.rng.chance(1, 2) ? 6 : 128)));
  DcfParameters p = DcfParams(o->t, ld);
  auto d = DistributedComparisonFunction::Create(p);
  VH_CHECK(c, d.ok(), "create_refused", "%s", S(d.status()).c_str());
  DcfParameters q = p;
  std::string what = c.rng.chance(1, 6) ? (RandomMessage(c.rng, &q, 5), "random ") : MutateMessage(c.rng, &q, 2);
  c.Desc("%s/%d %s", o->t.Name().c_str(), ld, what.c_str());
  {
    RT t;
    int n = q.parameters().log_domain_size();
    Verdict v = q.parameters().has_value_type() ? TypeVerdict(q.parameters().value_type(), &t) : INVALID;
    if (n < 1 || n > 128) v = INVALID;
    if (MixedModuli(q.parameters().value_type())) v = EITHER;
    double sec = q.parameters().security_parameter();
    // (The security parameter of each level is the default one.)
    if (v == VALID && !(sec >= 0 && sec <= 128)) v = EITHER;
    if (v == VALID) {
      auto m = SecurityMargin(t, 40.0 + n - 1);
      v = !m ? EITHER : *m < -0.01 ? INVALID : *m < 0.01 ? EITHER : VALID;
    }
    auto e = DistributedComparisonFunction::Create(q);
    if (!CheckVerdict(c, v, e.status(), "comparison_parameters", q.ShortDebugString())) return;
    if (e.ok()) {
      Value b = ValProto(o->t, RandomVal(o->t, c.rng));
      (void)(*e)->GenerateKeys(c.rng.edgy(128), b);
    }
  }
  Value v = ValProto(o->t, RandomVal(o->t, c.rng));
  auto k = o->Gen(**d, c.rng.edgy(ld), *FromProto(o->t, v));
  VH_CHECK(c, k.ok(), "keygen_refused", "%s", S(k.status()).c_str());
  MutateMessage(c.rng, &v, 2);
  u128 alpha = c.rng.edgy(c.rng.chance(1, 4) ? 128 : ld);
  auto k2 = (*d)->GenerateKeys(alpha, v);
  bool ok = FromProto(o->t, v).has_value() && (ld == 128 || alpha >> ld == 0);
  VH_CHECK(c, ok ? k2.ok() : k2.status().code() == kInvalid, ok ? "valid_refused" : "invalid_accepted", "alpha=%s %s: %s",
           Str(alpha).c_str(), v.ShortDebugString().c_str(), S(k2.status()).c_str());
  std::vector<DcfKey> keys = {k->first, k->second, k->first};
  size_t at = c.rng.below(3);
  what = MutateMessage(c.rng, &keys[at], 3);
  c.Desc(" %s", what.c_str());
  std::vector<absl::uint128> x = {c.rng.edgy(ld), c.rng.edgy(ld), c.rng.edgy(ld)};
  auto r = o->Batch(**d, keys, x);
  RefDpf ref(DcfLevels(o->t, ld));
  if (!KeyShapeOk(ref, keys[at].key())) {
    VH_CHECK(c, r.status().code() == kInvalid, "invalid_accepted", "comparison key: %s", S(r.status()).c_str());
    c.Count("malformed_key_refused");
  } else if (r.ok()) {
    VH_CHECK(c, r->size() == 3, "wrong_size", "%zu", r->size());
    c.Count("mutated_key_evaluated");
  } else {
    VH_CHECK(c, r.status().code() == kInvalid, "wrong_code", "%s", S(r.status()).c_str());
  }
  const DcfOps* w = AllDcfOps()[c.rng.below(AllDcfOps().size())];
  if (w != o) {
    auto e = w->Eval(**d, k->first, x[0]);
    VH_CHECK(c, e.status().code() == kInvalid, "wrong_type", "%s as %s: %s", o->t.Name().c_str(), w->t.Name().c_str(), S(e.status()).c_str());
    c.Count("wrong_type_refused");
  }
}

VH_GROUP(intervals, 10000, 200000) {
  using dpflib::fss_gates::MicKey;
  using dpflib::fss_gates::MicParameters;
  using Gate = dpflib::fss_gates::MultipleIntervalContainmentGate;
  int n = 1 + static_cast<int>(c.rng.below(c.rng.chance(1, 2) ? 5 : 127)), m = static_cast<int>(c.rng.below(4));
  MicParameters p;
  p.set_log_group_size(n);
  for (int i = 0; i < m; ++i) {
    u128 a = c.rng.edgy(n), b = c.rng.edgy(n);
    if (a > b) std::swap(a, b);
    auto* v = p.add_intervals();
    SetInteger(v->mutable_lower_bound(), a, c.rng.chance(1, 2));
    SetInteger(v->mutable_upper_bound(), b, c.rng.chance(1, 2));
  }
  auto g = Gate::Create(p);
  VH_CHECK(c, g.ok(), "create_refused", "%s", S(g.status()).c_str());
  MicParameters q = p;
  std::string what = c.rng.chance(1, 6) ? (RandomMessage(c.rng, &q, 4), "random") : MutateMessage(c.rng, &q, 2);
  c.Desc("n=%d m=%d %s", n, m, what.c_str());
  Verdict v = VALID;
  int qn = q.log_group_size();
  if (qn < 1 || qn > 127) v = INVALID;
  for (auto& i : q.intervals()) {
    if (v == INVALID) break;
    if (!i.has_lower_bound() || !i.has_upper_bound()) { v = INVALID; break; }
    auto a = GetInteger(i.lower_bound()), b = GetInteger(i.upper_bound());
    if (!a || !b) { v = EITHER; continue; }
    if (*a >> qn != 0 || *b >> qn != 0 || *a > *b) v = INVALID;
  }
  if (v != INVALID || qn >= 1) {
    auto e = Gate::Create(q);
    // (Bounds that are present but empty may count as zero.)
    bool unset = false;
    for (auto& i : q.intervals())
      unset |= i.lower_bound().value_case() == 0 || i.upper_bound().value_case() == 0;
    if (!unset && !CheckVerdict(c, v, e.status(), "gate_parameters", q.ShortDebugString())) return;
  } else {
    auto e = Gate::Create(q);
    VH_CHECK(c, e.status().code() == kInvalid, "invalid_accepted_gate_parameters", "%s", S(e.status()).c_str());
  }
  std::vector<absl::uint128> r_out;
  for (int i = 0; i < m; ++i) r_out.push_back(c.rng.edgy(n));
  auto k = (*g)->Gen(c.rng.edgy(n), r_out);
  VH_CHECK(c, k.ok(), "gen_refused", "%s", S(k.status()).c_str());
  std::vector<MicKey> keys = {k->first, k->second};
  size_t at = c.rng.below(2);
  what = MutateMessage(c.rng, &keys[at], 3);
  c.Desc(" %s", what.c_str());
  std::vector<absl::uint128> x = {c.rng.edgy(n), c.rng.edgy(n)};
  auto r = (*g)->BatchEval(keys, x);
  RefDpf ref(DcfLevels(RT::Int(128), n));
  if (keys[at].output_mask_share_size() != m || (m > 0 && !KeyShapeOk(ref, keys[at].dcfkey().key()))) {
    VH_CHECK(c, r.status().code() == kInvalid, "invalid_accepted", "gate key: %s", S(r.status()).c_str());
    c.Count("malformed_key_refused");
  } else if (r.ok()) {
    VH_CHECK(c, r->size() == 2 * static_cast<size_t>(m), "wrong_size", "%zu", r->size());
    c.Count("mutated_key_evaluated");
  } else {
    VH_CHECK(c, r.status().code() == kInvalid, "wrong_code", "%s", S(r.status()).c_str());
  }
}

}  // namespace
}  // namespace vh
