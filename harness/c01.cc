// needs: ops
// C01: the two parties' shares reconstruct the point function.
#include <set>

#include "ops/ops.h"
#include "ops/types.h"

namespace vh {
namespace {

// Compares the sum of the parties' values at `x` with the specification.
bool CheckSum(Case& c, const std::vector<RefLevel>& lv, int i, u128 alpha, const RVal& beta, u128 x,
              const RVal& a, const RVal& b, const char* how) {
  const RT& t = lv[i].t;
  bool hit = x == PrefixOf(lv, i, alpha);
  if (!InRange(t, a) || !InRange(t, b)) {
    c.Fail(std::string("range_") + how, "level %d: share outside the group", i);
    return false;
  }
  RVal want = hit ? beta : Zero(t), got = Add(t, a, b);
  c.Count(hit ? "points_at_alpha" : "points_elsewhere");
  if (got != want) {
    c.Fail(std::string(hit ? "alpha_" : "other_") + how, "level %d (%s) point %s: shares add up to %s, not %s", i,
           t.Name().c_str(), Str(x).c_str(), Str(got).c_str(), Str(want).c_str());
    return false;
  }
  return true;
}

struct Setup {
  std::vector<RefLevel> lv;
  std::unique_ptr<DistributedPointFunction> d;
  u128 alpha;
  std::vector<RVal> beta;
  KeyPair keys;
};

bool Make(Case& c, const GenOptions& o, Setup* s) {
  s->lv = RandomLevels(c.rng, o);
  s->alpha = c.rng.edgy(s->lv.back().ld);
  s->beta = RandomBetas(c.rng, s->lv);
  c.Desc("levels=%s alpha=%s beta=", LevelsName(s->lv).c_str(), Str(s->alpha).c_str());
  for (auto& b : s->beta) c.Desc("%s ", Str(b).c_str());
  s->d = MakeDpf(c, s->lv);
  if (!s->d) return false;
  auto keys = GenAny(c, *s->d, s->lv, s->alpha, s->beta);
  if (!keys.ok()) {
    c.Fail("keygen_refused", "%s", S(keys.status()).c_str());
    return false;
  }
  s->keys = std::move(*keys);
  if (s->keys.first.party() == s->keys.second.party()) {
    c.Fail("same_party", "both keys carry party %d", s->keys.first.party());
    return false;
  }
  return true;
}

// Point evaluation at every level.
VH_GROUP(points, 5400, 60000) {
  Setup s;
  if (!Make(c, {}, &s)) return;
  for (int i = 0; i < static_cast<int>(s.lv.size()); ++i) {
    int n = c.rng.chance(1, 10) ? 60 + static_cast<int>(c.rng.below(140)) : 1 + static_cast<int>(c.rng.below(24));
    auto x = RandomPoints(c.rng, s.lv, i, s.alpha, n);
    x[c.rng.below(x.size())] = PrefixOf(s.lv, i, s.alpha);
    const Ops* o = FindOps(s.lv[i].t);
    auto a = o->EvalAt(*s.d, s.keys.first, i, x), b = o->EvalAt(*s.d, s.keys.second, i, x);
    VH_CHECK(c, a.ok() && b.ok(), "evaluate_refused", "level %d: %s %s", i, S(a.status()).c_str(), S(b.status()).c_str());
    VH_CHECK(c, a->size() == x.size() && b->size() == x.size(), "size", "wrong number of results");
    for (size_t j = 0; j < x.size(); ++j)
      if (!CheckSum(c, s.lv, i, s.alpha, s.beta[i], x[j], (*a)[j], (*b)[j], "at")) return;
  }
}

// One type at a time, all domain sizes in turn, so that no (type, size) pair is missed.
VH_GROUP(every_size, 28 * 129, 28 * 129 * 6) {
  const auto& all = AllOps();
  const Ops* o = all[c.index % all.size()];
  int ld = static_cast<int>((c.index / all.size()) % 129);
  std::vector<RefLevel> lv(1);
  lv[0].ld = ld;
  lv[0].t = o->t;
  FixSecurity(c.rng, &lv[0]);
  u128 alpha = c.rng.edgy(ld);
  std::vector<RVal> beta = {RandomNonZero(o->t, c.rng)};
  c.Desc("levels=%s alpha=%s beta=%s", LevelsName(lv).c_str(), Str(alpha).c_str(), Str(beta[0]).c_str());
  auto d = MakeDpf(c, lv);
  if (!d) return;
  auto keys = GenAny(c, *d, lv, alpha, beta);
  VH_CHECK(c, keys.ok(), "keygen_refused", "%s", S(keys.status()).c_str());
  std::vector<absl::uint128> x = {alpha};
  for (int b = 0; b < ld; ++b) x.push_back(alpha ^ Shl(1, b));
  for (int k = 0; k < 3; ++k) x.push_back(c.rng.edgy(ld));
  auto a = o->EvalAt(*d, keys->first, 0, x), b = o->EvalAt(*d, keys->second, 0, x);
  VH_CHECK(c, a.ok() && b.ok(), "evaluate_refused", "%s %s", S(a.status()).c_str(), S(b.status()).c_str());
  for (size_t j = 0; j < x.size(); ++j)
    if (!CheckSum(c, lv, 0, alpha, beta[0], x[j], (*a)[j], (*b)[j], "at")) return;
}

// All pairs of domain sizes.
VH_GROUP(every_pair, 8256, 8256 * 6) {
  int first = 0, k = static_cast<int>(c.index % 8256);
  while (k >= 128 - first) k -= 128 - first++;
  Setup s;
  for (int ld : {first, first + 1 + k}) {
    RefLevel l;
    l.ld = ld;
    l.t = AllOps()[c.rng.below(AllOps().size())]->t;
    FixSecurity(c.rng, &l);
    s.lv.push_back(l);
  }
  s.alpha = c.rng.edgy(s.lv[1].ld);
  s.beta = RandomBetas(c.rng, s.lv);
  for (int i = 0; i < 2; ++i)
    if (c.rng.chance(3, 4)) s.beta[i] = RandomNonZero(s.lv[i].t, c.rng);
  c.Desc("levels=%s alpha=%s", LevelsName(s.lv).c_str(), Str(s.alpha).c_str());
  s.d = MakeDpf(c, s.lv);
  if (!s.d) return;
  auto keys = GenAny(c, *s.d, s.lv, s.alpha, s.beta);
  VH_CHECK(c, keys.ok(), "keygen_refused", "%s", S(keys.status()).c_str());
  for (int i = 0; i < 2; ++i) {
    const Ops* o = FindOps(s.lv[i].t);
    std::vector<absl::uint128> x = {PrefixOf(s.lv, i, s.alpha), c.rng.edgy(s.lv[i].ld)};
    for (int b = 0; b < std::min(8, s.lv[i].ld); ++b) x.push_back(x[0] ^ Shl(1, b));
    if (s.lv[i].ld > 8) x.push_back(x[0] ^ Shl(1, 8 + static_cast<int>(c.rng.below(s.lv[i].ld - 8))));
    auto a = o->EvalAt(*s.d, keys->first, i, x), b = o->EvalAt(*s.d, keys->second, i, x);
    VH_CHECK(c, a.ok() && b.ok(), "evaluate_refused", "level %d: %s %s", i, S(a.status()).c_str(), S(b.status()).c_str());
    for (size_t j = 0; j < x.size(); ++j)
      if (!CheckSum(c, s.lv, i, s.alpha, s.beta[i], x[j], (*a)[j], (*b)[j], "pair")) return;
  }
}

// Long chains of hierarchy levels, up to one level per domain bit.
VH_GROUP(many_levels, 240, 2400) {
  Setup s;
  int n = 2 + static_cast<int>(c.rng.below(c.rng.chance(1, 4) ? 128 : 40));
  int start = static_cast<int>(c.rng.below(129 - std::min(n, 128) + 1));
  const Ops* only = c.rng.chance(1, 2) ? AllOps()[c.rng.below(AllOps().size())] : nullptr;
  int ld = start;
  for (int i = 0; i < n && ld <= 128; ++i) {
    RefLevel l;
    l.ld = ld;
    l.t = only ? only->t : AllOps()[c.rng.below(AllOps().size())]->t;
    FixSecurity(c.rng, &l);
    s.lv.push_back(l);
    ld += c.rng.chance(5, 6) ? 1 : 1 + static_cast<int>(c.rng.below(4));
  }
  s.alpha = c.rng.edgy(s.lv.back().ld);
  s.beta = RandomBetas(c.rng, s.lv);
  c.Desc("levels=%zu from %d to %d alpha=%s", s.lv.size(), start, s.lv.back().ld, Str(s.alpha).c_str());
  s.d = MakeDpf(c, s.lv);
  if (!s.d) return;
  auto keys = GenAny(c, *s.d, s.lv, s.alpha, s.beta);
  VH_CHECK(c, keys.ok(), "keygen_refused", "%s", S(keys.status()).c_str());
  for (int i = 0; i < static_cast<int>(s.lv.size()); ++i) {
    auto x = RandomPoints(c.rng, s.lv, i, s.alpha, 3);
    x.push_back(PrefixOf(s.lv, i, s.alpha));
    const Ops* o = FindOps(s.lv[i].t);
    auto a = o->EvalAt(*s.d, keys->first, i, x), b = o->EvalAt(*s.d, keys->second, i, x);
    VH_CHECK(c, a.ok() && b.ok(), "evaluate_refused", "level %d: %s %s", i, S(a.status()).c_str(), S(b.status()).c_str());
    for (size_t j = 0; j < x.size(); ++j)
      if (!CheckSum(c, s.lv, i, s.alpha, s.beta[i], x[j], (*a)[j], (*b)[j], "at")) return;
  }
}

// Full expansion, level by level, of everything or of random prefix sets.
VH_GROUP(expand, 2700, 30000) {
  Setup s;
  GenOptions o;
  o.max_ld = c.rng.chance(1, 12) ? 14 : 11;
  o.small_last = true;
  if (!Make(c, o, &s)) return;
  auto c0 = s.d->CreateEvaluationContext(s.keys.first), c1 = s.d->CreateEvaluationContext(s.keys.second);
  VH_CHECK(c, c0.ok() && c1.ok(), "context_refused", "%s", S(c0.status()).c_str());
  std::vector<absl::uint128> prefixes;
  int prev = -1;
  for (int i = 0; i < static_cast<int>(s.lv.size()); ++i) {
    bool last = i + 1 == static_cast<int>(s.lv.size());
    if (!last && c.rng.chance(1, 4)) continue;  // skip this level
    const Ops* op = FindOps(s.lv[i].t);
    auto a = op->EvalUntil(*s.d, i, prefixes, *c0), b = op->EvalUntil(*s.d, i, prefixes, *c1);
    VH_CHECK(c, a.ok() && b.ok(), "expand_refused", "level %d: %s %s", i, S(a.status()).c_str(), S(b.status()).c_str());
    int gap = prev < 0 ? s.lv[i].ld : s.lv[i].ld - s.lv[prev].ld;
    size_t per = size_t{1} << gap, want = (prev < 0 ? 1 : prefixes.size()) * per;
    VH_CHECK(c, a->size() == want && b->size() == want, "size", "level %d: %zu results instead of %zu", i, a->size(), want);
    std::vector<absl::uint128> points;
    for (size_t j = 0; j < want; ++j) {
      u128 x = prev < 0 ? u128{j} : (prefixes[j / per] << gap) + u128{j % per};
      points.push_back(x);
      if (!CheckSum(c, s.lv, i, s.alpha, s.beta[i], x, (*a)[j], (*b)[j], "expand")) return;
    }
    c.Count("expanded_levels");
    if (last) break;
    // Choose prefixes for the next call: some of the points just evaluated.
    prefixes.clear();
    std::set<absl::uint128> chosen;
    size_t n = 1 + c.rng.below(std::min<size_t>(points.size(), c.rng.chance(1, 3) ? 300 : 12));
    if (c.rng.chance(3, 4)) {
      u128 p = PrefixOf(s.lv, i, s.alpha);
      if (std::find(points.begin(), points.end(), p) != points.end()) chosen.insert(p);
    }
    for (size_t k = 0; k < n; ++k) chosen.insert(points[c.rng.below(points.size())]);
    prefixes.assign(chosen.begin(), chosen.end());
    if (c.rng.chance(1, 2)) c.rng.shuffle(prefixes);
    if (prefixes.size() << (s.lv.back().ld - s.lv[i].ld) > 60000) prefixes.resize(1 + c.rng.below(3));
    prev = i;
  }
}

// More outputs, prefixes or points in one call than any 16-bit or stack-sized
// bookkeeping holds.
VH_GROUP(large, 40, 600) {
  Rng& r = c.rng;
  int mode = static_cast<int>(c.index % 5);
  Setup s;
  auto level = [&](int ld, const Ops* o) {
    RefLevel l;
    l.ld = ld;
    l.t = o->t;
    FixSecurity(r, &l);
    s.lv.push_back(l);
  };
  auto any = [&] { return AllOps()[r.below(AllOps().size())]; };
  int first = 14 + static_cast<int>(r.below(4));
  switch (mode) {
    case 0: level(16 + static_cast<int>(r.below(2)), any()); break;       // one expansion
    case 1: level(17 + static_cast<int>(r.below(112)), any()); break;     // one batch of points
    case 2: level(first, any()), level(first + 1 + static_cast<int>(r.below(2)), any()); break;
    case 3: level(16, any()), level(16 + 1 + static_cast<int>(r.below(20)), any()); break;
    default: level(4 + static_cast<int>(r.below(5)), any()), level(17, any());
  }
  s.alpha = r.edgy(s.lv.back().ld);
  s.beta = RandomBetas(r, s.lv);
  c.Desc("mode=%d levels=%s alpha=%s", mode, LevelsName(s.lv).c_str(), Str(s.alpha).c_str());
  s.d = MakeDpf(c, s.lv);
  if (!s.d) return;
  auto keys = GenAny(c, *s.d, s.lv, s.alpha, s.beta);
  VH_CHECK(c, keys.ok(), "keygen_refused", "%s", S(keys.status()).c_str());
  auto c0 = s.d->CreateEvaluationContext(keys->first), c1 = s.d->CreateEvaluationContext(keys->second);
  VH_CHECK(c, c0.ok() && c1.ok(), "context_refused", "%s", S(c0.status()).c_str());
  auto sums = [&](int i, const std::vector<absl::uint128>& x, const absl::StatusOr<std::vector<RVal>>& a,
                  const absl::StatusOr<std::vector<RVal>>& b, const char* how) {
    if (!a.ok() || !b.ok()) {
      c.Fail("large_refused", "%s, level %d, %zu points: %s %s", how, i, x.size(), S(a.status()).c_str(), S(b.status()).c_str());
      return false;
    }
    if (a->size() != x.size() || b->size() != x.size()) {
      c.Fail("large_size", "%s, level %d: %zu results instead of %zu", how, i, a->size(), x.size());
      return false;
    }
    for (size_t j = 0; j < x.size(); ++j)
      if (!CheckSum(c, s.lv, i, s.alpha, s.beta[i], x[j], (*a)[j], (*b)[j], how)) return false;
    c.Count("large_calls");
    return true;
  };
  auto all = [](int ld) {
    std::vector<absl::uint128> x(size_t{1} << ld);
    for (size_t j = 0; j < x.size(); ++j) x[j] = j;
    return x;
  };
  auto below = [](const std::vector<absl::uint128>& p, int gap) {
    std::vector<absl::uint128> x;
    x.reserve(p.size() << gap);
    for (auto& v : p)
      for (size_t j = 0; j < (size_t{1} << gap); ++j) x.push_back(Shl(v, gap) | u128{j});
    return x;
  };
  const Ops *o = FindOps(s.lv[0].t), *o1 = FindOps(s.lv.back().t);
  int ld = s.lv[0].ld, gap = s.lv.back().ld - ld;
  if (mode == 1) {
    auto x = RandomPoints(r, s.lv, 0, s.alpha, 65530 + static_cast<int>(r.below(6000)));
    for (int k = 0; k < 9; ++k) x[r.below(x.size())] = s.alpha;
    x.back() = s.alpha;
    sums(0, x, o->EvalAt(*s.d, keys->first, 0, x), o->EvalAt(*s.d, keys->second, 0, x), "large_batch");
    return;
  }
  if (mode == 4) {  // few prefixes, many outputs below each
    auto x = all(ld);
    if (!sums(0, x, o->EvalUntil(*s.d, 0, {}, *c0), o->EvalUntil(*s.d, 0, {}, *c1), "large_first")) return;
    u128 p = PrefixOf(s.lv, 0, s.alpha);
    std::vector<absl::uint128> some = {p};
    while (some.size() << gap < 60000) some.push_back(r.edgy(ld));
    if (r.chance(1, 2)) r.shuffle(some);
    sums(1, below(some, gap), o1->EvalUntil(*s.d, 1, some, *c0), o1->EvalUntil(*s.d, 1, some, *c1), "large_below");
    return;
  }
  auto x = all(ld);
  if (!sums(0, x, o->EvalUntil(*s.d, 0, {}, *c0), o->EvalUntil(*s.d, 0, {}, *c1), "large_expansion")) return;
  if (mode == 2) {  // every prefix, or every one but some, in any order
    std::vector<absl::uint128> p = x;
    if (r.chance(1, 2)) r.shuffle(p);
    if (r.chance(1, 2)) p.resize(p.size() - r.below(p.size() / 8));
    sums(1, below(p, gap), o1->EvalUntil(*s.d, 1, p, *c0), o1->EvalUntil(*s.d, 1, p, *c1), "large_prefixes");
  } else if (mode == 3) {  // points below more than 2^16 partial evaluations
    for (auto& v : x) v = Shl(v, gap) | r.edgy(gap);
    x[static_cast<size_t>(PrefixOf(s.lv, 0, s.alpha))] = s.alpha;
    for (int k = 0; k < 200; ++k) x.push_back(x[r.below(x.size())]);
    if (r.chance(1, 2)) r.shuffle(x);
    if (!sums(1, x, o1->EvalAt(*s.d, 1, x, *c0), o1->EvalAt(*s.d, 1, x, *c1), "large_at")) return;
  }
}

// One object that generates and evaluates keys more often than any 8- or 16-bit
// bookkeeping counts.
VH_GROUP(long_life, 16, 200) {
  Rng& r = c.rng;
  Setup s;
  GenOptions o;
  o.max_levels = 3;
  o.max_ld = 6;
  o.small_last = true;
  s.lv = RandomLevels(r, o);
  int n = c.index % 8 == 0 ? 66000 : 500 + static_cast<int>(r.below(2500));
  c.Desc("levels=%s, %d keys", LevelsName(s.lv).c_str(), n);
  s.d = MakeDpf(c, s.lv);
  if (!s.d) return;
  if (!RegisterAll(c, *s.d, s.lv)) return;
  std::vector<RVal> betas[3];
  std::vector<Value> values[3];
  for (int k = 0; k < 3; ++k) {
    betas[k] = RandomBetas(r, s.lv);
    for (size_t j = 0; j < s.lv.size(); ++j) values[k].push_back(ValProto(s.lv[j].t, betas[k][j]));
  }
  struct Kept {
    u128 alpha;
    int k;
    KeyPair keys;
  };
  std::vector<Kept> kept;
  for (int call = 0; call < n; ++call) {
    int k = static_cast<int>(r.below(3)), i = static_cast<int>(r.below(s.lv.size()));
    u128 alpha = r.edgy(s.lv.back().ld);
    auto keys = s.d->GenerateKeysIncremental(alpha, absl::MakeConstSpan(values[k]));
    VH_CHECK(c, keys.ok(), "long_life_refused", "key pair %d: %s", call, S(keys.status()).c_str());
    Kept now{alpha, k, {std::move(keys->first), std::move(keys->second)}};
    if (kept.size() < 4) kept.push_back(now);
    // This pair, or one from much earlier.
    const Kept& e = r.chance(1, 8) ? kept[r.below(kept.size())] : now;
    const Ops* op = FindOps(s.lv[i].t);
    u128 p = PrefixOf(s.lv, i, e.alpha);
    if (r.chance(3, 4)) {
      std::vector<absl::uint128> x = {p, r.bits(s.lv[i].ld)};
      auto a = op->EvalAt(*s.d, e.keys.first, i, x), b = op->EvalAt(*s.d, e.keys.second, i, x);
      VH_CHECK(c, a.ok() && b.ok() && a->size() == 2 && b->size() == 2, "long_life_refused", "evaluation %d: %s %s", call,
               S(a.status()).c_str(), S(b.status()).c_str());
      for (int j = 0; j < 2; ++j)
        if (!CheckSum(c, s.lv, i, e.alpha, betas[e.k][i], x[j], (*a)[j], (*b)[j], "long_life")) return;
    } else {
      auto c0 = s.d->CreateEvaluationContext(e.keys.first), c1 = s.d->CreateEvaluationContext(e.keys.second);
      VH_CHECK(c, c0.ok() && c1.ok(), "long_life_refused", "context %d: %s", call, S(c0.status()).c_str());
      auto a = op->EvalUntil(*s.d, i, {}, *c0), b = op->EvalUntil(*s.d, i, {}, *c1);
      VH_CHECK(c, a.ok() && b.ok(), "long_life_refused", "expansion %d: %s %s", call, S(a.status()).c_str(), S(b.status()).c_str());
      VH_CHECK(c, a->size() == size_t{1} << s.lv[i].ld && b->size() == a->size(), "size", "expansion %d: %zu results", call, a->size());
      for (size_t j : {static_cast<size_t>(p), static_cast<size_t>(r.below(a->size()))})
        if (!CheckSum(c, s.lv, i, e.alpha, betas[e.k][i], j, (*a)[j], (*b)[j], "long_life")) return;
    }
    c.Count("long_life_calls");
  }
}

// The variadic key-generation overload with mixed C++ types.
template <typename... T>
void Mixed(Case& c) {
  std::vector<RefLevel> lv;
  int ld = static_cast<int>(c.rng.below(20));
  for (const RT& t : {Conv<T>::Type()...}) {
    RefLevel l;
    l.ld = ld;
    l.t = t;
    FixSecurity(c.rng, &l);
    lv.push_back(l);
    ld += 1 + static_cast<int>(c.rng.below(10));
  }
  u128 alpha = c.rng.edgy(lv.back().ld);
  std::vector<RVal> beta = RandomBetas(c.rng, lv);
  c.Desc("variadic levels=%s alpha=%s", LevelsName(lv).c_str(), Str(alpha).c_str());
  auto d = MakeDpf(c, lv);
  if (!d) return;
  int k = 0;
  std::tuple<T...> b{Conv<T>::From(beta[k++])...};
  auto keys = std::apply([&](const T&... x) { return d->GenerateKeysIncremental(alpha, T(x)...); }, b);
  VH_CHECK(c, keys.ok(), "keygen_refused", "%s", S(keys.status()).c_str());
  for (int i = 0; i < static_cast<int>(lv.size()); ++i) {
    auto x = RandomPoints(c.rng, lv, i, alpha, 6);
    x.push_back(PrefixOf(lv, i, alpha));
    const Ops* o = FindOps(lv[i].t);
    auto a = o->EvalAt(*d, keys->first, i, x), e = o->EvalAt(*d, keys->second, i, x);
    VH_CHECK(c, a.ok() && e.ok(), "evaluate_refused", "%s %s", S(a.status()).c_str(), S(e.status()).c_str());
    for (size_t j = 0; j < x.size(); ++j)
      if (!CheckSum(c, lv, i, alpha, beta[i], x[j], (*a)[j], (*e)[j], "variadic")) return;
  }
}
VH_GROUP(variadic, 600, 6000) {
  switch (c.index % 8) {
    case 0: return Mixed<uint8_t, uint64_t>(c);
    case 1: return Mixed<Tuple<uint32_t, uint32_t>, M64, uint16_t>(c);
    case 2: return Mixed<X8, X128>(c);
    case 3: return Mixed<absl::uint128, uint8_t, Tuple<M32, M32, M32>, X64>(c);
    case 4: return Mixed<uint64_t, Tuple<uint8_t, uint16_t>, absl::uint128, uint32_t>(c);
    case 5: return Mixed<M16, uint16_t, M8>(c);
    case 6: return Mixed<Tuple<Tuple<uint8_t, uint8_t>, uint32_t>>(c);
    default: return Mixed<uint32_t, uint32_t, uint32_t, uint32_t, uint32_t, uint32_t>(c);
  }
}

}  // namespace
}  // namespace vh
