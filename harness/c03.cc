// needs: ops
// C03: every evaluation interface returns the identical share.
#include <algorithm>
#include <set>

#include "ops/ops.h"

namespace vh {
namespace {

bool Equal(Case& c, const char* how, const std::vector<absl::uint128>& x, const std::vector<RVal>& want,
           const std::vector<RVal>& got) {
  if (want.size() != got.size()) {
    c.Fail(std::string("size_") + how, "%zu values instead of %zu", got.size(), want.size());
    return false;
  }
  for (size_t i = 0; i < want.size(); ++i)
    if (want[i] != got[i]) {
      c.Fail(std::string("differs_") + how, "position %zu point %s: %s instead of %s", i,
             i < x.size() ? Str(x[i]).c_str() : "?", Str(got[i]).c_str(), Str(want[i]).c_str());
      return false;
    }
  c.Count(how, want.size());
  return true;
}

// Point evaluation: one by one, in batches, permuted, repeated, with context; and expansion.
VH_GROUP(single_key, 3750, 40000) {
  GenOptions go;
  go.max_ld = c.rng.chance(1, 3) ? 12 : 128;
  auto lv = RandomLevels(c.rng, go);
  u128 alpha = c.rng.edgy(lv.back().ld);
  auto beta = RandomBetas(c.rng, lv);
  c.Desc("levels=%s alpha=%s ", LevelsName(lv).c_str(), Str(alpha).c_str());
  auto d = MakeDpf(c, lv);
  if (!d) return;
  auto keys = GenAny(c, *d, lv, alpha, beta);
  VH_CHECK(c, keys.ok(), "keygen_refused", "%s", S(keys.status()).c_str());
  const DpfKey& key = c.rng.chance(1, 2) ? keys->first : keys->second;
  for (int i = 0; i < static_cast<int>(lv.size()); ++i) {
    const Ops* o = FindOps(lv[i].t);
    int n = c.rng.chance(1, 6) ? 50 + static_cast<int>(c.rng.below(150)) : 1 + static_cast<int>(c.rng.below(20));
    auto x = RandomPoints(c.rng, lv, i, alpha, n);
    if (c.rng.chance(1, 3)) std::sort(x.begin(), x.end());
    std::vector<RVal> one;
    for (auto& p : x) {
      auto r = o->EvalAt(*d, key, i, absl::MakeConstSpan(&p, 1));
      VH_CHECK(c, r.ok() && r->size() == 1, "single_refused", "%s", S(r.status()).c_str());
      one.push_back((*r)[0]);
    }
    auto r = o->EvalAt(*d, key, i, x);
    VH_CHECK(c, r.ok(), "batch_refused", "%s", S(r.status()).c_str());
    if (!Equal(c, "batch", x, one, *r)) return;
    // From an offset into a larger array (other alignment).
    std::vector<absl::uint128> y(1 + c.rng.below(4), 0);
    size_t off = y.size();
    y.insert(y.end(), x.begin(), x.end());
    r = o->EvalAt(*d, key, i, absl::MakeConstSpan(y).subspan(off));
    VH_CHECK(c, r.ok(), "batch_refused", "%s", S(r.status()).c_str());
    if (!Equal(c, "offset_batch", x, one, *r)) return;
    // Permuted.
    std::vector<size_t> perm(x.size());
    for (size_t k = 0; k < perm.size(); ++k) perm[k] = k;
    c.rng.shuffle(perm);
    std::vector<absl::uint128> xp;
    std::vector<RVal> op;
    for (size_t k : perm) xp.push_back(x[k]), op.push_back(one[k]);
    r = o->EvalAt(*d, key, i, xp);
    VH_CHECK(c, r.ok(), "batch_refused", "%s", S(r.status()).c_str());
    if (!Equal(c, "permuted_batch", xp, op, *r)) return;
    // With a fresh context.
    auto ctx = d->CreateEvaluationContext(key);
    VH_CHECK(c, ctx.ok(), "context_refused", "%s", S(ctx.status()).c_str());
    r = o->EvalAt(*d, i, xp, *ctx);
    VH_CHECK(c, r.ok(), "context_eval_refused", "%s", S(r.status()).c_str());
    if (!Equal(c, "with_context", xp, op, *r)) return;
    // Empty batch.
    r = o->EvalAt(*d, key, i, {});
    VH_CHECK(c, r.ok() && r->empty(), "empty_batch", "%s", S(r.status()).c_str());
    // Full expansion of the level from the root.
    if (lv[i].ld <= 12) {
      auto c2 = d->CreateEvaluationContext(key);
      auto full = o->EvalUntil(*d, i, {}, *c2);
      VH_CHECK(c, full.ok(), "expand_refused", "%s", S(full.status()).c_str());
      VH_CHECK(c, full->size() == size_t{1} << lv[i].ld, "expand_size", "%zu", full->size());
      std::vector<RVal> sel;
      for (auto& p : x) sel.push_back((*full)[static_cast<size_t>(p)]);
      if (!Equal(c, "full_expansion", x, one, sel)) return;
      if (lv[i].ld <= 9) {
        std::vector<absl::uint128> all;
        for (size_t p = 0; p < full->size(); ++p) all.push_back(p);
        r = o->EvalAt(*d, key, i, all);
        VH_CHECK(c, r.ok(), "batch_refused", "%s", S(r.status()).c_str());
        if (!Equal(c, "whole_domain", all, *r, *full)) return;
      }
    } else if (i > 0 && lv[i].ld - lv[i - 1].ld <= 10) {
      // Expansion below prefixes, after a context evaluation of the level above.
      const Ops* up = FindOps(lv[i - 1].t);
      int gap = lv[i].ld - lv[i - 1].ld;
      std::vector<absl::uint128> pre;
      for (auto& p : x) pre.push_back(Shr(p, gap));
      if (pre.size() > 12) pre.resize(12);
      auto c2 = d->CreateEvaluationContext(key);
      auto ru = up->EvalAt(*d, i - 1, pre, *c2);
      VH_CHECK(c, ru.ok(), "context_eval_refused", "%s", S(ru.status()).c_str());
      auto full = o->EvalUntil(*d, i, pre, *c2);
      VH_CHECK(c, full.ok(), "expand_refused", "%s", S(full.status()).c_str());
      VH_CHECK(c, full->size() == pre.size() << gap, "expand_size", "%zu", full->size());
      std::vector<RVal> sel, want;
      for (size_t k = 0; k < pre.size(); ++k) {
        sel.push_back((*full)[(k << gap) + static_cast<size_t>(x[k] - Shl(pre[k], gap))]);
        want.push_back(one[k]);
      }
      if (!Equal(c, "prefix_expansion", x, want, sel)) return;
    }
  }
}

// Multi-key evaluation with a callback per level.
VH_GROUP(multi_key, 6000, 60000) {
  const Ops* o = AllOps()[c.rng.below(AllOps().size())];
  GenOptions go;
  go.only = o;
  go.max_levels = c.rng.chance(1, 4) ? 20 : 5;
  auto lv = RandomLevels(c.rng, go);
  int L = static_cast<int>(lv.size()), ld = lv.back().ld;
  int num_keys = c.rng.chance(1, 6) ? 30 + static_cast<int>(c.rng.below(120)) : 1 + static_cast<int>(c.rng.below(12));
  int shift = c.rng.chance(1, 2) ? 0 : static_cast<int>(c.rng.below(128 - ld + (ld == 128 ? 20 : 1)));
  c.Desc("levels=%s keys=%d shift=%d ", LevelsName(lv).c_str(), num_keys, shift);
  auto d = MakeDpf(c, lv);
  if (!d) return;
  std::vector<DpfKey> keys;
  std::vector<absl::uint128> alphas;
  KeyPair kp;
  for (int k = 0; k < num_keys; ++k) {
    if (k == 0 || num_keys < 20 || c.rng.chance(1, 3)) {
      alphas.push_back(c.rng.edgy(ld));
      auto r = GenAny(c, *d, lv, alphas.back(), RandomBetas(c.rng, lv));
      VH_CHECK(c, r.ok(), "keygen_refused", "%s", S(r.status()).c_str());
      kp = std::move(*r);
    } else {
      alphas.push_back(alphas.back());
    }
    keys.push_back(c.rng.chance(1, 2) ? kp.first : kp.second);
  }
  std::vector<absl::uint128> x;
  for (int k = 0; k < num_keys; ++k) {
    absl::uint128 p = RandomPoints(c.rng, lv, L - 1, alphas[k], 1)[0];
    // The point sits above `shift` low bits that must not matter.
    int room = 128 - shift;
    if (room <= 0) p = 0;
    else if (room < 128) p &= (u128{1} << room) - 1;
    x.push_back(Shl(p, shift) | c.rng.bits(std::min(shift, 128)));
  }
  // What each level must deliver.
  std::vector<std::vector<RVal>> want(L);
  for (int i = 0; i < L; ++i)
    for (int k = 0; k < num_keys; ++k) {
      std::vector<absl::uint128> p = {Shr(x[k], shift + ld - lv[i].ld)};
      auto r = o->EvalAt(*d, keys[k], i, p);
      VH_CHECK(c, r.ok(), "single_refused", "%s", S(r.status()).c_str());
      want[i].push_back((*r)[0]);
    }
  std::vector<const DpfKey*> ptrs;
  for (auto& k : keys) ptrs.push_back(&k);
  for (int variant = 0; variant < 3; ++variant) {
    int stop = c.rng.chance(1, 2) ? L : static_cast<int>(c.rng.below(L));
    int calls = 0;
    bool bad = false;
    auto cb = [&](std::vector<RVal> v) {
      int i = calls++;
      if (i >= L || i > stop) {
        c.Fail("extra_callback", "call %d after %d levels, stop at %d", i, L, stop);
        bad = true;
        return false;
      }
      if (!Equal(c, "apply", x, want[i], v)) bad = true;
      return !bad && i != stop;
    };
    absl::Status s;
    if (variant == 0) s = o->Apply(*d, absl::MakeConstSpan(keys), x, cb, shift);
    else if (variant == 1) s = o->Apply(*d, absl::MakeConstSpan(ptrs), x, cb, shift);
    else if (shift == 0) s = o->Apply(*d, absl::MakeConstSpan(keys), x, cb);
    else continue;
    if (bad || c.failed()) return;
    VH_CHECK(c, s.ok(), "apply_refused", "%s", S(s).c_str());
    VH_CHECK(c, calls == std::min(stop + 1, L), "callback_count", "%d calls for %d levels, stop at %d", calls, L, stop);
    c.Count("callbacks", calls);
    if (stop < L) c.Count("stopped_early");
  }
  // Refusals: sizes that do not match, a malformed key among good ones.
  bool called = false;
  auto cb = [&](std::vector<RVal>) { called = true; return true; };
  auto y = x;
  if (c.rng.chance(1, 2)) y.push_back(0); else y.pop_back();
  absl::Status s = o->Apply(*d, absl::MakeConstSpan(keys), y, cb, shift);
  VH_CHECK(c, s.code() == absl::StatusCode::kInvalidArgument && !called, "size_mismatch_accepted", "%s", S(s).c_str());
  if (ld + shift < 128) {
    y = x;
    y[c.rng.below(y.size())] |= Shl(1, ld + shift + static_cast<int>(c.rng.below(128 - ld - shift)));
    s = o->Apply(*d, absl::MakeConstSpan(keys), y, cb, shift);
    VH_CHECK(c, s.code() == absl::StatusCode::kInvalidArgument, "point_out_of_range_accepted", "%s", S(s).c_str());
    c.Count("out_of_range_refused");
  }
}

// Calls with more points, keys or outputs than small indices can number.
VH_GROUP(large, 40, 600) {
  Rng& r = c.rng;
  const Ops* o = AllOps()[r.below(AllOps().size())];
  if (c.index % 2) {  // one key
    std::vector<RefLevel> lv(1);
    lv[0].ld = r.chance(1, 2) ? 15 + static_cast<int>(r.below(3)) : 15 + static_cast<int>(r.below(114));
    lv[0].t = o->t;
    FixSecurity(r, &lv[0]);
    u128 alpha = r.edgy(lv[0].ld);
    c.Desc("levels=%s alpha=%s large", LevelsName(lv).c_str(), Str(alpha).c_str());
    auto d = MakeDpf(c, lv);
    if (!d) return;
    auto keys = GenAny(c, *d, lv, alpha, RandomBetas(r, lv));
    VH_CHECK(c, keys.ok(), "keygen_refused", "%s", S(keys.status()).c_str());
    const DpfKey& key = r.chance(1, 2) ? keys->first : keys->second;
    std::vector<absl::uint128> x;
    std::vector<RVal> whole;
    if (lv[0].ld <= 17) {
      for (size_t j = 0; j < size_t{1} << lv[0].ld; ++j) x.push_back(j);
      auto ctx = d->CreateEvaluationContext(key);
      VH_CHECK(c, ctx.ok(), "context_refused", "%s", S(ctx.status()).c_str());
      auto full = o->EvalUntil(*d, 0, {}, *ctx);
      VH_CHECK(c, full.ok(), "expand_refused", "%s", S(full.status()).c_str());
      whole = std::move(*full);
    } else {
      x = RandomPoints(r, lv, 0, alpha, 66000 + static_cast<int>(r.below(4000)));
      auto full = o->EvalAt(*d, key, 0, x);
      VH_CHECK(c, full.ok(), "batch_refused", "%s", S(full.status()).c_str());
      whole = std::move(*full);
    }
    std::vector<RVal> parts;
    for (size_t at = 0; at < x.size();) {
      size_t n = std::min<size_t>(x.size() - at, 1 + r.below(r.chance(1, 4) ? 40000 : 700));
      auto part = o->EvalAt(*d, key, 0, absl::MakeConstSpan(x).subspan(at, n));
      VH_CHECK(c, part.ok(), "batch_refused", "%s", S(part.status()).c_str());
      parts.insert(parts.end(), part->begin(), part->end());
      at += n;
    }
    Equal(c, "large", x, parts, whole);
    return;
  }
  // Very many keys, most of them of one pair.
  std::vector<RefLevel> lv;
  int ld = static_cast<int>(r.below(30));
  for (int i = 0; i < 3; ++i, ld += 1 + static_cast<int>(r.below(20))) {
    RefLevel l;
    l.ld = ld;
    l.t = o->t;
    FixSecurity(r, &l);
    lv.push_back(l);
  }
  ld = lv.back().ld;
  int shift = r.chance(1, 2) ? 0 : static_cast<int>(r.below(128 - ld));
  auto d = MakeDpf(c, lv);
  if (!d) return;
  std::vector<DpfKey> pool;
  u128 alpha = r.edgy(ld);
  for (int k = 0; k < 5; ++k) {
    auto keys = GenAny(c, *d, lv, k ? u128{r.edgy(ld)} : alpha, RandomBetas(r, lv));
    VH_CHECK(c, keys.ok(), "keygen_refused", "%s", S(keys.status()).c_str());
    pool.push_back(keys->first), pool.push_back(keys->second);
  }
  size_t n = r.chance(1, 3) ? 66000 + r.below(500) : 250 + r.below(5000);
  c.Desc("levels=%s keys=%zu shift=%d v=%016llx", LevelsName(lv).c_str(), n, shift, (unsigned long long)c.rng.u64());
  std::vector<const DpfKey*> keys;
  std::vector<absl::uint128> x;
  std::vector<size_t> of(n);
  for (size_t k = 0; k < n; ++k) {
    of[k] = r.below(pool.size());
    keys.push_back(&pool[of[k]]);
    x.push_back(Shl(r.chance(1, 8) ? u128{alpha} : u128{r.edgy(ld)}, shift) | r.bits(shift));
  }
  // Each key's points in one batch.
  std::vector<std::vector<RVal>> want(lv.size(), std::vector<RVal>(n));
  for (size_t i = 0; i < lv.size(); ++i)
    for (size_t p = 0; p < pool.size(); ++p) {
      std::vector<absl::uint128> px;
      std::vector<size_t> at;
      for (size_t k = 0; k < n; ++k)
        if (of[k] == p) at.push_back(k), px.push_back(Shr(x[k], shift + ld - lv[i].ld));
      auto got = o->EvalAt(*d, pool[p], static_cast<int>(i), px);
      VH_CHECK(c, got.ok(), "batch_refused", "%s", S(got.status()).c_str());
      for (size_t k = 0; k < at.size(); ++k) want[i][at[k]] = (*got)[k];
    }
  size_t calls = 0;
  auto cb = [&](std::vector<RVal> v) { return calls < lv.size() && Equal(c, "large_apply", x, want[calls++], v); };
  absl::Status s = o->Apply(*d, absl::MakeConstSpan(keys), x, cb, shift);
  VH_CHECK(c, s.ok(), "apply_refused", "%s", S(s).c_str());
  VH_CHECK(c, c.failed() || calls == lv.size(), "callback_count", "%zu calls", calls);
}

// No keys at all: nothing to evaluate, but still a well-defined call.
VH_GROUP(no_keys, 90, 200) {
  const Ops* o = AllOps()[c.rng.below(AllOps().size())];
  GenOptions go;
  go.only = o;
  auto lv = RandomLevels(c.rng, go);
  c.Desc("levels=%s no keys", LevelsName(lv).c_str());
  auto d = MakeDpf(c, lv);
  if (!d) return;
  int calls = 0;
  absl::Status s = o->Apply(*d, absl::Span<const DpfKey>(), {}, [&](std::vector<RVal> v) {
    ++calls;
    if (!v.empty()) c.Fail("values_without_keys", "%zu", v.size());
    return true;
  });
  VH_CHECK(c, s.ok(), "no_keys_refused", "%s", S(s).c_str());
  VH_CHECK(c, calls == static_cast<int>(lv.size()), "no_keys_callbacks", "%d", calls);
}

}  // namespace
}  // namespace vh
