// needs: ops
// C02: incremental evaluation does not depend on the path taken.
#include <algorithm>
#include <set>

#include "ops/ops.h"

namespace vh {
namespace {

bool IsInvalid(const absl::Status& s) { return s.code() == absl::StatusCode::kInvalidArgument; }

// What the monitor knows about a context.
struct Model {
  int prev = -1;                 // last evaluated level
  int stored = -1;               // level of the stored partial evaluations
  std::set<absl::uint128> have;  // domain prefixes stored at `stored` (empty: none)
};

struct Walk {
  Case& c;
  std::vector<RefLevel> lv;
  RefDpf ref;
  std::unique_ptr<DistributedPointFunction> d;
  DpfKey key;
  EvaluationContext ctx;
  Model m;
  u128 alpha = 0;
  std::vector<absl::uint128> last_points;  // points of the last evaluation, at level m.prev

  Walk(Case& c_in, std::vector<RefLevel> l) : c(c_in), lv(l), ref(l) {}
  int n() const { return static_cast<int>(lv.size()); }
  const Ops* ops(int i) const { return FindOps(lv[i].t); }
  u128 Tree(int i, u128 x) const { return Shr(x, ref.block_bits(i)); }

  // Checks returned shares against the key's own values.
  bool Same(const char* how, int level, const std::vector<absl::uint128>& x, const std::vector<RVal>& got) {
    if (got.size() != x.size()) {
      c.Fail(std::string("size_") + how, "level %d: %zu values for %zu points", level, got.size(), x.size());
      return false;
    }
    for (size_t j = 0; j < x.size(); ++j) {
      // Long outputs: check all points near alpha and a sample of the others.
      if (x.size() > 400 && j % (x.size() > 6000 ? 61 : 7) != 0 && j + 1 != x.size() && x[j] != PrefixOf(lv, level, alpha)) continue;
      auto want = ref.Eval(key, level, x[j]);
      if (!want || *want != got[j]) {
        c.Fail(std::string("value_") + how, "level %d point %s: %s instead of %s", level, Str(x[j]).c_str(),
               Str(got[j]).c_str(), want ? Str(*want).c_str() : "-");
        return false;
      }
      c.Count("points");
    }
    return true;
  }

  void MaybeSerialize() {
    if (!c.rng.chance(1, 3)) return;
    std::string s;
    ctx.SerializeToString(&s);
    EvaluationContext fresh;
    if (!fresh.ParseFromString(s)) {
      c.Fail("reparse", "context does not parse");
      return;
    }
    ctx = std::move(fresh);
    c.Count("resumed_from_bytes");
  }

  // 1: must be accepted, 0: must be refused, -1: either.
  int ExpectKnown(int level, const std::vector<absl::uint128>& x) const {
    if (m.have.empty()) return 1;
    int down = lv[level].ld - lv[m.stored].ld;
    if (down < 0) return -1;
    std::set<absl::uint128> trees;
    for (auto& h : m.have) trees.insert(Tree(m.stored, h));
    int r = 1;
    for (auto& p : x) {
      u128 up = Shr(p, down);
      if (m.have.count(up)) continue;
      if (!trees.count(Tree(m.stored, up))) return 0;
      r = -1;
    }
    return r;
  }
};

std::vector<absl::uint128> Children(Rng& rng, const std::vector<absl::uint128>& base, int bits, int n) {
  std::vector<absl::uint128> out;
  for (int i = 0; i < n; ++i) out.push_back(Shl(base[rng.below(base.size())], bits) | rng.edgy(bits));
  return out;
}

// One EvaluateUntil/EvaluateNext call that must succeed. Returns false to stop.
bool Until(Walk& w, int level, std::vector<absl::uint128> prefixes) {
  Case& c = w.c;
  const Ops* o = w.ops(level);
  bool next = level == w.m.prev + 1 && c.rng.chance(1, 2);
  if (w.m.prev < 0 && level != 0) next = false;
  auto r = next ? o->EvalNext(*w.d, prefixes, w.ctx) : o->EvalUntil(*w.d, level, prefixes, w.ctx);
  c.Desc("%s%d[%zu] ", next ? "N" : "U", level, prefixes.size());
  int expect = w.m.prev < 0 ? 1 : w.ExpectKnown(w.m.prev, prefixes);
  if (!r.ok()) {
    if (expect == 1)
      c.Fail("refused_until", "level %d with %zu legal prefixes: %s", level, prefixes.size(), S(r.status()).c_str());
    else if (!IsInvalid(r.status()))
      c.Fail("refusal_code", "%s", S(r.status()).c_str());
    return false;
  }
  if (expect == 0) {
    c.Fail("accepted_unknown_prefix", "level %d", level);
    return false;
  }
  int gap = w.m.prev < 0 ? w.lv[level].ld : w.lv[level].ld - w.lv[w.m.prev].ld;
  std::vector<absl::uint128> x;
  if (w.m.prev < 0) {
    for (size_t j = 0; j < (size_t{1} << gap); ++j) x.push_back(j);
  } else {
    for (auto& p : prefixes)
      for (size_t j = 0; j < (size_t{1} << gap); ++j) x.push_back(Shl(p, gap) | u128{j});
  }
  if (!w.Same("until", level, x, *r)) return false;
  c.Count("until_calls");
  if (w.m.prev >= 0) {
    w.m.have.clear();
    w.m.stored = w.m.prev;
    if (level < w.n() - 1) w.m.have.insert(prefixes.begin(), prefixes.end());
  }
  w.m.prev = level;
  w.last_points = std::move(x);
  return true;
}

bool At(Walk& w, int level, std::vector<absl::uint128> x) {
  Case& c = w.c;
  c.Desc("A%d[%zu] ", level, x.size());
  auto r = w.ops(level)->EvalAt(*w.d, level, x, w.ctx);
  int expect = w.ExpectKnown(level, x);
  if (!r.ok()) {
    if (expect == 1)
      c.Fail("refused_at", "level %d with %zu legal points: %s", level, x.size(), S(r.status()).c_str());
    else if (!IsInvalid(r.status()))
      c.Fail("refusal_code", "%s", S(r.status()).c_str());
    return false;
  }
  if (expect == 0) {
    c.Fail("accepted_unknown_point", "level %d", level);
    return false;
  }
  if (!w.Same("at", level, x, *r)) return false;
  c.Count("at_calls");
  if (!x.empty()) {
    w.m.prev = w.m.stored = level;
    w.m.have.clear();
    w.m.have.insert(x.begin(), x.end());
    w.last_points = std::move(x);
  }
  return true;
}

// Tries calls that must be refused, on a copy of the context or on the context
// itself, which then has to go on as if they had not been made.
void Refusals(Walk& w) {
  Case& c = w.c;
  bool on_copy = c.rng.chance(1, 3);
  EvaluationContext scratch;
  auto target = [&]() -> EvaluationContext& {
    if (!on_copy) {
      c.Count("refused_in_place");
      return w.ctx;
    }
    scratch = w.ctx;
    return scratch;
  };
  auto expect = [&](const char* what, const absl::Status& s) {
    if (s.ok()) c.Fail(std::string("accepted_") + what, "after level %d", w.m.prev);
    else if (!IsInvalid(s)) c.Fail(std::string("code_") + what, "%s", S(s).c_str());
    c.Count("refusals");
  };
  auto until = [&](int level, const std::vector<absl::uint128>& p, int type_level) {
    return w.ops(type_level)->EvalUntil(*w.d, level, p, target()).status();
  };
  std::vector<absl::uint128> legal;
  if (w.m.prev >= 0 && !w.last_points.empty()) legal = {w.last_points[c.rng.below(w.last_points.size())]};
  bool finished = w.m.prev >= w.n() - 1;
  if (w.m.prev >= 0) {
    int back = static_cast<int>(c.rng.below(w.m.prev + 1));
    expect("backwards", until(back, legal, back));
    if (!finished) expect("empty_prefixes", until(w.m.prev + 1, {}, w.m.prev + 1));
  } else {
    expect("first_with_prefixes", until(0, {absl::uint128{0}}, 0));
  }
  expect("past_last", until(w.n(), legal, w.n() - 1));
  expect("past_last", until(w.n() + 5, legal, w.n() - 1));
  expect("negative_level", until(-1, legal, 0));
  if (finished) {
    expect("finished", until(w.n() - 1, legal, w.n() - 1));
    return;
  }
  int next = w.m.prev + 1;
  if (w.m.prev >= 0 && w.lv[next].ld - w.lv[w.m.prev].ld < 20) {
    int ld = w.lv[w.m.prev].ld;
    if (ld < 128) {
      auto p = legal;
      p.push_back(Shl(1, ld) | c.rng.bits(ld));
      c.rng.shuffle(p);
      expect("prefix_out_of_range", until(next, p, next));
    }
    // A prefix outside what was evaluated, mixed with legal ones.
    if (!w.m.have.empty()) {
      std::vector<absl::uint128> p;
      for (int k = 0; k < 20 && p.empty(); ++k) {
        absl::uint128 x = c.rng.chance(1, 2) ? c.rng.edgy(ld) : legal[0] ^ Shl(1, static_cast<int>(c.rng.below(std::max(1, ld))));
        if (ld < 128 && x >> ld != 0) continue;
        if (w.ExpectKnown(w.m.prev, {x}) == 0) p = {x};
      }
      if (!p.empty()) {
        p.insert(p.end(), legal.begin(), legal.end());
        c.rng.shuffle(p);
        expect("unknown_prefix", until(next, p, next));
        expect("unknown_point", w.ops(w.m.prev)->EvalAt(*w.d, w.m.prev, p, target()).status());
      }
    }
    // A type that is not the level's.
    const Ops* other = AllOps()[c.rng.below(AllOps().size())];
    if (!(other->t == w.lv[next].t)) {
      expect("wrong_type", other->EvalUntil(*w.d, next, legal, target()).status());
    }
  }
  int ld = w.lv[next].ld;
  if (ld < 128) {
    std::vector<absl::uint128> x = {Shl(1, ld) | c.rng.bits(ld)};
    if (!legal.empty() && c.rng.chance(1, 2)) x.insert(x.begin(), Shl(legal[0], ld - w.lv[w.m.prev].ld));
    expect("point_out_of_range", w.ops(next)->EvalAt(*w.d, next, x, target()).status());
  }
}

bool Start(Walk& w) {
  Case& c = w.c;
  w.alpha = c.rng.edgy(w.lv.back().ld);
  auto beta = RandomBetas(c.rng, w.lv);
  c.Desc("levels=%s alpha=%s ", LevelsName(w.lv).c_str(), Str(w.alpha).c_str());
  w.d = MakeDpf(c, w.lv);
  if (!w.d) return false;
  auto keys = GenAny(c, *w.d, w.lv, w.alpha, beta);
  if (!keys.ok()) {
    c.Fail("keygen_refused", "%s", S(keys.status()).c_str());
    return false;
  }
  w.key = c.rng.chance(1, 2) ? keys->first : keys->second;
  auto ctx = w.d->CreateEvaluationContext(w.key);
  if (!ctx.ok()) {
    c.Fail("context_refused", "%s", S(ctx.status()).c_str());
    return false;
  }
  w.ctx = std::move(*ctx);
  return true;
}

// Levels with gaps that can be expanded.
std::vector<RefLevel> ChainLevels(Rng& rng) {
  std::vector<RefLevel> out;
  int n = 2 + static_cast<int>(rng.below(rng.chance(1, 5) ? 14 : 5));
  int ld = static_cast<int>(rng.below(9));
  const Ops* same = rng.chance(1, 3) ? AllOps()[rng.below(AllOps().size())] : nullptr;
  for (int i = 0; i < n && ld <= 128; ++i) {
    RefLevel l;
    l.ld = ld;
    l.t = (same ? same : AllOps()[rng.below(AllOps().size())])->t;
    FixSecurity(rng, &l);
    out.push_back(l);
    ld += 1 + static_cast<int>(rng.below(rng.chance(1, 3) ? 8 : 4));
  }
  return out;
}

// Levels any distance apart, mostly within reach of point evaluation only.
std::vector<RefLevel> FarLevels(Rng& rng) {
  std::vector<RefLevel> out;
  int ld = static_cast<int>(rng.below(rng.chance(1, 2) ? 6 : 100));
  while (ld <= 128 && out.size() < 6) {
    RefLevel l;
    l.ld = ld;
    l.t = AllOps()[rng.below(AllOps().size())]->t;
    FixSecurity(rng, &l);
    out.push_back(l);
    switch (rng.below(5)) {
      case 0: ld = 121 + static_cast<int>(rng.below(8)) + (ld > 120 ? 8 : 0); break;
      case 1: ld += 60 + static_cast<int>(rng.below(9)); break;
      case 2: ld += 1 + static_cast<int>(rng.below(8)); break;
      default: ld += 1 + static_cast<int>(rng.below(128));
    }
  }
  return out;
}

// Point evaluation down levels that are far apart, with short expansions.
VH_GROUP(far, 3750, 50000) {
  Walk w(c, FarLevels(c.rng));
  if (!Start(w)) return;
  int level = static_cast<int>(c.rng.below(w.n()));
  auto x = RandomPoints(c.rng, w.lv, level, w.alpha, 1 + static_cast<int>(c.rng.below(6)));
  x.push_back(PrefixOf(w.lv, level, w.alpha));
  while (!c.failed()) {
    if (!At(w, level, x)) return;
    w.MaybeSerialize();
    if (c.rng.chance(1, 3)) Refusals(w);
    if (level + 1 == w.n() || c.failed()) break;
    int gap = w.lv[level + 1].ld - w.lv[level].ld;
    if (gap <= 8 && c.rng.chance(1, 2)) {
      std::vector<absl::uint128> p = w.last_points;
      p.resize(std::min<size_t>(p.size(), 6));
      p[0] = PrefixOf(w.lv, level, w.alpha);
      if (!Until(w, level + 1, p)) return;
      if (++level + 1 >= w.n()) break;
    }
    // From everything the context holds, with alpha's branch among it.
    std::vector<absl::uint128> base(w.m.have.begin(), w.m.have.end());
    int next = level + 1 + static_cast<int>(c.rng.below(w.n() - level - 1));
    int down = w.lv[next].ld - w.lv[w.m.stored].ld;
    if (down >= 64) c.Count("far_gaps");
    x = Children(c.rng, base, down, 1 + static_cast<int>(c.rng.below(10)));
    if (w.m.have.count(PrefixOf(w.lv, w.m.stored, w.alpha))) x.push_back(PrefixOf(w.lv, next, w.alpha));
    c.rng.shuffle(x);
    level = next;
  }
}

// Random legal walks over a context, with refused calls in between.
VH_GROUP(walk, 7500, 90000) {
  Walk w(c, ChainLevels(c.rng));
  if (!Start(w)) return;
  for (int step = 0; step < 12 && !c.failed(); ++step) {
    w.MaybeSerialize();
    if (c.rng.chance(1, 3)) Refusals(w);
    if (c.failed()) return;
    bool finished = w.m.prev >= w.n() - 1;
    if (finished && c.rng.chance(2, 3)) break;
    bool use_at = finished || c.rng.chance(1, 3);
    int size = c.rng.chance(1, 8) ? 60 + static_cast<int>(c.rng.below(150)) : 1 + static_cast<int>(c.rng.below(10));
    if (use_at) {
      int level = std::max(w.m.prev, 0) + static_cast<int>(c.rng.below(w.n() - std::max(w.m.prev, 0)));
      if (w.m.prev > 0 && c.rng.chance(1, 8)) level = static_cast<int>(c.rng.below(w.m.prev));
      std::vector<absl::uint128> x;
      int down = w.m.have.empty() ? -1 : w.lv[level].ld - w.lv[w.m.stored].ld;
      if (w.m.have.empty() || down < 0) {
        x = RandomPoints(c.rng, w.lv, level, w.alpha, size);
      } else {
        std::vector<absl::uint128> base(w.m.have.begin(), w.m.have.end());
        x = Children(c.rng, base, down, size);
      }
      if (!At(w, level, x)) return;
    } else {
      int level = w.m.prev + 1 + static_cast<int>(c.rng.below(std::min(2, w.n() - 1 - w.m.prev)));
      int gap = w.lv[level].ld - (w.m.prev < 0 ? 0 : w.lv[w.m.prev].ld);
      if (gap > 11) level = w.m.prev + 1, gap = w.lv[level].ld - (w.m.prev < 0 ? 0 : w.lv[w.m.prev].ld);
      std::vector<absl::uint128> p;
      if (w.m.prev >= 0) {
        // Any of the points just evaluated.
        size = std::max(1, std::min(size, 3000 >> gap));
        bool with_alpha = c.rng.chance(2, 3);
        u128 a = PrefixOf(w.lv, w.m.prev, w.alpha);
        if (with_alpha && std::find(w.last_points.begin(), w.last_points.end(), a) != w.last_points.end()) p.push_back(a);
        while (static_cast<int>(p.size()) < size) p.push_back(w.last_points[c.rng.below(w.last_points.size())]);
        switch (c.rng.below(4)) {
          case 0: std::sort(p.begin(), p.end()); p.erase(std::unique(p.begin(), p.end()), p.end()); break;
          case 1: std::sort(p.rbegin(), p.rend()); break;
          default: c.rng.shuffle(p);
        }
      }
      if (!Until(w, level, p)) return;
    }
    c.Count("steps");
  }
  Refusals(w);
}

// Contexts that hold very many partial evaluations.
VH_GROUP(large, 24, 400) {
  Rng& r = c.rng;
  std::vector<RefLevel> lv;
  int ld = 12 + static_cast<int>(r.below(4));
  for (int i = 0; i < 4 && ld <= 128; ++i) {
    RefLevel l;
    l.ld = ld;
    l.t = AllOps()[r.below(AllOps().size())]->t;
    FixSecurity(r, &l);
    lv.push_back(l);
    ld += 1 + static_cast<int>(r.below(i ? 3 : 2));
  }
  Walk w(c, lv);
  if (!Start(w)) return;
  if (!Until(w, 0, {})) return;
  // All prefixes, shuffled or not, then nearly all points below them.
  std::vector<absl::uint128> p = w.last_points;
  if (r.chance(1, 2)) r.shuffle(p);
  if (r.chance(1, 3)) p.resize(p.size() - r.below(p.size() / 4));
  bool down = r.chance(1, 2);
  if (down) {
    if (!Until(w, 1, p)) return;
  } else {
    for (auto& v : p) v = Shl(v, lv[1].ld - lv[0].ld) | r.bits(lv[1].ld - lv[0].ld);
    if (!At(w, 1, p)) return;
  }
  if (r.chance(1, 2)) {
    std::string s;
    w.ctx.SerializeToString(&s);
    VH_CHECK(c, w.ctx.ParseFromString(s), "reparse", "context of %zu bytes does not parse", s.size());
    c.Count("resumed_from_bytes");
  }
  c.Count("large_contexts");
  if (r.chance(1, 2)) Refusals(w);
  if (c.failed()) return;
  p.clear();
  for (int k = 0; k < 500; ++k) p.push_back(w.last_points[r.below(w.last_points.size())]);
  p.push_back(w.last_points.back());
  p.push_back(w.last_points[0]);
  if (r.chance(1, 2)) {
    if (!Until(w, 2, p)) return;
  } else {
    // (points of the last level evaluated are all known)
    for (auto& v : p) v = Shl(v, lv[2].ld - lv[1].ld) | r.bits(lv[2].ld - lv[1].ld);
    if (!At(w, 2, p)) return;
  }
  Refusals(w);
}

// One context evaluated more often than any 8- or 16-bit bookkeeping counts: it
// stays at a level, goes back, restarts from the key, is reloaded.
VH_GROUP(long_life, 16, 200) {
  Rng& r = c.rng;
  auto lv = ChainLevels(r);
  if (lv.size() > 5) lv.resize(5);
  Walk w(c, lv);
  if (!Start(w)) return;
  int n = c.index % 8 == 0 ? 66000 : 300 + static_cast<int>(r.below(2500));
  c.Desc("%d calls", n);
  std::vector<EvaluationContext> points;
  for (int call = 0; call < n; ++call) {
    int from = std::max(w.m.prev, 0);
    int level = r.chance(1, 16) ? static_cast<int>(r.below(w.n()))
                : r.chance(1, 8) ? from + static_cast<int>(r.below(w.n() - from)) : from;
    std::vector<absl::uint128> x;
    int down = w.m.have.empty() ? -1 : lv[level].ld - lv[w.m.stored].ld;
    if (down < 0) {
      x = RandomPoints(r, lv, level, w.alpha, 1 + static_cast<int>(r.below(4)));
    } else {
      std::vector<absl::uint128> base(w.m.have.begin(), w.m.have.end());
      x = Children(r, base, down, 1 + static_cast<int>(r.below(4)));
      if (r.chance(1, 3) && w.m.have.count(PrefixOf(lv, w.m.stored, w.alpha))) x.push_back(PrefixOf(lv, level, w.alpha));
      if (r.chance(1, 2)) x.insert(x.end(), w.m.have.begin(), w.m.have.end()), x.resize(std::min<size_t>(x.size(), 6));
      if (down)
        for (auto& v : x)
          if (!w.m.have.count(Shr(v, down))) v = Shl(*w.m.have.begin(), down) | r.bits(down);
    }
    auto got = w.ops(level)->EvalAt(*w.d, level, x, w.ctx);
    int expect = w.ExpectKnown(level, x);
    if (!got.ok()) {
      if (!IsInvalid(got.status())) c.Fail("refusal_code", "%s", S(got.status()).c_str());
      if (expect == 1) c.Fail("refused_at", "call %d, level %d with %zu legal points: %s", call, level, x.size(), S(got.status()).c_str());
    } else if (expect == 0) {
      c.Fail("accepted_unknown_point", "call %d, level %d", call, level);
    }
    if (c.failed()) return;
    if (!got.ok()) {  // (either was right; the context may have been used up)
      auto fresh = w.d->CreateEvaluationContext(w.key);
      VH_CHECK(c, fresh.ok(), "context_refused", "%s", S(fresh.status()).c_str());
      w.ctx = std::move(*fresh);
      w.m = Model{};
      continue;
    }
    // (The specification is slow: all values of the first calls, then some.)
    if (call < 40 || call % (n > 5000 ? 97 : 13) < 2) {
      if (!w.Same("long_life", level, x, *got)) return;
    } else {
      VH_CHECK(c, got->size() == x.size(), "size_long_life", "call %d: %zu values", call, got->size());
      auto direct = w.ops(level)->EvalAt(*w.d, w.key, level, x);
      VH_CHECK(c, direct.ok() && *direct == *got, "value_long_life", "call %d, level %d: not the key's own values", call, level);
    }
    c.Count("long_life_calls");
    w.m.prev = w.m.stored = level;
    w.m.have.clear();
    w.m.have.insert(x.begin(), x.end());
    if (r.chance(1, 12)) w.MaybeSerialize();
    if (c.failed()) return;
  }
}

// Two contexts of the same key that take different paths to the same level.
VH_GROUP(two_paths, 2250, 25000) {
  Walk a(c, ChainLevels(c.rng));
  if (!Start(a)) return;
  int target = a.n() - 1;
  u128 p0 = PrefixOf(a.lv, 0, a.alpha);
  std::vector<absl::uint128> all;
  // Path 1: point evaluation only, level by level, from a few prefixes.
  auto x = RandomPoints(c.rng, a.lv, 0, a.alpha, 3);
  x.push_back(p0);
  for (int i = 0; i <= target; ++i) {
    if (!At(a, i, x)) return;
    a.MaybeSerialize();
    if (i < target) {
      auto y = Children(c.rng, x, a.lv[i + 1].ld - a.lv[i].ld, static_cast<int>(x.size()));
      y[0] = PrefixOf(a.lv, i + 1, a.alpha);
      x = y;
    }
  }
  // Path 2: straight from the key, in one batch and one by one, in another order.
  auto r = a.ops(target)->EvalAt(*a.d, a.key, target, x);
  VH_CHECK(c, r.ok(), "refused_direct", "%s", S(r.status()).c_str());
  if (!a.Same("direct", target, x, *r)) return;
  // Path 3: fresh context, jump to a middle level, then the last.
  auto ctx = a.d->CreateEvaluationContext(a.key);
  VH_CHECK(c, ctx.ok(), "context_refused", "%s", S(ctx.status()).c_str());
  int mid = static_cast<int>(c.rng.below(target + 1));
  std::vector<absl::uint128> xm;
  for (auto& v : x) xm.push_back(Shr(v, a.lv[target].ld - a.lv[mid].ld));
  c.rng.shuffle(xm);
  auto rm = a.ops(mid)->EvalAt(*a.d, mid, xm, *ctx);
  VH_CHECK(c, rm.ok(), "refused_mid", "%s", S(rm.status()).c_str());
  if (!a.Same("mid", mid, xm, *rm)) return;
  auto rt = a.ops(target)->EvalAt(*a.d, target, x, *ctx);
  VH_CHECK(c, rt.ok(), "refused_target", "%s", S(rt.status()).c_str());
  if (!a.Same("target", target, x, *rt)) return;
  c.Count("triples");
}

}  // namespace
}  // namespace vh
