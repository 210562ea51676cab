// needs: ops dcf
// C11: interval-containment gates output shares of masked containment bits.
#include <algorithm>

#include "dcf/fss_gates/multiple_interval_containment.h"
#include "ops/ops.h"

namespace vh {
namespace {

using dpflib::fss_gates::Interval;
using dpflib::fss_gates::MicKey;
using dpflib::fss_gates::MicParameters;
using Gate = dpflib::fss_gates::MultipleIntervalContainmentGate;
using MicPair = std::pair<MicKey, MicKey>;
struct Iv { u128 p, q; };

u128 MaxOf(int n) { return (u128{1} << n) - 1; }

MicParameters Params(Rng& rng, int n, const std::vector<Iv>& iv) {
  MicParameters p;
  p.set_log_group_size(n);
  for (auto& i : iv) {
    Interval* v = p.add_intervals();
    SetInteger(v->mutable_lower_bound(), i.p, rng.chance(2, 3));
    SetInteger(v->mutable_upper_bound(), i.q, rng.chance(2, 3));
  }
  return p;
}

std::unique_ptr<Gate> Make(Case& c, int n, const std::vector<Iv>& iv) {
  auto g = Gate::Create(Params(c.rng, n, iv));
  if (!g.ok()) {
    c.Fail("create_refused", "n=%d, %zu intervals: %s", n, iv.size(), S(g.status()).c_str());
    return nullptr;
  }
  return std::move(*g);
}

int PickSize(Rng& rng) {
  switch (rng.below(6)) {
    case 0: return 1 + static_cast<int>(rng.below(4));
    case 1: return 127 - static_cast<int>(rng.below(3));
    case 2: return 62 + static_cast<int>(rng.below(5));
    default: return 1 + static_cast<int>(rng.below(127));
  }
}

std::vector<Iv> Intervals(Rng& rng, int n, int m) {
  u128 max = MaxOf(n);
  std::vector<Iv> iv;
  for (int i = 0; i < m; ++i) {
    Iv v;
    switch (rng.below(8)) {
      case 0: v = {0, max}; break;
      case 1: v.p = v.q = rng.edgy(n); break;
      case 2: v = {rng.edgy(n), max}; break;
      case 3: v = {0, rng.edgy(n)}; break;
      case 4: v.p = v.q = rng.chance(1, 2) ? max : u128{0}; break;
      case 5:
        v.p = rng.edgy(n);
        v.q = v.p == max ? max : v.p + 1;
        break;
      default: v = {rng.edgy(n), rng.edgy(n)};
    }
    if (v.p > v.q) std::swap(v.p, v.q);
    iv.push_back(v);
    if (rng.chance(1, 10)) iv.push_back(v), ++i;
  }
  iv.resize(m);
  return iv;
}

// Checks all intervals at the real input x; the oracle is plain arithmetic.
bool CheckInput(Case& c, Gate& g, const MicPair& k, int n, const std::vector<Iv>& iv, u128 r_in,
                const std::vector<absl::uint128>& r_out, u128 x) {
  u128 max = MaxOf(n), masked = (x + r_in) & max;
  auto a = g.Eval(k.first, masked), b = g.Eval(k.second, masked);
  if (!a.ok() || !b.ok()) {
    c.Fail("eval_refused", "x=%s: %s %s", Str(x).c_str(), S(a.status()).c_str(), S(b.status()).c_str());
    return false;
  }
  if (a->size() != iv.size() || b->size() != iv.size()) {
    c.Fail("output_count", "%zu and %zu for %zu intervals", a->size(), b->size(), iv.size());
    return false;
  }
  for (size_t i = 0; i < iv.size(); ++i) {
    bool in = iv[i].p <= x && x <= iv[i].q;
    u128 sum = ((*a)[i] + (*b)[i]) & max, want = (r_out[i] + (in ? 1 : 0)) & max;
    c.Count(in ? "inside" : "outside");
    if (sum != want) {
      c.Fail(in ? "wrong_inside" : "wrong_outside", "n=%d [%s,%s] r_in=%s r_out=%s x=%s: shares add up to %s, not %s", n,
             Str(iv[i].p).c_str(), Str(iv[i].q).c_str(), Str(r_in).c_str(), Str(r_out[i]).c_str(), Str(x).c_str(),
             Str(sum).c_str(), Str(want).c_str());
      return false;
    }
    if ((*a)[i] > max || (*b)[i] > max) {
      c.Fail("share_outside_group", "%s %s", Str((*a)[i]).c_str(), Str((*b)[i]).c_str());
      return false;
    }
  }
  return true;
}

u128 Input(Rng& rng, int n, const std::vector<Iv>& iv) {
  u128 max = MaxOf(n);
  if (!iv.empty() && rng.chance(3, 4)) {
    const Iv& v = iv[rng.below(iv.size())];
    switch (rng.below(6)) {
      case 0: return v.p;
      case 1: return v.q;
      case 2: return (v.p - 1) & max;
      case 3: return (v.q + 1) & max;
      case 4: return (v.q - 1) & max;
      default: return (v.p + (v.q - v.p) / 2) & max;
    }
  }
  return rng.edgy(n);
}

VH_GROUP(shares, 7500, 100000) {
  int n = PickSize(c.rng);
  int m = c.rng.chance(1, 8) ? 10 + static_cast<int>(c.rng.below(30)) : static_cast<int>(c.rng.below(7));
  auto iv = Intervals(c.rng, n, m);
  u128 r_in = c.rng.edgy(n);
  if (!iv.empty() && c.rng.chance(1, 4)) {
    // Masked bounds that land on the edges of the group.
    const Iv& v = iv[c.rng.below(iv.size())];
    r_in = ((c.rng.chance(1, 2) ? v.p : v.q) * absl::Uint128Max() + u128{c.rng.below(3)} - 1) & MaxOf(n);
  }
  std::vector<absl::uint128> r_out;
  for (int i = 0; i < m; ++i) r_out.push_back(c.rng.edgy(n));
  c.Desc("n=%d m=%d r_in=%s first=[%s,%s]", n, m, Str(r_in).c_str(), m ? Str(iv[0].p).c_str() : "", m ? Str(iv[0].q).c_str() : "");
  if (m == 0) c.Count("no_intervals");
  auto g = Make(c, n, iv);
  if (!g) return;
  auto k = g->Gen(r_in, r_out);
  VH_CHECK(c, k.ok(), "gen_refused", "%s", S(k.status()).c_str());
  MicPair parsed;
  parsed.first.ParseFromString(k->first.SerializeAsString());
  parsed.second.ParseFromString(k->second.SerializeAsString());
  int points = n > 60 ? 6 : 10;
  for (int i = 0; i < points; ++i)
    if (!CheckInput(c, *g, i % 3 ? *k : parsed, n, iv, r_in, r_out, Input(c.rng, n, iv))) return;
}

// All intervals, input masks and inputs of tiny groups.
VH_GROUP(exhaustive, 56, 120) {
  // 2 masks (n=1), 4 (n=2), 8 (n=3), 16 (n=4); several rounds of output masks.
  int j = static_cast<int>(c.index % 30), n = j < 2 ? 1 : j < 6 ? 2 : j < 14 ? 3 : 4;
  u128 r_in = j < 2 ? j : j < 6 ? j - 2 : j < 14 ? j - 6 : j - 14;
  std::vector<Iv> iv;
  for (u128 p = 0; p <= MaxOf(n); ++p)
    for (u128 q = p; q <= MaxOf(n); ++q) iv.push_back({p, q});
  std::vector<absl::uint128> r_out;
  for (size_t i = 0; i < iv.size(); ++i) r_out.push_back(c.rng.bits(n));
  c.Desc("n=%d r_in=%s all intervals and inputs, round %d", n, Str(r_in).c_str(), static_cast<int>(c.index / 30));
  auto g = Make(c, n, iv);
  if (!g) return;
  auto k = g->Gen(r_in, r_out);
  VH_CHECK(c, k.ok(), "gen_refused", "%s", S(k.status()).c_str());
  for (u128 x = 0; x <= MaxOf(n); ++x)
    if (!CheckInput(c, *g, *k, n, iv, r_in, r_out, x)) return;
}

// One gate that generates and evaluates keys very often.
VH_GROUP(long_life, 16, 200) {
  int n = 1 + static_cast<int>(c.rng.below(5)), m = 1 + static_cast<int>(c.rng.below(3));
  auto iv = Intervals(c.rng, n, m);
  int calls = c.index % 8 == 0 ? 66000 : 300 + static_cast<int>(c.rng.below(1500));
  if (calls > 60000) {
    n = 1;
    iv = Intervals(c.rng, n, 1);
    m = 1;
  }
  c.Desc("n=%d m=%d, %d keys", n, m, calls);
  auto g = Make(c, n, iv);
  if (!g) return;
  std::vector<std::tuple<u128, std::vector<absl::uint128>, MicPair>> kept;
  for (int i = 0; i < calls; ++i) {
    u128 r_in = c.rng.bits(n);
    std::vector<absl::uint128> r_out;
    for (int j = 0; j < m; ++j) r_out.push_back(c.rng.bits(n));
    auto k = g->Gen(r_in, r_out);
    VH_CHECK(c, k.ok(), "gen_refused", "call %d: %s", i, S(k.status()).c_str());
    if (kept.size() < 4) kept.emplace_back(r_in, r_out, *k);
    if (!CheckInput(c, *g, *k, n, iv, r_in, r_out, Input(c.rng, n, iv))) return;
    if (c.rng.chance(1, 16)) {
      auto& e = kept[c.rng.below(kept.size())];
      if (!CheckInput(c, *g, std::get<2>(e), n, iv, std::get<0>(e), std::get<1>(e), Input(c.rng, n, iv))) return;
    }
    c.Count("long_life_calls");
  }
}

VH_GROUP(batch, 2250, 30000) {
  int n = PickSize(c.rng), m = static_cast<int>(c.rng.below(6)), num = 0;
  switch (c.index % 60 == 59 ? 9 : c.rng.below(6)) {
    case 9: num = 250 + static_cast<int>(c.rng.below(300)), m = 1 + m % 3; break;
    case 0: num = 0; break;
    case 1: num = 20 + static_cast<int>(c.rng.below(60)); break;
    default: num = 1 + static_cast<int>(c.rng.below(9));
  }
  auto iv = Intervals(c.rng, n, m);
  c.Desc("n=%d m=%d keys=%d %llu", n, m, num, (unsigned long long)c.rng.u64());
  auto g = Make(c, n, iv);
  if (!g) return;
  std::vector<MicKey> keys;
  std::vector<absl::uint128> x, want;
  MicPair kp;
  for (int i = 0; i < num; ++i) {
    if (i == 0 || num < 12 || c.rng.chance(1, 6)) {
      std::vector<absl::uint128> r_out;
      for (int j = 0; j < m; ++j) r_out.push_back(c.rng.edgy(n));
      auto k = g->Gen(c.rng.edgy(n), r_out);
      VH_CHECK(c, k.ok(), "gen_refused", "%s", S(k.status()).c_str());
      kp = std::move(*k);
    }
    keys.push_back(c.rng.chance(1, 2) ? kp.first : kp.second);
    x.push_back(Input(c.rng, n, iv));
    auto r = g->Eval(keys.back(), x.back());
    VH_CHECK(c, r.ok(), "eval_refused", "%s", S(r.status()).c_str());
    want.insert(want.end(), r->begin(), r->end());
  }
  std::vector<const MicKey*> ptrs;
  for (auto& k : keys) ptrs.push_back(&k);
  for (int way = 0; way < 2; ++way) {
    auto r = way ? g->BatchEval(ptrs, x) : g->BatchEval(keys, x);
    VH_CHECK(c, r.ok(), "batch_refused", "%s", S(r.status()).c_str());
    VH_CHECK(c, r->size() == want.size(), "batch_size", "%zu instead of %zu", r->size(), want.size());
    for (size_t i = 0; i < want.size(); ++i)
      VH_CHECK(c, (*r)[i] == want[i], "batch_differs", "position %zu (%d intervals): %s instead of %s", i, m,
               Str((*r)[i]).c_str(), Str(want[i]).c_str());
    c.Count(way ? "by_pointer" : "by_value", want.size());
  }
  auto refused = [&](const char* how, const absl::Status& s) {
    if (s.code() != absl::StatusCode::kInvalidArgument) {
      c.Fail(std::string("accepted_") + how, "%s", S(s).c_str());
      return false;
    }
    c.Count(how);
    return true;
  };
  auto y = x;
  if (num == 0 || c.rng.chance(1, 2)) y.push_back(0); else y.pop_back();
  if (!refused("count_mismatch", g->BatchEval(keys, y).status())) return;
  if (num > 0) {
    y = x;
    size_t at = c.rng.below(num);
    y[at] |= Shl(1, n + (c.rng.chance(1, 2) ? 0 : static_cast<int>(c.rng.below(128 - n))));
    if (!refused("input_outside", g->BatchEval(keys, y).status())) return;
    if (!refused("input_outside", g->Eval(keys[at], y[at]).status())) return;
    auto bad = keys;
    if (c.rng.chance(1, 2) && m > 0) bad[at].mutable_output_mask_share()->RemoveLast();
    else bad[at].add_output_mask_share()->set_value_uint64(1);
    if (!refused("mask_share_count", g->BatchEval(bad, x).status())) return;
    if (m > 0) {
      bad = keys;
      bad[at].mutable_dcfkey()->mutable_key()->clear_seed();
      if (!refused("bad_key", g->BatchEval(bad, x).status())) return;
    }
  }
}

VH_GROUP(refusals, 6000, 40000) {
  int n = PickSize(c.rng), m = 1 + static_cast<int>(c.rng.below(4));
  auto iv = Intervals(c.rng, n, m);
  auto good = Params(c.rng, n, iv), bad = good;
  auto outside = [&]() { return c.rng.bits(n) | Shl(1, n + (c.rng.chance(1, 2) ? 0 : static_cast<int>(c.rng.below(128 - n)))); };
  size_t at = c.rng.below(m);
  const char* what = "";
  Interval* b = bad.mutable_intervals(static_cast<int>(at));
  switch (c.rng.below(5)) {
    case 0: what = "group_size"; bad.set_log_group_size(c.rng.chance(1, 3) ? 0 : c.rng.chance(1, 2) ? -1 - (int)c.rng.below(300) : 128 + (int)c.rng.below(200)); break;
    case 1: what = "no_bound"; if (c.rng.chance(1, 2)) b->clear_lower_bound(); else b->clear_upper_bound(); break;
    case 2: what = "upper_outside"; SetInteger(b->mutable_upper_bound(), outside(), c.rng.chance(1, 2)); break;
    case 3: {
      what = "lower_outside";
      u128 o = outside();
      SetInteger(b->mutable_lower_bound(), o, c.rng.chance(1, 2));
      if (c.rng.chance(1, 2)) SetInteger(b->mutable_upper_bound(), o, c.rng.chance(1, 2));
      break;
    }
    default: {
      what = "reversed";
      u128 p = c.rng.edgy(n), q = c.rng.edgy(n);
      if (p == q) q = p ^ 1;
      if (p < q) std::swap(p, q);
      SetInteger(b->mutable_lower_bound(), p, c.rng.chance(1, 2));
      SetInteger(b->mutable_upper_bound(), q, c.rng.chance(1, 2));
    }
  }
  c.Desc("n=%d m=%d %s %s", n, m, what, bad.ShortDebugString().c_str());
  auto e = Gate::Create(bad);
  VH_CHECK(c, e.status().code() == absl::StatusCode::kInvalidArgument, std::string("accepted_") + what, "%s", S(e.status()).c_str());
  c.Count(what);
  auto g = Gate::Create(good);
  VH_CHECK(c, g.ok(), "create_refused", "%s", S(g.status()).c_str());
  std::vector<absl::uint128> r_out(m);
  for (auto& r : r_out) r = c.rng.edgy(n);
  auto check = [&](const char* how, u128 r_in, const std::vector<absl::uint128>& ro) {
    auto r = (*g)->Gen(r_in, ro);
    if (r.status().code() != absl::StatusCode::kInvalidArgument) { c.Fail(std::string("accepted_") + how, "%s", S(r.status()).c_str()); return false; }
    c.Count(how);
    return true;
  };
  if (!check("input_mask", outside(), r_out)) return;
  auto ro = r_out;
  ro[at] = outside();
  if (!check("output_mask", c.rng.edgy(n), ro)) return;
  ro = r_out;
  if (c.rng.chance(1, 2)) ro.push_back(0); else ro.pop_back();
  if (!check("mask_count", c.rng.edgy(n), ro)) return;
}

}  // namespace
}  // namespace vh
