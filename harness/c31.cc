// needs: dcf pir
// C31: work, memory and message sizes grow no faster than the protocols promise.
#include <algorithm>
#include <cmath>
#include <cstdlib>

#include "c31_meter.h"
#include "common/pirkv.h"
#include "dcf/distributed_comparison_function.h"
#include "dcf/fss_gates/multiple_interval_containment.h"
#include "dpf/aes_128_fixed_key_hash.h"
#include "dpf/distributed_point_function.h"
#include "dpf/int_mod_n.h"
#include "dpf/tuple.h"
#include "dpf/xor_wrapper.h"
#include "pir/hashing/cuckoo_hash_table.h"
#include "pir/hashing/multiple_choice_hash_table.h"
#include "pir/hashing/simple_hash_table.h"
#include "pir/prng/aes_128_ctr_seeded_prng.h"

namespace vh {
namespace {

using dp::DistributedPointFunction;
using dp::DpfKey;
using dp::DpfParameters;
using dp::EvaluationContext;
using dp::IntModN;
using dp::Tuple;
using dp::XorWrapper;
using Bytes = std::vector<std::string>;

// What a call cost; `size` is the size of what it returned, in bytes.
struct Cost {
  double steps = 0, moved = 0, taken = 0, peak = 0, size = 0, blocks = 0;
  bool ok = false;
  std::string why;
};
constexpr int METRICS = 6;
const char* const kMetric[METRICS] = {"steps", "bytes_moved", "bytes_taken", "peak_bytes", "message_bytes", "aes_blocks"};
double Get(const Cost& c, int m) { return m == 0 ? c.steps : m == 1 ? c.moved : m == 2 ? c.taken : m == 3 ? c.peak : m == 4 ? c.size : c.blocks; }

template <typename F>
Cost Measure(F&& f) {
  rand::SetLogging(false);
  Meter& m = TheMeter();
  Meter before = m;
  m.peak = m.live;
  int64_t start = m.live;
  absl::Status s = f();
  Cost c;
  c.steps = static_cast<double>(m.steps - before.steps);
  c.blocks = static_cast<double>(m.blocks - before.blocks);
  c.moved = static_cast<double>(m.moved - before.moved);
  c.taken = static_cast<double>(m.taken - before.taken);
  c.peak = static_cast<double>(m.peak - start);
  c.ok = s.ok();
  if (!s.ok()) c.why = S(s);
  return c;
}
Cost Refused(const absl::Status& s) {
  Cost c;
  c.why = S(s);
  return c;
}

// What one unit of work may cost: five times what it cost when this was written,
// three times for AES blocks (see tools/calibrate_c31.py), and kLeeway of that,
// because the same work may be written in many ways.
struct Budget {
  const char* what;
  double of[METRICS];
};
const Budget kBudgets[] = {
#ifdef HWY_COMPILE_ONLY_SCALAR
#include "c31_scalar_budgets.inc"
#else
#include "c31_budgets.inc"
#endif
};
constexpr double kLeeway[METRICS] = {4, 3, 2, 2, 1, 1};
// What a call may cost besides its units of work.
constexpr double kFixed[METRICS] = {3000, 65536, 16384, 16384, 256, 64};
// How far the larger size's cost may be above its share of the smaller one's:
// copies of a few bytes are not seen, so that seen ones seem to grow faster.
constexpr double kSlack[METRICS] = {2.5, 4, 2.5, 2.5, 2.5, 2};

// Measures at two sizes. `variant` names what else the cost depends on.
void Grow(Case& c, const std::string& what, const std::string& variant, double small, double large, const std::function<Cost(int64_t)>& at,
          double units_small = 0, double units_large = 0) {
  if (units_small == 0) units_small = small, units_large = large;
  c.Desc(" %s %s %.0f->%.0f", what.c_str(), variant.c_str(), small, large);
  Cost a = at(static_cast<int64_t>(small)), b = at(static_cast<int64_t>(large));
  VH_CHECK(c, a.ok, "refused", "%s at %.0f: %s", what.c_str(), small, a.why.c_str());
  VH_CHECK(c, b.ok, "refused", "%s at %.0f: %s", what.c_str(), large, b.why.c_str());
  std::string key = variant.empty() ? what : what + "/" + variant;
  double ratio = units_large / units_small;
  static const bool kPrint = getenv("C31_PRINT") != nullptr;
  if (kPrint)
    for (int m = 0; m < METRICS; ++m)
      printf("PER %s %d %.4f %.4f\n", key.c_str(), m, std::max(Get(a, m) / units_small, Get(b, m) / units_large), (Get(b, m) - kFixed[m]) / (ratio * Get(a, m) + 1));
  const Budget* budget = std::find_if(std::begin(kBudgets), std::end(kBudgets), [&](const Budget& x) { return x.what == key; });
  VH_CHECK(c, kPrint || budget != std::end(kBudgets), "no_budget", "%s", key.c_str());
  for (int m = 0; m < METRICS; ++m) {
    double x = Get(a, m), y = Get(b, m);
    VH_CHECK(c, y <= kSlack[m] * ratio * x + kFixed[m], "superlinear", "%s: %.0f %s at size %.0f, but %.0f at size %.0f (%.1f times for %.1f times the work)",
             key.c_str(), x, kMetric[m], small, y, large, y / (x + 1), ratio);
    if (kPrint) continue;
    for (auto& [u, v] : {std::pair(units_small, x), std::pair(units_large, y)})
      VH_CHECK(c, v <= kLeeway[m] * budget->of[m] * u + kFixed[m], "over_budget", "%s: %.0f %s for %.0f units of work, where %.1f each are enough",
               key.c_str(), v, kMetric[m], u, kLeeway[m] * budget->of[m]);
  }
  c.Count(what.c_str());
  c.Count("steps_seen", static_cast<uint64_t>(a.steps + b.steps));
  c.Count("aes_blocks_seen", static_cast<uint64_t>(a.blocks + b.blocks));
}

template <typename T>
T Some(Rng& r) { return T(static_cast<uint8_t>(r.below(200))); }
template <>
Tuple<uint32_t, uint64_t> Some(Rng& r) { return Tuple<uint32_t, uint64_t>(static_cast<uint32_t>(r.u64()), r.u64()); }
template <>
IntModN<uint32_t, 4294967291u> Some(Rng& r) { return IntModN<uint32_t, 4294967291u>(static_cast<uint32_t>(r.below(4000000000u))); }

template <typename T>
absl::StatusOr<std::unique_ptr<DistributedPointFunction>> Dpf(const std::vector<int>& levels) {
  std::vector<DpfParameters> ps;
  for (int l : levels) {
    DpfParameters p;
    p.set_log_domain_size(l);
    *p.mutable_value_type() = dp::ToValueType<T>();
    ps.push_back(p);
  }
  auto d = DistributedPointFunction::CreateIncremental(ps);
  if (!d.ok()) return d;
  absl::Status s = (*d)->template RegisterValueType<T>();
  if (!s.ok()) return s;
  return d;
}
std::vector<int> Steps(int first, int64_t n) {
  std::vector<int> v;
  for (int64_t i = 0; i < n; ++i) v.push_back(first + static_cast<int>(i));
  return v;
}
template <typename T>
absl::StatusOr<std::vector<DpfKey>> Keys(Case& c, DistributedPointFunction& d, size_t levels, int bits, size_t n) {
  std::vector<DpfKey> out;
  while (out.size() < n) {
    std::vector<T> b;
    for (size_t i = 0; i < levels; ++i) b.push_back(Some<T>(c.rng));
    auto k = d.GenerateKeysIncremental(c.rng.bits(bits), absl::MakeConstSpan(b));
    if (!k.ok()) return k.status();
    out.push_back(c.rng.chance(1, 2) ? k->first : k->second);
  }
  return out;
}
std::vector<absl::uint128> Random(Rng& r, int bits, int64_t n) {
  std::vector<absl::uint128> v;
  for (int64_t i = 0; i < n; ++i) v.push_back(r.bits(bits));
  return v;
}
// The same points in memory that vectors can be loaded from, or not.
class Placed {
 public:
  Placed(const std::vector<absl::uint128>& x, bool aligned) : store_(x.size() + 16), n_(x.size()) {
    size_t at = 0;
    while (reinterpret_cast<uintptr_t>(&store_[at]) % 128 != 0) ++at;
    at_ = at + (aligned ? 0 : 1);
    std::copy(x.begin(), x.end(), store_.begin() + static_cast<long>(at_));
  }
  absl::Span<const absl::uint128> span() const { return absl::MakeConstSpan(store_).subspan(at_, n_); }
  size_t size() const { return n_; }

 private:
  std::vector<absl::uint128> store_;
  size_t n_, at_ = 0;
};
template <typename R>
absl::Status Size(const absl::StatusOr<std::vector<R>>& v, size_t want) {
  if (!v.ok()) return v.status();
  return v->size() == want ? absl::OkStatus() : absl::InternalError(absl::StrCat("returned ", v->size(), " values"));
}
#define GET(var, expr)                             \
  auto var##_or = (expr);                          \
  if (!var##_or.ok()) return Refused(var##_or.status()); \
  auto var = *std::move(var##_or)

constexpr int kDpfScenarios = 13;
template <typename T>
void DpfWork(Case& c, int which, const std::string& type, int max_domain) {
  Rng& r = c.rng;
  double top = std::min(120, max_domain), low = top / 8;
  switch (which) {
    case 0:
      return Grow(c, "dpf.generate_domain", type, low, top, [&](int64_t d) -> Cost {
        GET(dpf, Dpf<T>({static_cast<int>(d)}));
        T beta = Some<T>(r);
        absl::uint128 alpha = r.bits(static_cast<int>(d));
        double size = 0;
        Cost cost = Measure([&] {
          auto k = dpf->GenerateKeys(alpha, beta);
          if (k.ok()) size = static_cast<double>(k->first.ByteSizeLong());
          return k.status();
        });
        cost.size = size;
        return cost;
      });
    case 1:
      return Grow(c, "dpf.generate_levels", type, low, top, [&](int64_t n) -> Cost {
        GET(dpf, Dpf<T>(Steps(1, n)));
        std::vector<T> betas;
        for (int64_t i = 0; i < n; ++i) betas.push_back(Some<T>(r));
        absl::uint128 alpha = r.bits(static_cast<int>(n));
        double size = 0;
        Cost cost = Measure([&] {
          auto k = dpf->GenerateKeysIncremental(alpha, absl::MakeConstSpan(betas));
          if (k.ok()) size = static_cast<double>(k->first.ByteSizeLong());
          return k.status();
        });
        cost.size = size;
        return cost;
      });
    case 2:
      return Grow(c, "dpf.create_levels", type, low, top, [&](int64_t n) -> Cost { return Measure([&] { return Dpf<T>(Steps(1, n)).status(); }); });
    case 3: {
      int d = static_cast<int>(r.range(8, max_domain));
      int64_t n = r.range(300, 900);
      bool aligned = r.chance(1, 2);
      return Grow(c, "dpf.evaluate_at_points", type + (aligned ? "" : "_unaligned"), n, 8 * n, [&](int64_t m) -> Cost {
        GET(dpf, Dpf<T>({d}));
        GET(k, Keys<T>(c, *dpf, 1, d, 1));
        Placed x(Random(r, d, m), aligned);
        return Measure([&] { return Size(dpf->template EvaluateAt<T>(k[0], 0, x.span()), x.size()); });
      }, static_cast<double>(n * (d + 3)), static_cast<double>(8 * n * (d + 3)));
    }
    case 4: {
      int64_t n = r.range(64, 200);
      bool aligned = r.chance(1, 2);
      return Grow(c, "dpf.evaluate_at_domain", type + (aligned ? "" : "_unaligned"), low, top, [&](int64_t d) -> Cost {
        GET(dpf, Dpf<T>({static_cast<int>(d)}));
        GET(k, Keys<T>(c, *dpf, 1, static_cast<int>(d), 1));
        Placed x(Random(r, static_cast<int>(d), n), aligned);
        return Measure([&] { return Size(dpf->template EvaluateAt<T>(k[0], 0, x.span()), x.size()); });
      }, n * (low + 3), n * (top + 3));
    }
    case 5: {
      int d = static_cast<int>(r.range(9, 11));
      auto run = [&](int64_t n) -> Cost {
        int e = static_cast<int>(std::lround(std::log2(static_cast<double>(n))));
        GET(dpf, Dpf<T>({e}));
        GET(k, Keys<T>(c, *dpf, 1, e, 1));
        GET(ctx, dpf->CreateEvaluationContext(k[0]));
        return Measure([&] { return Size(dpf->template EvaluateNext<T>({}, ctx), size_t{1} << e); });
      };
      return Grow(c, "dpf.expand", type, std::pow(2, d), std::pow(2, d + 3), run);
    }
    case 6:
    case 7: {
      // Prefixes of a level that was expanded before: apart, or next to each other.
      int order = static_cast<int>(r.below(4)), gap = static_cast<int>(r.range(1, 5));
      int64_t n = r.range(60, 250);
      c.Desc(" order%d gap%d", order, gap);
      return Grow(c, "dpf.evaluate_prefixes", type, n, 8 * n, [&](int64_t m) -> Cost {
        int first = 11;
        GET(dpf, Dpf<T>({first, first + gap, 2 * first + gap}));
        GET(k, Keys<T>(c, *dpf, 3, 2 * first + gap, 1));
        GET(ctx, dpf->CreateEvaluationContext(k[0]));
        absl::Status s = dpf->template EvaluateNext<T>({}, ctx).status();
        if (!s.ok()) return Refused(s);
        std::vector<absl::uint128> p;
        for (int i = 0; i < (1 << first); ++i) p.push_back(i);
        if (order != 0) r.shuffle(p);
        p.resize(static_cast<size_t>(m));
        if (order == 1) std::sort(p.begin(), p.end());
        if (order == 3) p = Random(r, first, m);  // some of them repeated
        return Measure([&] { return Size(dpf->template EvaluateNext<T>(p, ctx), p.size() << gap); });
      }, static_cast<double>(n << gap), static_cast<double>(8 * n << gap));
    }
    case 8:
    case 9: {
      // One level after the other, through the same prefixes' children.
      size_t k = static_cast<size_t>(r.range(32, 64));
      bool points = which == 9;
      double few = max_domain < 120 ? 4 : 14, many = 8 * few;
      return Grow(c, points ? "dpf.walk_points" : "dpf.walk_prefixes", type, few, many, [&](int64_t n) -> Cost {
        GET(dpf, Dpf<T>(Steps(7, n)));
        GET(key, Keys<T>(c, *dpf, static_cast<size_t>(n), static_cast<int>(6 + n), 1));
        GET(ctx, dpf->CreateEvaluationContext(key[0]));
        std::vector<absl::uint128> p;
        for (size_t i = 0; i < k; ++i) p.push_back(2 * i);
        absl::uint128 tail = r.bits(128);
        return Measure([&] {
          if (points) {
            auto x = p;
            for (int level = 0; level < n; ++level) {
              absl::Status s = Size(dpf->template EvaluateAt<T>(level, x, ctx), k);
              if (!s.ok()) return s;
              for (auto& v : x) v = 2 * v + ((tail >> level) & 1);
            }
            return absl::OkStatus();
          }
          absl::Status s = Size(dpf->template EvaluateNext<T>({}, ctx), 128);
          for (int level = 1; level < n && s.ok(); ++level) {
            s = Size(dpf->template EvaluateNext<T>(p, ctx), 2 * k);
            for (auto& v : p) v = 2 * v + ((tail >> level) & 1);
          }
          return s;
        });
      }, few * (static_cast<double>(k) + few), many * (static_cast<double>(k) + many));
    }
    case 11: {
      // Continues many prefixes that the context keeps.
      int order = static_cast<int>(r.below(3)), gap = static_cast<int>(r.range(1, 3));
      int64_t n = r.range(400, 800);
      c.Desc(" order%d gap%d", order, gap);
      return Grow(c, "dpf.continue_prefixes", type, n, 8 * n, [&](int64_t m) -> Cost {
        int first = 13;
        GET(dpf, Dpf<T>({first, first + gap, first + gap + 1, 2 * first + gap}));
        GET(k, Keys<T>(c, *dpf, 4, 2 * first + gap, 1));
        GET(ctx, dpf->CreateEvaluationContext(k[0]));
        absl::Status s = dpf->template EvaluateNext<T>({}, ctx).status();
        if (!s.ok()) return Refused(s);
        std::vector<absl::uint128> p;
        for (int i = 0; i < (1 << first); ++i) p.push_back(i);
        if (order != 0) r.shuffle(p);
        p.resize(static_cast<size_t>(m));
        if (order == 1) std::sort(p.begin(), p.end());
        s = dpf->template EvaluateNext<T>(p, ctx).status();
        if (!s.ok()) return Refused(s);
        for (auto& x : p) x = (x << gap) | r.below(uint64_t{1} << gap);
        if (order == 2) r.shuffle(p);
        return Measure([&] { return Size(dpf->template EvaluateNext<T>(p, ctx), p.size() << 1); });
      });
    }
    case 12: {
      // Continues some of the prefixes that the context keeps, far from the root.
      double k = static_cast<double>(r.range(32, 64)), some = r.chance(1, 2) ? 1 : static_cast<double>(r.range(1, static_cast<int64_t>(k)));
      double few = max_domain < 120 ? 4 : 14, many = 8 * few;
      bool points = r.chance(1, 3);
      c.Desc(" %.0f of %.0f", some, k);
      return Grow(c, points ? "dpf.continue_some_points" : "dpf.continue_some", type, few, many, [&](int64_t n) -> Cost {
        GET(dpf, Dpf<T>(Steps(7, n)));
        GET(key, Keys<T>(c, *dpf, static_cast<size_t>(n), static_cast<int>(6 + n), 1));
        GET(ctx, dpf->CreateEvaluationContext(key[0]));
        std::vector<absl::uint128> p;
        for (int i = 0; i < k; ++i) p.push_back(2 * i);
        absl::uint128 tail = r.bits(128);
        absl::Status s = points ? absl::OkStatus() : Size(dpf->template EvaluateNext<T>({}, ctx), 128);
        for (int level = points ? 0 : 1; level < n - 1 && s.ok(); ++level) {
          s = points ? Size(dpf->template EvaluateAt<T>(level, p, ctx), p.size()) : Size(dpf->template EvaluateNext<T>(p, ctx), 2 * p.size());
          for (auto& v : p) v = 2 * v + ((tail >> level) & 1);
        }
        if (!s.ok()) return Refused(s);
        if (r.chance(1, 2)) r.shuffle(p);
        p.resize(static_cast<size_t>(some));
        return Measure([&] {
          if (points) return Size(dpf->template EvaluateAt<T>(static_cast<int>(n) - 1, p, ctx), p.size());
          return Size(dpf->template EvaluateNext<T>(p, ctx), 2 * p.size());
        });
      }, k + few, k + many);
    }
    default: {
      // Many keys, one point each, all levels at once.
      bool domain = r.chance(1, 2);
      int64_t n = domain ? (max_domain < 120 ? 5 : 14) : r.range(30, 60);
      int64_t other = domain ? r.range(10, 20) : r.range(4, 20);
      return Grow(c, "dpf.evaluate_and_apply", type, n, 8 * n, [&](int64_t m) -> Cost {
        int64_t levels = domain ? m : other, keys = domain ? other : m;
        GET(dpf, Dpf<T>(Steps(1, levels)));
        GET(k, Keys<T>(c, *dpf, static_cast<size_t>(levels), static_cast<int>(levels), static_cast<size_t>(keys)));
        auto x = Random(r, static_cast<int>(levels), keys);
        int64_t calls = 0;
        return Measure([&]() -> absl::Status {
          absl::Status s = dpf->template EvaluateAndApply<T>(absl::MakeConstSpan(k), x, [&](absl::Span<const T> v) {
            calls += v.size() == static_cast<size_t>(keys);
            return true;
          });
          if (s.ok() && calls != levels) return absl::InternalError("callbacks");
          return s;
        });
      }, static_cast<double>(n * other), static_cast<double>(8 * n * other));
    }
  }
}
VH_GROUP(dpf, 312, 6240) {
  int which = static_cast<int>(c.index % kDpfScenarios);
  switch ((c.index / kDpfScenarios) % 6) {
    case 0: return DpfWork<uint8_t>(c, which, "u8", 120);
    case 1: return DpfWork<uint64_t>(c, which, "u64", 120);
    case 2: return DpfWork<absl::uint128>(c, which, "u128", 120);
    case 3: return DpfWork<XorWrapper<uint32_t>>(c, which, "x32", 120);
    case 4: return DpfWork<Tuple<uint32_t, uint64_t>>(c, which, "tuple", 120);
    default: return DpfWork<IntModN<uint32_t, 4294967291u>>(c, which, "mod", 44);
  }
}

VH_GROUP(comparison, 48, 960) {
  Rng& r = c.rng;
  auto make = [](int d) {
    dp::DcfParameters p;
    p.mutable_parameters()->set_log_domain_size(d);
    *p.mutable_parameters()->mutable_value_type() = dp::ToValueType<uint64_t>();
    return dp::DistributedComparisonFunction::Create(p);
  };
  auto keys = [&](dp::DistributedComparisonFunction& f, int d, int64_t n) {
    std::vector<dp::DcfKey> k;
    for (int64_t i = 0; i < n; ++i) {
      auto p = f.GenerateKeys(r.bits(d), r.u64());
      if (p.ok()) k.push_back(p->first);
    }
    return k;
  };
  switch (c.index % 4) {
    case 0:
      return Grow(c, "dcf.generate_domain", "", 15, 120, [&](int64_t d) -> Cost {
        GET(f, make(static_cast<int>(d)));
        double size = 0;
        absl::uint128 alpha = r.bits(static_cast<int>(d));
        Cost cost = Measure([&] {
          auto k = f->GenerateKeys(alpha, uint64_t{7});
          if (k.ok()) size = static_cast<double>(k->first.ByteSizeLong());
          return k.status();
        });
        cost.size = size;
        return cost;
      });
    case 1:
      return Grow(c, "dcf.evaluate_domain", "", 15, 120, [&](int64_t d) -> Cost {
        GET(f, make(static_cast<int>(d)));
        auto k = keys(*f, static_cast<int>(d), 1);
        absl::uint128 x = r.bits(static_cast<int>(d));
        return Measure([&] { return f->Evaluate<uint64_t>(k[0], x).status(); });
      });
    case 2: {
      int64_t n = r.range(12, 40);
      int d = static_cast<int>(r.range(5, 60));
      return Grow(c, "dcf.batch_keys", "", n, 8 * n, [&](int64_t m) -> Cost {
        GET(f, make(d));
        auto k = keys(*f, d, m);
        auto x = Random(r, d, m);
        return Measure([&] { return Size(f->BatchEvaluate<uint64_t>(k, x), x.size()); });
      }, static_cast<double>(n * d), static_cast<double>(8 * n * d));
    }
    default: {
      // The gate, by its number of intervals, group size or keys.
      int axis = static_cast<int>(r.below(3));
      double low = axis == 1 ? 15 : 6;
      int64_t fixed = r.range(4, 10);
      int d0 = static_cast<int>(r.range(8, 30));
      bool gen = r.chance(1, 3) && axis != 2;
      double scale = static_cast<double>(axis == 0 ? d0 : axis == 1 ? fixed : d0 * fixed);
      return Grow(c, gen ? "mic.generate" : "mic.evaluate", "", low, 8 * low, [&](int64_t n) -> Cost {
        int64_t intervals = axis == 0 ? n : fixed, nkeys = axis == 2 ? n : 1;
        int d = axis == 1 ? static_cast<int>(n) : d0;
        dp::fss_gates::MicParameters p;
        p.set_log_group_size(d);
        for (int64_t i = 0; i < intervals; ++i) {
          auto* v = p.add_intervals();
          absl::uint128 x = r.bits(d), y = r.bits(d);
          if (x > y) std::swap(x, y);
          v->mutable_lower_bound()->mutable_value_uint128()->set_high(absl::Uint128High64(x));
          v->mutable_lower_bound()->mutable_value_uint128()->set_low(absl::Uint128Low64(x));
          v->mutable_upper_bound()->mutable_value_uint128()->set_high(absl::Uint128High64(y));
          v->mutable_upper_bound()->mutable_value_uint128()->set_low(absl::Uint128Low64(y));
        }
        GET(gate, dp::fss_gates::MultipleIntervalContainmentGate::Create(p));
        std::vector<dp::fss_gates::MicKey> k;
        auto x = Random(r, d, nkeys);
        auto masks = Random(r, d, intervals);
        absl::uint128 in = r.bits(d);
        if (gen) return Measure([&] { return gate->Gen(in, masks).status(); });
        for (int64_t i = 0; i < nkeys; ++i) {
          GET(pair, gate->Gen(r.bits(d), masks));
          k.push_back(pair.second);
        }
        return Measure([&] { return Size(gate->BatchEval(absl::MakeConstSpan(k), x), static_cast<size_t>(nkeys * intervals)); });
      }, low * scale, 8 * low * scale);
    }
  }
}

VH_GROUP(hashing, 72, 1440) {
  Rng& r = c.rng;
  int64_t n = r.range(300, 900);
  auto functions = [&](int k) { return FunctionsOf(RandomHashFamily(r), k); };
  auto inputs = [&](int64_t m) {
    Bytes v;
    for (int64_t i = 0; i < m; ++i) v.push_back(absl::StrCat("key ", i, " ", r.u64()));
    return v;
  };
  switch (c.index % 9) {
    case 0:
      return Grow(c, "hash.fixed_key", "", n, 8 * n, [&](int64_t m) -> Cost {
        GET(h, dp::Aes128FixedKeyHash::Create(r.wide()));
        auto in = Random(r, 128, m);
        std::vector<absl::uint128> out(in.size());
        return Measure([&] { return h.Evaluate(in, absl::MakeSpan(out)); });
      });
    case 1:
      return Grow(c, "prng.one_read", "", n, 8 * n, [&](int64_t m) -> Cost {
        GET(p, dp::Aes128CtrSeededPrng::Create(r.bytes(16)));
        return Measure([&] { return p->GetRandomBytes(static_cast<int>(m)).size() == static_cast<size_t>(m) ? absl::OkStatus() : absl::InternalError("size"); });
      });
    case 2: {
      int64_t piece = r.range(1, 90);
      return Grow(c, "prng.many_reads", "", n, 8 * n, [&](int64_t m) -> Cost {
        GET(p, dp::Aes128CtrSeededPrng::Create(r.bytes(16)));
        return Measure([&] {
          for (int64_t i = 0; i < m; ++i) p->GetRandomBytes(static_cast<int>(piece));
          return absl::OkStatus();
        });
      }, static_cast<double>(n * (16 + piece)), static_cast<double>(8 * n * (16 + piece)));
    }
    case 3:
      return Grow(c, "hash.functions", "", 16, 128, [&](int64_t m) -> Cost {
        auto family = dp::CreateHashFamilyFromConfig(RandomHashFamily(r));
        if (!family.ok()) return Refused(family.status());
        return Measure([&] { return Size(dp::CreateHashFunctions(*std::move(family), static_cast<int>(m)), static_cast<size_t>(m)); });
      });
    case 4:
      return Grow(c, "hash.input_length", "", n, 8 * n, [&](int64_t m) -> Cost {
        auto f = functions(1);
        std::string in = r.bytes(static_cast<size_t>(m));
        return Measure([&] { return f[0](in, 1000) < 1000 ? absl::OkStatus() : absl::InternalError("range"); });
      });
    case 5:
    case 6:
    case 7: {
      int kind = static_cast<int>(c.index % 9) - 5;
      static const char* const kNames[] = {"table.simple", "table.multiple_choice", "table.cuckoo"};
      bool bounded = r.chance(1, 2);
      return Grow(c, kNames[kind], "", n, 8 * n, [&](int64_t m) -> Cost {
        auto in = inputs(m);
        auto f = functions(kind == 0 ? 1 : 3);
        int buckets = static_cast<int>(kind == 2 ? 2 * m : std::max<int64_t>(1, m / 4));
        auto fill = [&](auto& table) {
          return Measure([&] {
            for (auto& x : in) {
              absl::Status s = table->Insert(x);
              if (!s.ok()) return s;
            }
            return absl::OkStatus();
          });
        };
        absl::optional<int> limit;
        if (bounded) limit = 1000;
        if (kind == 0) {
          GET(t, dp::SimpleHashTable::Create(std::move(f), buckets, limit));
          return fill(t);
        } else if (kind == 1) {
          GET(t, dp::MultipleChoiceHashTable::Create(std::move(f), buckets, limit));
          return fill(t);
        }
        GET(t, dp::CuckooHashTable::Create(std::move(f), buckets, static_cast<int>(m)));
        return fill(t);
      });
    }
    default:
      return Grow(c, "table.read", "", n, 8 * n, [&](int64_t m) -> Cost {
        auto in = inputs(m);
        GET(t, dp::SimpleHashTable::Create(functions(2), static_cast<int>(m)));
        for (auto& x : in) (void)t->Insert(x);
        return Measure([&] {
          uint64_t sum = 0;
          for (int i = 0; i < m; ++i) sum += t->GetTable()[static_cast<size_t>(i)].size();
          return sum == 2 * static_cast<uint64_t>(m) ? absl::OkStatus() : absl::InternalError("table");
        });
      });
  }
}

World Sized(Rng& r, PirKind kind, int64_t n, size_t value) {
  World w;
  w.kind = kind;
  for (int64_t i = 0; i < n; ++i) w.records.emplace_back(absl::StrCat("k", i, "/", r.below(1000)), r.bytes(value));
  if (kind == DENSE) {
    w.config.mutable_dense_dpf_pir_config()->set_num_elements(n);
  } else if (kind == SIMPLE) {
    auto& p = *w.params.mutable_simple_hashing_sparse_dpf_pir_server_params();
    *p.mutable_hash_family_config() = RandomHashFamily(r);
    p.set_num_buckets(n);
  } else {
    auto& p = *w.params.mutable_cuckoo_hashing_sparse_dpf_pir_server_params();
    p.set_num_hash_functions(3);
    p.set_num_buckets(2 * n);
    *p.mutable_hash_family_config() = RandomHashFamily(r);
  }
  return w;
}
Query Ask(Rng& r, const World& w, int64_t queries) {
  Query q;
  for (int64_t i = 0; i < queries; ++i) {
    uint64_t at = r.below(w.records.size());
    if (w.kind == DENSE) q.indices.push_back(static_cast<int>(at));
    else q.keys.push_back(w.records[at].first);
  }
  return q;
}
double MessageSize(const google::protobuf::MessageLite& m) { return static_cast<double>(m.ByteSizeLong()); }

// By the number of records.
template <PirKind kKind>
void Database(Case& c, int which) {
  Rng& r = c.rng;
  static const std::string kName = KindName(kKind);
  size_t value = r.range(8, 64);
  int64_t n = r.range(400, 900);
  switch (which) {
    case 0: {
      std::string what = "db.build_" + kName;
      return Grow(c, what, "", n, 8 * n, [&](int64_t m) -> Cost {
        World w = Sized(r, kKind, m, value);
        return Measure([&] {
          if constexpr (kKind == DENSE) return DenseDb(w).status();
          else if constexpr (kKind == CUCKOO) return CuckooDb(w).status();
          else return SimpleDb(w).status();
        });
      }, static_cast<double>(n) * (64 + value), 8.0 * n * (64 + value));
    }
    case 1:
    case 2: {
      // A plain request: by the records, or by the queries in it.
      bool records = which == 1;
      int64_t low = records ? 2 * n : 4, fixed = records ? r.range(1, 4) : 500;
      std::string what = (records ? "server.records_" : "server.queries_") + kName;
      double unit = static_cast<double>(fixed);
      return Grow(c, what, "", low, 8 * low, [&](int64_t m) -> Cost {
        World w = Sized(r, kKind, records ? m : fixed, value);
        Hybrid h(1);
        GET(server, MakeServer(w, PirRole::PLAIN));
        if (kKind != DENSE) w.params = server->GetPublicParams();
        GET(client, MakeClient(w, &h));
        GET(req, client.CreatePlainRequests(Ask(r, w, records ? fixed : m)));
        dp::PirRequest q = Wrap(std::get<0>(req));
        double size = 0;
        Cost cost = Measure([&] {
          auto a = server->HandleRequest(q);
          if (a.ok()) size = MessageSize(*a);
          return a.status();
        });
        cost.size = records ? 0 : size;
        return cost;
      }, static_cast<double>(low) * unit * (8 + value), 8.0 * low * unit * (8 + value));
    }
    case 3: {
      // Leader and helper, by the queries.
      std::string what = "pair.queries_" + kName;
      return Grow(c, what, "", 4, 32, [&](int64_t m) -> Cost {
        World w = Sized(r, kKind, 300, value);
        Hybrid h(1);
        GET(pair, MakePair(w, &h));
        if (kKind != DENSE) w.params = pair.leader->GetPublicParams();
        GET(client, MakeClient(w, &h));
        GET(req, client.CreateRequest(Ask(r, w, m)));
        double size = 0;
        Cost cost = Measure([&] {
          auto a = pair.leader->HandleRequest(req.first);
          if (a.ok()) size = MessageSize(*a);
          return a.status();
        });
        cost.size = size;
        return cost;
      }, 4.0 * 300 * (8 + value), 32.0 * 300 * (8 + value));
    }
    case 4:
    case 5: {
      // The client's request and what it makes of the answer, by the queries.
      bool answer = which == 5;
      std::string what = (answer ? "client.answers_" : "client.queries_") + kName;
      return Grow(c, what, "", 4, 32, [&](int64_t m) -> Cost {
        World w = Sized(r, kKind, 300, value);
        Hybrid h(1);
        GET(pair, MakePair(w, &h));
        if (kKind != DENSE) w.params = pair.leader->GetPublicParams();
        GET(client, MakeClient(w, &h));
        Query q = Ask(r, w, m);
        if (!answer) {
          double size = 0;
          Cost cost = Measure([&] {
            auto req = client.CreateRequest(q);
            if (req.ok()) size = MessageSize(req->first) + MessageSize(req->second) + static_cast<double>(h.encrypts.back().plain.size());
            return req.status();
          });
          cost.size = size;
          return cost;
        }
        GET(req, client.CreateRequest(q));
        GET(a, pair.leader->HandleRequest(req.first));
        return Measure([&] { return Size(client.HandleResponse(a, req.second), static_cast<size_t>(m)); });
      });
    }
    default: {
      // Requests grow with the logarithm of the number of records.
      std::string what = "client.log_records_" + kName;
      return Grow(c, what, "", 10, 30, [&](int64_t m) -> Cost {
        World w = Sized(r, kKind, 3, value);
        Hybrid h(1);
        int64_t size = int64_t{1} << m;
        if (kKind == DENSE) w.config.mutable_dense_dpf_pir_config()->set_num_elements(size);
        else if (kKind == SIMPLE) w.params.mutable_simple_hashing_sparse_dpf_pir_server_params()->set_num_buckets(size);
        else w.params.mutable_cuckoo_hashing_sparse_dpf_pir_server_params()->set_num_buckets(size);
        GET(client, MakeClient(w, &h));
        Query q = Ask(r, w, 3);
        double bytes = 0;
        Cost cost = Measure([&] {
          auto req = client.CreateRequest(q);
          if (req.ok()) bytes = MessageSize(req->first) + static_cast<double>(h.encrypts.back().plain.size());
          return req.status();
        });
        cost.size = bytes;
        return cost;
      });
    }
  }
}
VH_GROUP(pir, 126, 2520) {
  int which = static_cast<int>((c.index / 3) % 7);
  switch (c.index % 3) {
    case 0: return Database<DENSE>(c, which);
    case 1: return Database<CUCKOO>(c, which);
    default: return Database<SIMPLE>(c, which);
  }
}

}  // namespace
}  // namespace vh
