// needs: ops pir
// C04: vectorized kernels equal the portable code for every target and input.
#include <stdlib.h>

#include <cstring>
#include <memory>

#include "dpf/internal/evaluate_prg_hwy.h"
#include "hwy/targets.h"
#include "hwy/highway.h"
#include "ops/ops.h"
#include "pir/dense_dpf_pir_database.h"
#include "pir/internal/inner_product_hwy.h"

namespace vh {
namespace {

void Copy(void* to, const void* from, size_t n) {
  if (n) memcpy(to, from, n);
}
void Fill(void* to, int v, size_t n) {
  if (n) memset(to, v, n);
}
int Cmp(const void* a, const void* b, size_t n) { return n ? memcmp(a, b, n) : 0; }

// Memory of exactly the given size (so that AddressSanitizer sees every byte
// beyond it), at an address that is `skew` bytes past a 256-byte boundary.
class Exact {
 public:
  Exact(size_t size, size_t skew) : skew_(skew), size_(size) {
    void* p = nullptr;
    if (posix_memalign(&p, 256, size + skew + (size + skew == 0)) != 0) abort();
    base_ = static_cast<uint8_t*>(p);
    Fill(base_, 0x5a, skew);
  }
  ~Exact() { free(base_); }
  Exact(const Exact&) = delete;
  template <typename T = uint8_t>
  T* get() { return reinterpret_cast<T*>(base_ + skew_); }
  // Bytes before the memory handed out are untouched.
  bool Intact() const {
    for (size_t i = 0; i < skew_; ++i)
      if (base_[i] != 0x5a) return false;
    return true;
  }
  size_t size() const { return size_; }

 private:
  size_t skew_, size_;
  uint8_t* base_;
};

const std::vector<int64_t>& Targets() {
  static const auto* t = new std::vector<int64_t>(hwy::SupportedAndGeneratedTargets());
  return *t;
}

// Makes every dynamic dispatch go to one target for the lifetime of the object.
class WithTarget {
 public:
  explicit WithTarget(int64_t t) {
    hwy::SetSupportedTargetsForTest(t);
    hwy::GetChosenTarget().Update(hwy::SupportedTargets());
  }
  ~WithTarget() {
    hwy::SetSupportedTargetsForTest(0);
    hwy::GetChosenTarget().Update(hwy::SupportedTargets());
  }
};

void CountTarget(Case& c, int64_t t) {
#if HWY_TARGET == HWY_SCALAR
  (void)t;
  c.Count("target_scalar_only");
#else
  c.Count((std::string("target_") + hwy::TargetName(t)).c_str());
#endif
}

std::vector<int64_t> TargetsOrDefault() {
  auto t = Targets();
  if (t.empty()) t.push_back(0);
  return t;
}

// A number of blocks near multiples of the vector and batch sizes.
int64_t BlockCount(Rng& rng) {
  switch (rng.below(6)) {
    case 0: return 1 + static_cast<int64_t>(rng.below(5));
    case 1: return 4 * (1 + rng.below(12)) + rng.below(3) - 1;
    case 2: return 16 * (1 + rng.below(9)) + rng.below(3) - 1;
    case 3: return 64 * (1 + rng.below(4)) + rng.below(3) - 1;
    case 4: return 1 + static_cast<int64_t>(rng.below(300));
    default: return static_cast<int64_t>(rng.below(20));
  }
}

const u128 kKeyLeft = absl::MakeUint128(0x5be037ccf6a03de5ULL, 0x935f08d0a5b6a2fdULL);
const u128 kKeyRight = absl::MakeUint128(0xef94b6aedebb026cULL, 0xe2ea1fe0f66f4d0bULL);

VH_GROUP(tree_evaluation, 4000, 60000) {
  Rng& r = c.rng;
  bool huge = c.index % 150 == 149;
  int64_t n = huge ? 1000 + static_cast<int64_t>(r.below(r.chance(1, 4) ? 69000 : 4000)) : BlockCount(r);
  int levels = huge ? 1 + static_cast<int>(r.below(3)) : r.chance(1, 4) ? static_cast<int>(r.below(131)) : r.chance(1, 8) ? 0 : 1 + static_cast<int>(r.below(12));
  if (n > 150 && levels > 40) levels = 40;
  bool per_seed = r.chance(1, 2);
  int shift = r.chance(1, 2) ? 0 : r.chance(1, 3) ? static_cast<int>(r.below(200)) : static_cast<int>(r.below(129));
  bool in_place = r.chance(1, 3);
  int64_t ncw = per_seed ? n * levels : levels;
  // Which of the four block arrays are misaligned.
  size_t skew[4] = {0, 0, 0, 0};
  int align = static_cast<int>(r.below(4));
  if (align == 1)
    for (auto& s : skew) s = 16 * r.below(16);
  if (align == 2) skew[r.below(4)] = 16;
  if (align == 3) skew[r.below(4)] = 16 * (1 + r.below(8));
  u128 kl = r.chance(1, 2) ? kKeyLeft : r.wide(), kr = r.chance(1, 2) ? kKeyRight : r.wide();
  c.Desc("seeds=%ld levels=%d per_seed=%d shift=%d in_place=%d skew=%zu,%zu,%zu,%zu ", (long)n, levels, per_seed, shift,
         in_place, skew[0], skew[1], skew[2], skew[3]);
  auto pl = dpflib::Aes128FixedKeyHash::Create(kl), pr = dpflib::Aes128FixedKeyHash::Create(kr);
  VH_CHECK(c, pl.ok() && pr.ok(), "hash_refused", "%s", S(pl.status()).c_str());

  std::vector<absl::uint128> seeds(n), paths(n), cws(ncw);
  std::vector<uint8_t> ctl(n), cl(ncw), cr(ncw);
  int density = static_cast<int>(r.below(4));
  auto bit = [&]() -> uint8_t { return density == 0 ? 0 : density == 1 ? 1 : r.chance(1, 2); };
  for (auto& s : seeds) s = r.chance(1, 8) ? r.edgy(128) : r.wide();
  for (auto& p : paths) p = r.chance(1, 4) ? r.edgy(128) : r.wide();
  for (auto& s : cws) s = r.chance(1, 8) ? u128{0} : r.wide();
  for (auto& b : ctl) b = bit();
  for (auto& b : cl) b = r.chance(1, 2);
  for (auto& b : cr) b = r.chance(1, 2);

  // Independent evaluation.
  std::vector<absl::uint128> want(seeds.begin(), seeds.end());
  std::vector<uint8_t> want_ctl = ctl;
  RefHash hl(kl), hr(kr);
  for (int64_t i = 0; i < n; ++i) {
    for (int j = 0; j < levels; ++j) {
      int b = levels - 1 - j + shift;
      bool right = b < 128 && ((paths[i] >> b) & 1) != 0;
      u128 s = right ? hr(want[i]) : hl(want[i]);
      int64_t k = per_seed ? j * n + i : j;
      bool t = want_ctl[i];
      if (t) s ^= cws[k];
      bool nt = (s & 1) != 0;
      if (t) nt ^= right ? cr[k] : cl[k];
      want[i] = s & ~u128{1};
      want_ctl[i] = nt;
    }
  }

  auto run = [&](int64_t target, bool portable) {
    Exact in(n * 16, skew[0]), path(n * 16, skew[1]), cw(ncw * 16, skew[2]), out(n * 16, skew[3]);
    Exact cin(n, r.below(4)), cout(n, r.below(4)), left(ncw, 0), right(ncw, 0);
    Copy(in.get(), seeds.data(), n * 16);
    Copy(path.get(), paths.data(), n * 16);
    Copy(cw.get(), cws.data(), ncw * 16);
    Copy(cin.get(), ctl.data(), n);
    Copy(left.get(), cl.data(), ncw);
    Copy(right.get(), cr.data(), ncw);
    Exact& o = in_place ? in : out;
    Exact& co = in_place ? cin : cout;
    auto* fn = portable ? dpflib::dpf_internal::EvaluateSeedsNoHwy : dpflib::dpf_internal::EvaluateSeeds;
    absl::Status s = fn(n, levels, static_cast<int>(ncw), in.get<absl::uint128>(), cin.get<bool>(),
                        path.get<absl::uint128>(), shift, cw.get<absl::uint128>(), left.get<bool>(), right.get<bool>(),
                        *pl, *pr, o.get<absl::uint128>(), co.get<bool>());
    const char* name = portable ? "portable" : target ? hwy::TargetName(target) : "default";
    VH_CHECK(c, s.ok(), "kernel_refused", "%s: %s", name, S(s).c_str());
    VH_CHECK(c, in.Intact() && path.Intact() && cw.Intact() && out.Intact() && cin.Intact() && cout.Intact(),
             "kernel_wrote_before_buffer", "%s", name);
    if (levels == 0) return;  // The output is undefined.
    for (int64_t i = 0; i < n; ++i) {
      VH_CHECK(c, o.get<absl::uint128>()[i] == want[i], std::string("seed_differs_") + name,
               "seed %ld: %s instead of %s", (long)i, Str(o.get<absl::uint128>()[i]).c_str(), Str(want[i]).c_str());
      VH_CHECK(c, co.get<uint8_t>()[i] == want_ctl[i], std::string("control_differs_") + name, "seed %ld: %d instead of %d",
               (long)i, co.get<uint8_t>()[i], want_ctl[i]);
    }
    if (!in_place)
      VH_CHECK(c, Cmp(in.get(), seeds.data(), n * 16) == 0 && Cmp(cin.get(), ctl.data(), n) == 0,
               "kernel_changed_input", "%s", name);
    VH_CHECK(c, Cmp(path.get(), paths.data(), n * 16) == 0 && Cmp(cw.get(), cws.data(), ncw * 16) == 0,
             "kernel_changed_input", "%s", name);
    c.Count("seeds_compared", n);
    if (!portable) CountTarget(c, target);
  };
  run(0, true);
  for (int64_t t : TargetsOrDefault()) {
    if (c.failed()) return;
    WithTarget w(t);
    run(t, false);
  }
  // A number of correction words that is neither one nor one per seed.
  if (n > 2 && levels > 0) {
    Exact in(n * 16, 0), path(n * 16, 0), cw((ncw + 1) * 16, 0), ctlb(n, 0), l(ncw + 1, 0), rr(ncw + 1, 0);
    Fill(ctlb.get(), 0, n);
    Fill(l.get(), 0, ncw + 1);
    Fill(rr.get(), 0, ncw + 1);
    absl::Status s = dpflib::dpf_internal::EvaluateSeeds(
        n, levels, static_cast<int>(ncw + 1), in.get<absl::uint128>(), ctlb.get<bool>(), path.get<absl::uint128>(), 0,
        cw.get<absl::uint128>(), l.get<bool>(), rr.get<bool>(), *pl, *pr, in.get<absl::uint128>(), ctlb.get<bool>());
    VH_CHECK(c, s.code() == absl::StatusCode::kInvalidArgument, "wrong_count_accepted", "%s", S(s).c_str());
  }
}

std::vector<std::string> RefInnerProduct(const std::vector<std::string>& values,
                                         const std::vector<std::vector<dpflib::XorWrapper<absl::uint128>>>& sel,
                                         size_t width) {
  std::vector<std::string> out(sel.size(), std::string(width, '\0'));
  for (size_t k = 0; k < sel.size(); ++k)
    for (size_t i = 0; i < values.size(); ++i)
      if (((sel[k][i / 128].value() >> (i % 128)) & 1) != 0)
        for (size_t b = 0; b < values[i].size(); ++b) out[k][b] ^= values[i][b];
  return out;
}

size_t ValueSize(Rng& rng) {
  switch (rng.below(5)) {
    case 0: return rng.below(4);
    case 1: return 16 * rng.below(10) + rng.below(3);
    case 2: return (64 * (1 + rng.below(5))) - 1 + rng.below(3);
    case 3: return rng.below(200);
    default: return rng.below(40);
  }
}

VH_GROUP(inner_product, 3000, 40000) {
  Rng& r = c.rng;
  size_t n = r.chance(1, 3) ? 126 + r.below(6) : r.chance(1, 10) ? 0 : 1 + r.below(r.chance(1, 4) ? 400 : 20);
  size_t k = 1 + r.below(r.chance(1, 50) ? 150 : r.chance(1, 3) ? 12 : 3);
  bool same_size = r.chance(1, 3);
  size_t fixed = ValueSize(r);
  std::vector<std::string> values(n);
  std::vector<std::unique_ptr<Exact>> mem;
  std::vector<absl::string_view> views;
  size_t width = 1 + r.below(3);
  int align = static_cast<int>(r.below(4));
  for (auto& v : values) {
    v = r.bytes(same_size ? fixed : ValueSize(r));
    width = std::max(width, v.size());
    size_t skew = align == 0 ? 0 : align == 1 ? 16 * r.below(9) : align == 2 ? r.below(70) : (r.chance(1, 2) ? 0 : r.below(65));
    mem.push_back(std::make_unique<Exact>(v.size(), skew));
    Copy(mem.back()->get(), v.data(), v.size());
    views.push_back(absl::string_view(mem.back()->get<char>(), v.size()));
  }
  if (r.chance(1, 4)) width += r.below(100);
  size_t blocks = (n + 127) / 128 + (r.chance(1, 3) ? r.below(3) : 0);
  std::vector<std::vector<dpflib::XorWrapper<absl::uint128>>> sel(k);
  int density = static_cast<int>(r.below(4));
  for (auto& s : sel)
    for (size_t i = 0; i < blocks; ++i)
      s.emplace_back(density == 0 ? r.edgy(128) : density == 1 ? absl::Uint128Max() : r.wide());
  c.Desc("values=%zu selections=%zu width=%zu align=%d blocks=%zu density=%d v=%016lx ", n, k, width, align, blocks,
         density, (unsigned long)r.u64());
  auto want = RefInnerProduct(values, sel, width);
  auto check = [&](const char* name, const absl::StatusOr<std::vector<std::string>>& got) {
    VH_CHECK(c, got.ok(), "product_refused", "%s: %s", name, S(got.status()).c_str());
    VH_CHECK(c, got->size() == k, "product_count", "%s: %zu", name, got->size());
    for (size_t i = 0; i < k; ++i)
      VH_CHECK(c, (*got)[i] == want[i], std::string("product_differs_") + name, "selection %zu: %s instead of %s", i,
               Hex((*got)[i]).c_str(), Hex(want[i]).c_str());
    for (size_t i = 0; i < n; ++i)
      VH_CHECK(c, views[i] == values[i] && mem[i]->Intact(), "product_changed_input", "%s: value %zu", name, i);
    c.Count("products", k);
  };
  if (blocks > 0 || n == 0) check("portable", dpflib::pir_internal::InnerProductNoHwy(views, sel, width));
  for (int64_t t : TargetsOrDefault()) {
    if (c.failed()) return;
    WithTarget w(t);
    check(t ? hwy::TargetName(t) : "default", dpflib::pir_internal::InnerProduct(views, sel, width));
    CountTarget(c, t);
  }
}

// The same through the public interfaces.
VH_GROUP(evaluation_per_target, 600, 8000) {
  Rng& r = c.rng;
  GenOptions go;
  const Ops* only = AllOps()[r.below(AllOps().size())];
  if (r.chance(1, 2)) go.only = only;
  auto lv = RandomLevels(r, go);
  u128 alpha = r.edgy(lv.back().ld);
  auto beta = RandomBetas(r, lv);
  c.Desc("levels=%s alpha=%s ", LevelsName(lv).c_str(), Str(alpha).c_str());
  auto d = MakeDpf(c, lv);
  if (!d) return;
  auto keys = GenAny(c, *d, lv, alpha, beta);
  VH_CHECK(c, keys.ok(), "keygen_refused", "%s", S(keys.status()).c_str());
  RefDpf ref(lv);
  int n = 1 + static_cast<int>(r.below(70));
  int last = static_cast<int>(lv.size()) - 1;
  std::vector<std::vector<absl::uint128>> xs;
  for (int i = 0; i <= last; ++i) xs.push_back(RandomPoints(r, lv, i, alpha, n));
  const DpfKey& key = r.chance(1, 2) ? keys->first : keys->second;
  for (int64_t t : TargetsOrDefault()) {
    WithTarget w(t);
    const char* name = t ? hwy::TargetName(t) : "default";
    for (int i = 0; i <= last; ++i) {
      auto got = FindOps(lv[i].t)->EvalAt(*d, key, i, xs[i]);
      VH_CHECK(c, got.ok(), "eval_refused", "%s: %s", name, S(got.status()).c_str());
      for (int k = 0; k < n; ++k) {
        auto want = ref.Eval(key, i, xs[i][k]);
        VH_CHECK(c, want && (*got)[k] == *want, std::string("eval_differs_") + name, "level %d point %s", i,
                 Str(xs[i][k]).c_str());
      }
    }
    if (go.only) {
      std::vector<DpfKey> ks(n);
      for (auto& k : ks) k = r.chance(1, 2) ? keys->first : keys->second;
      int level = 0;
      absl::Status s = only->Apply(*d, absl::MakeConstSpan(ks), xs[last], [&](std::vector<RVal> v) {
        for (int k = 0; k < n && !c.failed(); ++k) {
          auto want = ref.Eval(ks[k], level, Shr(xs[last][k], lv[last].ld - lv[level].ld));
          if (!want || v[k] != *want)
            c.Fail(std::string("apply_differs_") + name, "level %d point %s", level, Str(xs[last][k]).c_str());
        }
        ++level;
        return !c.failed();
      }, 0);
      VH_CHECK(c, s.ok(), "apply_refused", "%s: %s", name, S(s).c_str());
    }
    CountTarget(c, t);
  }
}

VH_GROUP(database_per_target, 400, 6000) {
  Rng& r = c.rng;
  size_t n = 1 + r.below(300);
  std::vector<std::string> values(n);
  size_t width = 0;
  dpflib::DenseDpfPirDatabase::Builder b;
  for (auto& v : values) {
    v = r.bytes(ValueSize(r));
    width = std::max(width, v.size());
    b.Insert(v);
  }
  auto db = b.Build();
  c.Desc("records=%zu width=%zu v=%016lx ", n, width, (unsigned long)Hash(values[0]));
  VH_CHECK(c, db.ok(), "build_refused", "%s", S(db.status()).c_str());
  size_t k = 1 + r.below(4);
  std::vector<std::vector<dpflib::XorWrapper<absl::uint128>>> sel(k);
  for (auto& s : sel)
    for (size_t i = 0; i < (n + 127) / 128; ++i) s.emplace_back(r.wide());
  auto want = RefInnerProduct(values, sel, width);
  if (width == 0) return;
  for (int64_t t : TargetsOrDefault()) {
    WithTarget w(t);
    auto got = (*db)->InnerProductWith(sel);
    VH_CHECK(c, got.ok() && *got == want, std::string("database_differs_") + (t ? hwy::TargetName(t) : "default"), "%s",
             S(got.status()).c_str());
    CountTarget(c, t);
  }
}

}  // namespace
}  // namespace vh
