// needs: ops dpf
// C12: the fixed-key AES hash equals its definition for any batch and buffer.
#include <stdlib.h>

#include <cstring>
#include <memory>

#include "dpf/aes_128_fixed_key_hash.h"
#include "dpf/internal/evaluate_prg_hwy.h"
#include "hwy/highway.h"
#include "hwy/targets.h"
#include "ops/ops.h"

namespace vh {
namespace {

using Hash = dpflib::Aes128FixedKeyHash;

u128 RandomKey(Rng& r) {
  static const u128 kKeys[] = {absl::MakeUint128(0x5be037ccf6a03de5ULL, 0x935f08d0a5b6a2fdULL),
                               absl::MakeUint128(0xef94b6aedebb026cULL, 0xe2ea1fe0f66f4d0bULL),
                               absl::MakeUint128(0x05a5d1588c5423e4ULL, 0x46a31101b21d1c98ULL)};
  return r.chance(1, 4) ? kKeys[r.below(3)] : r.chance(1, 4) ? r.edgy(128) : r.wide();
}
size_t RandomCount(Rng& r) {
  switch (r.below(6)) {
    case 0: return r.below(4);
    case 1: return 64 * (1 + r.below(5)) + r.below(3) - 1;
    case 2: return 8 * (1 + r.below(20)) + r.below(3) - 1;
    case 3: return r.below(700);
    default: return r.below(40);
  }
}
u128 RandomBlock(Rng& r) {
  switch (r.below(6)) {
    case 0: return r.edgy(128);
    case 1: { uint64_t x = r.u64(); return absl::MakeUint128(x, x); }      // low half of sigma's input cancels
    case 2: return absl::MakeUint128(r.u64(), 0);
    case 3: return absl::MakeUint128(0, r.u64());
    default: return r.wide();
  }
}

struct Free {
  void operator()(void* p) const { free(p); }
};
// Exactly `n` blocks, `skew` bytes past a 128-byte boundary (a multiple of 16).
struct Blocks {
  Blocks(size_t n, size_t skew) : n(n) {
    void* q = nullptr;
    if (posix_memalign(&q, 128, 16 * n + skew + (n + skew == 0)) != 0) abort();
    p.reset(q);
    d = reinterpret_cast<absl::uint128*>(static_cast<char*>(q) + skew);
  }
  size_t n;
  std::unique_ptr<void, Free> p;
  absl::uint128* d;
};

bool Agree(Case& c, const char* key, const std::vector<u128>& want, const absl::uint128* got, size_t n, const std::vector<u128>& in) {
  for (size_t i = 0; i < n; ++i)
    if (got[i] != want[i]) {
      c.Fail(key, "block %zu of %zu: H(%s): got %s, want %s", i, n, Str(in[i]).c_str(), Str(got[i]).c_str(), Str(want[i]).c_str());
      return false;
    }
  return true;
}

VH_GROUP(batches, 18000, 300000) {
  Rng& r = c.rng;
  u128 key = RandomKey(r);
  auto made = Hash::Create(key);
  VH_CHECK(c, made.ok(), "create", "%s", S(made.status()).c_str());
  std::unique_ptr<Hash> h;
  if (r.chance(1, 3)) {  // moved
    h = std::make_unique<Hash>(std::move(*made));
    if (r.chance(1, 2)) {
      auto other = Hash::Create(r.wide());
      VH_CHECK(c, other.ok(), "create", "%s", S(other.status()).c_str());
      *other = std::move(*h);
      h = std::make_unique<Hash>(std::move(*other));
    }
  } else {
    h = std::make_unique<Hash>(std::move(*made));
  }
  VH_CHECK(c, h->key() == key, "key", "%s", Str(h->key()).c_str());
  RefHash ref(key);
  int calls = 1 + static_cast<int>(r.below(3));
  c.Desc("key=%s", Str(key).c_str());
  for (int k = 0; k < calls; ++k) {
    size_t n = RandomCount(r);
    size_t skew = r.chance(1, 2) ? 0 : 16 * r.below(8);
    std::vector<u128> in(n), want(n);
    for (auto& x : in) x = RandomBlock(r);
    for (size_t i = 0; i < n; ++i) want[i] = ref(in[i]);
    int mode = static_cast<int>(r.below(3));
    c.Desc(" %zu/%d/%zu", n, mode, skew);
    if (mode == 0) {  // separate buffers
      Blocks a(n, skew), b(n, r.chance(1, 2) ? 0 : 16 * r.below(8));
      std::copy(in.begin(), in.end(), a.d);
      auto st = h->Evaluate(absl::MakeConstSpan(a.d, n), absl::MakeSpan(b.d, n));
      VH_CHECK(c, st.ok(), "refused", "%zu: %s", n, S(st).c_str());
      if (!Agree(c, "hash_differs", want, b.d, n, in)) return;
      for (size_t i = 0; i < n; ++i) VH_CHECK(c, a.d[i] == in[i], "input_changed", "block %zu", i);
      c.Count("separate");
    } else if (mode == 1) {  // in place
      Blocks a(n, skew);
      std::copy(in.begin(), in.end(), a.d);
      auto st = h->Evaluate(absl::MakeConstSpan(a.d, n), absl::MakeSpan(a.d, n));
      VH_CHECK(c, st.ok(), "refused", "%zu: %s", n, S(st).c_str());
      if (!Agree(c, "in_place_differs", want, a.d, n, in)) return;
      c.Count("in_place");
    } else {  // partial overlap
      size_t d = 1 + r.below(r.chance(1, 2) ? 5 : n + 3);
      bool up = r.chance(1, 2);
      Blocks a(n + d, skew);
      absl::uint128 *pi = up ? a.d : a.d + d, *po = up ? a.d + d : a.d;
      for (size_t i = 0; i < n + d; ++i) a.d[i] = 7;
      std::copy(in.begin(), in.end(), pi);
      auto st = h->Evaluate(absl::MakeConstSpan(pi, n), absl::MakeSpan(po, n));
      VH_CHECK(c, st.ok(), "refused", "%zu: %s", n, S(st).c_str());
      if (!Agree(c, "overlap_differs", want, po, n, in)) return;
      c.Count(up ? "overlap_up" : "overlap_down");
    }
    c.Count("blocks", n);
  }
  // Splitting does not matter.
  size_t n = RandomCount(r);
  std::vector<absl::uint128> in(n), whole(n), parts(n);
  for (auto& x : in) x = RandomBlock(r);
  VH_CHECK(c, h->Evaluate(in, absl::MakeSpan(whole)).ok(), "refused", "%zu", n);
  for (size_t i = 0; i < n;) {
    size_t m = std::min(n - i, 1 + r.below(r.chance(1, 2) ? 3 : 150));
    VH_CHECK(c, h->Evaluate(absl::MakeConstSpan(in).subspan(i, m), absl::MakeSpan(parts).subspan(i, m)).ok(), "refused", "%zu", m);
    i += m;
  }
  VH_CHECK(c, whole == parts, "batch_dependent", "%zu", n);
  // Mismatched lengths leave the output alone.
  size_t m = r.chance(1, 2) ? n + 1 + r.below(3) : n ? r.below(n) : 1;
  std::vector<absl::uint128> out(m, 5);
  auto st = h->Evaluate(in, absl::MakeSpan(out));
  VH_CHECK(c, st.code() == absl::StatusCode::kInvalidArgument, "length_mismatch", "%zu, %zu: %s", n, m, S(st).c_str());
  c.Count("mismatch_refused");
}

// Batches beyond what small counters hold, in every buffer arrangement.
VH_GROUP(large, 24, 400) {
  Rng& r = c.rng;
  u128 key = RandomKey(r);
  auto h = Hash::Create(key);
  VH_CHECK(c, h.ok(), "create", "%s", S(h.status()).c_str());
  RefHash ref(key);
  size_t n = r.chance(1, 2) ? 65536 + r.below(4000) : 1000 + r.below(60000), skew = 16 * r.below(8);
  int mode = static_cast<int>(r.below(4));
  size_t d = mode < 2 ? 0 : 1 + r.below(r.chance(1, 2) ? 100 : n);
  bool up = mode == 2;
  c.Desc("key=%s n=%zu mode=%d by %zu", Str(key).c_str(), n, mode, d);
  std::vector<u128> in(n), want(n);
  for (auto& x : in) x = RandomBlock(r);
  for (size_t i = 0; i < n; ++i) want[i] = ref(in[i]);
  Blocks a(n + d, skew), b(mode ? 0 : n, 16 * r.below(8));
  absl::uint128 *pi = up ? a.d : a.d + d, *po = mode == 0 ? b.d : up ? a.d + d : a.d;
  std::copy(in.begin(), in.end(), pi);
  auto st = h->Evaluate(absl::MakeConstSpan(pi, n), absl::MakeSpan(po, n));
  VH_CHECK(c, st.ok(), "refused", "%zu: %s", n, S(st).c_str());
  if (!Agree(c, mode ? "overlap_differs" : "hash_differs", want, po, n, in)) return;
  c.Count("blocks", n);
}

// One object that hashes very often.
VH_GROUP(long_life, 24, 300) {
  Rng& r = c.rng;
  u128 key = RandomKey(r);
  auto h = Hash::Create(key);
  VH_CHECK(c, h.ok(), "create", "%s", S(h.status()).c_str());
  RefHash ref(key);
  int calls = c.index % 4 == 0 ? 70000 : 500 + static_cast<int>(r.below(4000));
  c.Desc("key=%s, %d calls", Str(key).c_str(), calls);
  std::vector<u128> in(1 + r.below(4)), want(in.size());
  std::vector<absl::uint128> out(in.size());
  for (int k = 0; k < calls; ++k) {
    if (k % 50 == 0)
      for (size_t i = 0; i < in.size(); ++i) in[i] = RandomBlock(r), want[i] = ref(in[i]);
    size_t n = r.chance(1, 50) ? 0 : 1 + r.below(in.size());
    auto st = h->Evaluate(absl::MakeConstSpan(in).subspan(0, n), absl::MakeSpan(out).subspan(0, n));
    VH_CHECK(c, st.ok(), "refused", "call %d: %s", k, S(st).c_str());
    if (!Agree(c, "hash_differs", want, out.data(), n, in)) return;
    c.Count("long_life_calls");
    if (k % 9000 == 8999) {
      auto moved = std::make_unique<Hash>(std::move(*h));
      *h = std::move(*moved);
    }
  }
}

// Different keys and inputs give different hashes; the same object keeps no state.
VH_GROUP(stateless, 3000, 40000) {
  Rng& r = c.rng;
  std::vector<u128> keys;
  std::vector<Hash> hs;
  for (int i = 0; i < 4; ++i) {
    keys.push_back(i ? keys[0] ^ Shl(1, static_cast<int>(r.below(128))) : RandomKey(r));
    auto h = Hash::Create(keys.back());
    VH_CHECK(c, h.ok(), "create", "%s", S(h.status()).c_str());
    hs.push_back(std::move(*h));
  }
  c.Desc("key=%s", Str(keys[0]).c_str());
  for (int k = 0; k < 30; ++k) {
    size_t i = r.below(4);
    size_t n = 1 + r.below(80);
    std::vector<absl::uint128> in(n), out(n);
    u128 base = RandomBlock(r);
    for (size_t j = 0; j < n; ++j) in[j] = base ^ (j ? Shl(1, static_cast<int>(r.below(128))) : u128{0});
    VH_CHECK(c, hs[i].Evaluate(in, absl::MakeSpan(out)).ok(), "refused", "%zu", n);
    RefHash ref(keys[i]);
    for (size_t j = 0; j < n; ++j) VH_CHECK(c, out[j] == ref(in[j]), "hash_differs", "key %s: H(%s)", Str(keys[i]).c_str(), Str(in[j]).c_str());
    c.Count("interleaved", n);
  }
}

// The vectorized form used inside tree evaluation, on every target.
class WithTarget {
 public:
  explicit WithTarget(int64_t t) {
    hwy::SetSupportedTargetsForTest(t);
    hwy::GetChosenTarget().Update(hwy::SupportedTargets());
  }
  ~WithTarget() {
    hwy::SetSupportedTargetsForTest(0);
    hwy::GetChosenTarget().Update(hwy::SupportedTargets());
  }
};

VH_GROUP(vectorized, 6000, 80000) {
  Rng& r = c.rng;
  u128 kl = RandomKey(r), kr = RandomKey(r);
  auto hl = Hash::Create(kl), hr = Hash::Create(kr);
  VH_CHECK(c, hl.ok() && hr.ok(), "create", "%s", S(hl.status()).c_str());
  RefHash rl(kl), rr(kr);
  size_t n = 1 + RandomCount(r);
  std::vector<u128> in(n), want(n);
  Blocks seeds(n, r.chance(1, 2) ? 0 : 16 * r.below(8)), paths(n, r.chance(1, 2) ? 0 : 16 * r.below(8)),
      out(n, r.chance(1, 2) ? 0 : 16 * r.below(8)), cw(1, 0);
  std::unique_ptr<bool[]> ctl(new bool[n]), octl(new bool[n]);
  bool zero = false;
  cw.d[0] = 0;
  c.Desc("n=%zu keys=%s,%s", n, Str(kl).c_str(), Str(kr).c_str());
  for (size_t i = 0; i < n; ++i) {
    seeds.d[i] = in[i] = RandomBlock(r);
    bool right = r.chance(1, 2);
    paths.d[i] = (r.wide() & ~u128{1}) | u128{right};
    ctl[i] = r.chance(1, 2);
    want[i] = right ? rr(in[i]) : rl(in[i]);
  }
  auto targets = hwy::SupportedAndGeneratedTargets();
  if (targets.empty()) targets.push_back(0);
  for (int64_t t : targets) {
    WithTarget w(t);
    auto st = dpflib::dpf_internal::EvaluateSeeds(static_cast<int64_t>(n), 1, 1, seeds.d, ctl.get(), paths.d, 0, cw.d, &zero, &zero, *hl,
                                                  *hr, out.d, octl.get());
    VH_CHECK(c, st.ok(), "refused", "%s", S(st).c_str());
    for (size_t i = 0; i < n; ++i)
      VH_CHECK(c, out.d[i] == (want[i] & ~u128{1}) && octl[i] == ((want[i] & 1) != 0), "vector_hash_differs",
               "target %lld: H(%s), block %zu of %zu", (long long)t, Str(in[i]).c_str(), i, n);
    c.Count("vectorized_blocks", n);
  }
  auto st = dpflib::dpf_internal::EvaluateSeedsNoHwy(static_cast<int64_t>(n), 1, 1, seeds.d, ctl.get(), paths.d, 0, cw.d, &zero, &zero,
                                                     *hl, *hr, out.d, octl.get());
  VH_CHECK(c, st.ok(), "refused", "%s", S(st).c_str());
  for (size_t i = 0; i < n; ++i)
    VH_CHECK(c, out.d[i] == (want[i] & ~u128{1}) && octl[i] == ((want[i] & 1) != 0), "portable_hash_differs", "H(%s), block %zu of %zu",
             Str(in[i]).c_str(), i, n);
}

}  // namespace
}  // namespace vh
