// needs: vals ops dpf
// C09: values sampled from pseudorandom bytes are exact, sufficient and unbiased.
#include <climits>
#include <algorithm>
#include <cmath>
#include <cstring>
#include <memory>

#include "dpf/int_mod_n.h"
#include "dpf/internal/value_type_helpers.h"
#include "ops/ops.h"
#include "vals/vals.h"

namespace vh {
namespace {

constexpr auto kInvalid = absl::StatusCode::kInvalidArgument;

// Bytes in a heap block of exactly their size, so that ASan sees any overrun.
struct Exact {
  explicit Exact(const std::string& b) : n(b.size()), p(new char[b.size() ? b.size() : 1]) {
    std::memcpy(p.get(), b.data(), n);  // (a std::string may have spare room)
  }
  absl::string_view view() const { return absl::string_view(p.get(), n); }
  size_t n;
  std::unique_ptr<char[]> p;
};

std::string RandomBytes(Case& c, size_t n) {
  std::string b = c.rng.bytes(n);
  switch (c.rng.below(8)) {
    case 0: std::fill(b.begin(), b.end(), '\xff'); break;
    case 1: std::fill(b.begin(), b.end(), '\0'); break;
    case 2:
      for (auto& x : b)
        if (c.rng.chance(1, 2)) x = c.rng.chance(1, 2) ? '\xff' : '\0';
      break;
    case 3:
      if (n >= 16) std::fill(b.begin(), b.begin() + 16, c.rng.chance(1, 2) ? '\xff' : '\0');
      break;
    default: break;
  }
  return b;
}

VH_GROUP(from_bytes, 160000, 3000000) {
  const Vals* o = AllVals()[c.index % AllVals().size()];
  const RT& t = o->t;
  VH_CHECK(c, o->Direct() == t.Direct(), "direct", "%s", o->name.c_str());
  VH_CHECK(c, o->PerBlock() == ElementsPerBlock(t), "elements_per_block", "%s: %d", o->name.c_str(), o->PerBlock());
  double sec = c.rng.chance(1, 3) ? 0.5 : c.rng.chance(1, 2) ? 40 + static_cast<double>(c.rng.below(60)) : static_cast<double>(c.rng.below(129));
  auto bits = dpflib::dpf_internal::BitsNeeded(o->ToValueType(), sec);
  auto margin = SecurityMargin(t, sec);
  size_t n = static_cast<size_t>(BytesConsumed(t));
  if (margin && *margin > 0.01) {
    VH_CHECK(c, bits.ok(), "refused", "%s at %f: %s", o->name.c_str(), sec, S(bits.status()).c_str());
    if (t.Direct()) {
      VH_CHECK(c, *bits == t.TotalBits() && o->TotalBits() == t.TotalBits(), "direct_bits", "%s: %d", o->name.c_str(), *bits);
    } else {
      VH_CHECK(c, *bits >= 8 * static_cast<int>(n), "too_few_bits", "%s: %d bits for %zu bytes", o->name.c_str(), *bits, n);
      n = static_cast<size_t>(*bits + 7) / 8;
    }
  } else if (!margin) {
    VH_CHECK(c, !bits.ok(), "mixed_moduli_accepted", "%s", o->name.c_str());
  } else if (*margin < -0.01) {
    VH_CHECK(c, bits.status().code() == kInvalid, "unreachable_accepted", "%s at %f: %s", o->name.c_str(), sec,
             S(bits.status()).c_str());
    c.Count("unreachable");
  }
  if (c.rng.chance(1, 4)) n += c.rng.below(40);
  Exact b(RandomBytes(c, n));
  c.Desc("%s %s", o->name.c_str(), Hex(b.view()).c_str());
  auto want = FromBytes(t, b.view());
  VH_CHECK(c, want.has_value(), "reference", "%s", o->name.c_str());
  auto got = o->ArrayFromBytes(b.view());
  VH_CHECK(c, got == *want, "array_differs", "%s: %s: got %s, want %s", o->name.c_str(), Hex(b.view()).c_str(), Str(got[0]).c_str(),
           Str((*want)[0]).c_str());
  for (auto& v : got) VH_CHECK(c, InRange(t, v), "out_of_range", "%s: %s", o->name.c_str(), Str(v).c_str());
  // A single element.
  size_t one = t.Direct() ? static_cast<size_t>(t.TotalBits()) / 8 : b.n;
  Exact s(std::string(b.view().substr(0, one)));
  VH_CHECK(c, o->FromBytes(s.view()) == (*want)[0], "single_differs", "%s", o->name.c_str());
  c.Count(t.Direct() ? "direct_values" : "sampled_values");
  if (o->PerBlock() > 1) c.Count("packed_values");
}

// Types that exist only as descriptions.
VH_GROUP(described, 160000, 3000000) {
  RT t = RandomType(c.rng, 4);
  if (c.rng.chance(1, 6)) {  // many equal moduli
    RT m = RT::Mod(32 << c.rng.below(3), 3 + c.rng.bits(30));
    std::vector<RT> e(1 + c.rng.below(60), m);
    if (c.rng.chance(1, 2)) e.insert(e.begin() + static_cast<int>(c.rng.below(e.size())), RT::Int(64));
    t = RT::Tup(e);
  }
  double sec = c.rng.chance(1, 2) ? 40 + static_cast<double>(c.rng.below(70)) : static_cast<double>(c.rng.below(129)) + 0.25;
  auto margin = SecurityMargin(t, sec);
  if (margin && !t.Direct() && c.rng.chance(1, 3)) sec += *margin + (c.rng.chance(1, 2) ? 0.02 : -0.02);
  margin = SecurityMargin(t, sec);
  c.Desc("%s %f", t.Name().c_str(), sec);
  auto bits = dpflib::dpf_internal::BitsNeeded(TypeProto(t), sec);
  if (!margin) {
    VH_CHECK(c, !bits.ok(), "mixed_moduli_accepted", "%s", t.Name().c_str());
    c.Count("mixed_moduli");
  } else if (*margin > 0.01) {
    VH_CHECK(c, bits.ok(), "refused", "%s at %f: %s", t.Name().c_str(), sec, S(bits.status()).c_str());
    if (t.Direct()) VH_CHECK(c, *bits == t.TotalBits(), "direct_bits", "%s: %d", t.Name().c_str(), *bits);
    VH_CHECK(c, *bits >= (t.Direct() ? t.TotalBits() : 8 * BytesConsumed(t)), "too_few_bits", "%s: %d", t.Name().c_str(), *bits);
    c.Count("bits_declared");
  } else if (*margin < -0.01) {
    VH_CHECK(c, bits.status().code() == kInvalid, "unreachable_accepted", "%s at %f: %s", t.Name().c_str(), sec,
             S(bits.status()).c_str());
    c.Count("unreachable");
  }
}

VH_GROUP(modular_sampling, 160000, 3000000) {
  static std::vector<const Vals*>* mods = [] {
    auto* v = new std::vector<const Vals*>();
    for (auto* o : AllVals())
      if (o->IsMod()) v->push_back(o);
    return v;
  }();
  const Vals* o = (*mods)[c.index % mods->size()];
  const RT& t = o->t;
  int n = static_cast<int>(c.rng.chance(1, 20) ? 0 : 1 + c.rng.below(c.rng.chance(1, 4) ? 300 : 9));
  double top = n > 0 ? ModSecurity(n, t.mod) : 50;
  double sec = c.rng.chance(1, 2) ? top + (c.rng.chance(1, 2) ? -0.02 : 0.02) - (c.rng.chance(1, 2) ? static_cast<double>(c.rng.below(60)) : 0)
                                  : static_cast<double>(c.rng.below(140));
  bool reachable = n > 0 && sec < top;
  if (n > 0 && std::abs(sec - top) < 1e-3) return c.Trivial();
  size_t need = 16 + (static_cast<size_t>(std::max(n, 1)) - 1) * static_cast<size_t>(t.bits / 8);
  auto req = o->BytesRequired(n, sec);
  if (reachable) {
    VH_CHECK(c, req.ok(), "refused", "%s n=%d sec=%f: %s", o->name.c_str(), n, sec, S(req.status()).c_str());
    VH_CHECK(c, static_cast<size_t>(*req) == need, "bytes_required", "%s n=%d: %d", o->name.c_str(), n, *req);
  } else {
    VH_CHECK(c, req.status().code() == kInvalid, "unreachable_accepted", "%s n=%d sec=%f: %s", o->name.c_str(), n, sec,
             S(req.status()).c_str());
  }
  VH_CHECK(c, o->BytesRequired(-1 - n, sec).status().code() == kInvalid, "negative_count", "%s", o->name.c_str());
  size_t len = need;
  int k = static_cast<int>(c.rng.below(4));
  if (k == 0) len = c.rng.below(need);
  if (k == 1) len = need + c.rng.below(50);
  if (k == 2 && c.rng.chance(1, 2)) len = need - 1;
  Exact b(RandomBytes(c, len));
  c.Desc("%s n=%d sec=%f %s", o->name.c_str(), n, sec, Hex(b.view()).c_str());
  auto r = o->Sample(b.view(), sec, n);
  if (!reachable || len < need) {
    VH_CHECK(c, r.status().code() == kInvalid, "invalid_accepted", "%s n=%d sec=%f bytes=%zu: %s", o->name.c_str(), n, sec, len,
             S(r.status()).c_str());
    c.Count(!reachable ? "unreachable_refused" : "short_refused");
    if (n == 0 || len < need) return;
  } else {
    VH_CHECK(c, r.ok(), "refused", "%s n=%d sec=%f bytes=%zu: %s", o->name.c_str(), n, sec, len, S(r.status()).c_str());
  }
  RT tup = RT::Tup(std::vector<RT>(static_cast<size_t>(n), t));
  auto want = (*FromBytes(tup, b.view()))[0].e;
  if (r.ok()) {
    VH_CHECK(c, *r == want, "samples_differ", "%s n=%d: %s", o->name.c_str(), n, Hex(b.view()).c_str());
    c.Count("sampled");
  }
  auto u = o->Unsafe(b.view(), sec, n, static_cast<int>(c.rng.below(3)));
  VH_CHECK(c, u == want, "unsafe_samples_differ", "%s n=%d: %s", o->name.c_str(), n, Hex(b.view()).c_str());
  for (auto& v : u) VH_CHECK(c, InRange(t, v), "out_of_range", "%s", Str(v).c_str());
  c.Count("unsafe_sampled");
}

// The type-independent part, for base sizes no C++ type has.
VH_GROUP(modular_base, 120000, 2000000) {
  using dpflib::dpf_internal::IntModNBase;
  int n = static_cast<int>(c.rng.range(-2, c.rng.chance(1, 2) ? 6 : 3000));
  if (c.rng.chance(1, 6)) n = static_cast<int>(c.rng.chance(1, 4) ? INT_MAX - c.rng.below(3) : (uint64_t{1} << (12 + c.rng.below(19))) + c.rng.below(4000));
  int bits = static_cast<int>(c.rng.range(-3, 132));
  u128 mod = 1 + c.rng.edgy(c.rng.chance(2, 3) && bits > 0 && bits < 128 ? bits : 127);
  double top = n > 0 ? ModSecurity(n, mod) : 0;
  double sec = c.rng.chance(1, 2) ? top + (c.rng.chance(1, 2) ? -0.02 : 0.02) : static_cast<double>(c.rng.range(-5, 140)) + 0.125;
  c.Desc("n=%d bits=%d mod=%s sec=%f", n, bits, Str(mod).c_str(), sec);
  if (n > 0) {
    double level = IntModNBase::GetSecurityLevel(n, mod);
    VH_CHECK(c, std::abs(level - top) < 1e-6, "security_level", "%f, want %f", level, top);
    if (std::abs(sec - top) < 1e-3) return c.Trivial();
  }
  bool fits = bits >= 128 || (bits > 0 && (mod >> bits == 0));
  bool edge = bits > 0 && bits < 128 && mod == u128{1} << bits;
  int64_t bytes = 16 + (int64_t{n} - 1) * ((bits + 7) / 8);
  bool ok = n > 0 && bits > 0 && bits <= 128 && fits && sec < top;
  if (edge) return c.Trivial();
  if (ok && bytes > INT_MAX) {  // cannot be returned
    auto r = IntModNBase::GetNumBytesRequired(n, bits, mod, sec);
    VH_CHECK(c, r.status().code() == kInvalid, "too_many_bytes", "%lld bytes: %s", (long long)bytes, S(r.status()).c_str());
    c.Count("too_many_bytes");
    return;
  }
  auto st = IntModNBase::CheckParameters(n, bits, mod, sec);
  auto r = IntModNBase::GetNumBytesRequired(n, bits, mod, sec);
  if (ok) {
    VH_CHECK(c, st.ok() && r.ok(), "refused", "%s %s", S(st).c_str(), S(r.status()).c_str());
    VH_CHECK(c, *r == bytes, "bytes_required", "%d", *r);
    c.Count("accepted");
  } else {
    VH_CHECK(c, st.code() == kInvalid && r.status().code() == kInvalid, "invalid_accepted", "%s %s", S(st).c_str(),
             S(r.status()).c_str());
    c.Count("refused");
  }
}

// Distribution of the elements of sampled values, alone and in pairs.
VH_GROUP(uniformity, 96, 960) {
  std::vector<const Vals*> v;
  for (auto* o : AllVals())
    if (!o->t.Direct()) v.push_back(o);
  const Vals* o = v[c.index % v.size()];
  c.Desc("%s %d", o->name.c_str(), static_cast<int>(c.index / v.size()));
  struct Leaf {
    RT t;
    std::vector<size_t> path;
  };
  std::vector<Leaf> leaves;
  std::function<void(const RT&, std::vector<size_t>)> walk = [&](const RT& t, std::vector<size_t> p) {
    if (t.kind != RT::TUP) {
      leaves.push_back({t, p});
      return;
    }
    for (size_t i = 0; i < t.el.size(); ++i) {
      auto q = p;
      q.push_back(i);
      walk(t.el[i], q);
    }
  };
  walk(o->t, {});
  constexpr int kB = 8;
  // A leaf's bucket: by magnitude, or by low bits (residues).
  auto bucket = [](const RT& t, u128 x, int how) -> int {
    if (t.kind == RT::MOD) {
      if (t.mod <= kB) return static_cast<int>(static_cast<uint64_t>(x));
      return how == 0 ? static_cast<int>(std::min<double>(kB - 1, static_cast<double>(x) / static_cast<double>(t.mod) * kB))
                      : static_cast<int>(static_cast<uint64_t>(x % kB));
    }
    return static_cast<int>(static_cast<uint64_t>(how == 0 ? x >> (t.bits - 3) : x % kB));
  };
  auto exact = [](const RT& t, int how, std::vector<double>* p) {  // probability of each bucket
    p->assign(kB, 0);
    if (t.kind != RT::MOD || t.mod > 100000) {
      p->assign(kB, 1.0 / kB);
      return;
    }
    int m = static_cast<int>(static_cast<uint64_t>(t.mod));
    for (int x = 0; x < m; ++x)
      (*p)[static_cast<size_t>(m <= kB ? x : how == 0 ? std::min<int>(kB - 1, static_cast<int>(static_cast<double>(x) / m * kB)) : x % kB)] += 1.0 / m;
  };
  const int n = c.thorough ? 40000 : 12000;
  int len = BytesConsumed(o->t);
  std::vector<std::vector<u128>> samples(leaves.size());
  for (int i = 0; i < n; ++i) {
    std::string b = c.rng.bytes(static_cast<size_t>(len));
    RVal x = o->FromBytes(b);
    for (size_t j = 0; j < leaves.size(); ++j) {
      const RVal* y = &x;
      for (size_t k : leaves[j].path) y = &y->e[k];
      samples[j].push_back(y->v);
    }
  }
  auto check = [&](const std::vector<double>& p, const std::vector<int>& got, const char* what, size_t j, size_t k) {
    double chi = 0;
    int df = -1;
    for (size_t i = 0; i < p.size(); ++i) {
      if (p[i] == 0) {
        if (got[i]) return c.Fail("impossible_bucket", "%s leaf %zu", o->name.c_str(), j);
        continue;
      }
      double e = p[i] * n;
      chi += (got[i] - e) * (got[i] - e) / e;
      ++df;
    }
    // Far beyond any quantile that honest samples reach.
    if (chi > df + 9 * std::sqrt(2.0 * std::max(df, 1)) + 60)
      c.Fail(what, "%s leaves %zu,%zu: chi2=%.1f df=%d", o->name.c_str(), j, k, chi, df);
    c.Count("distributions");
  };
  for (size_t j = 0; j < leaves.size(); ++j)
    for (int how = 0; how < 2; ++how) {
      std::vector<double> p;
      exact(leaves[j].t, how, &p);
      std::vector<int> h(kB);
      for (auto x : samples[j]) ++h[static_cast<size_t>(bucket(leaves[j].t, x, how))];
      check(p, h, "biased", j, j);
      for (size_t k = 0; k < j; ++k)
        for (int how2 = 0; how2 < 2; ++how2) {
          std::vector<double> q, pq;
          exact(leaves[k].t, how2, &q);
          for (double a : p)
            for (double b : q) pq.push_back(a * b);
          std::vector<int> hh(kB * kB);
          for (int i = 0; i < n; ++i)
            ++hh[static_cast<size_t>(bucket(leaves[j].t, samples[j][static_cast<size_t>(i)], how) * kB +
                                     bucket(leaves[k].t, samples[k][static_cast<size_t>(i)], how2))];
          check(pq, hh, "dependent", j, k);
        }
    }
}

// Through keys: the bytes handed to conversion are those of the construction,
// and enough of them.
VH_GROUP(through_keys, 16000, 200000) {
  const Ops* o = AllOps()[c.index % AllOps().size()];
  GenOptions go;
  go.only = o;
  go.max_levels = 3;
  auto lv = RandomLevels(c.rng, go);
  auto d = MakeDpf(c, lv);
  if (!d) return;
  u128 alpha = c.rng.edgy(lv.back().ld);
  auto k = GenAny(c, *d, lv, alpha, RandomBetas(c.rng, lv));
  VH_CHECK(c, k.ok(), "keygen_refused", "%s", S(k.status()).c_str());
  RefDpf ref(lv);
  c.Desc("%s alpha=%s", LevelsName(lv).c_str(), Str(alpha).c_str());
  const DpfKey& key = c.rng.chance(1, 2) ? k->first : k->second;
  for (int i = 0; i < ref.levels(); ++i) {
    auto x = RandomPoints(c.rng, lv, i, alpha, 1 + static_cast<int>(c.rng.below(20)));
    auto r = o->EvalAt(*d, key, i, x);
    VH_CHECK(c, r.ok(), "refused", "%s", S(r.status()).c_str());
    for (size_t j = 0; j < x.size(); ++j) {
      VH_CHECK(c, (*r)[j] == *ref.Eval(key, i, x[j]), "share_differs", "level %d x=%s", i, Str(x[j]).c_str());
      VH_CHECK(c, InRange(o->t, (*r)[j]), "out_of_range", "%s", Str((*r)[j]).c_str());
      c.Count("shares");
    }
  }
}

}  // namespace
}  // namespace vh
