#include "common/refval.h"

#include <algorithm>
#include <cmath>

#include "common/refaes.h"

namespace vh {
namespace {
using U = unsigned __int128;
u128 MaxOf(int bits) { return bits >= 128 ? absl::Uint128Max() : (u128{1} << bits) - 1; }
}  // namespace

bool RT::Direct() const {
  if (kind == MOD) return false;
  if (kind == TUP) return std::all_of(el.begin(), el.end(), [](const RT& t) { return t.Direct(); });
  return true;
}
int RT::TotalBits() const {
  if (kind != TUP) return bits;
  int n = 0;
  for (auto& t : el) n += t.TotalBits();
  return n;
}
std::string RT::Name() const {
  switch (kind) {
    case INT: return "u" + std::to_string(bits);
    case XOR: return "x" + std::to_string(bits);
    case MOD: return "m" + std::to_string(bits) + "_" + Str(mod);
    case TUP: break;
  }
  std::string s = "(";
  for (size_t i = 0; i < el.size(); ++i) s += (i ? "," : "") + el[i].Name();
  return s + ")";
}
bool RT::operator==(const RT& o) const {
  return kind == o.kind && bits == o.bits && mod == o.mod && el == o.el;
}

std::string Str(const RVal& v) {
  if (v.e.empty()) return Str(v.v);
  std::string s = "(";
  for (size_t i = 0; i < v.e.size(); ++i) s += (i ? "," : "") + Str(v.e[i]);
  return s + ")";
}
RVal Zero(const RT& t) {
  RVal r;
  for (auto& x : t.el) r.e.push_back(Zero(x));
  return r;
}
bool IsZero(const RVal& v) {
  if (v.v != 0) return false;
  return std::all_of(v.e.begin(), v.e.end(), [](const RVal& x) { return IsZero(x); });
}
RVal Add(const RT& t, const RVal& a, const RVal& b) {
  RVal r;
  switch (t.kind) {
    case RT::INT: r.v = (a.v + b.v) & MaxOf(t.bits); break;
    case RT::XOR: r.v = a.v ^ b.v; break;
    case RT::MOD: {
      // a, b < mod; avoid overflow.
      u128 room = t.mod - a.v;  // > 0
      r.v = b.v >= room ? b.v - room : a.v + b.v;
      break;
    }
    case RT::TUP:
      for (size_t i = 0; i < t.el.size(); ++i) r.e.push_back(Add(t.el[i], a.e[i], b.e[i]));
  }
  return r;
}
RVal Neg(const RT& t, const RVal& a) {
  RVal r;
  switch (t.kind) {
    case RT::INT: r.v = (u128{0} - a.v) & MaxOf(t.bits); break;
    case RT::XOR: r.v = a.v; break;
    case RT::MOD: r.v = a.v == 0 ? u128{0} : t.mod - a.v; break;
    case RT::TUP:
      for (size_t i = 0; i < t.el.size(); ++i) r.e.push_back(Neg(t.el[i], a.e[i]));
  }
  return r;
}
RVal RandomVal(const RT& t, Rng& rng) {
  RVal r;
  switch (t.kind) {
    case RT::INT:
    case RT::XOR: r.v = rng.edgy(t.bits); break;
    case RT::MOD: {
      switch (rng.below(6)) {
        case 0: r.v = u128{rng.below(3)} % t.mod; break;
        case 1: r.v = t.mod - 1 - u128{rng.below(3)} % t.mod; break;
        case 2: r.v = t.mod / 2; break;
        default: r.v = rng.wide() % t.mod;
      }
      break;
    }
    case RT::TUP:
      for (auto& x : t.el) r.e.push_back(RandomVal(x, rng));
  }
  return r;
}
RVal RandomNonZero(const RT& t, Rng& rng) {
  for (int i = 0; i < 100; ++i) {
    RVal v = RandomVal(t, rng);
    if (!IsZero(v)) return v;
  }
  return RandomVal(t, rng);
}
bool InRange(const RT& t, const RVal& v) {
  switch (t.kind) {
    case RT::INT:
    case RT::XOR: return v.e.empty() && v.v <= MaxOf(t.bits);
    case RT::MOD: return v.e.empty() && v.v < t.mod;
    case RT::TUP: break;
  }
  if (v.e.size() != t.el.size()) return false;
  for (size_t i = 0; i < t.el.size(); ++i)
    if (!InRange(t.el[i], v.e[i])) return false;
  return true;
}
RT RandomType(Rng& rng, int depth) {
  static const int kBits[] = {8, 16, 32, 64, 128};
  int k = static_cast<int>(rng.below(depth > 0 ? 10 : 7));
  if (k < 3) return RT::Int(kBits[rng.below(5)]);
  if (k < 5) return RT::Xor(kBits[rng.below(5)]);
  if (k < 7) {
    int b = kBits[1 + rng.below(3)];
    u128 m = rng.bits(b);
    if (m < 2) m = 3;
    return RT::Mod(b, m);
  }
  std::vector<RT> e;
  int n = 1 + static_cast<int>(rng.below(4));
  for (int i = 0; i < n; ++i) e.push_back(RandomType(rng, depth - 1));
  return RT::Tup(std::move(e));
}

void SetInteger(dpflib::Value::Integer* out, u128 v, bool wide) {
  if (wide || absl::Uint128High64(v) != 0) {
    out->mutable_value_uint128()->set_high(absl::Uint128High64(v));
    out->mutable_value_uint128()->set_low(absl::Uint128Low64(v));
  } else {
    out->set_value_uint64(absl::Uint128Low64(v));
  }
}
std::optional<u128> GetInteger(const dpflib::Value::Integer& in) {
  switch (in.value_case()) {
    case dpflib::Value::Integer::kValueUint64: return u128{in.value_uint64()};
    case dpflib::Value::Integer::kValueUint128:
      return absl::MakeUint128(in.value_uint128().high(), in.value_uint128().low());
    default: return std::nullopt;
  }
}
dpflib::ValueType TypeProto(const RT& t) {
  dpflib::ValueType r;
  switch (t.kind) {
    case RT::INT: r.mutable_integer()->set_bitsize(t.bits); break;
    case RT::XOR: r.mutable_xor_wrapper()->set_bitsize(t.bits); break;
    case RT::MOD:
      r.mutable_int_mod_n()->mutable_base_integer()->set_bitsize(t.bits);
      SetInteger(r.mutable_int_mod_n()->mutable_modulus(), t.mod);
      break;
    case RT::TUP:
      r.mutable_tuple();
      for (auto& x : t.el) *r.mutable_tuple()->add_elements() = TypeProto(x);
  }
  return r;
}
dpflib::Value ValProto(const RT& t, const RVal& v) {
  dpflib::Value r;
  switch (t.kind) {
    case RT::INT: SetInteger(r.mutable_integer(), v.v); break;
    case RT::XOR: SetInteger(r.mutable_xor_wrapper(), v.v); break;
    case RT::MOD: SetInteger(r.mutable_int_mod_n(), v.v); break;
    case RT::TUP:
      r.mutable_tuple();
      for (size_t i = 0; i < t.el.size(); ++i) *r.mutable_tuple()->add_elements() = ValProto(t.el[i], v.e[i]);
  }
  return r;
}
std::optional<RVal> FromProto(const RT& t, const dpflib::Value& v) {
  RVal r;
  std::optional<u128> x;
  switch (t.kind) {
    case RT::INT:
      if (v.value_case() != dpflib::Value::kInteger) return std::nullopt;
      x = GetInteger(v.integer());
      break;
    case RT::XOR:
      if (v.value_case() != dpflib::Value::kXorWrapper) return std::nullopt;
      x = GetInteger(v.xor_wrapper());
      break;
    case RT::MOD:
      if (v.value_case() != dpflib::Value::kIntModN) return std::nullopt;
      x = GetInteger(v.int_mod_n());
      break;
    case RT::TUP: {
      if (v.value_case() != dpflib::Value::kTuple) return std::nullopt;
      if (v.tuple().elements_size() != static_cast<int>(t.el.size())) return std::nullopt;
      for (size_t i = 0; i < t.el.size(); ++i) {
        auto y = FromProto(t.el[i], v.tuple().elements(static_cast<int>(i)));
        if (!y) return std::nullopt;
        r.e.push_back(*y);
      }
      return r;
    }
  }
  if (!x) return std::nullopt;
  r.v = *x;
  if (!InRange(t, r)) return std::nullopt;
  return r;
}

int ElementsPerBlock(const RT& t) {
  if (!t.Direct()) return 1;
  int n = t.TotalBits();
  return n > 0 && n <= 128 ? 128 / n : 1;
}

namespace {
u128 Le(absl::string_view b) {
  u128 v = 0;
  for (size_t i = b.size(); i > 0; --i) v = (v << 8) | u128{static_cast<unsigned char>(b[i - 1])};
  return v;
}
bool Direct(const RT& t, absl::string_view& b, RVal* out) {
  if (t.kind == RT::TUP) {
    for (auto& x : t.el) {
      RVal e;
      if (!Direct(x, b, &e)) return false;
      out->e.push_back(std::move(e));
    }
    return true;
  }
  size_t n = static_cast<size_t>(t.bits) / 8;
  if (b.size() < n) return false;
  out->v = Le(b.substr(0, n));
  b.remove_prefix(n);
  return true;
}
struct Sampler {
  u128 block;
  absl::string_view rest;
  bool ok = true;
  bool Next(size_t n, u128* v) {
    if (rest.size() < n) return ok = false;
    *v = Le(rest.substr(0, n));
    rest.remove_prefix(n);
    return true;
  }
  RVal Sample(const RT& t, bool update) {
    RVal r;
    if (!ok) return r;
    size_t n = static_cast<size_t>(t.bits) / 8;
    u128 fresh = 0;
    switch (t.kind) {
      case RT::TUP:
        for (size_t i = 0; i < t.el.size(); ++i)
          r.e.push_back(Sample(t.el[i], update || i + 1 < t.el.size()));
        break;
      case RT::INT:
      case RT::XOR:
        r.v = block & MaxOf(t.bits);
        if (update && Next(n, &fresh)) block = (block & ~MaxOf(t.bits)) | fresh;
        break;
      case RT::MOD:
        r.v = static_cast<U>(block) % static_cast<U>(t.mod);
        if (update && Next(n, &fresh)) {
          u128 q = static_cast<U>(block) / static_cast<U>(t.mod);
          block = t.bits < 128 ? (q << t.bits) | fresh : fresh;
        }
        break;
    }
    return r;
  }
};
int LeafBytes(const RT& t) {
  if (t.kind != RT::TUP) return t.bits / 8;
  int n = 0;
  for (auto& x : t.el) n += LeafBytes(x);
  return n;
}
int LastLeafBytes(const RT& t) {
  if (t.kind != RT::TUP) return t.bits / 8;
  for (size_t i = t.el.size(); i > 0; --i)
    if (int n = LastLeafBytes(t.el[i - 1])) return n;
  return 0;
}
}  // namespace

std::optional<std::vector<RVal>> FromBytes(const RT& t, absl::string_view bytes) {
  std::vector<RVal> out;
  if (t.Direct()) {
    for (int i = 0; i < ElementsPerBlock(t); ++i) {
      RVal v;
      if (!Direct(t, bytes, &v)) return std::nullopt;
      out.push_back(std::move(v));
    }
    return out;
  }
  if (bytes.size() < 16) return std::nullopt;
  Sampler s{Le(bytes.substr(0, 16)), bytes.substr(16)};
  out.push_back(s.Sample(t, false));
  if (!s.ok) return std::nullopt;
  return out;
}
int BytesConsumed(const RT& t) {
  if (t.Direct()) return ElementsPerBlock(t) * t.TotalBits() / 8;
  return 16 + LeafBytes(t) - LastLeafBytes(t);
}
double ModSecurity(int n, u128 mod) {
  return 131.0 - (std::log2(static_cast<double>(mod)) + std::log2(n) + std::log2(n + 1.0));
}
std::optional<double> SecurityMargin(const RT& t, double sec) {
  if (t.kind == RT::MOD) return ModSecurity(1, t.mod) - sec;
  if (t.kind != RT::TUP) return 1000.0;
  double margin = 1000.0;
  const RT* mod = nullptr;
  int mods = 0, others = 0;
  for (auto& x : t.el) {
    if (x.kind == RT::MOD) {
      if (mod && !(*mod == x)) return std::nullopt;
      mod = &x;
      ++mods;
    } else {
      ++others;
    }
  }
  for (auto& x : t.el) {
    if (x.kind == RT::MOD) continue;
    auto m = SecurityMargin(x, sec + std::log2(static_cast<double>(others)));
    if (!m) return std::nullopt;
    margin = std::min(margin, *m);
  }
  if (mod) margin = std::min(margin, ModSecurity(mods, mod->mod) - sec);
  return margin;
}

}  // namespace vh
