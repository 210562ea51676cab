#ifndef VERIF_HARNESS_VALS_VALS_IMPL_H_
#define VERIF_HARNESS_VALS_VALS_IMPL_H_

#include "dpf/distributed_point_function.h"
#include "ops/types.h"
#include "vals/vals.h"

namespace vh {

template <typename T>
struct IsModN : std::false_type {};
template <typename B, typename M, M kN>
struct IsModN<dpflib::dpf_internal::IntModNImpl<B, M, kN>> : std::true_type {};

template <typename T>
class ValsImpl : public Vals {
 public:
  explicit ValsImpl(const char* n) { t = Conv<T>::Type(); name = n; }
  static T In(const RVal& v) { return Conv<T>::From(v); }
  static RVal Ret(const T& x) { return Conv<T>::To(x); }

  RVal Add(const RVal& a, const RVal& b) const override { const T x = In(a), y = In(b); return Ret(T(x + y)); }
  RVal Sub(const RVal& a, const RVal& b) const override { const T x = In(a), y = In(b); return Ret(T(x - y)); }
  RVal Neg(const RVal& a) const override { const T x = In(a); return Ret(T(-x)); }
  RVal AddAssign(const RVal& a, const RVal& b) const override {
    T x = In(a);
    const T y = In(b);
    T& r = (x += y);
    return &r == &x && y == In(b) ? Ret(x) : RVal{u128{1} << 127, {{}, {}}};
  }
  RVal SubAssign(const RVal& a, const RVal& b) const override {
    T x = In(a);
    const T y = In(b);
    T& r = (x -= y);
    return &r == &x && y == In(b) ? Ret(x) : RVal{u128{1} << 127, {{}, {}}};
  }
  RVal AddAssignSelf(const RVal& a) const override { T x = In(a); x += x; return Ret(x); }
  RVal SubAssignSelf(const RVal& a) const override { T x = In(a); T& y = x; x -= y; return Ret(x); }
  RVal Copies(const RVal& a) const override {
    T x = In(a);
    T y(x);
    T z{};
    z = y;
    T& zz = z;
    z = zz;
    T m(std::move(y));
    T n{};
    n = std::move(m);
    return n == z && z == x ? Ret(n) : RVal{u128{1} << 127, {{}, {}}};
  }
  bool Eq(const RVal& a, const RVal& b) const override { return In(a) == In(b); }
  bool Ne(const RVal& a, const RVal& b) const override { return In(a) != In(b); }
  RVal Default() const override { T x{}; return Ret(x); }
  RVal Chain(const RVal& a, const RVal& b, const RVal& c) const override {
    const T x = In(a), y = In(b), z = In(c);
    return Ret(T(T(T(T(x + y) - z) + x) - y));
  }

  dpflib::Value ToValue(const RVal& v) const override { return dpflib::ToValue<T>(In(v)); }
  absl::StatusOr<RVal> FromValue(const dpflib::Value& v) const override {
    absl::StatusOr<T> r = dpflib::FromValue<T>(v);
    if (!r.ok()) return r.status();
    return Ret(*r);
  }
  dpflib::ValueType ToValueType() const override { return dpflib::ToValueType<T>(); }
  absl::StatusOr<std::vector<RVal>> FromValues(
      const google::protobuf::RepeatedPtrField<dpflib::Value>& v) const override {
    auto r = dpflib::dpf_internal::ValuesToArray<T>(v);
    if (!r.ok()) return r.status();
    std::vector<RVal> out;
    for (auto& x : *r) out.push_back(Ret(x));
    return out;
  }

  bool Direct() const override { return dpflib::dpf_internal::can_be_converted_directly_v<T>; }
  int PerBlock() const override { return dpflib::dpf_internal::ElementsPerBlock<T>(); }
  int TotalBits() const override {
    if constexpr (dpflib::dpf_internal::can_be_converted_directly_v<T>) return dpflib::dpf_internal::TotalBitSize<T>();
    return 0;
  }
  RVal FromBytes(absl::string_view b) const override { return Ret(dpflib::dpf_internal::FromBytes<T>(b)); }
  std::vector<RVal> ArrayFromBytes(absl::string_view b) const override {
    std::vector<RVal> out;
    for (auto& x : dpflib::dpf_internal::ConvertBytesToArrayOf<T>(b)) out.push_back(Ret(x));
    return out;
  }

  bool IsMod() const override { return IsModN<T>::value; }
  u128 Modulus() const override {
    if constexpr (IsModN<T>::value) return T::modulus();
    return 0;
  }
  RVal FromRaw(u128 v) const override {
    if constexpr (IsModN<T>::value) return Ret(T(static_cast<typename T::Base>(v)));
    return {};
  }
  RVal AssignRaw(u128 v) const override {
    if constexpr (IsModN<T>::value) {
      T x;
      x = static_cast<typename T::Base>(v);
      return Ret(x);
    }
    return {};
  }
  absl::StatusOr<int> BytesRequired(int n, double sec) const override {
    if constexpr (IsModN<T>::value) return T::GetNumBytesRequired(n, sec);
    return 0;
  }
  absl::StatusOr<std::vector<RVal>> Sample(absl::string_view b, double sec, int n) const override {
    std::vector<RVal> out;
    if constexpr (IsModN<T>::value) {
      std::vector<T> s(n);
      auto st = T::SampleFromBytes(b, sec, absl::MakeSpan(s));
      if (!st.ok()) return st;
      for (auto& x : s) out.push_back(Ret(x));
    }
    return out;
  }
  std::vector<RVal> Unsafe(absl::string_view b, double sec, int n, int variant) const override {
    std::vector<RVal> out;
    if constexpr (IsModN<T>::value) {
      std::vector<T> s(n);
      switch (variant) {
        case 0: T::UnsafeSampleFromBytes(b, sec, absl::MakeSpan(s)); break;
        case 1: T::template UnsafeSampleFromBytes<2>(b, sec, absl::MakeSpan(s)); break;
        default: T::template UnsafeSampleFromBytes<7>(b, sec, absl::MakeSpan(s));
      }
      for (auto& x : s) out.push_back(Ret(x));
    }
    return out;
  }
};

template <typename T>
struct AutoVals {
  explicit AutoVals(const char* name) { RegisterVals(new ValsImpl<T>(name)); }
};
#define VALS_CAT2(a, b) a##b
#define VALS_CAT(a, b) VALS_CAT2(a, b)
#define VALS(...) static AutoVals<__VA_ARGS__> VALS_CAT(vals_, __COUNTER__)(#__VA_ARGS__)

}  // namespace vh

#endif
