#ifndef VERIF_HARNESS_OPS_OPS_IMPL_H_
#define VERIF_HARNESS_OPS_OPS_IMPL_H_

#include "ops/ops.h"
#include "ops/types.h"

namespace vh {

template <typename T>
class OpsImpl final : public Ops {
 public:
  OpsImpl() { t = Conv<T>::Type(); }
  using D = DistributedPointFunction;

  static absl::StatusOr<std::vector<RVal>> Out(absl::StatusOr<std::vector<T>> r) {
    if (!r.ok()) return r.status();
    return Out(absl::MakeConstSpan(*r));
  }
  static std::vector<RVal> Out(absl::Span<const T> r) {
    std::vector<RVal> v;
    v.reserve(r.size());
    for (const T& x : r) v.push_back(Conv<T>::To(x));
    return v;
  }
  static T In(const RVal& v) { return Conv<T>::From(v); }
  static RVal Ret(const T& x) { return Conv<T>::To(x); }

  absl::StatusOr<std::vector<RVal>> EvalAt(const D& d, const DpfKey& k, int level, Points x) const override {
    return Out(d.EvaluateAt<T>(k, level, x));
  }
  absl::StatusOr<std::vector<RVal>> EvalAt(const D& d, int level, Points x, EvaluationContext& ctx) const override {
    return Out(d.EvaluateAt<T>(level, x, ctx));
  }
  absl::StatusOr<std::vector<RVal>> EvalUntil(const D& d, int level, Points p, EvaluationContext& ctx) const override {
    return Out(d.EvaluateUntil<T>(level, p, ctx));
  }
  absl::StatusOr<std::vector<RVal>> EvalNext(const D& d, Points p, EvaluationContext& ctx) const override {
    return Out(d.EvaluateNext<T>(p, ctx));
  }
  absl::Status Apply(const D& d, absl::Span<const DpfKey> keys, Points x, Callback cb, int shift) const override {
    return d.EvaluateAndApply<T>(keys, x, [&cb](absl::Span<const T> v) { return cb(Out(v)); }, shift);
  }
  absl::Status Apply(const D& d, absl::Span<const DpfKey* const> keys, Points x, Callback cb, int shift) const override {
    return d.EvaluateAndApply<T>(keys, x, [&cb](absl::Span<const T> v) { return cb(Out(v)); }, shift);
  }
  absl::Status Apply(const D& d, absl::Span<const DpfKey> keys, Points x, Callback cb) const override {
    return d.EvaluateAndApply<T>(keys, x, [&cb](absl::Span<const T> v) { return cb(Out(v)); });
  }
  absl::Status Register(D& d) const override { return d.RegisterValueType<T>(); }
  absl::StatusOr<KeyPair> Gen(D& d, u128 alpha, const RVal& beta) const override {
    return d.GenerateKeys(alpha, In(beta));
  }
  absl::StatusOr<KeyPair> GenSpan(D& d, u128 alpha, const std::vector<RVal>& betas) const override {
    std::vector<T> b;
    for (auto& v : betas) b.push_back(In(v));
    return d.GenerateKeysIncremental(alpha, absl::MakeConstSpan(b));
  }
  absl::StatusOr<Value> ToValueWith(D& d, const RVal& v) const override { return d.ToValue<T>(In(v)); }

  Value ToValue(const RVal& v) const override { return dpflib::ToValue<T>(In(v)); }
  absl::StatusOr<RVal> FromValue(const Value& v) const override {
    absl::StatusOr<T> r = dpflib::FromValue<T>(v);
    if (!r.ok()) return r.status();
    return Ret(*r);
  }
  ValueType ToValueType() const override { return dpflib::ToValueType<T>(); }

  RVal OpAdd(const RVal& a, const RVal& b) const override { T x = In(a), y = In(b); return Ret(T(x + y)); }
  RVal OpSub(const RVal& a, const RVal& b) const override { T x = In(a), y = In(b); return Ret(T(x - y)); }
  RVal OpNeg(const RVal& a) const override { T x = In(a); return Ret(T(-x)); }
  RVal OpAddAssign(const RVal& a, const RVal& b) const override { T x = In(a); x += In(b); return Ret(x); }
  RVal OpSubAssign(const RVal& a, const RVal& b) const override { T x = In(a); x -= In(b); return Ret(x); }
  bool OpEq(const RVal& a, const RVal& b) const override { return In(a) == In(b); }
  bool OpNe(const RVal& a, const RVal& b) const override { return In(a) != In(b); }
  RVal OpDefault() const override { T x{}; return Ret(x); }
  RVal OpSelfAdd(const RVal& a) const override { T x = In(a); x += x; return Ret(x); }
  RVal OpSelfSub(const RVal& a) const override { T x = In(a); T& y = x; x -= y; return Ret(x); }
  RVal OpCopyAssign(const RVal& a, const RVal& b) const override { T x = In(a), y = In(b); x = y; T z(x); return Ret(z); }
};

template <typename T>
struct AutoRegister {
  AutoRegister() { RegisterOps(new OpsImpl<T>()); }
};

}  // namespace vh

#endif
