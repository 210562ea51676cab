#ifndef VERIF_HARNESS_DCFOPS_DCFOPS_IMPL_H_
#define VERIF_HARNESS_DCFOPS_DCFOPS_IMPL_H_

#include "dcfops/dcfops.h"
#include "ops/types.h"

namespace vh {

template <typename T>
class DcfOpsImpl final : public DcfOps {
 public:
  DcfOpsImpl() { t = Conv<T>::Type(); }
  static std::vector<RVal> Out(absl::Span<const T> r) {
    std::vector<RVal> v;
    for (const T& x : r) v.push_back(Conv<T>::To(x));
    return v;
  }
  absl::StatusOr<DcfPair> Gen(D& d, u128 alpha, const RVal& beta) const override {
    return d.GenerateKeys(alpha, Conv<T>::From(beta));
  }
  absl::StatusOr<RVal> Eval(D& d, const DcfKey& key, u128 x) const override {
    auto r = d.Evaluate<T>(key, x);
    if (!r.ok()) return r.status();
    return Conv<T>::To(*r);
  }
  absl::StatusOr<std::vector<RVal>> Batch(D& d, const std::vector<DcfKey>& keys, Points x) const override {
    auto r = d.BatchEvaluate<T>(keys, x);
    if (!r.ok()) return r.status();
    return Out(*r);
  }
  absl::StatusOr<std::vector<RVal>> BatchPtr(D& d, const std::vector<const DcfKey*>& keys, Points x) const override {
    auto r = d.BatchEvaluate<T>(keys, x);
    if (!r.ok()) return r.status();
    return Out(*r);
  }
  absl::StatusOr<std::vector<RVal>> BatchOut(D& d, const std::vector<DcfKey>& keys, Points x, size_t size,
                                             const RVal& fill) const override {
    std::vector<T> out(size, Conv<T>::From(fill));
    absl::Status s = d.BatchEvaluate<T>(keys, x, absl::MakeSpan(out));
    if (!s.ok()) return s;
    return Out(out);
  }
};

template <typename T>
struct DcfAutoRegister {
  DcfAutoRegister() { RegisterDcfOps(new DcfOpsImpl<T>()); }
};

}  // namespace vh

#endif
