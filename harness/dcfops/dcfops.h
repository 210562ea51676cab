// Type-erased access to the comparison function's templates.
#ifndef VERIF_HARNESS_DCFOPS_DCFOPS_H_
#define VERIF_HARNESS_DCFOPS_DCFOPS_H_

#include <memory>
#include <utility>
#include <vector>

#include "dcf/distributed_comparison_function.h"
#include "ops/ops.h"

namespace vh {

using dpflib::DcfKey;
using dpflib::DcfParameters;
using dpflib::DistributedComparisonFunction;
using DcfPair = std::pair<DcfKey, DcfKey>;

class DcfOps {
 public:
  virtual ~DcfOps() = default;
  RT t;
  using D = DistributedComparisonFunction;
  virtual absl::StatusOr<DcfPair> Gen(D& d, u128 alpha, const RVal& beta) const = 0;
  virtual absl::StatusOr<RVal> Eval(D& d, const DcfKey& key, u128 x) const = 0;
  virtual absl::StatusOr<std::vector<RVal>> Batch(D& d, const std::vector<DcfKey>& keys, Points x) const = 0;
  virtual absl::StatusOr<std::vector<RVal>> BatchPtr(D& d, const std::vector<const DcfKey*>& keys,
                                                     Points x) const = 0;
  // Writes to a buffer of `size` elements that held `fill` before.
  virtual absl::StatusOr<std::vector<RVal>> BatchOut(D& d, const std::vector<DcfKey>& keys, Points x, size_t size,
                                                     const RVal& fill) const = 0;
};

const std::vector<const DcfOps*>& AllDcfOps();
const DcfOps* FindDcfOps(const RT& t);
void RegisterDcfOps(const DcfOps* ops);
// Largest domain size on which every level reaches the default security.
int MaxDcfDomain(const RT& t);
dpflib::DcfParameters DcfParams(const RT& t, int ld);
// The levels of the incremental DPF inside the comparison function.
std::vector<RefLevel> DcfLevels(const RT& t, int ld);
// What the comparison function's share is by definition, from the key alone.
std::optional<RVal> RefDcfEval(const RefDpf& ref, const DcfKey& key, u128 x);

}  // namespace vh

#endif
