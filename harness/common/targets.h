// Runs code under each instruction-set target this CPU and build support.
#ifndef VERIF_HARNESS_COMMON_TARGETS_H_
#define VERIF_HARNESS_COMMON_TARGETS_H_

#include <string>
#include <vector>

#include "common/vh.h"
#include "hwy/highway.h"
#include "hwy/targets.h"

namespace vh {

// 0 stands for whatever the library chooses by itself.
inline std::vector<int64_t> AllTargets() {
  static const auto* t = new std::vector<int64_t>([] {
    std::vector<int64_t> v = hwy::SupportedAndGeneratedTargets();
    v.push_back(0);
    return v;
  }());
  return *t;
}

class WithTarget {
 public:
  explicit WithTarget(int64_t t) {
    hwy::SetSupportedTargetsForTest(t);
    hwy::GetChosenTarget().Update(hwy::SupportedTargets());
  }
  ~WithTarget() {
    hwy::SetSupportedTargetsForTest(0);
    hwy::GetChosenTarget().Update(hwy::SupportedTargets());
  }
};

inline std::string TargetText(int64_t t) { return t ? hwy::TargetName(t) : "default"; }

}  // namespace vh

#endif
