#include "dcfops/dcfops.h"

#include <algorithm>

namespace vh {
namespace {
std::vector<const DcfOps*>& Table() {
  static auto* t = new std::vector<const DcfOps*>();
  return *t;
}
}  // namespace

void RegisterDcfOps(const DcfOps* ops) { Table().push_back(ops); }
const std::vector<const DcfOps*>& AllDcfOps() {
  static bool sorted = false;
  if (!sorted) {
    std::sort(Table().begin(), Table().end(),
              [](const DcfOps* a, const DcfOps* b) { return a->t.Name() < b->t.Name(); });
    sorted = true;
  }
  return Table();
}
const DcfOps* FindDcfOps(const RT& t) {
  for (auto* o : AllDcfOps())
    if (o->t == t) return o;
  return nullptr;
}
int MaxDcfDomain(const RT& t) {
  int n = 0;
  while (n < 128) {
    auto m = SecurityMargin(t, 40.0 + n);
    if (!m || *m < 0.01) break;
    ++n;
  }
  return n;
}
dpflib::DcfParameters DcfParams(const RT& t, int ld) {
  dpflib::DcfParameters p;
  p.mutable_parameters()->set_log_domain_size(ld);
  *p.mutable_parameters()->mutable_value_type() = TypeProto(t);
  return p;
}
std::vector<RefLevel> DcfLevels(const RT& t, int ld) {
  std::vector<RefLevel> l(ld);
  for (int i = 0; i < ld; ++i) l[i].ld = i, l[i].t = t;
  return l;
}
std::optional<RVal> RefDcfEval(const RefDpf& ref, const DcfKey& key, u128 x) {
  int n = ref.levels();
  RVal sum = Zero(ref.level(0).t);
  for (int i = 0; i < n; ++i) {
    if (((x >> (n - 1 - i)) & 1) != 0) continue;
    auto v = ref.Eval(key.key(), i, Shr(x, n - i));
    if (!v) return std::nullopt;
    sum = Add(ref.level(i).t, sum, *v);
  }
  return sum;
}

}  // namespace vh
