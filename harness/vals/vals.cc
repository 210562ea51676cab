#include "vals/vals.h"

namespace vh {
namespace {
std::vector<const Vals*>& List() {
  static auto* v = new std::vector<const Vals*>();
  return *v;
}
}  // namespace
const std::vector<const Vals*>& AllVals() { return List(); }
void RegisterVals(const Vals* v) { List().push_back(v); }
}  // namespace vh
