// cxxflags: -g0
#include "ops/ops_impl.h"
namespace vh {
namespace {
AutoRegister<M8> r0;
AutoRegister<M16> r1;
AutoRegister<M32> r2;
}  // namespace
}  // namespace vh
