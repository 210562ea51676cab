// cxxflags: -g0
#include "ops/ops_impl.h"
namespace vh {
namespace {
AutoRegister<M32s> r0;
AutoRegister<M64> r1;
AutoRegister<M128> r2;
}  // namespace
}  // namespace vh
