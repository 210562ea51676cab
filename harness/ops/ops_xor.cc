// cxxflags: -g0
#include "ops/ops_impl.h"
namespace vh {
namespace {
AutoRegister<X8> r0;
AutoRegister<X32> r1;
AutoRegister<X64> r2;
AutoRegister<X128> r3;
}  // namespace
}  // namespace vh
