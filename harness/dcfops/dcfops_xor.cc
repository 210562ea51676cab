// cxxflags: -g0
#include "dcfops/dcfops_impl.h"
namespace vh {
namespace {
DcfAutoRegister<X8> r0;
DcfAutoRegister<X32> r1;
DcfAutoRegister<X64> r2;
DcfAutoRegister<X128> r3;
}  // namespace
}  // namespace vh
