// cxxflags: -g0
#include "dcfops/dcfops_impl.h"
namespace vh {
namespace {
DcfAutoRegister<M32s> r0;
DcfAutoRegister<M64> r1;
DcfAutoRegister<M128> r2;
}  // namespace
}  // namespace vh
