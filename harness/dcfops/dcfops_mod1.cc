// cxxflags: -g0
#include "dcfops/dcfops_impl.h"
namespace vh {
namespace {
DcfAutoRegister<M8> r0;
DcfAutoRegister<M16> r1;
DcfAutoRegister<M32> r2;
}  // namespace
}  // namespace vh
