// cxxflags: -g0
#include "dcfops/dcfops_impl.h"
namespace vh {
namespace {
DcfAutoRegister<uint8_t> r0;
DcfAutoRegister<uint16_t> r1;
DcfAutoRegister<uint32_t> r2;
}  // namespace
}  // namespace vh
