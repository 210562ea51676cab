// cxxflags: -g0
#include "dcfops/dcfops_impl.h"
namespace vh {
namespace {
DcfAutoRegister<Tuple<M32, M32, M32>> r0;
DcfAutoRegister<Tuple<uint32_t, M64>> r1;
DcfAutoRegister<Tuple<Tuple<uint8_t, uint8_t>, uint32_t>> r2;
}  // namespace
}  // namespace vh
