// cxxflags: -g0
#include "dcfops/dcfops_impl.h"
namespace vh {
namespace {
DcfAutoRegister<Tuple<M64, Tuple<uint64_t, uint64_t, uint64_t, uint64_t>>> r0;
DcfAutoRegister<Tuple<uint32_t, M32, uint16_t, M32>> r1;
DcfAutoRegister<Tuple<M128, M128>> r2;
}  // namespace
}  // namespace vh
