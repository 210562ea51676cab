// cxxflags: -g0
#include "dcfops/dcfops_impl.h"
namespace vh {
namespace {
DcfAutoRegister<Tuple<M64, uint64_t, uint32_t, uint32_t>> r0;
DcfAutoRegister<Tuple<Tuple<uint8_t, X16>, uint32_t>> r1;
DcfAutoRegister<Tuple<uint32_t, uint32_t>> r2;
}  // namespace
}  // namespace vh
