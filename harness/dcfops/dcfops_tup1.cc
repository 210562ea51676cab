// cxxflags: -g0
#include "dcfops/dcfops_impl.h"
namespace vh {
namespace {
DcfAutoRegister<Tuple<uint8_t, uint16_t>> r0;
DcfAutoRegister<Tuple<uint32_t, uint64_t, absl::uint128>> r1;
DcfAutoRegister<Tuple<X64, uint32_t>> r2;
}  // namespace
}  // namespace vh
