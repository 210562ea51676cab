// cxxflags: -g0
#include "dcfops/dcfops_impl.h"
namespace vh {
namespace {
DcfAutoRegister<uint64_t> r0;
DcfAutoRegister<absl::uint128> r1;
DcfAutoRegister<Tuple<uint8_t>> r2;
}  // namespace
}  // namespace vh
