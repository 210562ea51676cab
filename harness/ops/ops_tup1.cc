// cxxflags: -g0
#include "ops/ops_impl.h"
namespace vh {
namespace {
AutoRegister<Tuple<uint8_t, uint16_t>> r0;
AutoRegister<Tuple<uint32_t, uint64_t, absl::uint128>> r1;
AutoRegister<Tuple<X64, uint32_t>> r2;
}  // namespace
}  // namespace vh
