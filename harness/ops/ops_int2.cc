// cxxflags: -g0
#include "ops/ops_impl.h"
namespace vh {
namespace {
AutoRegister<uint64_t> r0;
AutoRegister<absl::uint128> r1;
AutoRegister<Tuple<uint8_t>> r2;
}  // namespace
}  // namespace vh
