// cxxflags: -g0
#include "ops/ops_impl.h"
namespace vh {
namespace {
AutoRegister<Tuple<M64, Tuple<uint64_t, uint64_t, uint64_t, uint64_t>>> r0;
AutoRegister<Tuple<uint32_t, M32, uint16_t, M32>> r1;
AutoRegister<Tuple<M128, M128>> r2;
}  // namespace
}  // namespace vh
