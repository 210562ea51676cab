// cxxflags: -g0
#include "ops/ops_impl.h"
namespace vh {
namespace {
AutoRegister<Tuple<M32, M32, M32>> r0;
AutoRegister<Tuple<uint32_t, M64>> r1;
AutoRegister<Tuple<Tuple<uint8_t, uint8_t>, uint32_t>> r2;
}  // namespace
}  // namespace vh
