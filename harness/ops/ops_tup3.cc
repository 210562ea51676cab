// cxxflags: -g0
#include "ops/ops_impl.h"
namespace vh {
namespace {
AutoRegister<Tuple<M64, uint64_t, uint32_t, uint32_t>> r0;
AutoRegister<Tuple<Tuple<uint8_t, X16>, uint32_t>> r1;
AutoRegister<Tuple<uint32_t, uint32_t>> r2;
}  // namespace
}  // namespace vh
