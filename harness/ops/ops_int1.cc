// cxxflags: -g0
#include "ops/ops_impl.h"
namespace vh {
namespace {
AutoRegister<uint8_t> r0;
AutoRegister<uint16_t> r1;
AutoRegister<uint32_t> r2;
}  // namespace
}  // namespace vh
