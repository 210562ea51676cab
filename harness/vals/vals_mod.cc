#include "vals/vals_impl.h"
namespace vh {
namespace {
using absl::uint128;
using native128 = unsigned __int128;
constexpr native128 kOne = 1;
VALS(IntModN<uint8_t, 1>);
VALS(IntModN<uint8_t, 2>);
VALS(IntModN<uint8_t, 3>);
VALS(IntModN<uint8_t, 128>);
VALS(IntModN<uint8_t, 251>);
VALS(IntModN<uint8_t, 255>);
VALS(IntModN<uint16_t, 7>);
VALS(IntModN<uint16_t, 32768>);
VALS(IntModN<uint16_t, 65521>);
VALS(IntModN<uint16_t, 65535>);
VALS(IntModN<uint32_t, 2>);
VALS(IntModN<uint32_t, 1000>);
VALS(IntModN<uint32_t, 4294967291u>);
VALS(IntModN<uint32_t, 4294967295u>);
VALS(IntModN<uint64_t, 3>);
VALS(IntModN<uint64_t, (kOne << 32)>);
VALS(IntModN<uint64_t, (kOne << 63) + 29>);
VALS(IntModN<uint64_t, 18446744073709551557ull>);
VALS(IntModN<uint64_t, 18446744073709551615ull>);
VALS(IntModN<uint128, 5>);
VALS(IntModN<uint128, (kOne << 64)>);
VALS(IntModN<uint128, kMod80>);
VALS(IntModN<uint128, kMod97>);
VALS(IntModN<uint128, (kOne << 127)>);
VALS(IntModN<uint128, (kOne << 127) + 1>);
VALS(IntModN<uint128, ~native128{0} - 158>);
VALS(IntModN<uint128, ~native128{0}>);
VALS(IntModN<native128, kMod80>);
VALS(IntModN<native128, ~native128{0}>);
}  // namespace
}  // namespace vh
