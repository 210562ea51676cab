#include "vals/vals_impl.h"
namespace vh {
namespace {
using absl::uint128;
using native128 = unsigned __int128;
VALS(uint8_t);
VALS(uint16_t);
VALS(uint32_t);
VALS(uint64_t);
VALS(uint128);
VALS(native128);
VALS(X8);
VALS(X16);
VALS(X32);
VALS(X64);
VALS(X128);
VALS(XorWrapper<native128>);
VALS(Tuple<uint8_t>);
VALS(Tuple<uint128>);
VALS(Tuple<uint8_t, uint16_t, uint32_t, uint64_t, uint128>);
VALS(Tuple<uint128, uint64_t, uint32_t, uint16_t, uint8_t>);
VALS(Tuple<X8, X16, X32, X64, X128>);
VALS(Tuple<uint8_t, uint8_t, uint8_t>);
VALS(Tuple<Tuple<Tuple<uint8_t>>>);
VALS(Tuple<Tuple<uint8_t, X8>, Tuple<uint16_t, Tuple<uint32_t, X64>>>);
VALS(Tuple<uint64_t, uint64_t>);
VALS(Tuple<uint64_t, uint64_t, uint8_t>);
VALS(Tuple<native128, uint8_t>);
VALS(Tuple<X32, uint32_t>);
}  // namespace
}  // namespace vh
