#include "vals/vals_impl.h"
namespace vh {
namespace {
using absl::uint128;
using N1 = IntModN<uint32_t, 1000>;
using N2 = IntModN<uint16_t, 65521>;
VALS(Tuple<M8>);
VALS(Tuple<M64>);
VALS(Tuple<M32, M32, M32>);
VALS(Tuple<M64, M64, M64, M64, M64>);
VALS(Tuple<M128, M128>);
VALS(Tuple<M8, M8, M8, M8>);
VALS(Tuple<uint32_t, M64>);
VALS(Tuple<M64, uint32_t>);
VALS(Tuple<M64, uint64_t, uint32_t, uint32_t>);
VALS(Tuple<uint128, M64>);
VALS(Tuple<M64, uint128>);
VALS(Tuple<uint128, uint128, M16>);
VALS(Tuple<uint8_t, M128, X64>);
VALS(Tuple<Tuple<M32, M32>, uint8_t>);
VALS(Tuple<uint8_t, Tuple<M32, M32>>);
VALS(Tuple<Tuple<M32, uint8_t>, Tuple<M64, uint16_t>, M16>);
VALS(Tuple<Tuple<uint32_t, uint64_t>, M32, X16, M32>);
VALS(Tuple<N1, uint8_t, N1, uint8_t, N1>);
VALS(Tuple<Tuple<Tuple<N2>>, Tuple<uint8_t>>);
VALS(Tuple<M32, M64>);   // several moduli: no sampling through keys
}  // namespace
}  // namespace vh
