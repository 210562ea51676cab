// The C++ value types under observation and their conversion to and from RVal.
#ifndef VERIF_HARNESS_OPS_TYPES_H_
#define VERIF_HARNESS_OPS_TYPES_H_

#include <tuple>
#include <utility>

#include "absl/numeric/int128.h"
#include "common/refval.h"
#include "dpf/int_mod_n.h"
#include "dpf/tuple.h"
#include "dpf/xor_wrapper.h"

namespace vh {

using dpflib::IntModN;
using dpflib::Tuple;
using dpflib::XorWrapper;

template <typename T, typename = void>
struct Conv;

template <typename T>
struct IsUInt : std::integral_constant<bool, std::is_same<T, uint8_t>::value || std::is_same<T, uint16_t>::value ||
                                                 std::is_same<T, uint32_t>::value || std::is_same<T, uint64_t>::value ||
                                                 std::is_same<T, absl::uint128>::value ||
                                                 std::is_same<T, unsigned __int128>::value> {};

template <typename T>
struct Conv<T, std::enable_if_t<IsUInt<T>::value>> {
  static RT Type() { return RT::Int(static_cast<int>(sizeof(T)) * 8); }
  static RVal To(T v) { RVal r; r.v = v; return r; }
  static T From(const RVal& v) { return static_cast<T>(v.v); }
};
template <typename T>
struct Conv<XorWrapper<T>> {
  static RT Type() { return RT::Xor(static_cast<int>(sizeof(T)) * 8); }
  static RVal To(const XorWrapper<T>& v) { RVal r; r.v = v.value(); return r; }
  static XorWrapper<T> From(const RVal& v) { return XorWrapper<T>(static_cast<T>(v.v)); }
};
template <typename B, typename M, M kN>
struct Conv<dpflib::dpf_internal::IntModNImpl<B, M, kN>> {
  using T = dpflib::dpf_internal::IntModNImpl<B, M, kN>;
  static RT Type() { return RT::Mod(static_cast<int>(sizeof(B)) * 8, absl::uint128(kN)); }
  static RVal To(const T& v) { RVal r; r.v = v.value(); return r; }
  static T From(const RVal& v) { return T(static_cast<B>(v.v)); }
};
template <typename... E>
struct Conv<Tuple<E...>> {
  using T = Tuple<E...>;
  static RT Type() { return RT::Tup({Conv<E>::Type()...}); }
  template <size_t... I>
  static RVal ToI(const T& v, std::index_sequence<I...>) {
    RVal r;
    r.e = {Conv<E>::To(std::get<I>(v.value()))...};
    return r;
  }
  static RVal To(const T& v) { return ToI(v, std::index_sequence_for<E...>{}); }
  template <size_t... I>
  static T FromI(const RVal& v, std::index_sequence<I...>) {
    return T(std::tuple<E...>(Conv<E>::From(v.e[I])...));
  }
  static T From(const RVal& v) { return FromI(v, std::index_sequence_for<E...>{}); }
};

constexpr unsigned __int128 kMod80 = (static_cast<unsigned __int128>(65535) << 64) + 18446744073709551551ull;  // 2^80-65
constexpr unsigned __int128 kMod97 = (static_cast<unsigned __int128>(1) << 97) - 141;

using M8 = IntModN<uint8_t, 3>;
using M16 = IntModN<uint16_t, 65521>;
using M32 = IntModN<uint32_t, 4294967291u>;
using M32s = IntModN<uint32_t, 1000>;
using M64 = IntModN<uint64_t, 18446744073709551557ull>;
using M128 = IntModN<absl::uint128, kMod80>;
using X8 = XorWrapper<uint8_t>;
using X16 = XorWrapper<uint16_t>;
using X32 = XorWrapper<uint32_t>;
using X64 = XorWrapper<uint64_t>;
using X128 = XorWrapper<absl::uint128>;

}  // namespace vh

#endif
