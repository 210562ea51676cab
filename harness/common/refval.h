// Independent model of the library's value types: runtime type descriptions,
// group operations, conversion to and from protos, and sampling from bytes.
#ifndef VERIF_HARNESS_COMMON_REFVAL_H_
#define VERIF_HARNESS_COMMON_REFVAL_H_

#include <optional>
#include <string>
#include <vector>

#include "absl/numeric/int128.h"
#include "common/vh.h"
#include "dpf/distributed_point_function.pb.h"

namespace vh {

namespace dpflib = ::distributed_point_functions;

// A value type.
struct RT {
  enum Kind { INT, MOD, XOR, TUP } kind = INT;
  int bits = 0;       // INT, XOR: size; MOD: size of the base integer
  u128 mod = 0;       // MOD
  std::vector<RT> el; // TUP
  static RT Int(int bits) { RT t; t.kind = INT; t.bits = bits; return t; }
  static RT Xor(int bits) { RT t; t.kind = XOR; t.bits = bits; return t; }
  static RT Mod(int bits, u128 n) { RT t; t.kind = MOD; t.bits = bits; t.mod = n; return t; }
  static RT Tup(std::vector<RT> e) { RT t; t.kind = TUP; t.el = std::move(e); return t; }
  bool Direct() const;     // convertible bit by bit
  int TotalBits() const;   // of a direct type
  bool HasMod() const { return !Direct(); }
  std::string Name() const;
  bool operator==(const RT& o) const;
};

// A value of some RT.
struct RVal {
  u128 v = 0;
  std::vector<RVal> e;
  bool operator==(const RVal& o) const { return v == o.v && e == o.e; }
  bool operator!=(const RVal& o) const { return !(*this == o); }
};

std::string Str(const RVal& v);
RVal Zero(const RT& t);
bool IsZero(const RVal& v);
RVal Add(const RT& t, const RVal& a, const RVal& b);
RVal Neg(const RT& t, const RVal& a);
inline RVal Sub(const RT& t, const RVal& a, const RVal& b) { return Add(t, a, Neg(t, b)); }
RVal RandomVal(const RT& t, Rng& rng);         // biased to edges
RVal RandomNonZero(const RT& t, Rng& rng);
bool InRange(const RT& t, const RVal& v);
// A random type the library is documented to accept.
RT RandomType(Rng& rng, int depth);

dpflib::ValueType TypeProto(const RT& t);
dpflib::Value ValProto(const RT& t, const RVal& v);
// Integers of the wire format, in the form chosen by `wide`.
void SetInteger(dpflib::Value::Integer* out, u128 v, bool wide = false);
std::optional<u128> GetInteger(const dpflib::Value::Integer& in);
// nullopt if the proto does not describe a value of type t.
std::optional<RVal> FromProto(const RT& t, const dpflib::Value& v);

// Elements packed into one 128-bit block (1 if the type is larger or modular).
int ElementsPerBlock(const RT& t);
// The elements a block string yields (the first ElementsPerBlock elements);
// nullopt if `bytes` is too short.
std::optional<std::vector<RVal>> FromBytes(const RT& t, absl::string_view bytes);
// Bytes FromBytes reads at most.
int BytesConsumed(const RT& t);
// Documented statistical security of n samples mod `mod` drawn from 128 bits.
double ModSecurity(int n, u128 mod);
// Lower bound on the distance from the limit of what the type can reach at the
// given security parameter: nullopt if unsupported (different moduli in one
// tuple), negative if out of reach, else the margin in bits.
std::optional<double> SecurityMargin(const RT& t, double sec);

}  // namespace vh

#endif
