// Type-erased access to the arithmetic, conversion and sampling of value types.
#ifndef VERIF_HARNESS_VALS_VALS_H_
#define VERIF_HARNESS_VALS_VALS_H_

#include <string>
#include <vector>

#include "absl/status/statusor.h"
#include "common/refval.h"
#include "google/protobuf/repeated_field.h"

namespace vh {

class Vals {
 public:
  virtual ~Vals() = default;
  RT t;
  std::string name;

  virtual RVal Add(const RVal& a, const RVal& b) const = 0;
  virtual RVal Sub(const RVal& a, const RVal& b) const = 0;
  virtual RVal Neg(const RVal& a) const = 0;
  virtual RVal AddAssign(const RVal& a, const RVal& b) const = 0;
  virtual RVal SubAssign(const RVal& a, const RVal& b) const = 0;
  virtual RVal AddAssignSelf(const RVal& a) const = 0;
  virtual RVal SubAssignSelf(const RVal& a) const = 0;
  virtual RVal Copies(const RVal& a) const = 0;   // through copies, moves and assignments
  virtual bool Eq(const RVal& a, const RVal& b) const = 0;
  virtual bool Ne(const RVal& a, const RVal& b) const = 0;
  virtual RVal Default() const = 0;
  // ((a + b) - a) + ... chained in one expression; returns a + b - c + a - b.
  virtual RVal Chain(const RVal& a, const RVal& b, const RVal& c) const = 0;

  virtual dpflib::Value ToValue(const RVal& v) const = 0;
  virtual absl::StatusOr<RVal> FromValue(const dpflib::Value& v) const = 0;
  virtual dpflib::ValueType ToValueType() const = 0;
  virtual absl::StatusOr<std::vector<RVal>> FromValues(
      const google::protobuf::RepeatedPtrField<dpflib::Value>& v) const = 0;

  virtual bool Direct() const = 0;
  virtual int PerBlock() const = 0;
  virtual int TotalBits() const = 0;  // 0 unless direct
  virtual RVal FromBytes(absl::string_view b) const = 0;
  virtual std::vector<RVal> ArrayFromBytes(absl::string_view b) const = 0;

  // Modular integers only (IsMod()).
  virtual bool IsMod() const { return false; }
  virtual u128 Modulus() const { return 0; }
  virtual RVal FromRaw(u128 v) const { return {}; }    // constructor
  virtual RVal AssignRaw(u128 v) const { return {}; }  // assignment from the base type
  virtual absl::StatusOr<int> BytesRequired(int n, double sec) const { return 0; }
  virtual absl::StatusOr<std::vector<RVal>> Sample(absl::string_view b, double sec, int n) const {
    return std::vector<RVal>{};
  }
  virtual std::vector<RVal> Unsafe(absl::string_view b, double sec, int n, int variant) const { return {}; }
};

const std::vector<const Vals*>& AllVals();
void RegisterVals(const Vals* v);

}  // namespace vh

#endif
