// A small independent encoder for the protobuf wire format of keys.
#ifndef VERIF_HARNESS_COMMON_WIRE_H_
#define VERIF_HARNESS_COMMON_WIRE_H_

#include <string>

#include "common/refval.h"

namespace vh {

// Appends fields; with `canonical` off, choices the format leaves open (order
// of fields, explicit defaults, unknown fields) are made at random.
class Wire {
 public:
  explicit Wire(Rng* rng = nullptr) : rng_(rng) {}
  void Varint(int field, uint64_t v, bool keep_zero = false);
  void Bytes(int field, const std::string& b);
  void Double(int field, double v);
  std::string Take();

 private:
  Rng* rng_;  // null: canonical
  std::vector<std::string> parts_;
};

std::string EncodeBlock(uint64_t high, uint64_t low, Rng* rng = nullptr);
std::string EncodeInteger(const dpflib::Value::Integer& v, Rng* rng = nullptr);
std::string EncodeValue(const dpflib::Value& v, Rng* rng = nullptr);
std::string EncodeValueType(const dpflib::ValueType& t, Rng* rng = nullptr);
std::string EncodeParameters(const dpflib::DpfParameters& p, Rng* rng = nullptr);
std::string EncodeKey(const dpflib::DpfKey& k, Rng* rng = nullptr);
std::string EncodeContext(const dpflib::EvaluationContext& c, Rng* rng = nullptr);

}  // namespace vh

#endif
