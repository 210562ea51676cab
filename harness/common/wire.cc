#include "common/wire.h"

#include <cstring>

namespace vh {
namespace {
void PutVarint(std::string* s, uint64_t v) {
  while (v >= 0x80) s->push_back(static_cast<char>(v | 0x80)), v >>= 7;
  s->push_back(static_cast<char>(v));
}
}  // namespace

void Wire::Varint(int field, uint64_t v, bool keep_zero) {
  if (v == 0 && !keep_zero && !(rng_ && rng_->chance(1, 2))) return;
  std::string s;
  PutVarint(&s, static_cast<uint64_t>(field) << 3);
  PutVarint(&s, v);
  parts_.push_back(s);
}
void Wire::Bytes(int field, const std::string& b) {
  std::string s;
  PutVarint(&s, static_cast<uint64_t>(field) << 3 | 2);
  PutVarint(&s, b.size());
  parts_.push_back(s + b);
}
void Wire::Double(int field, double v) {
  if (v == 0) return;
  std::string s;
  PutVarint(&s, static_cast<uint64_t>(field) << 3 | 1);
  char b[8];
  memcpy(b, &v, 8);  // little-endian machines only
  parts_.push_back(s + std::string(b, 8));
}
std::string Wire::Take() {
  if (rng_ && rng_->chance(1, 20)) {
    std::string s;  // an unknown field
    PutVarint(&s, uint64_t{1000} << 3);
    PutVarint(&s, rng_->u64());
    parts_.insert(parts_.begin() + static_cast<long>(rng_->below(parts_.size() + 1)), s);
  }
  std::string out;
  for (auto& p : parts_) out += p;
  return out;
}

std::string EncodeBlock(uint64_t high, uint64_t low, Rng* rng) {
  Wire w(rng);
  if (rng && rng->chance(1, 2)) {
    w.Varint(2, low);
    w.Varint(1, high);
  } else {
    w.Varint(1, high);
    w.Varint(2, low);
  }
  return w.Take();
}
std::string EncodeInteger(const dpflib::Value::Integer& v, Rng* rng) {
  Wire w(rng);
  using I = dpflib::Value::Integer;
  if (v.value_case() == I::kValueUint64) w.Varint(1, v.value_uint64(), true);
  if (v.value_case() == I::kValueUint128) w.Bytes(2, EncodeBlock(v.value_uint128().high(), v.value_uint128().low(), rng));
  return w.Take();
}
std::string EncodeValue(const dpflib::Value& v, Rng* rng) {
  Wire w(rng);
  switch (v.value_case()) {
    case dpflib::Value::kInteger: w.Bytes(1, EncodeInteger(v.integer(), rng)); break;
    case dpflib::Value::kTuple: {
      Wire t(rng);
      for (auto& e : v.tuple().elements()) t.Bytes(1, EncodeValue(e, rng));
      w.Bytes(2, t.Take());
      break;
    }
    case dpflib::Value::kIntModN: w.Bytes(3, EncodeInteger(v.int_mod_n(), rng)); break;
    case dpflib::Value::kXorWrapper: w.Bytes(4, EncodeInteger(v.xor_wrapper(), rng)); break;
    default: break;
  }
  return w.Take();
}
std::string EncodeValueType(const dpflib::ValueType& t, Rng* rng) {
  auto integer = [&](const dpflib::ValueType::Integer& i) {
    Wire x(rng);
    x.Varint(1, static_cast<uint64_t>(static_cast<int64_t>(i.bitsize())));
    return x.Take();
  };
  Wire w(rng);
  switch (t.type_case()) {
    case dpflib::ValueType::kInteger: w.Bytes(1, integer(t.integer())); break;
    case dpflib::ValueType::kTuple: {
      Wire x(rng);
      for (auto& e : t.tuple().elements()) x.Bytes(1, EncodeValueType(e, rng));
      w.Bytes(2, x.Take());
      break;
    }
    case dpflib::ValueType::kIntModN: {
      Wire x(rng);
      if (t.int_mod_n().has_base_integer()) x.Bytes(1, integer(t.int_mod_n().base_integer()));
      if (t.int_mod_n().has_modulus()) x.Bytes(2, EncodeInteger(t.int_mod_n().modulus(), rng));
      w.Bytes(3, x.Take());
      break;
    }
    case dpflib::ValueType::kXorWrapper: w.Bytes(4, integer(t.xor_wrapper())); break;
    default: break;
  }
  return w.Take();
}
std::string EncodeParameters(const dpflib::DpfParameters& p, Rng* rng) {
  Wire w(rng);
  w.Varint(1, static_cast<uint64_t>(static_cast<int64_t>(p.log_domain_size())));
  if (p.has_value_type()) w.Bytes(3, EncodeValueType(p.value_type(), rng));
  w.Double(4, p.security_parameter());
  return w.Take();
}
std::string EncodeKey(const dpflib::DpfKey& k, Rng* rng) {
  Wire w(rng);
  if (k.has_seed()) w.Bytes(1, EncodeBlock(k.seed().high(), k.seed().low(), rng));
  for (auto& c : k.correction_words()) {
    Wire x(rng);
    if (c.has_seed()) x.Bytes(1, EncodeBlock(c.seed().high(), c.seed().low(), rng));
    x.Varint(2, c.control_left());
    x.Varint(3, c.control_right());
    for (auto& v : c.value_correction()) x.Bytes(5, EncodeValue(v, rng));
    w.Bytes(2, x.Take());
  }
  w.Varint(3, static_cast<uint64_t>(static_cast<int64_t>(k.party())));
  for (auto& v : k.last_level_value_correction()) w.Bytes(5, EncodeValue(v, rng));
  return w.Take();
}
std::string EncodeContext(const dpflib::EvaluationContext& c, Rng* rng) {
  Wire w(rng);
  for (auto& p : c.parameters()) w.Bytes(1, EncodeParameters(p, rng));
  if (c.has_key()) w.Bytes(2, EncodeKey(c.key(), rng));
  w.Varint(3, static_cast<uint64_t>(static_cast<int64_t>(c.previous_hierarchy_level())));
  for (auto& e : c.partial_evaluations()) {
    Wire x(rng);
    if (e.has_prefix()) x.Bytes(1, EncodeBlock(e.prefix().high(), e.prefix().low(), rng));
    if (e.has_seed()) x.Bytes(2, EncodeBlock(e.seed().high(), e.seed().low(), rng));
    x.Varint(3, e.control_bit());
    w.Bytes(4, x.Take());
  }
  w.Varint(5, static_cast<uint64_t>(static_cast<int64_t>(c.partial_evaluations_level())));
  return w.Take();
}

}  // namespace vh
