// Type-erased access to the library's templates, one Ops object per C++ type.
#ifndef VERIF_HARNESS_OPS_OPS_H_
#define VERIF_HARNESS_OPS_OPS_H_

#include <functional>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "absl/status/statusor.h"
#include "absl/types/span.h"
#include "common/refdpf.h"
#include "common/refval.h"
#include "dpf/distributed_point_function.h"

namespace vh {

using dpflib::DistributedPointFunction;
using dpflib::DpfKey;
using dpflib::DpfParameters;
using dpflib::EvaluationContext;
using dpflib::Value;
using dpflib::ValueType;
using KeyPair = std::pair<DpfKey, DpfKey>;
using Points = absl::Span<const absl::uint128>;

class Ops {
 public:
  virtual ~Ops() = default;
  RT t;

  // Evaluation.
  virtual absl::StatusOr<std::vector<RVal>> EvalAt(const DistributedPointFunction& d, const DpfKey& k,
                                                   int level, Points x) const = 0;
  virtual absl::StatusOr<std::vector<RVal>> EvalAt(const DistributedPointFunction& d, int level, Points x,
                                                   EvaluationContext& ctx) const = 0;
  virtual absl::StatusOr<std::vector<RVal>> EvalUntil(const DistributedPointFunction& d, int level,
                                                      Points prefixes, EvaluationContext& ctx) const = 0;
  virtual absl::StatusOr<std::vector<RVal>> EvalNext(const DistributedPointFunction& d, Points prefixes,
                                                     EvaluationContext& ctx) const = 0;
  using Callback = std::function<bool(std::vector<RVal>)>;
  virtual absl::Status Apply(const DistributedPointFunction& d, absl::Span<const DpfKey> keys, Points x,
                             Callback cb, int shift) const = 0;
  virtual absl::Status Apply(const DistributedPointFunction& d, absl::Span<const DpfKey* const> keys,
                             Points x, Callback cb, int shift) const = 0;
  // The overload without a shift argument.
  virtual absl::Status Apply(const DistributedPointFunction& d, absl::Span<const DpfKey> keys, Points x,
                             Callback cb) const = 0;

  // Key generation.
  virtual absl::Status Register(DistributedPointFunction& d) const = 0;
  virtual absl::StatusOr<KeyPair> Gen(DistributedPointFunction& d, u128 alpha, const RVal& beta) const = 0;
  virtual absl::StatusOr<KeyPair> GenSpan(DistributedPointFunction& d, u128 alpha,
                                          const std::vector<RVal>& betas) const = 0;
  virtual absl::StatusOr<Value> ToValueWith(DistributedPointFunction& d, const RVal& v) const = 0;

  // Conversion.
  virtual Value ToValue(const RVal& v) const = 0;
  virtual absl::StatusOr<RVal> FromValue(const Value& v) const = 0;
  virtual ValueType ToValueType() const = 0;

  // Group operations of the C++ type.
  virtual RVal OpAdd(const RVal& a, const RVal& b) const = 0;
  virtual RVal OpSub(const RVal& a, const RVal& b) const = 0;
  virtual RVal OpNeg(const RVal& a) const = 0;
  virtual RVal OpAddAssign(const RVal& a, const RVal& b) const = 0;
  virtual RVal OpSubAssign(const RVal& a, const RVal& b) const = 0;
  virtual bool OpEq(const RVal& a, const RVal& b) const = 0;
  virtual bool OpNe(const RVal& a, const RVal& b) const = 0;
  virtual RVal OpDefault() const = 0;
  // x += x and x -= x with aliased operands.
  virtual RVal OpSelfAdd(const RVal& a) const = 0;
  virtual RVal OpSelfSub(const RVal& a) const = 0;
  virtual RVal OpCopyAssign(const RVal& a, const RVal& b) const = 0;
};

// All types.
const std::vector<const Ops*>& AllOps();
// The Ops of a type, or null.
const Ops* FindOps(const RT& t);
void RegisterOps(const Ops* ops);

// Random parameters over the types of AllOps().
struct GenOptions {
  int max_levels = 4;
  int max_ld = 128;
  const Ops* only = nullptr;       // one type on all levels
  bool small_last = false;         // keep all domains small enough to expand
};
std::vector<RefLevel> RandomLevels(Rng& rng, const GenOptions& o);
// Sets a security parameter that the type can reach.
void FixSecurity(Rng& rng, RefLevel* l);
std::unique_ptr<DistributedPointFunction> MakeDpf(Case& c, const std::vector<RefLevel>& levels);
// Registers all types of `levels`.
bool RegisterAll(Case& c, DistributedPointFunction& d, const std::vector<RefLevel>& levels);
// Generates keys with one of the overloads that fit (chosen at random).
absl::StatusOr<KeyPair> GenAny(Case& c, DistributedPointFunction& d, const std::vector<RefLevel>& levels,
                               u128 alpha, const std::vector<RVal>& betas);
std::vector<RVal> RandomBetas(Rng& rng, const std::vector<RefLevel>& levels);
// Interesting points of level i around the prefix of alpha.
std::vector<absl::uint128> RandomPoints(Rng& rng, const std::vector<RefLevel>& levels, int i, u128 alpha, int n);
u128 PrefixOf(const std::vector<RefLevel>& levels, int i, u128 alpha);
inline u128 Shr(u128 v, int n) { return n >= 128 ? u128{0} : v >> n; }
inline u128 Shl(u128 v, int n) { return n >= 128 ? u128{0} : v << n; }

}  // namespace vh

#endif
