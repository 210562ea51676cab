From df673397c2fd6c5f85902467778c98f3957d7f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:19 +0000
Subject: [PATCH 01/40] fix: Reserve enough pseudorandom bits for tuples with
 IntModN elements

BitsNeeded looked at the first num_other elements of a tuple instead of the
elements that are not IntModN, and did not account for how sampling consumes
bytes. Valid tuples such as Tuple<IntModN<uint64_t, N>, Tuple<uint64_t x 4>>
crashed in key generation, others were refused.
---
 dpf/internal/value_type_helpers.cc | 47 +++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/dpf/internal/value_type_helpers.cc b/dpf/internal/value_type_helpers.cc
index 0704cce..40140a4 100644
--- a/dpf/internal/value_type_helpers.cc
+++ b/dpf/internal/value_type_helpers.cc
@@ -16,8 +16,11 @@
 
 #include <stdint.h>
 
+#include <algorithm>
 #include <cmath>
+#include <numeric>
 #include <string>
+#include <vector>
 
 #include "absl/numeric/int128.h"
 #include "absl/status/status.h"
@@ -30,6 +33,28 @@
 namespace distributed_point_functions {
 namespace dpf_internal {
 
+namespace {
+
+// Appends the bit sizes of all (base) integers in `value_type` to `bitsizes`,
+// in order. Sets `has_int_mod_n` if any of them is an IntModN.
+void AppendIntegerBitsizes(const ValueType& value_type,
+                           std::vector<int>& bitsizes, bool& has_int_mod_n) {
+  if (value_type.type_case() == ValueType::kInteger) {
+    bitsizes.push_back(value_type.integer().bitsize());
+  } else if (value_type.type_case() == ValueType::kXorWrapper) {
+    bitsizes.push_back(value_type.xor_wrapper().bitsize());
+  } else if (value_type.type_case() == ValueType::kIntModN) {
+    bitsizes.push_back(value_type.int_mod_n().base_integer().bitsize());
+    has_int_mod_n = true;
+  } else if (value_type.type_case() == ValueType::kTuple) {
+    for (const ValueType& el : value_type.tuple().elements()) {
+      AppendIntegerBitsizes(el, bitsizes, has_int_mod_n);
+    }
+  }
+}
+
+}  // namespace
+
 absl::StatusOr<bool> ValueTypesAreEqual(const ValueType& lhs,
                                         const ValueType& rhs) {
   if (lhs.type_case() == ValueType::TypeCase::TYPE_NOT_SET ||
@@ -103,12 +128,14 @@ absl::StatusOr<int> BitsNeeded(const ValueType& value_type,
       }
     }
     if (num_other > 0) {
-      for (int i = 0; i < num_other; ++i) {
+      for (const ValueType& el : value_type.tuple().elements()) {
+        if (el.type_case() == ValueType::kIntModN) {
+          continue;
+        }
         double per_element_security_parameter =
             security_parameter + std::log2(static_cast<double>(num_other));
         DPF_ASSIGN_OR_RETURN(int el_bitsize,
-                             BitsNeeded(value_type.tuple().elements(i),
-                                        per_element_security_parameter));
+                             BitsNeeded(el, per_element_security_parameter));
         bitsize_other += el_bitsize;
       }
     }
@@ -123,7 +150,19 @@ absl::StatusOr<int> BitsNeeded(const ValueType& value_type,
               modulus, security_parameter));
       bitsize_ints_mod_n = bytes_needed_ints_mod_n * 8;
     }
-    return bitsize_ints_mod_n + bitsize_other;
+    int bitsize = bitsize_ints_mod_n + bitsize_other;
+    // If the tuple cannot be converted directly, its elements are sampled one
+    // after the other, starting with a full 128-bit block, which is then filled
+    // up after each element but the last (see `SampleAndUpdateBytes`).
+    std::vector<int> integer_bitsizes;
+    bool has_int_mod_n = false;
+    AppendIntegerBitsizes(value_type, integer_bitsizes, has_int_mod_n);
+    if (has_int_mod_n) {
+      bitsize = std::max(bitsize, std::accumulate(integer_bitsizes.begin(),
+                                                  integer_bitsizes.end() - 1,
+                                                  128));
+    }
+    return bitsize;
   } else if (value_type.type_case() == ValueType::kIntModN) {
     DPF_ASSIGN_OR_RETURN(
         absl::uint128 modulus,
-- 
2.43.0


From 02fbb2741e9765c880cc8301de262a6ead42d44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:05 +0000
Subject: [PATCH 02/40] fix: Refuse out-of-range evaluation points in
 EvaluateAndApply

---
 dpf/distributed_point_function.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/dpf/distributed_point_function.h b/dpf/distributed_point_function.h
index 6cd1c56..7ea3d8c 100644
--- a/dpf/distributed_point_function.h
+++ b/dpf/distributed_point_function.h
@@ -1091,6 +1091,20 @@ absl::Status DistributedPointFunction::EvaluateAndApply(
     absl::Status status = proto_validator_->ValidateDpfKey(keys[i]);
     if (!status.ok()) return status;
   }
+  if (evaluation_points_rightshift < 0) {
+    return absl::InvalidArgumentError(
+        "`evaluation_points_rightshift` must be non-negative");
+  }
+  const int evaluation_point_bits =
+      parameters_.back().log_domain_size() + evaluation_points_rightshift;
+  if (evaluation_point_bits < 128) {
+    for (size_t i = 0; i < evaluation_points.size(); ++i) {
+      if (evaluation_points[i] >> evaluation_point_bits != 0) {
+        return absl::InvalidArgumentError(absl::StrCat(
+            "`evaluation_points[", i, "]` larger than the domain size"));
+      }
+    }
+  }
 
   const int64_t num_keys = keys.size();
   const int num_hierarchy_levels = parameters_.size();
-- 
2.43.0


From b7dcf037330762793247f88cd97f8fa9ead92810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:05 +0000
Subject: [PATCH 03/40] fix: Do not crash in EvaluateAndApply without keys

---
 dpf/distributed_point_function.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dpf/distributed_point_function.h b/dpf/distributed_point_function.h
index 7ea3d8c..4fa843e 100644
--- a/dpf/distributed_point_function.h
+++ b/dpf/distributed_point_function.h
@@ -1108,6 +1108,17 @@ absl::Status DistributedPointFunction::EvaluateAndApply(
 
   const int64_t num_keys = keys.size();
   const int num_hierarchy_levels = parameters_.size();
+  std::vector<T> values(num_keys);
+  if (num_keys == 0) {
+    // Nothing to evaluate, but `op` is still called for each hierarchy level.
+    for (int i = 0; i < num_hierarchy_levels; ++i) {
+      if (!op(values)) {
+        break;
+      }
+    }
+    return absl::OkStatus();
+  }
+
   DpfExpansion eval;
   eval.control_bits.resize(num_keys);
   eval.seeds = hwy::AllocateAligned<absl::uint128>(num_keys);
@@ -1118,7 +1129,6 @@ absl::Status DistributedPointFunction::EvaluateAndApply(
   absl::Span<bool> control_bits(eval.control_bits);
   hwy::AlignedFreeUniquePtr<absl::uint128[]> correction_seeds;
   BitVector correction_control_bits_left, correction_control_bits_right;
-  std::vector<T> values(num_keys);
 
   // Initialize seeds and control bits.
   for (int64_t i = 0; i < num_keys; ++i) {
-- 
2.43.0


From baeff1b4b164d4c81137770f97f5b0756ba7ec79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 04/40] fix: Refuse value types that do not match the
 parameters in point evaluation

---
 dpf/distributed_point_function.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/dpf/distributed_point_function.h b/dpf/distributed_point_function.h
index 4fa843e..cdb8818 100644
--- a/dpf/distributed_point_function.h
+++ b/dpf/distributed_point_function.h
@@ -938,6 +938,14 @@ absl::StatusOr<std::vector<T>> DistributedPointFunction::EvaluateAtImpl(
         "`hierarchy_level` must be less than the number of parameters passed "
         "at construction");
   }
+  absl::StatusOr<bool> types_are_equal = dpf_internal::ValueTypesAreEqual(
+      ToValueType<T>(), parameters_[hierarchy_level].value_type());
+  if (!types_are_equal.ok()) {
+    return types_are_equal.status();
+  } else if (!*types_are_equal) {
+    return absl::InvalidArgumentError(
+        "Value type T doesn't match parameters at `hierarchy_level`");
+  }
   const auto num_evaluation_points =
       static_cast<int64_t>(evaluation_points.size());
   const int log_domain_size = parameters_[hierarchy_level].log_domain_size();
@@ -1145,6 +1153,16 @@ absl::Status DistributedPointFunction::EvaluateAndApply(
       stop_level = hierarchy_to_tree_[hierarchy_level];
     }
 
+    absl::StatusOr<bool> types_are_equal = dpf_internal::ValueTypesAreEqual(
+        ToValueType<T>(), parameters_[hierarchy_level].value_type());
+    if (!types_are_equal.ok()) {
+      return types_are_equal.status();
+    } else if (!*types_are_equal) {
+      return absl::InvalidArgumentError(absl::StrCat(
+          "Value type T doesn't match parameters at hierarchy level ",
+          hierarchy_level));
+    }
+
     // Compute index shifts for the current level.
     const int domain_index_rightshift =
         evaluation_points_rightshift + parameters_.back().log_domain_size() -
-- 
2.43.0


From 1e93990d612ccaa6a30acb1ab1980cec3c696a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 05/40] fix: Check partial_evaluations_level of evaluation
 contexts

---
 dpf/distributed_point_function.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dpf/distributed_point_function.cc b/dpf/distributed_point_function.cc
index a3c42d0..036691a 100644
--- a/dpf/distributed_point_function.cc
+++ b/dpf/distributed_point_function.cc
@@ -379,6 +379,12 @@ DistributedPointFunction::ComputePartialEvaluations(
     absl::Span<const absl::uint128> prefixes, int hierarchy_level,
     bool update_ctx, EvaluationContext& ctx) const {
   int64_t num_prefixes = static_cast<int64_t>(prefixes.size());
+  if (ctx.partial_evaluations_level() < 0 ||
+      ctx.partial_evaluations_level() >= static_cast<int>(parameters_.size())) {
+    return absl::InvalidArgumentError(
+        "`ctx.partial_evaluations_level` must be non-negative and less than "
+        "the number of parameters passed at construction");
+  }
 
   DpfExpansion partial_evaluations;
   int start_level = hierarchy_to_tree_[ctx.partial_evaluations_level()];
-- 
2.43.0


From e268559d0ab7050d81a5bae23de3ea7061f5bd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 06/40] fix: Check all 128 bits of integer values against their
 type

---
 dpf/internal/value_type_helpers.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/dpf/internal/value_type_helpers.h b/dpf/internal/value_type_helpers.h
index 1e28348..4dfb9a3 100644
--- a/dpf/internal/value_type_helpers.h
+++ b/dpf/internal/value_type_helpers.h
@@ -168,12 +168,10 @@ Value::Integer Uint128ToValueInteger(absl::uint128 input);
 template <typename T, typename = absl::enable_if_t<is_unsigned_integer_v<T>>>
 absl::StatusOr<T> Uint128To(absl::uint128 in) {
   // Check whether value is in range if it's smaller than 128 bits.
-  if (!std::is_same<T, absl::uint128>::value &&
-      absl::Uint128Low64(in) >
-          static_cast<uint64_t>(std::numeric_limits<T>::max())) {
-    return absl::InvalidArgumentError(absl::StrCat(
-        "Value (= ", absl::Uint128Low64(in),
-        ") too large for the given type T (size ", sizeof(T), ")"));
+  if (absl::uint128{static_cast<T>(in)} != in) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "Value (= %d) too large for the given type T (size %d)", in,
+        sizeof(T)));
   }
   return static_cast<T>(in);
 }
-- 
2.43.0


From aeffc0a466cf27a6d87cadba8908c653e2397246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 07/40] fix: Refuse empty tuples as value types

---
 dpf/internal/proto_validator.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dpf/internal/proto_validator.cc b/dpf/internal/proto_validator.cc
index 678b3de..f01aced 100644
--- a/dpf/internal/proto_validator.cc
+++ b/dpf/internal/proto_validator.cc
@@ -270,6 +270,9 @@ absl::Status ProtoValidator::ValidateValueType(const ValueType& value_type) {
   if (value_type.type_case() == ValueType::kInteger) {
     return ValidateIntegerType(value_type.integer());
   } else if (value_type.type_case() == ValueType::kTuple) {
+    if (value_type.tuple().elements().empty()) {
+      return absl::InvalidArgumentError("Tuples must not be empty");
+    }
     for (const ValueType& el : value_type.tuple().elements()) {
       DPF_RETURN_IF_ERROR(ValidateValueType(el));
     }
-- 
2.43.0


From f1206c15865983605e49377769d89f1e087f9ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 08/40] fix: Do not mix up samples modulo N of 128-bit integers

---
 dpf/int_mod_n.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dpf/int_mod_n.h b/dpf/int_mod_n.h
index 0f61ed0..c6b2013 100644
--- a/dpf/int_mod_n.h
+++ b/dpf/int_mod_n.h
@@ -175,6 +175,8 @@ class IntModNImpl : public IntModNBase {
         r /= kModulus;
         if (sizeof(BaseInteger) < sizeof(absl::uint128)) {
           r <<= (sizeof(BaseInteger) * 8);
+        } else {
+          r = 0;
         }
         r |= randomness[i];
       }
-- 
2.43.0


From 64a79bedd527d8f6566de88f1701eb0cfd6a65cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:12 +0000
Subject: [PATCH 09/40] fix: Let the tree evaluation compile for scalar-only
 Highway builds

---
 dpf/internal/evaluate_prg_hwy.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dpf/internal/evaluate_prg_hwy.cc b/dpf/internal/evaluate_prg_hwy.cc
index f1e9ced..7beaa89 100644
--- a/dpf/internal/evaluate_prg_hwy.cc
+++ b/dpf/internal/evaluate_prg_hwy.cc
@@ -50,16 +50,18 @@ namespace hn = hwy::HWY_NAMESPACE;
 #if HWY_TARGET == HWY_SCALAR
 
 absl::Status EvaluateSeedsHwy(
-    int64_t num_seeds, int num_levels, const absl::uint128* seeds_in,
-    const bool* control_bits_in, const absl::uint128* paths,
+    int64_t num_seeds, int num_levels, int num_correction_words,
+    const absl::uint128* seeds_in, const bool* control_bits_in,
+    const absl::uint128* paths, int paths_rightshift,
     const absl::uint128* correction_seeds, const bool* correction_controls_left,
     const bool* correction_controls_right, const Aes128FixedKeyHash& prg_left,
     const Aes128FixedKeyHash& prg_right, absl::uint128* seeds_out,
     bool* control_bits_out) {
-  return EvaluateSeedsNoHwy(num_seeds, num_levels, seeds_in, control_bits_in,
-                            paths, correction_seeds, correction_controls_left,
-                            correction_controls_right, prg_left, prg_right,
-                            seeds_out, control_bits_out);
+  return EvaluateSeedsNoHwy(
+      num_seeds, num_levels, num_correction_words, seeds_in, control_bits_in,
+      paths, paths_rightshift, correction_seeds, correction_controls_left,
+      correction_controls_right, prg_left, prg_right, seeds_out,
+      control_bits_out);
 }
 
 #else
-- 
2.43.0


From 0cf5efa7944de267b15776350f04d41b8e53e5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:04 +0000
Subject: [PATCH 10/40] fix: Zero XOR-wrapped values in DCF keys where alpha's
 bit is zero

---
 dcf/distributed_comparison_function.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dcf/distributed_comparison_function.cc b/dcf/distributed_comparison_function.cc
index 40f9c36..db0250b 100644
--- a/dcf/distributed_comparison_function.cc
+++ b/dcf/distributed_comparison_function.cc
@@ -34,6 +34,8 @@ void SetToZero(Value& value) {
     value.mutable_integer()->set_value_uint64(0);
   } else if (value.value_case() == Value::kIntModN) {
     value.mutable_int_mod_n()->set_value_uint64(0);
+  } else if (value.value_case() == Value::kXorWrapper) {
+    value.mutable_xor_wrapper()->set_value_uint64(0);
   } else if (value.value_case() == Value::kTuple) {
     for (int i = 0; i < value.tuple().elements_size(); ++i) {
       SetToZero(*(value.mutable_tuple()->mutable_elements(i)));
-- 
2.43.0


From 7fab1b00a16baa66ad4158b20ab4592198817ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:04 +0000
Subject: [PATCH 11/40] fix: Refuse invalid betas in DCF key generation for
 every alpha

---
 dcf/distributed_comparison_function.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dcf/distributed_comparison_function.cc b/dcf/distributed_comparison_function.cc
index db0250b..4c78e3f 100644
--- a/dcf/distributed_comparison_function.cc
+++ b/dcf/distributed_comparison_function.cc
@@ -82,6 +82,10 @@ DistributedComparisonFunction::Create(const DcfParameters& parameters) {
 absl::StatusOr<std::pair<DcfKey, DcfKey>>
 DistributedComparisonFunction::GenerateKeys(absl::uint128 alpha,
                                             const Value& beta) {
+  // Values that are replaced by zero below must be valid, too.
+  DPF_RETURN_IF_ERROR(dpf_internal::ProtoValidator::ValidateValue(
+      beta, parameters_.parameters().value_type()));
+
   const int log_domain_size = parameters_.parameters().log_domain_size();
   std::vector<Value> dpf_values(log_domain_size, beta);
   for (int i = 0; i < log_domain_size; ++i) {
-- 
2.43.0


From befede9462e9b24e140debf178e5aef562f6bf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 12/40] fix: Read interval bounds and mask shares given as
 64-bit values

---
 .../multiple_interval_containment.cc          | 41 +++++++++----------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/dcf/fss_gates/multiple_interval_containment.cc b/dcf/fss_gates/multiple_interval_containment.cc
index 174d546..088812d 100644
--- a/dcf/fss_gates/multiple_interval_containment.cc
+++ b/dcf/fss_gates/multiple_interval_containment.cc
@@ -34,6 +34,19 @@
 namespace distributed_point_functions {
 namespace fss_gates {
 
+namespace {
+
+// Returns the integer in `value`, whichever of its fields holds it.
+absl::uint128 ToUint128(const Value::Integer& value) {
+  if (value.value_case() == Value::Integer::kValueUint64) {
+    return value.value_uint64();
+  }
+  return absl::MakeUint128(value.value_uint128().high(),
+                           value.value_uint128().low());
+}
+
+}  // namespace
+
 absl::StatusOr<std::unique_ptr<MultipleIntervalContainmentGate>>
 MultipleIntervalContainmentGate::Create(const MicParameters& mic_parameters) {
   // Declaring the parameters for a Distributed Comparison Function (DCF).
@@ -56,13 +69,9 @@ MultipleIntervalContainmentGate::Create(const MicParameters& mic_parameters) {
       return absl::InvalidArgumentError("Intervals should be non-empty");
     }
 
-    absl::uint128 p = absl::MakeUint128(
-        mic_parameters.intervals(i).lower_bound().value_uint128().high(),
-        mic_parameters.intervals(i).lower_bound().value_uint128().low());
+    absl::uint128 p = ToUint128(mic_parameters.intervals(i).lower_bound());
 
-    absl::uint128 q = absl::MakeUint128(
-        mic_parameters.intervals(i).upper_bound().value_uint128().high(),
-        mic_parameters.intervals(i).upper_bound().value_uint128().low());
+    absl::uint128 q = ToUint128(mic_parameters.intervals(i).upper_bound());
 
     // Return error if the intervals are not valid group elements.
     if (p < 0 || p >= N) {
@@ -154,13 +163,9 @@ absl::StatusOr<std::pair<MicKey, MicKey>> MultipleIntervalContainmentGate::Gen(
 
   // Line 3
   for (int i = 0; i < mic_parameters_.intervals_size(); i++) {
-    absl::uint128 p = absl::MakeUint128(
-        mic_parameters_.intervals(i).lower_bound().value_uint128().high(),
-        mic_parameters_.intervals(i).lower_bound().value_uint128().low());
+    absl::uint128 p = ToUint128(mic_parameters_.intervals(i).lower_bound());
 
-    absl::uint128 q = absl::MakeUint128(
-        mic_parameters_.intervals(i).upper_bound().value_uint128().high(),
-        mic_parameters_.intervals(i).upper_bound().value_uint128().low());
+    absl::uint128 q = ToUint128(mic_parameters_.intervals(i).upper_bound());
 
     // Line 4
     absl::uint128 q_prime = (q + 1) % N;
@@ -243,13 +248,9 @@ MultipleIntervalContainmentGate::BatchEval(
   // https://eprint.iacr.org/2020/1392 Fig. 14 Eval procedure.
   for (int i = 0; i < num_intervals; ++i) {
     // Line 2
-    p[i] = absl::MakeUint128(
-        mic_parameters_.intervals(i).lower_bound().value_uint128().high(),
-        mic_parameters_.intervals(i).lower_bound().value_uint128().low());
+    p[i] = ToUint128(mic_parameters_.intervals(i).lower_bound());
 
-    q[i] = absl::MakeUint128(
-        mic_parameters_.intervals(i).upper_bound().value_uint128().high(),
-        mic_parameters_.intervals(i).upper_bound().value_uint128().low());
+    q[i] = ToUint128(mic_parameters_.intervals(i).upper_bound());
 
     // Line 3
     q_prime[i] = (q[i] + 1) % N;
@@ -293,9 +294,7 @@ MultipleIntervalContainmentGate::BatchEval(
       s_q_prime[index] = s_q_prime[index] % N;
 
       // Line 7
-      absl::uint128 z =
-          absl::MakeUint128(k.output_mask_share(j).value_uint128().high(),
-                            k.output_mask_share(j).value_uint128().low());
+      absl::uint128 z = ToUint128(k.output_mask_share(j));
       absl::uint128 y = (k.dcfkey().key().party()
                              ? ((x > p[j] ? 1 : 0) - (x > q_prime[j] ? 1 : 0))
                              : 0) -
-- 
2.43.0


From a9be8789f5cbaded1332314d290c633bf8b40c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 13/40] fix: Check the number of output mask shares in interval
 containment keys

---
 dcf/fss_gates/multiple_interval_containment.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dcf/fss_gates/multiple_interval_containment.cc b/dcf/fss_gates/multiple_interval_containment.cc
index 088812d..c57b228 100644
--- a/dcf/fss_gates/multiple_interval_containment.cc
+++ b/dcf/fss_gates/multiple_interval_containment.cc
@@ -234,6 +234,16 @@ MultipleIntervalContainmentGate::BatchEval(
   }
 
   int num_intervals = mic_parameters_.intervals_size();
+
+  // Checking whether all keys have one output mask share per interval
+  for (int i = 0; i < keys.size(); i++) {
+    if (keys[i].output_mask_share_size() != num_intervals) {
+      return absl::InvalidArgumentError(
+          "Count of output mask shares should be equal to the number of "
+          "intervals");
+    }
+  }
+
   std::vector<absl::uint128> p(num_intervals), q(num_intervals),
       q_prime(num_intervals), s_p(keys.size() * num_intervals),
       s_q_prime(keys.size() * num_intervals);
-- 
2.43.0


From f9bb3545503dc6eeea47309dd4f886f1da44351d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 14/40] fix: Do not crash in interval containment without keys
 or intervals

---
 dcf/fss_gates/multiple_interval_containment.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dcf/fss_gates/multiple_interval_containment.cc b/dcf/fss_gates/multiple_interval_containment.cc
index c57b228..e034bb7 100644
--- a/dcf/fss_gates/multiple_interval_containment.cc
+++ b/dcf/fss_gates/multiple_interval_containment.cc
@@ -244,6 +244,12 @@ MultipleIntervalContainmentGate::BatchEval(
     }
   }
 
+  // There is nothing to evaluate without keys or without intervals, and
+  // hwy::AllocateAligned cannot allocate empty buffers.
+  if (keys.size() == 0 || num_intervals == 0) {
+    return std::vector<absl::uint128>();
+  }
+
   std::vector<absl::uint128> p(num_intervals), q(num_intervals),
       q_prime(num_intervals), s_p(keys.size() * num_intervals),
       s_q_prime(keys.size() * num_intervals);
-- 
2.43.0


From 7181fb52265126646d7d5131027773f5eaae1206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 15/40] fix: Refuse comparison functions on domains of more
 than 128 bits

---
 dcf/distributed_comparison_function.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dcf/distributed_comparison_function.cc b/dcf/distributed_comparison_function.cc
index 4c78e3f..ddf1211 100644
--- a/dcf/distributed_comparison_function.cc
+++ b/dcf/distributed_comparison_function.cc
@@ -55,6 +55,10 @@ DistributedComparisonFunction::Create(const DcfParameters& parameters) {
   if (parameters.parameters().log_domain_size() < 1) {
     return absl::InvalidArgumentError("A DCF must have log_domain_size >= 1");
   }
+  // The DPF below only sees domains of up to log_domain_size - 1 bits.
+  if (parameters.parameters().log_domain_size() > 128) {
+    return absl::InvalidArgumentError("A DCF must have log_domain_size <= 128");
+  }
 
   // Create parameter vector for the incremental DPF.
   std::vector<DpfParameters> dpf_parameters(
-- 
2.43.0


From b04cef91c3a759d85160e05788a9550c8fe0031d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 16/40] fix: Accept any non-negative shift in EvaluateAndApply
 without overflow

---
 dpf/distributed_point_function.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dpf/distributed_point_function.h b/dpf/distributed_point_function.h
index cdb8818..506959d 100644
--- a/dpf/distributed_point_function.h
+++ b/dpf/distributed_point_function.h
@@ -1103,6 +1103,8 @@ absl::Status DistributedPointFunction::EvaluateAndApply(
     return absl::InvalidArgumentError(
         "`evaluation_points_rightshift` must be non-negative");
   }
+  // Larger shifts have the same effect on 128-bit evaluation points.
+  evaluation_points_rightshift = std::min(evaluation_points_rightshift, 128);
   const int evaluation_point_bits =
       parameters_.back().log_domain_size() + evaluation_points_rightshift;
   if (evaluation_point_bits < 128) {
-- 
2.43.0


From 6bff0cf45e2fdd2ffa902c783a17a44dad01110b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 17/40] fix: Refuse 128-bit integer values without a value

---
 dpf/internal/proto_validator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpf/internal/proto_validator.cc b/dpf/internal/proto_validator.cc
index f01aced..8099b37 100644
--- a/dpf/internal/proto_validator.cc
+++ b/dpf/internal/proto_validator.cc
@@ -88,8 +88,8 @@ absl::Status ValidateIntegerType(const ValueType::Integer& type) {
 
 absl::Status ValidateIntegerValue(const Value::Integer& value,
                                   const ValueType::Integer& type) {
+  DPF_ASSIGN_OR_RETURN(absl::uint128 value_128, ValueIntegerToUint128(value));
   if (type.bitsize() < 128) {
-    DPF_ASSIGN_OR_RETURN(absl::uint128 value_128, ValueIntegerToUint128(value));
     if (value_128 >= absl::uint128{1} << type.bitsize()) {
       return absl::InvalidArgumentError(absl::StrFormat(
           "Value (= %d) too large for ValueType with bitsize = %d", value_128,
-- 
2.43.0


From f575c5ae8c2d1667007b08d9f460ddff9ba4c23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 18/40] fix: Do not overflow in EvaluateNext on fully evaluated
 contexts

---
 dpf/distributed_point_function.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dpf/distributed_point_function.h b/dpf/distributed_point_function.h
index 506959d..67743d2 100644
--- a/dpf/distributed_point_function.h
+++ b/dpf/distributed_point_function.h
@@ -329,6 +329,10 @@ class DistributedPointFunction {
       absl::Span<const absl::uint128> prefixes, EvaluationContext& ctx) const {
     if (prefixes.empty()) {
       return EvaluateUntil<T>(0, prefixes, ctx);
+    } else if (ctx.previous_hierarchy_level() >=
+               static_cast<int64_t>(parameters_.size()) - 1) {
+      return absl::InvalidArgumentError(
+          "This context has already been fully evaluated");
     } else {
       return EvaluateUntil<T>(ctx.previous_hierarchy_level() + 1, prefixes,
                               ctx);
-- 
2.43.0


From 9c6207dbddf55585725f32d4cfd470212cec5e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:52 +0000
Subject: [PATCH 19/40] fix: Hash correctly when the output starts within the
 input

---
 dpf/aes_128_fixed_key_hash.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dpf/aes_128_fixed_key_hash.cc b/dpf/aes_128_fixed_key_hash.cc
index f7df231..8a38046 100644
--- a/dpf/aes_128_fixed_key_hash.cc
+++ b/dpf/aes_128_fixed_key_hash.cc
@@ -20,6 +20,7 @@
 
 #include <algorithm>
 #include <array>
+#include <functional>
 #include <string>
 #include <utility>
 
@@ -70,8 +71,13 @@ absl::Status Aes128FixedKeyHash::Evaluate(absl::Span<const absl::uint128> in,
   // at a time.
   auto in_size = static_cast<int64_t>(in.size());
   std::array<absl::uint128, kBatchSize> sigma_in;
-  for (int64_t start_block = 0; start_block < in_size;
-       start_block += kBatchSize) {
+  // If `out` starts within `in`, go backwards to not overwrite unread inputs.
+  const int64_t num_batches = (in_size + kBatchSize - 1) / kBatchSize;
+  const bool backwards =
+      std::less<const absl::uint128*>()(in.data(), out.data());
+  for (int64_t batch = 0; batch < num_batches; ++batch) {
+    const int64_t start_block =
+        (backwards ? num_batches - 1 - batch : batch) * kBatchSize;
     int64_t batch_size = std::min<int64_t>(in_size - start_block, kBatchSize);
     for (int i = 0; i < batch_size; ++i) {
       sigma_in[i] =
-- 
2.43.0


From 52a1807769a22593eb4c300dd77bf289e8206624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:07 +0000
Subject: [PATCH 20/40] fix: Do not lose elements when the cuckoo table's stash
 is full

---
 pir/hashing/cuckoo_hash_table.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pir/hashing/cuckoo_hash_table.cc b/pir/hashing/cuckoo_hash_table.cc
index 4a81655..ffb0b09 100644
--- a/pir/hashing/cuckoo_hash_table.cc
+++ b/pir/hashing/cuckoo_hash_table.cc
@@ -66,6 +66,8 @@ absl::StatusOr<std::unique_ptr<CuckooHashTable>> CuckooHashTable::Create(
 
 absl::Status CuckooHashTable::Insert(absl::string_view input) {
   std::string current_element(input);
+  // Buckets whose element was evicted, so that evictions can be undone.
+  std::vector<int> evicted_from;
   for (int i = 0; i < max_relocations_; i++) {
     // Choose a random hash function and hash the current element.
     int hash = hash_functions_[random_hash_function_(rng_)](current_element,
@@ -73,6 +75,7 @@ absl::Status CuckooHashTable::Insert(absl::string_view input) {
     if (table_[hash]) {
       // If bucket is full, evict element and re-insert it recursively.
       std::swap(current_element, *table_[hash]);
+      evicted_from.push_back(hash);
     } else {
       // Otherwise just insert our current element and return.
       table_[hash] = std::move(current_element);
@@ -82,6 +85,10 @@ absl::Status CuckooHashTable::Insert(absl::string_view input) {
   // If we're still here after max_relocations_, put current_element on the
   // stash.
   if (max_stash_size_ && stash_.size() >= *max_stash_size_) {
+    // Undo all evictions, so that no element that was inserted before is lost.
+    for (auto it = evicted_from.rbegin(); it != evicted_from.rend(); ++it) {
+      std::swap(current_element, *table_[*it]);
+    }
     return absl::InternalError("Cannot insert element: stash is full");
   } else {
     stash_.push_back(std::move(current_element));
-- 
2.43.0


From 6338ed78e509a8d47b56102c3d9e746518f64195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:07 +0000
Subject: [PATCH 21/40] fix: Respect the bucket limit if hash functions of a
 simple table agree

---
 pir/hashing/simple_hash_table.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pir/hashing/simple_hash_table.cc b/pir/hashing/simple_hash_table.cc
index b03c19e..572aef8 100644
--- a/pir/hashing/simple_hash_table.cc
+++ b/pir/hashing/simple_hash_table.cc
@@ -14,6 +14,7 @@
 
 #include "pir/hashing/simple_hash_table.h"
 
+#include <algorithm>
 #include <memory>
 #include <string>
 #include <utility>
@@ -56,7 +57,11 @@ absl::Status SimpleHashTable::Insert(absl::string_view input) {
   std::vector<int> hashes(hash_functions_.size());
   for (int i = 0; i < hash_functions_.size(); i++) {
     hashes[i] = hash_functions_[i](input, num_buckets_);
-    if (max_bucket_size_ && table_[hashes[i]].size() >= *max_bucket_size_) {
+    // Multiple hash functions may choose the same bucket.
+    int num_insertions =
+        std::count(hashes.begin(), hashes.begin() + i, hashes[i]);
+    if (max_bucket_size_ &&
+        table_[hashes[i]].size() + num_insertions >= *max_bucket_size_) {
       return absl::InternalError(
           "Cannot insert element: maximum bucket size reached");
     }
-- 
2.43.0


From 836dff5eda430569d3629a2f05c067b6f5d62f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:38 +0000
Subject: [PATCH 22/40] fix: Do not overflow in inner products with long
 selections

---
 pir/internal/inner_product_hwy.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pir/internal/inner_product_hwy.cc b/pir/internal/inner_product_hwy.cc
index d342f9d..5ca623c 100644
--- a/pir/internal/inner_product_hwy.cc
+++ b/pir/internal/inner_product_hwy.cc
@@ -188,9 +188,9 @@ absl::StatusOr<std::vector<std::string>> InnerProductHwy(
   result_ptrs.reserve(aligned_results.size());
   for (int64_t i = 0; i < selection_vector_size; ++i) {
     // The selection bits are packed in blocks, so we go over them next.
-    const int base = i * kBitsPerBlock;
+    const int64_t base = i * kBitsPerBlock;
     for (int j = 0; j < kBitsPerBlock; ++j) {
-      const int index = base + j;
+      const int64_t index = base + j;
       if (index >= values.size()) {
         break;  // end of values reached
       }
@@ -276,8 +276,8 @@ absl::StatusOr<std::vector<std::string>> InnerProductNoHwy(
   std::vector<std::string> result(selections.size(),
                                   std::string(max_value_size, '\0'));
   const int64_t selection_vector_size = selections[0].size();
-  for (int i = 0; i < selection_vector_size; ++i) {
-    int base = i * kBitsPerBlock;
+  for (int64_t i = 0; i < selection_vector_size; ++i) {
+    const int64_t base = i * kBitsPerBlock;
     for (int j = 0; j < kBitsPerBlock; ++j) {
       if (base + j >= values.size()) {
         break;
-- 
2.43.0


From cfa6711d0d3c95fa14bed3fa5d03dd4b978f4ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:36 +0000
Subject: [PATCH 23/40] fix: Do not truncate the database size in the dense PIR
 client

---
 pir/dense_dpf_pir_client.cc | 2 +-
 pir/dense_dpf_pir_client.h  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pir/dense_dpf_pir_client.cc b/pir/dense_dpf_pir_client.cc
index 12cdb08..7708d12 100644
--- a/pir/dense_dpf_pir_client.cc
+++ b/pir/dense_dpf_pir_client.cc
@@ -42,7 +42,7 @@ namespace distributed_point_functions {
 DenseDpfPirClient::DenseDpfPirClient(
     std::unique_ptr<DistributedPointFunction> dpf,
     EncryptHelperRequestFn encrypter, std::string encryption_context_info,
-    int database_size)
+    int64_t database_size)
     : DpfPirClient(std::move(encrypter), std::move(encryption_context_info)),
       dpf_(std::move(dpf)),
       database_size_(database_size) {}
diff --git a/pir/dense_dpf_pir_client.h b/pir/dense_dpf_pir_client.h
index 3ee4dec..7aa8fed 100644
--- a/pir/dense_dpf_pir_client.h
+++ b/pir/dense_dpf_pir_client.h
@@ -78,10 +78,10 @@ class DenseDpfPirClient
 
   DenseDpfPirClient(std::unique_ptr<DistributedPointFunction> dpf,
                     EncryptHelperRequestFn encrypter,
-                    std::string encryption_context_info, int database_size);
+                    std::string encryption_context_info, int64_t database_size);
 
   std::unique_ptr<DistributedPointFunction> dpf_;
-  int database_size_;
+  int64_t database_size_;
 };
 
 }  // namespace distributed_point_functions
-- 
2.43.0


From 2a36bd66289ddda0f44d4210d2f4168eaa6568d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:18 +0000
Subject: [PATCH 24/40] fix: Refuse sparse PIR parameters with more than
 INT_MAX buckets

---
 pir/cuckoo_hashed_dpf_pir_database.cc       |  4 ++++
 pir/cuckoo_hashing_sparse_dpf_pir_client.cc |  4 ++++
 pir/simple_hashed_dpf_pir_database.cc       | 10 +++++++---
 pir/simple_hashing_sparse_dpf_pir_client.cc |  4 ++++
 4 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/pir/cuckoo_hashed_dpf_pir_database.cc b/pir/cuckoo_hashed_dpf_pir_database.cc
index 8331377..d7d700c 100644
--- a/pir/cuckoo_hashed_dpf_pir_database.cc
+++ b/pir/cuckoo_hashed_dpf_pir_database.cc
@@ -17,6 +17,7 @@
 #include <stdint.h>
 
 #include <cstddef>
+#include <limits>
 #include <memory>
 #include <string>
 #include <utility>
@@ -121,6 +122,9 @@ CuckooHashedDpfPirDatabase::Builder::Build() {
   if (params_.num_buckets() <= 0) {
     return absl::InvalidArgumentError("`num_buckets` must be positive");
   }
+  if (params_.num_buckets() > std::numeric_limits<int>::max()) {
+    return absl::InvalidArgumentError("`num_buckets` is too large");
+  }
   if (params_.num_hash_functions() <= 0) {
     return absl::InvalidArgumentError("`num_hash_functions` must be positive");
   }
diff --git a/pir/cuckoo_hashing_sparse_dpf_pir_client.cc b/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
index 9ed0d3b..b517607 100644
--- a/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
+++ b/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
@@ -92,6 +92,10 @@ CuckooHashingSparseDpfPirClient::Create(
   if (params.cuckoo_hashing_sparse_dpf_pir_server_params().num_buckets() <= 0) {
     return absl::InvalidArgumentError("`num_buckets` must be positive");
   }
+  if (params.cuckoo_hashing_sparse_dpf_pir_server_params().num_buckets() >
+      std::numeric_limits<int>::max()) {
+    return absl::InvalidArgumentError("`num_buckets` is too large");
+  }
   if (params.cuckoo_hashing_sparse_dpf_pir_server_params()
           .num_hash_functions() <= 0) {
     return absl::InvalidArgumentError("`num_hash_functions` must be positive");
diff --git a/pir/simple_hashed_dpf_pir_database.cc b/pir/simple_hashed_dpf_pir_database.cc
index 903801c..c5845b9 100644
--- a/pir/simple_hashed_dpf_pir_database.cc
+++ b/pir/simple_hashed_dpf_pir_database.cc
@@ -15,6 +15,7 @@
 #include "pir/simple_hashed_dpf_pir_database.h"
 
 #include <cstddef>
+#include <limits>
 #include <memory>
 #include <string>
 #include <utility>
@@ -94,12 +95,15 @@ absl::StatusOr<std::unique_ptr<SimpleHashedDpfPirDatabase::Interface>>
 SimpleHashedDpfPirDatabase::Builder::Build() {
   DPF_RETURN_IF_ERROR(CheckHasNotBeenBuilt(has_been_built_));
   has_been_built_ = true;
+  if (params_.num_buckets() <= 0) {
+    return absl::InvalidArgumentError("`num_buckets` must be positive");
+  }
+  if (params_.num_buckets() > std::numeric_limits<int>::max()) {
+    return absl::InvalidArgumentError("`num_buckets` is too large");
+  }
   int num_buckets = params_.num_buckets();
   int num_records = records_.size();
 
-  if (num_buckets <= 0) {
-    return absl::InvalidArgumentError("`num_buckets` must be positive");
-  }
   DPF_ASSIGN_OR_RETURN(
       HashFamily hash_family,
       CreateHashFamilyFromConfig(params_.hash_family_config()));
diff --git a/pir/simple_hashing_sparse_dpf_pir_client.cc b/pir/simple_hashing_sparse_dpf_pir_client.cc
index 33f571c..0e0c164 100644
--- a/pir/simple_hashing_sparse_dpf_pir_client.cc
+++ b/pir/simple_hashing_sparse_dpf_pir_client.cc
@@ -93,6 +93,10 @@ SimpleHashingSparseDpfPirClient::Create(
   if (params.simple_hashing_sparse_dpf_pir_server_params().num_buckets() <= 0) {
     return absl::InvalidArgumentError("`num_buckets` must be positive");
   }
+  if (params.simple_hashing_sparse_dpf_pir_server_params().num_buckets() >
+      std::numeric_limits<int>::max()) {
+    return absl::InvalidArgumentError("`num_buckets` is too large");
+  }
 
   DPF_ASSIGN_OR_RETURN(HashFamily hash_family,
                        CreateHashFamilyFromConfig(
-- 
2.43.0


From f2b7377a3cc3c8e1ddfd44365077f10d00e58836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 25/40] fix: Do not drop records that do not fit into a
 cuckoo-hashed database

---
 pir/cuckoo_hashed_dpf_pir_database.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pir/cuckoo_hashed_dpf_pir_database.cc b/pir/cuckoo_hashed_dpf_pir_database.cc
index d7d700c..984f9e5 100644
--- a/pir/cuckoo_hashed_dpf_pir_database.cc
+++ b/pir/cuckoo_hashed_dpf_pir_database.cc
@@ -16,6 +16,7 @@
 
 #include <stdint.h>
 
+#include <algorithm>
 #include <cstddef>
 #include <limits>
 #include <memory>
@@ -39,6 +40,10 @@
 namespace distributed_point_functions {
 
 namespace {
+
+// Lower bound for the number of relocations to try when inserting a key.
+constexpr int64_t kMinRelocations = 1000;
+
 absl::Status CheckHasNotBeenBuilt(bool has_been_built) {
   if (has_been_built) {
     return absl::FailedPreconditionError("Database already built");
@@ -142,10 +147,14 @@ CuckooHashedDpfPirDatabase::Builder::Build() {
 
   // Cuckoo hash all the keys.
   int64_t num_records = records_.size();
+  // Elements on the stash would not be part of the database, so we don't allow
+  // a stash.
+  int64_t max_relocations = std::max<int64_t>(num_records, kMinRelocations);
   DPF_ASSIGN_OR_RETURN(
       auto cuckoo_hasher,
       CuckooHashTable::Create(std::move(hash_family), params_.num_buckets(),
-                              params_.num_hash_functions(), num_records));
+                              params_.num_hash_functions(), max_relocations,
+                              /*max_stash_size=*/0));
   for (const auto& [key, _] : records_) {
     if (key.empty()) {
       return absl::InvalidArgumentError("Key cannot be empty");
-- 
2.43.0


From c2378cdf47527024bf058425436a318e72b7b0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 26/40] fix: Do not overflow when computing the number of
 cuckoo hashing buckets

---
 pir/cuckoo_hashing_sparse_dpf_pir_server.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pir/cuckoo_hashing_sparse_dpf_pir_server.cc b/pir/cuckoo_hashing_sparse_dpf_pir_server.cc
index f0de5ff..574a7f6 100644
--- a/pir/cuckoo_hashing_sparse_dpf_pir_server.cc
+++ b/pir/cuckoo_hashing_sparse_dpf_pir_server.cc
@@ -57,6 +57,11 @@ CuckooHashingSparseDpfPirServer::GenerateParams(const PirConfig& config) {
   if (config.cuckoo_hashing_sparse_dpf_pir_config().num_elements() <= 0) {
     return absl::InvalidArgumentError("`num_elements` must be positive");
   }
+  if (kBucketsPerElement *
+          config.cuckoo_hashing_sparse_dpf_pir_config().num_elements() >
+      std::numeric_limits<int>::max()) {
+    return absl::InvalidArgumentError("`num_elements` is too large");
+  }
   if (config.cuckoo_hashing_sparse_dpf_pir_config().hash_family() ==
       HashFamilyConfig::HASH_FAMILY_UNSPECIFIED) {
     return absl::InvalidArgumentError("`hash_family` must be set");
-- 
2.43.0


From 7d70244b17cfdb03d1eda2ff2e48af014a44b890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 27/40] fix: Do not match queries longer than all keys in the
 cuckoo hashing PIR client

---
 pir/cuckoo_hashing_sparse_dpf_pir_client.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pir/cuckoo_hashing_sparse_dpf_pir_client.cc b/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
index b517607..7b15a2a 100644
--- a/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
+++ b/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
@@ -44,6 +44,7 @@ namespace {
 // zero bytes.
 bool IsPrefixPaddedWithZeros(absl::string_view input,
                              absl::string_view prefix) {
+  if (input.size() < prefix.size()) return false;
   for (int i = 0; i < input.size(); ++i) {
     if (i < prefix.size()) {
       if (input[i] != prefix[i]) return false;
-- 
2.43.0


From 447a2845b32eb19dc6043d813751cfd446ec9e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 28/40] fix: Check buckets in the simple hashing PIR client
 before using them

---
 pir/simple_hashing_sparse_dpf_pir_client.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pir/simple_hashing_sparse_dpf_pir_client.cc b/pir/simple_hashing_sparse_dpf_pir_client.cc
index 0e0c164..3a719e4 100644
--- a/pir/simple_hashing_sparse_dpf_pir_client.cc
+++ b/pir/simple_hashing_sparse_dpf_pir_client.cc
@@ -201,7 +201,11 @@ SimpleHashingSparseDpfPirClient::HandleResponse(
     ::google::protobuf::io::CodedInputStream coded_stream(
         reinterpret_cast<const uint8_t*>(raw_responses[i].data()),
         raw_responses[i].size());
-    bucket.ParseFromCodedStream(&coded_stream);
+    if (!bucket.ParseFromCodedStream(&coded_stream) ||
+        bucket.keys_size() != bucket.values_size()) {
+      return absl::InvalidArgumentError(
+          "`pir_response` does not contain valid buckets");
+    }
     absl::string_view query =
         request_client_state
             .simple_hashing_sparse_dpf_pir_request_client_state()
-- 
2.43.0


From e932a9b46d98d2a2d41f3e0c7ec29b4781914f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 29/40] fix: Let DPF PIR helpers own their encryption context
 info

---
 pir/dpf_pir_server.cc | 3 ++-
 pir/dpf_pir_server.h  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pir/dpf_pir_server.cc b/pir/dpf_pir_server.cc
index e3c13dd..f104e25 100644
--- a/pir/dpf_pir_server.cc
+++ b/pir/dpf_pir_server.cc
@@ -47,7 +47,8 @@ absl::Status DpfPirServer::MakeHelper(
   if (decrypter == nullptr) {
     return absl::InvalidArgumentError("`decrypter` may not be null");
   }
-  role_storage_ = DpfPirHelper{std::move(decrypter), encryption_context_info};
+  role_storage_ =
+      DpfPirHelper{std::move(decrypter), std::string(encryption_context_info)};
   role_ = Role::kHelper;
   return absl::OkStatus();
 }
diff --git a/pir/dpf_pir_server.h b/pir/dpf_pir_server.h
index 7904246..3ce17db 100644
--- a/pir/dpf_pir_server.h
+++ b/pir/dpf_pir_server.h
@@ -160,7 +160,7 @@ class DpfPirServer : public PirServer {
   };
   struct DpfPirHelper {
     DecryptHelperRequestFn decrypter;
-    absl::string_view encryption_context_info;
+    std::string encryption_context_info;
   };
 
   virtual absl::StatusOr<PirResponse> HandleLeaderRequest(
-- 
2.43.0


From 4fa9eeea23d62d1f06c759a8823f811e0a773026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:55 +0000
Subject: [PATCH 30/40] fix: Do not match empty queries with empty buckets in
 the cuckoo hashing PIR client

---
 pir/cuckoo_hashing_sparse_dpf_pir_client.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pir/cuckoo_hashing_sparse_dpf_pir_client.cc b/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
index 7b15a2a..145a7b3 100644
--- a/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
+++ b/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
@@ -209,7 +209,12 @@ CuckooHashingSparseDpfPirClient::HandleResponse(
   for (int i = 0; i < result.size(); ++i) {
     for (int j = 0; j < hash_functions_.size(); ++j) {
       int raw_index = 2 * (hash_functions_.size() * i + j);
+      // Keys in the database cannot be empty, so an empty query matches nothing.
       if (!result[i].has_value() &&
+          !request_client_state
+               .cuckoo_hashing_sparse_dpf_pir_request_client_state()
+               .query_strings(i)
+               .empty() &&
           IsPrefixPaddedWithZeros(
               raw_responses[raw_index],
               request_client_state
-- 
2.43.0


From d35c13237305376762674da7e4839a27e7b3daa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:16 +0000
Subject: [PATCH 31/40] fix: creating PIR requests from several threads raced
 on the registered value types

---
 dpf/distributed_point_function.h | 6 ++++--
 pir/dense_dpf_pir_client.cc      | 3 +++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/dpf/distributed_point_function.h b/dpf/distributed_point_function.h
index 67743d2..342bbc4 100644
--- a/dpf/distributed_point_function.h
+++ b/dpf/distributed_point_function.h
@@ -659,8 +659,10 @@ absl::Status DistributedPointFunction::RegisterValueTypeImpl(
   if (!serialized_value_type.ok()) {
     return serialized_value_type.status();
   }
-  value_correction_functions[*serialized_value_type] =
-      dpf_internal::ComputeValueCorrectionFor<T>;
+  // Does not modify the map if the type is registered already, so that key
+  // generation with a registered type may run in several threads at once.
+  value_correction_functions.try_emplace(
+      *serialized_value_type, dpf_internal::ComputeValueCorrectionFor<T>);
   return absl::OkStatus();
 }
 
diff --git a/pir/dense_dpf_pir_client.cc b/pir/dense_dpf_pir_client.cc
index 7708d12..f0664d1 100644
--- a/pir/dense_dpf_pir_client.cc
+++ b/pir/dense_dpf_pir_client.cc
@@ -67,6 +67,9 @@ absl::StatusOr<std::unique_ptr<DenseDpfPirClient>> DenseDpfPirClient::Create(
   parameters.mutable_value_type()->mutable_xor_wrapper()->set_bitsize(
       kBitsPerBlock);
   DPF_ASSIGN_OR_RETURN(auto dpf, DistributedPointFunction::Create(parameters));
+  // Registered here and not on first use, since requests may be created in
+  // several threads at once.
+  DPF_RETURN_IF_ERROR(dpf->RegisterValueType<XorWrapper<absl::uint128>>());
 
   return absl::WrapUnique(
       new DenseDpfPirClient(std::move(dpf), std::move(encrypter),
-- 
2.43.0


From 667b64a1a9fda18e49149ca6c4bf8064da2def19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:04 +0000
Subject: [PATCH 32/40] fix: do not advance the context when EvaluateUntil
 fails

A call that failed while hashing the expanded seeds returned an error but left
the context at the next hierarchy level, so that later prefixes were silently
taken to belong to that level.
---
 dpf/distributed_point_function.cc | 3 ---
 dpf/distributed_point_function.h  | 9 ++++++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/dpf/distributed_point_function.cc b/dpf/distributed_point_function.cc
index 036691a..da2dbdb 100644
--- a/dpf/distributed_point_function.cc
+++ b/dpf/distributed_point_function.cc
@@ -523,9 +523,6 @@ DistributedPointFunction::ExpandAndUpdateContext(
       ExpandSeeds(selected_partial_evaluations,
                   absl::MakeConstSpan(ctx.key().correction_words())
                       .subspan(start_level, stop_level - start_level)));
-
-  // Update hierarchy level in ctx.
-  ctx.set_previous_hierarchy_level(hierarchy_level);
   return expansion;
 }
 
diff --git a/dpf/distributed_point_function.h b/dpf/distributed_point_function.h
index 342bbc4..ad49f42 100644
--- a/dpf/distributed_point_function.h
+++ b/dpf/distributed_point_function.h
@@ -538,9 +538,9 @@ class DistributedPointFunction {
   // far as needed for the next hierarchy level. Returns the result as a
   // `DpfExpansion`. Called by `EvaluateUntil`, where the expanded seeds are
   // corrected to obtain output values.
-  // After expansion, `ctx.hierarchy_level()` is increased. If this isn't the
-  // last expansion, the expanded seeds are also saved in `ctx` for the next
-  // expansion.
+  // If this isn't the last expansion, the extracted seeds are also saved in
+  // `ctx` for the next expansion. The caller has to increase
+  // `ctx.previous_hierarchy_level()` once it cannot fail anymore.
   //
   // Returns INVALID_ARGUMENT if any element of `prefixes` is not found in
   // `ctx.partial_evaluations()`, or `ctx.partial_evaluations()` contains
@@ -854,6 +854,9 @@ absl::StatusOr<std::vector<T>> DistributedPointFunction::EvaluateUntil(
     return correction_ints.status();
   }
 
+  // Update hierarchy level in ctx, now that nothing can fail anymore.
+  ctx.set_previous_hierarchy_level(hierarchy_level);
+
   // Compute value corrections for each block in `expanded_seeds`. We have to
   // account for the fact that blocks might not be full (i.e., have less than
   // elements_per_block elements).
-- 
2.43.0


From a8a757d33057bfe734352f6c9b8424e08f786687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:47 +0000
Subject: [PATCH 33/40] fix: ignore partial_evaluations_level when a context
 has no partial evaluations

It is documented as ignored in that case, but contexts with an
out-of-range level were refused.
---
 dpf/distributed_point_function.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/dpf/distributed_point_function.cc b/dpf/distributed_point_function.cc
index da2dbdb..9ee598a 100644
--- a/dpf/distributed_point_function.cc
+++ b/dpf/distributed_point_function.cc
@@ -379,15 +379,21 @@ DistributedPointFunction::ComputePartialEvaluations(
     absl::Span<const absl::uint128> prefixes, int hierarchy_level,
     bool update_ctx, EvaluationContext& ctx) const {
   int64_t num_prefixes = static_cast<int64_t>(prefixes.size());
-  if (ctx.partial_evaluations_level() < 0 ||
-      ctx.partial_evaluations_level() >= static_cast<int>(parameters_.size())) {
-    return absl::InvalidArgumentError(
-        "`ctx.partial_evaluations_level` must be non-negative and less than "
-        "the number of parameters passed at construction");
+  // `ctx.partial_evaluations_level` is ignored if there are no partial
+  // evaluations.
+  int start_level = 0;
+  if (ctx.partial_evaluations_size() > 0) {
+    if (ctx.partial_evaluations_level() < 0 ||
+        ctx.partial_evaluations_level() >=
+            static_cast<int>(parameters_.size())) {
+      return absl::InvalidArgumentError(
+          "`ctx.partial_evaluations_level` must be non-negative and less than "
+          "the number of parameters passed at construction");
+    }
+    start_level = hierarchy_to_tree_[ctx.partial_evaluations_level()];
   }
 
   DpfExpansion partial_evaluations;
-  int start_level = hierarchy_to_tree_[ctx.partial_evaluations_level()];
   int stop_level = hierarchy_to_tree_[hierarchy_level];
   if (ctx.partial_evaluations_size() > 0 && start_level <= stop_level) {
     // We have partial evaluations from a tree level before the current one.
-- 
2.43.0


From 986ccc04320ead51983879cd306c5055c56544fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:32 +0000
Subject: [PATCH 34/40] fix: combine records of 2^31 bytes and more in full

XorStringInPlaceNoHwy indexed the bytes of a record with an int. For a
record of at least 2^31 bytes that is not aligned for the vector kernels,
the index of the trailing bytes wrapped around and they were left out of
the inner product.
---
 pir/internal/inner_product_hwy.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pir/internal/inner_product_hwy.cc b/pir/internal/inner_product_hwy.cc
index 5ca623c..c5942df 100644
--- a/pir/internal/inner_product_hwy.cc
+++ b/pir/internal/inner_product_hwy.cc
@@ -49,7 +49,7 @@ inline void XorStringInPlaceNoHwy(const absl::string_view value, char* result) {
   // fallback to the slow path.
   if (reinterpret_cast<size_t>(result) % alignof(absl::uint128) ||
       reinterpret_cast<size_t>(value.data()) % alignof(absl::uint128)) {
-    for (int i = 0; i < value.size(); ++i) {
+    for (size_t i = 0; i < value.size(); ++i) {
       result[i] ^= value[i];
     }
     return;
@@ -62,7 +62,7 @@ inline void XorStringInPlaceNoHwy(const absl::string_view value, char* result) {
       reinterpret_cast<const absl::uint128*>(value.data());
   absl::uint128* const dest = reinterpret_cast<absl::uint128*>(result);
   const size_t value_size_in_uint128 = value.size() / sizeof(absl::uint128);
-  int i = 0;
+  size_t i = 0;
   for (; i < value_size_in_uint128; ++i) {
     dest[i] ^= source[i];
   }
-- 
2.43.0


From 0f4f083a98497277d9f2fe04c34b645ed89841ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:08 +0000
Subject: [PATCH 35/40] fix: mask and combine answers of 2^31 bytes and more in
 full

The servers and the client indexed the bytes of an answer with an int, which
overflowed for answers of at least 2^31 bytes.
---
 pir/dense_dpf_pir_client.cc | 2 +-
 pir/dpf_pir_server.cc       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pir/dense_dpf_pir_client.cc b/pir/dense_dpf_pir_client.cc
index f0664d1..b571553 100644
--- a/pir/dense_dpf_pir_client.cc
+++ b/pir/dense_dpf_pir_client.cc
@@ -149,7 +149,7 @@ absl::StatusOr<std::vector<std::string>> DenseDpfPirClient::HandleResponse(
   for (int i = 0; i < result.size(); ++i) {
     result[i] = pir_response.dpf_pir_response().masked_response(i);
     std::string mask = prng->GetRandomBytes(result[i].size());
-    for (int j = 0; j < result[i].size(); ++j) {
+    for (size_t j = 0; j < result[i].size(); ++j) {
       result[i][j] ^= mask[j];
     }
   }
diff --git a/pir/dpf_pir_server.cc b/pir/dpf_pir_server.cc
index f104e25..7dd0828 100644
--- a/pir/dpf_pir_server.cc
+++ b/pir/dpf_pir_server.cc
@@ -138,7 +138,7 @@ absl::StatusOr<PirResponse> DpfPirServer::HandleLeaderRequest(
                        current_helper_response.size(), " (Helper) vs. ",
                        current_leader_response.size(), " (Leader)"));
     }
-    for (int j = 0; j < current_helper_response.size(); ++j) {
+    for (size_t j = 0; j < current_helper_response.size(); ++j) {
       current_leader_response[j] ^= current_helper_response[j];
     }
   }
@@ -186,7 +186,7 @@ absl::StatusOr<PirResponse> DpfPirServer::HandleHelperRequest(
         *(response.mutable_dpf_pir_response()->mutable_masked_response(i));
     const std::string one_time_pad =
         prng->GetRandomBytes(current_response.size());
-    for (int j = 0; j < current_response.size(); ++j) {
+    for (size_t j = 0; j < current_response.size(); ++j) {
       current_response[j] ^= one_time_pad[j];
     }
   }
-- 
2.43.0


From a0d02a2a3803f7605ca137a0a207ca4bdf4420b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:14 +0000
Subject: [PATCH 36/40] fix: refuse numbers of samples whose bytes do not fit
 in an int

IntModNBase::GetNumBytesRequired overflowed for large numbers of samples, so
that SampleFromBytes accepted too few bytes, and GetSecurityLevel overflowed
for INT_MAX samples.
---
 dpf/int_mod_n.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dpf/int_mod_n.cc b/dpf/int_mod_n.cc
index 3b5d992..5d72f29 100644
--- a/dpf/int_mod_n.cc
+++ b/dpf/int_mod_n.cc
@@ -15,6 +15,8 @@
 #include "dpf/int_mod_n.h"
 
 #include <cmath>
+#include <cstdint>
+#include <limits>
 #include <string>
 
 #include "absl/numeric/int128.h"
@@ -30,7 +32,7 @@ double IntModNBase::GetSecurityLevel(int num_samples, absl::uint128 modulus) {
   return 128 + 3 -
          (std::log2(static_cast<double>(modulus)) +
           std::log2(static_cast<double>(num_samples)) +
-          std::log2(static_cast<double>(num_samples + 1)));
+          std::log2(static_cast<double>(num_samples) + 1));
 }
 
 absl::Status IntModNBase::CheckParameters(int num_samples,
@@ -77,10 +79,15 @@ absl::StatusOr<int> IntModNBase::GetNumBytesRequired(
     return status;
   }
 
-  const int base_integer_bytes = ((base_integer_bitsize + 7) / 8);
+  const int64_t base_integer_bytes = ((base_integer_bitsize + 7) / 8);
   // We start the sampling by requiring a 128-bit (16 bytes) block, see
   // function `SampleFromBytes`.
-  return 16 + base_integer_bytes * (num_samples - 1);
+  const int64_t num_bytes = 16 + base_integer_bytes * (num_samples - 1);
+  if (num_bytes > std::numeric_limits<int>::max()) {
+    return absl::InvalidArgumentError(
+        "The number of bytes required does not fit in an int");
+  }
+  return static_cast<int>(num_bytes);
 }
 
 }  // namespace dpf_internal
-- 
2.43.0


From 1ed0c7f24c53bf1bec13b6da961e9430ae278192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:02 +0000
Subject: [PATCH 37/40] fix: refuse several levels without an input in
 synthetic_data_benchmarks

The prefixes of later levels were read beyond the end of the vector of
prefixes, which only holds an entry per level if there is an input file.
---
 experiments/synthetic_data_benchmarks.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/experiments/synthetic_data_benchmarks.cc b/experiments/synthetic_data_benchmarks.cc
index 6a9bcd3..99e7f34 100644
--- a/experiments/synthetic_data_benchmarks.cc
+++ b/experiments/synthetic_data_benchmarks.cc
@@ -84,6 +84,12 @@ void ValidateFlags() {
       << "--max_expansion_factor must be at least 2";
   std::vector<std::string> levels_to_evaluate =
       absl::GetFlag(FLAGS_levels_to_evaluate);
+  if (levels_to_evaluate.size() > 1) {
+    // The prefixes at which to evaluate later levels come from the input file.
+    ABSL_QCHECK(!absl::GetFlag(FLAGS_input).empty())
+        << "--input is required when there is more than one level in "
+           "--levels_to_evaluate";
+  }
   for (absl::string_view level_str : levels_to_evaluate) {
     int level;
     ABSL_QCHECK(absl::SimpleAtoi(level_str, &level));
-- 
2.43.0


From 79766d8417d1066e5c63a290afec1f5ecff5a36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:02 +0000
Subject: [PATCH 38/40] fix: ignore --levels_to_evaluate when --only_nonzeros
 is set

As documented. It was used, and the evaluation crashed on a failed check.
---
 experiments/synthetic_data_benchmarks.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/experiments/synthetic_data_benchmarks.cc b/experiments/synthetic_data_benchmarks.cc
index 99e7f34..6415a2d 100644
--- a/experiments/synthetic_data_benchmarks.cc
+++ b/experiments/synthetic_data_benchmarks.cc
@@ -246,8 +246,12 @@ int main(int argc, char* argv[]) {
     ABSL_CHECK(
         absl::SimpleAtoi(levels_to_evaluate_str[i], &levels_to_evaluate[i]));
   }
+  if (only_nonzeros) {
+    // All other levels are ignored.
+    levels_to_evaluate = {log_domain_size};
+  }
   if (levels_to_evaluate.empty()) {
-    if (!only_nonzeros && !prefixes.back().empty()) {
+    if (!prefixes.back().empty()) {
       levels_to_evaluate = ComputeLevelsToEvaluate(
           prefixes, log_domain_size, absl::GetFlag(FLAGS_max_expansion_factor));
     } else {
-- 
2.43.0


From 5cbd7047202bffb3f6e6789fb2e010f0f2fd4299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:02 +0000
Subject: [PATCH 39/40] fix: choose levels with integer arithmetic in
 synthetic_data_benchmarks

Logarithms were rounded, so the next level could be the current one, and
levels were added until memory ran out (e.g., for three buckets that share
no prefix of 15 bits, and an expansion factor of 2).
---
 experiments/synthetic_data_benchmarks.cc | 25 ++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/experiments/synthetic_data_benchmarks.cc b/experiments/synthetic_data_benchmarks.cc
index 6415a2d..1392c20 100644
--- a/experiments/synthetic_data_benchmarks.cc
+++ b/experiments/synthetic_data_benchmarks.cc
@@ -13,7 +13,7 @@
 // limitations under the License.
 
 #include <algorithm>
-#include <cmath>
+#include <cstdint>
 #include <memory>
 #include <string>
 #include <tuple>
@@ -145,6 +145,20 @@ absl::btree_set<absl::uint128> ReadUniqueValuesFromFile(
   return nonzeros;
 }
 
+// Returns the largest `k` such that 2^`k` * `num_prefixes` is at most
+// `max_expansion_factor` * `num_nonzeros`. Uses integers only, since rounding
+// errors could make the result too small.
+int MaxBitsToExpand(int64_t num_prefixes, int64_t num_nonzeros,
+                    int max_expansion_factor) {
+  const absl::uint128 limit =
+      absl::uint128(max_expansion_factor) * absl::uint128(num_nonzeros);
+  int result = 0;
+  while (absl::uint128(num_prefixes) << (result + 1) <= limit) {
+    ++result;
+  }
+  return result;
+}
+
 // Selects bit prefix lengths in {1, ..., `log_domain_size`}, such that for the
 // given `prefixes` at each bit, the full domain evaluation from one level to
 // the next never exceeds the last level size by a factor of more than
@@ -159,8 +173,7 @@ std::vector<int> ComputeLevelsToEvaluate(
   // * num_nonzeros.
   int first_level =
       std::min(log_domain_size,
-               static_cast<int>(std::log2(num_nonzeros) +
-                                std::log2(max_expansion_factor))) -
+               MaxBitsToExpand(1, num_nonzeros, max_expansion_factor)) -
       1;
   levels_to_evaluate.push_back(first_level);
   while (levels_to_evaluate.back() < log_domain_size) {
@@ -170,9 +183,9 @@ std::vector<int> ComputeLevelsToEvaluate(
     // nonzeros_at_last_level < expansion_factor * num_nonzeros.
     levels_to_evaluate.push_back(std::min(
         log_domain_size,
-        static_cast<int>(levels_to_evaluate.back() + std::log2(num_nonzeros) +
-                         std::log2(max_expansion_factor) -
-                         std::log2(nonzeros_at_last_level))));
+        levels_to_evaluate.back() + MaxBitsToExpand(nonzeros_at_last_level,
+                                                    num_nonzeros,
+                                                    max_expansion_factor)));
   }
   return levels_to_evaluate;
 }
-- 
2.43.0


From 276096eb130566db147923154b4bc87feeb7dbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:02 +0000
Subject: [PATCH 40/40] fix: let synthetic_data_benchmarks start at level 0

With one or two buckets the first level may be 0 (or was even -1), for which
there were no prefixes, so that the next level could not be evaluated.
---
 experiments/synthetic_data_benchmarks.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/experiments/synthetic_data_benchmarks.cc b/experiments/synthetic_data_benchmarks.cc
index 1392c20..49da725 100644
--- a/experiments/synthetic_data_benchmarks.cc
+++ b/experiments/synthetic_data_benchmarks.cc
@@ -99,7 +99,7 @@ void ValidateFlags() {
 }
 
 // Returns the prefixes of the given `last_level_prefixes` for each bit-length
-// in {1, ..., `log_domain_size`}.
+// in {0, ..., `log_domain_size`}.
 std::vector<std::vector<absl::uint128>> ComputePrefixes(
     const absl::btree_set<absl::uint128>& last_level_prefixes,
     int log_domain_size) {
@@ -109,7 +109,7 @@ std::vector<std::vector<absl::uint128>> ComputePrefixes(
 
   // Iterate backwards through previous levels, computing prefixes by
   // appropriately shifting the ones from higher levels.
-  for (int i = static_cast<int>(result.size()) - 1; i > 1; --i) {
+  for (int i = static_cast<int>(result.size()) - 1; i > 0; --i) {
     absl::btree_set<absl::uint128> current_level_prefixes;
     for (const auto& x : result[i]) {
       current_level_prefixes.insert(x >> 1);
@@ -159,7 +159,7 @@ int MaxBitsToExpand(int64_t num_prefixes, int64_t num_nonzeros,
   return result;
 }
 
-// Selects bit prefix lengths in {1, ..., `log_domain_size`}, such that for the
+// Selects bit prefix lengths in {0, ..., `log_domain_size`}, such that for the
 // given `prefixes` at each bit, the full domain evaluation from one level to
 // the next never exceeds the last level size by a factor of more than
 // `max_expansion_factor`.
@@ -171,10 +171,10 @@ std::vector<int> ComputeLevelsToEvaluate(
   std::vector<int> levels_to_evaluate;
   // The first level is chosen such that it has size at most expansion_factor
   // * num_nonzeros.
-  int first_level =
-      std::min(log_domain_size,
-               MaxBitsToExpand(1, num_nonzeros, max_expansion_factor)) -
-      1;
+  int first_level = std::max(
+      0, std::min(log_domain_size,
+                  MaxBitsToExpand(1, num_nonzeros, max_expansion_factor)) -
+             1);
   levels_to_evaluate.push_back(first_level);
   while (levels_to_evaluate.back() < log_domain_size) {
     int nonzeros_at_last_level = prefixes[levels_to_evaluate.back() + 1].size();
-- 
2.43.0

