#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as code so that it stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))

DPF = ["dpf/distributed_point_function.h", "dpf/distributed_point_function.cc"]
VT = ["dpf/internal/value_type_helpers.h", "dpf/internal/value_type_helpers.cc"]

prop("C01", "DPF shares add up to beta at alpha and to zero everywhere else",
 "For every valid parameter set (any list of increasing domain sizes 0..128 bits, any supported value types), every index alpha in the domain and every vector of betas, key generation succeeds and, at every hierarchy level, the two parties' evaluations of any domain point add up, in the group of that level's value type, to that level's beta if the point is alpha's prefix and to the group's zero otherwise. This holds for single-point evaluation and for expansion of the full domain or of any set of prefixes, for every overload of key generation.",
 ["inputs", "configurations"], "all parameter lists, value types, alphas, betas, levels and evaluation points",
 "The tests sample about 30 parameter lists, mostly with integer outputs and one or two alphas each; off-path points, packed blocks, levels packed closer than the block size, 0-bit and 128-bit domains and mixed tuples are barely touched, and none of these tests is part of the default build here.",
 DPF + VT, [("correction words per tree level", "dpf/distributed_point_function.cc GenerateNext"),
            ("value correction", "dpf/internal/value_type_helpers.h ComputeValueCorrectionFor"),
            ("tree/hierarchy mapping", "dpf/internal/proto_validator.cc Create")],
 [("alpha, betas", "the point function shared", "arguments of key generation")],
 ["results of EvaluateAt, EvaluateUntil, EvaluateNext"])

prop("C02", "Incremental evaluation never depends on the path taken to a point",
 "For any incremental key, the value obtained for a domain point at a hierarchy level through an evaluation context is the same whatever sequence of calls led there: any subset of levels skipped, any order or repetition of prefixes, any mix of full-expansion and point evaluation calls that the API accepts, and with the context serialized, parsed and resumed between any two calls. Calls that go backwards, past the last level, or to prefixes that were not part of the previous evaluation are refused with INVALID_ARGUMENT instead of returning wrong shares.",
 ["histories", "inputs"], "all histories of context operations on one key",
 "Tests replay a handful of fixed level sequences with sorted unique prefixes; the state space of contexts (which levels have been visited, which prefixes are cached, where the context was saved) is unbounded.",
 DPF + ["dpf/internal/proto_validator.cc"],
 [("cached partial evaluations", "dpf/distributed_point_function.cc ComputePartialEvaluations"),
  ("prefix deduplication and output selection", "dpf/distributed_point_function.h EvaluateUntil"),
  ("context validation", "dpf/internal/proto_validator.cc ValidateEvaluationContext")],
 [("partial evaluations", "seeds and control bits at cached prefixes", "EvaluationContext proto")],
 ["results and statuses of context calls", "the serialized EvaluationContext"])

prop("C03", "All ways of evaluating a DPF key return the same shares",
 "For any key, point and hierarchy level, every evaluation interface returns the identical share: point evaluation in batches of any size and order (with or without context), full-domain or prefix expansion, and multi-key evaluation with a per-level callback over value or pointer key lists, with any index right-shift. The multi-key evaluation invokes the callback once per level in increasing level order with exactly one value per key, and stops right after the first call that returns false.",
 ["inputs", "configurations"], "all keys, points, batch sizes, orders, levels, shifts and stopping levels",
 "Each interface has its own tests against point-function semantics on small batches; agreement share by share for arbitrary batch sizes, mixed keys per batch, duplicates, shifts and early stops is not tested.",
 DPF + ["dpf/internal/evaluate_prg_hwy.cc", "dpf/internal/maybe_deref_span.h"],
 [("EvaluateAtImpl / EvaluateUntil / EvaluateAndApply", "dpf/distributed_point_function.h"),
  ("batched seed evaluation", "dpf/internal/evaluate_prg_hwy.cc")],
 observe=["values returned and passed to the callback"])

prop("C04", "Vectorized kernels equal the portable code for every target and input",
 "For every instruction-set target the build can dispatch to (and for the build restricted to scalar code), tree evaluation, the fixed-key AES hash and the XOR inner product return bit-for-bit what the portable implementation returns, for every number of seeds, levels and correction words, every path value and shift, every alignment, record length and selection pattern, and for in-place operation. No kernel reads or writes outside the buffers it is given.",
 ["inputs", "configurations"], "all kernel inputs, on all targets available on the machine and on the scalar-only build",
 "The kernel tests run a few fixed sizes on whatever targets exist; odd tails, unaligned or aliased buffers, per-seed correction words combined with shifts of 64..128+ bits and the scalar-only configuration are not covered, and the tree kernel's test is not built here.",
 ["dpf/internal/evaluate_prg_hwy.cc", "dpf/internal/aes_128_fixed_key_hash_hwy.h", "dpf/aes_128_fixed_key_hash.cc", "pir/internal/inner_product_hwy.cc"],
 [("dynamic dispatch", "HWY_DYNAMIC_DISPATCH in the *_hwy.cc files"),
  ("NoHwy reference paths", "dpf/internal/evaluate_prg_hwy.cc, pir/internal/inner_product_hwy.cc")],
 observe=["kernel outputs per target", "AddressSanitizer/UBSan reports"])

prop("C05", "Keys follow the published format and stay evaluable by other builds",
 "Shares are a fixed function of the serialized key alone: an independent implementation of the specified construction (fixed AES hash keys, correction-word layout, packing of several values per 128-bit block, value sampling) that reads only the wire form of a key obtains exactly the shares the library returns, for every value type and level, and keys with the documented structure built outside the library are evaluated the same way. Keys survive serialization and parsing unchanged in meaning.",
 ["inputs", "configurations"], "all keys generated by the library or by an independent generator",
 "A self-consistency test cannot see a change that alters generation and evaluation alike; only an independent evaluator or stored keys show that deployed keys and peers of another build break, and the tests have neither.",
 DPF + VT + ["dpf/aes_128_fixed_key_hash.cc", "dpf/distributed_point_function.proto"],
 [("PRG constants", "dpf/distributed_point_function.cc kPrgKeyLeft/Right/Value"),
  ("packing", "dpf/internal/value_type_helpers.h ConvertBytesToArrayOf"),
  ("tree level of a hierarchy level", "dpf/internal/proto_validator.cc Create")],
 observe=["serialized keys", "shares"])

prop("C06", "A single DPF key is freshly random and reveals nothing about alpha, beta",
 "Each key generation draws both parties' root seeds, all 128 bits each and independent of each other, from the cryptographic random source, and takes no other randomness; neither party's key contains any other party's seed. Apart from root seed and party number the two keys are identical, and the distribution of one party's whole key (every correction word, control bit and value correction) is the same for all alphas and betas.",
 ["inputs", "histories"], "all alphas, betas, parameter lists and sequences of key generations",
 "Tests only check that the shares add up, which keys leaking alpha or reusing seeds do as well; independence is a statement about the distribution over random tapes.",
 DPF + ["dcf/distributed_comparison_function.cc"],
 [("seed sampling", "dpf/distributed_point_function.cc GenerateKeysIncremental"),
  ("seed and control bit correction", "dpf/distributed_point_function.cc GenerateNext")],
 observe=["bytes handed out by the random source", "statistics over generated keys"])

prop("C07", "Malformed parameters, keys, contexts and inputs are refused, never crash",
 "Whatever parameters, keys, contexts, values, indices and levels the DPF, DCF and interval-containment interfaces are handed (well-formed messages with any field values, missing or surplus repeated fields, keys of other parameters or types, out-of-range points), every call either returns a result or an error status: no crash, hang, out-of-bounds access or other undefined behaviour. Inputs that the documentation declares invalid get the documented error code, and documented valid inputs are never refused.",
 ["inputs"], "all messages and arguments of the public DPF/DCF/MIC interfaces",
 "Tests list one wrong input per error message; a key or context is attacker-chosen data with unbounded shape.",
 DPF + VT + ["dpf/internal/proto_validator.cc", "dcf/distributed_comparison_function.h", "dcf/fss_gates/multiple_interval_containment.cc"],
 [("ProtoValidator", "dpf/internal/proto_validator.cc"), ("range checks on points", "dpf/distributed_point_function.h"),
  ("ValuesToArray / FromValue", "dpf/internal/value_type_helpers.h")],
 observe=["status codes", "sanitizer reports, CHECK failures"])

prop("C08", "Value types are groups and convert to protos and back exactly",
 "For every supported value type (unsigned integers of 8..128 bits, integers modulo N over any base type, XOR-wrapped integers, and tuples of these nested arbitrarily), addition, subtraction, negation and their assignment forms satisfy the abelian group laws with the default-constructed value as zero and equal modular, XOR or element-wise arithmetic. Conversion to a message and back is the identity, type descriptions are equal exactly for equal types, and a message whose kind, element count or numeric range does not fit the type is refused with INVALID_ARGUMENT.",
 ["inputs"], "all values, types and messages",
 "Tests use a few small values per type; carries, wrap-around at moduli near the base type's maximum, 128-bit values and ill-fitting messages are not sampled.",
 ["dpf/int_mod_n.h", "dpf/tuple.h", "dpf/xor_wrapper.h"] + VT,
 [("operators", "dpf/int_mod_n.h, dpf/tuple.h, dpf/xor_wrapper.h"), ("ToValue/FromValue/ToValueType", "dpf/internal/value_type_helpers.h"),
  ("ValueTypesAreEqual", "dpf/internal/value_type_helpers.cc")],
 observe=["operator results", "converted messages and statuses"])

prop("C09", "Values sampled from pseudorandom bytes are exact, sufficient and unbiased",
 "For every value type, the number of bits declared as needed suffices for converting a byte string into a value without reading past it, directly convertible types take exactly their own bytes in little-endian order and pack as many elements as fit in 128 bits, and modular types are sampled by the documented quotient/remainder procedure. Modular sampling refuses too-short input or unreachable security levels, otherwise yields values in range whose joint distribution is within the requested statistical distance of uniform.",
 ["inputs", "configurations"], "all value types, security parameters, sample counts, moduli and byte strings",
 "Tests compare two or three concrete byte strings; size accounting for nested and mixed tuples and the distribution of the second and later samples for wide moduli need a reference procedure over random inputs.",
 ["dpf/int_mod_n.h", "dpf/int_mod_n.cc"] + VT,
 [("BitsNeeded, SampleAndUpdateBytes, DirectlyFromBytes", "dpf/internal/value_type_helpers.h/.cc"),
  ("UnsafeSampleFromBytes, GetNumBytesRequired", "dpf/int_mod_n.h, dpf/int_mod_n.cc")],
 observe=["sampled values", "reported sizes and statuses"])

prop("C10", "DCF shares add up to beta below alpha and to zero from alpha on",
 "For every domain size of 1..128 bits, every supported value type, every alpha in the domain and every beta, the two parties' evaluations at any x add up to beta if x < alpha and to zero otherwise. Batch evaluation over any list of keys and points (by value or by pointer, mixed keys, any length) returns at each position what single evaluation returns, and points or alphas outside the domain, or lists of different sizes, are refused with INVALID_ARGUMENT.",
 ["inputs", "configurations"], "all domain sizes, value types, alphas, betas, points and batches",
 "Tests cover domains up to 8 bits and one 128-bit case with a few types; neighbours of alpha, long common prefixes, batches mixing keys, and XOR-shared outputs are not covered, and the test is not part of the default build.",
 ["dcf/distributed_comparison_function.h", "dcf/distributed_comparison_function.cc"] + DPF,
 [("per-bit betas", "dcf/distributed_comparison_function.cc GenerateKeys"), ("prefix accumulation", "dcf/distributed_comparison_function.h BatchEvaluate")],
 observe=["results of Evaluate and BatchEvaluate"])

prop("C11", "Interval-containment gates output shares of masked containment bits",
 "For every group size, every list of valid intervals, all input and output masks and every real input x, the two parties' outputs for each interval, evaluated at the masked input x + r_in, add up modulo the group size to r_out plus 1 if the interval contains x and to r_out otherwise, also for full-range, single-point and boundary intervals. Batch evaluation of many keys returns, key by key and interval by interval, exactly what evaluating each key alone returns, and masks, bounds or inputs outside the group or of the wrong count are refused with INVALID_ARGUMENT.",
 ["inputs", "configurations"], "all group sizes, intervals, masks, inputs and batches",
 "The tests enumerate nothing: fixed intervals with a random mask; wrap-around of the masked bounds happens for specific masks only.",
 ["dcf/fss_gates/multiple_interval_containment.cc", "dcf/fss_gates/multiple_interval_containment.h", "dcf/fss_gates/prng/basic_rng.h"],
 [("output mask correction z", "dcf/fss_gates/multiple_interval_containment.cc Gen"), ("evaluation at shifted points", "dcf/fss_gates/multiple_interval_containment.cc BatchEval")],
 observe=["results of Gen, Eval, BatchEval"])

prop("C12", "The fixed-key AES hash equals its definition for any batch and buffer",
 "For every 128-bit key and every input block, the hash equals AES_key(sigma(x)) XOR sigma(x), where sigma(x) joins the high half XOR the low half (upper part) with the high half (lower part), both taken as little-endian 128-bit values. The result for a block does not depend on the batch it is hashed in, on the batch's length or alignment, or on whether output overwrites input, and mismatched lengths are refused.",
 ["inputs"], "all keys, blocks, batch lengths, alignments and aliasing",
 "Tests pin a few vectors and one batch length; any batch-size-dependent or aliasing-dependent error needs sweeping lengths and positions.",
 ["dpf/aes_128_fixed_key_hash.h", "dpf/aes_128_fixed_key_hash.cc", "dpf/internal/aes_128_fixed_key_hash_hwy.h"],
 [("batching loop", "dpf/aes_128_fixed_key_hash.cc Evaluate")], observe=["hash outputs against an independent AES"])

prop("C13", "The seeded PRNG is one fixed stream per seed, however it is read",
 "For a given seed (and starting offset), the generator returns the AES-128-CTR keystream under that seed, so that two generators with equal seeds produce the same bytes however reads are split, consecutive reads never overlap or repeat, and different seeds give unrelated streams. Seeds of any other length than 16 bytes are refused, and generated seeds are 16 fresh random bytes.",
 ["inputs", "histories"], "all seeds, offsets and sequences of read lengths",
 "Tests read in one or two chunk sizes; leader/helper masking is only correct when every possible split of reads gives the same stream.",
 ["pir/prng/aes_128_ctr_seeded_prng.h", "pir/prng/aes_128_ctr_seeded_prng.cc"],
 [("counter handling", "pir/prng/aes_128_ctr_seeded_prng.cc GetRandomBytes")],
 [("counter", "position in the stream", "pir/prng/aes_128_ctr_seeded_prng.h")], ["returned byte strings"])

prop("C14", "Every secret mask, seed and share is drawn fresh from the system's CSPRNG",
 "Every secret that the library samples (interval-gate output mask shares, one-time-pad seeds of PIR requests, hash-function seeds of generated server parameters, outputs of the basic random generator) consists entirely of bytes handed out by the cryptographic random source for that very call, at full length. No random byte is used for two secrets, repeated or truncated, and shares derived from it are uniform whatever value is shared.",
 ["histories", "inputs"], "all sequences of sampling operations and all shared values",
 "Functional tests pass with constant or reused randomness; freshness is a statement about histories of draws.",
 ["dcf/fss_gates/prng/basic_rng.h", "dcf/fss_gates/multiple_interval_containment.cc", "pir/prng/aes_128_ctr_seeded_prng.cc", "pir/dense_dpf_pir_client.cc", "pir/cuckoo_hashing_sparse_dpf_pir_server.cc", "pir/simple_hashing_sparse_dpf_pir_server.cc"],
 [("RAND_bytes", "all samplers")], observe=["log of bytes handed out by the random source vs. the outputs"])

prop("C15", "A dense database query returns the XOR of exactly the selected records",
 "For every dense database (any number of records of any, also differing or zero, lengths) and every bit selection, the inner product equals the XOR of the selected records, each zero-padded to the longest record's length; several selections in one call are answered independently and in order. Built databases report their true size, selection bits beyond the number of records do not influence the answer, and selections too short for the database are refused with an error.",
 ["inputs"], "all record lists and selection vectors",
 "Tests use up to a few hundred equal-length records on random selections; record lengths around block and vector sizes, tail selection bits and many queries per call decide correctness of the unrolled kernels.",
 ["pir/dense_dpf_pir_database.h", "pir/dense_dpf_pir_database.cc", "pir/internal/inner_product_hwy.cc"],
 [("contiguous aligned buffer", "pir/dense_dpf_pir_database.cc Append"), ("blocked inner product", "pir/internal/inner_product_hwy.cc")],
 observe=["InnerProductWith results", "size, num_selection_bits, max_value_size"])

prop("C16", "Dense PIR: clients get exactly the records they ask for",
 "For every database, every list of in-range indices and any sequence of requests, a client's answer obtained from a leader and a helper (or from two plain servers) is, for each index in order, that record zero-padded to the longest record's length. Clients and servers reject configurations, indices, requests and responses that do not fit with INVALID_ARGUMENT, and a client state decodes only with its own request's one-time pad.",
 ["inputs", "histories"], "all databases, index lists, request sequences",
 "End-to-end tests do not exist in the default build and use one database size; every position relative to 128-record blocks and powers of two matters.",
 ["pir/dense_dpf_pir_client.cc", "pir/dense_dpf_pir_server.cc", "pir/dpf_pir_client.h", "pir/dpf_pir_server.cc", "pir/dense_dpf_pir_database.cc"],
 [("index to block/bit split", "pir/dense_dpf_pir_client.cc CreatePlainRequests"), ("expansion and inner product", "pir/dense_dpf_pir_server.cc HandlePlainRequest")],
 observe=["HandleResponse results"])

prop("C17", "Cuckoo-hashed PIR finds every stored key and reports absent ones",
 "For every key-value database that the cuckoo-hashed builder accepts and every list of queried strings, the client obtains for each stored key its value, zero-padded to the longest value's length, and no value for a string that is not stored; a builder that cannot place all records fails instead of losing some. Two servers built from the same records and parameters are interchangeable, whatever order records were inserted in.",
 ["inputs", "histories"], "all databases, parameters, seeds and query lists",
 "Tests use one database with one prefix scheme; collisions, evictions, tiny or dense tables and keys that are prefixes of each other occur only for specific seeds and keys.",
 ["pir/cuckoo_hashed_dpf_pir_database.cc", "pir/cuckoo_hashing_sparse_dpf_pir_client.cc", "pir/cuckoo_hashing_sparse_dpf_pir_server.cc", "pir/hashing/cuckoo_hash_table.cc"],
 [("cuckoo insertion", "pir/hashing/cuckoo_hash_table.cc Insert"), ("key comparison", "pir/cuckoo_hashing_sparse_dpf_pir_client.cc HandleResponse")],
 observe=["HandleResponse results"])

prop("C18", "Simple-hashed PIR finds every stored key and reports absent ones",
 "For every key-value database that the simple-hashed builder accepts and every list of queried strings, the client obtains for each stored key exactly its value, byte for byte, and no value for a string that is not stored, however many records share a bucket. Two servers built from the same records and parameters are interchangeable.",
 ["inputs", "histories"], "all databases, parameters, seeds and query lists",
 "Tests use one database; bucket loads from zero to everything in one bucket, binary keys and values, and values that look like bucket encodings are not sampled.",
 ["pir/simple_hashed_dpf_pir_database.cc", "pir/simple_hashing_sparse_dpf_pir_client.cc", "pir/simple_hashing_sparse_dpf_pir_server.cc"],
 [("bucket serialization", "pir/simple_hashed_dpf_pir_database.cc Build"), ("bucket parsing", "pir/simple_hashing_sparse_dpf_pir_client.cc HandleResponse")],
 observe=["HandleResponse results"])

prop("C19", "Leader/helper protocol combines, masks and isolates correctly",
 "A leader forwards exactly the encrypted helper part once, evaluates its own part exactly once inside the forwarding call, and returns the XOR of both responses; it fails if the sender never runs the local work, the helper fails, or the response counts or sizes differ. A helper's response is its plain response XOR the keystream of the request's one-time-pad seed consumed in order over all responses; what the client sends the leader in the clear contains neither the helper's keys nor the pad seed, which the helper part carries encrypted under the server's context string, and servers refuse requests meant for another role.",
 ["histories", "fault_sequences", "inputs"], "all requests, sender behaviours (order, omission, repetition, failure, wrong sizes) and roles",
 "Tests use mock responses of equal length and one failure at a time.",
 ["pir/dpf_pir_server.cc", "pir/dpf_pir_server.h", "pir/dpf_pir_client.h"],
 [("HandleLeaderRequest / HandleHelperRequest", "pir/dpf_pir_server.cc"), ("CreateRequest", "pir/dpf_pir_client.h")],
 observe=["calls of the sender, decrypter and encrypter stand-ins", "responses and statuses"])

prop("C20", "PIR endpoints survive any message and refuse what does not fit",
 "Whatever configuration, public parameters, request, response or client state a PIR client, server or database is handed (well-formed messages with arbitrary contents, truncated or random ciphertexts, corrupted helper answers), the call returns a result or an error status and never crashes, hangs or accesses memory out of bounds. Messages of the wrong kind, non-positive sizes, databases not matching the parameters, foreign hash-seed fingerprints, empty requests and response counts that do not match the query are refused with an error.",
 ["inputs", "fault_sequences"], "all messages at all PIR interfaces",
 "Tests list one wrong message per error; servers and clients parse untrusted bytes of any shape.",
 ["pir/dense_dpf_pir_client.cc", "pir/dense_dpf_pir_server.cc", "pir/cuckoo_hashing_sparse_dpf_pir_client.cc", "pir/cuckoo_hashing_sparse_dpf_pir_server.cc", "pir/simple_hashing_sparse_dpf_pir_client.cc", "pir/simple_hashing_sparse_dpf_pir_server.cc", "pir/dpf_pir_server.cc"],
 [("argument checks of Create, HandleRequest, HandleResponse", "pir/*.cc")], observe=["status codes", "sanitizer reports"])

prop("C21", "A cuckoo table never loses, duplicates or misplaces an element",
 "After any sequence of insertions, the multiset of elements in the table's buckets and stash equals the multiset of successfully inserted elements, every bucket element lies at an index one of the hash functions gives for it, and the stash never exceeds its limit; an insertion that fails changes none of this. The same insertions on equal tables give equal contents, and non-positive sizes or fewer than two hash functions are refused.",
 ["histories", "configurations"], "all insertion sequences, table sizes, relocation limits, stash limits, hash functions",
 "Tests insert fixed sequences and look at sizes or single elements; eviction chains differ for every sequence.",
 ["pir/hashing/cuckoo_hash_table.h", "pir/hashing/cuckoo_hash_table.cc"],
 [("eviction loop and stash", "pir/hashing/cuckoo_hash_table.cc Insert")],
 [("table, stash", "stored elements", "pir/hashing/cuckoo_hash_table.h")], ["GetTable, GetStash after every insertion"])

prop("C22", "Simple and multiple-choice tables place every element where it belongs",
 "After any sequence of insertions, a simple table holds each element once per hash function at the index that function gives, in insertion order, and a multiple-choice table holds it exactly once, in a bucket that was least loaded among its choices at the time. No bucket ever exceeds the maximum bucket size; an insertion that would make one do so fails with an error and changes nothing.",
 ["histories", "configurations"], "all insertion sequences, sizes, limits and hash functions",
 "Tests insert a handful of elements; colliding hash functions at the size limit and choice ties need generated histories.",
 ["pir/hashing/simple_hash_table.cc", "pir/hashing/multiple_choice_hash_table.cc"],
 [("Insert", "pir/hashing/simple_hash_table.cc, pir/hashing/multiple_choice_hash_table.cc")],
 [("table", "buckets", "pir/hashing/*_hash_table.h")], ["GetTable after every insertion"])

prop("C23", "Hash functions are deterministic, in range, seed-separated and interoperable",
 "For every seed, input (any bytes, any length) and bound, a hash function returns the SHA-256 (or Farm) digest of seed and input reduced to [0, bound) by the documented rule, identically in every process, instance, copy and thread. The k functions made from one family differ by documented seeds, are independent of how many are requested, and families made from a stored configuration equal those made by hand; unset families, empty seeds and negative counts are refused.",
 ["inputs", "configurations"], "all seeds, inputs, bounds and counts",
 "Tests check a few values; client and server agree on bucket numbers only if this holds for all keys and all table sizes, including those above 2^16.",
 ["pir/hashing/sha256_hash_family.cc", "pir/hashing/farm_hash_family.cc", "pir/hashing/hash_family.cc", "pir/hashing/hash_family_config.cc"],
 [("modular reduction of the digest", "pir/hashing/sha256_hash_family.cc"), ("seeds of derived functions", "pir/hashing/hash_family.cc")],
 observe=["hash values against an independent implementation"])

prop("C24", "Const operations may be shared between threads without races",
 "A DPF, DCF, interval gate, database, PIR server or client, hash function, or hash object constructed once may be used by any number of threads at the same time through its evaluation, key-generation, query and request-handling operations, provided each thread uses its own context and outputs (and, for key generation directly with a DPF or DCF, that the value type was registered or used before the threads start). No interleaving causes a data race, and every thread obtains the results a lone thread would obtain.",
 ["schedules"], "all interleavings of evaluation and request-handling calls on shared objects",
 "All tests are single-threaded, while servers answer requests from many threads on one object.",
 DPF + ["dpf/aes_128_fixed_key_hash.cc", "dcf/distributed_comparison_function.h", "pir/dense_dpf_pir_database.cc", "pir/dpf_pir_server.cc", "pir/hashing/sha256_hash_family.cc", "pir/internal/inner_product_hwy.cc"],
 [("no mutable shared state in const paths", "dpf/, dcf/, pir/")], observe=["ThreadSanitizer reports", "results per thread"])

prop("C25", "Database builders behave as values with a one-shot build",
 "For any sequence of insert, clone, clear, parameter setting and build calls on the database builders, each builder's next build contains exactly the records inserted since its creation or last clear (plus those its original held when it was cloned), in insertion order for dense databases; clones and originals never influence each other. A second build without a clear fails with FAILED_PRECONDITION, builds without valid parameters or with an empty key fail with INVALID_ARGUMENT, and a built database does not change afterwards.",
 ["histories"], "all sequences of builder operations, including several clones alive at once",
 "Tests run insert-build once or twice; aliasing between clones and stale state after clear show up only in longer histories.",
 ["pir/dense_dpf_pir_database.cc", "pir/cuckoo_hashed_dpf_pir_database.cc", "pir/simple_hashed_dpf_pir_database.cc", "pir/pir_database_interface.h"],
 [("Clone, Clear, Build", "pir/*_database.cc")], [("has_been_built, records", "builder state", "pir/*_database.h")],
 ["content of built databases read back through inner products", "statuses"])

prop("C26", "Refused memory, cipher failures and failing callbacks are reported, never wrong",
 "Whatever a call needs from its surroundings and is refused, the call either still returns exactly its usual result or returns an error, and never a wrong or partial result presented as success, a crash, or undefined behavior. A refused aligned buffer (any buffer requested by any DPF, DCF, gate, database or PIR operation, or one too large for the memory there is) gives RESOURCE_EXHAUSTED; a failing cipher context, cipher call, key schedule, or a failing random source of BasicRng and the interval gate gives INTERNAL; errors returned by functions the caller supplied (encrypter, decrypter, sender, databases, database builders) come back with their code and message, and databases which return too many or too few records lead to errors, not to answers. Afterwards the same objects give their usual results, a refused evaluation on a context can be repeated at once, and whatever a context accepts after refused calls is evaluated correctly for the points or prefixes given.",
 ["fault_sequences", "histories", "inputs"], "every operation, every single or lasting refusal of every resource request it makes, and every failing callback",
 "No test makes an allocation, a cipher call or a random draw fail, and only few callbacks; there are some twenty places whose error path never runs.",
 DPF + ["dpf/aes_128_fixed_key_hash.cc", "dpf/internal/evaluate_prg_hwy.cc", "dcf/distributed_comparison_function.h", "dcf/fss_gates/multiple_interval_containment.cc", "dcf/fss_gates/prng/basic_rng.h", "pir/internal/inner_product_hwy.cc", "pir/prng/aes_128_ctr_seeded_prng.cc", "pir/dpf_pir_server.cc", "pir/cuckoo_hashed_dpf_pir_database.cc"],
 [("checks of hwy::AllocateAligned", "dpf/, dcf/fss_gates/, pir/internal/"), ("checks of EVP_* and AES_set_encrypt_key", "dpf/, pir/prng/"), ("status propagation from callbacks", "pir/*_server.cc, pir/*_client.cc, pir/*_database.cc")],
 [("previous_hierarchy_level, partial_evaluations", "progress of a context, which a failed call must not corrupt", "dpf/distributed_point_function.proto EvaluationContext")],
 ["status or result of every call under each refusal, and of its healthy repetition"])

prop("C27", "Calls give back the memory they take, and serving does not grow",
 "No operation keeps memory beyond the objects it returns: repeating any DPF, DCF, gate, hash, database or PIR call - on the same or on ever different inputs, successful, rejected, or cut short by a refused resource or a failing callback - leaves the memory in use where it was, apart from one-time initialization. Objects give everything back when they are destroyed. A server that answers requests, a client that makes them, and a long-lived DPF, DCF or gate do not grow with the number or variety of requests they served. A context that is evaluated again at the same level grows neither in memory nor in its serialized length. A builder that is cleared, built or refused and filled again does not grow.",
 ["histories", "fault_sequences", "inputs"], "every operation and every path out of it, over any number of repetitions",
 "The tests run each call a few times and never look at memory; a leak on an error path or a cache without bound only shows over a server's life.",
 DPF + ["dpf/aes_128_fixed_key_hash.cc", "dpf/internal/evaluate_prg_hwy.cc", "dcf/distributed_comparison_function.h", "dcf/fss_gates/multiple_interval_containment.cc", "dcf/fss_gates/prng/basic_rng.h", "pir/internal/inner_product_hwy.cc", "pir/prng/aes_128_ctr_seeded_prng.cc", "pir/dpf_pir_server.cc", "pir/dense_dpf_pir_server.cc", "pir/dense_dpf_pir_database.cc", "pir/cuckoo_hashed_dpf_pir_database.cc"],
 [("ownership of cipher contexts", "dpf/aes_128_fixed_key_hash.cc, pir/prng/"), ("aligned buffers", "dpf/, pir/internal/"), ("arenas of evaluation contexts", "dpf/distributed_point_function.cc"), ("builders' buffers", "pir/*_database.cc")],
 [("partial_evaluations", "replaced, not appended to", "dpf/distributed_point_function.proto EvaluationContext"), ("builders' records", "given up by Clear and Build", "pir/*_database.h")],
 ["live heap bytes between repetitions; serialized length of contexts"])

prop("C28", "Nothing depends on memory that nobody wrote",
 "What any operation returns, and every decision it takes on the way, is determined by its inputs, the object's state and the random bytes drawn: never by memory that nobody has written before. This holds for keys, shares, serialized contexts, hashes, random streams, records, requests, responses, configurations and error messages; for every batch size and remainder of the vectorized kernels and the buffers they work in (padding included, whenever its content can reach a result or a branch); on contexts in any state; with malformed keys, contexts, messages, configurations and arguments, for which fields may be missing; and with every object that was just created, moved from, cleared or refused. Equal inputs therefore give equal results on any machine, and no leftover of other data in memory can leak through a key, share or response.",
 ["inputs", "histories"], "every operation, all sizes and remainders of batches, all states of objects and all malformed inputs",
 "Fresh memory is often zero in a test's short life, which is what the tests expect; only tracking each bit's origin tells a written zero from a lucky one.",
 DPF + ["dpf/aes_128_fixed_key_hash.cc", "dpf/internal/evaluate_prg_hwy.cc", "dpf/internal/get_hwy_mode.cc", "dcf/distributed_comparison_function.h", "dcf/fss_gates/multiple_interval_containment.cc", "pir/internal/inner_product_hwy.cc", "pir/prng/aes_128_ctr_seeded_prng.cc", "pir/dense_dpf_pir_database.cc", "pir/hashing/cuckoo_hash_table.cc"],
 [("buffers from hwy::AllocateAligned, which are not cleared", "dpf/, pir/internal/"), ("local arrays of blocks", "dpf/aes_128_fixed_key_hash.cc, dpf/internal/proto_validator.cc"), ("values built from bytes", "dpf/internal/value_type_helpers.h"), ("padding of records and selection bits", "pir/dense_dpf_pir_database.cc, pir/internal/")],
 [("seeds, control bits, paths", "filled for as many points as there are, read in whole vectors", "dpf/internal/evaluate_prg_hwy.cc")],
 ["definedness of results, and of every branch and address on the way"])

prop("C29", "The trial library's requests, selections and databases follow the protocol",
 "pir/testing, which the end-to-end tests, the benchmarks and users trying out PIR build on, gives what the protocol prescribes. A RequestGenerator for any positive database size makes, for any in-range indices, pairs of plain requests whose keys (fresh for every query, one of each party) select exactly the queried bit of the queried block and nothing else, and leader requests whose helper part opens under exactly the given context and carries the generator's own, freshly drawn one-time-pad seed; dense servers of that size answer them with the records. Sizes that are not positive and indices out of range are refused, wherever in the list they are. Selection bits are packed into exactly as many blocks as needed, bit i of block j being selection 128j+i (or the block's width), for every block type; random selections have the asked-for length; the unpacked inner product is the XOR of the selected records padded to the longest, and agrees with the database's own. Record generators give exactly the asked-for number and sizes of strings, counting strings count, random strings are what the random source handed out, and negative numbers are refused. A database made from records holds them in order, after those its builder already held.",
 ["inputs"], "every database size, list of indices, selection, block type and list of sizes",
 "The tests of these helpers use a handful of sizes; if a helper errs, the end-to-end tests that rely on it pass or fail for the wrong reason.",
 ["pir/testing/request_generator.cc", "pir/testing/pir_selection_bits.cc", "pir/testing/pir_selection_bits.h", "pir/testing/mock_pir_database.cc", "pir/testing/mock_pir_database.h"],
 [("RequestGenerator::Create, CreateDpfPirPlainRequests, CreateDpfPirLeaderRequest", "pir/testing/request_generator.cc"), ("PackSelectionBits, InnerProductWithUnpacked", "pir/testing/pir_selection_bits.*"), ("Generate*Strings*, CreateFakeDatabase", "pir/testing/mock_pir_database.*")],
 [("otp_seed", "drawn once per generator and sent in every helper request", "pir/testing/request_generator.h")],
 ["selection bits reconstructed from both keys; decrypted helper requests; answers; strings and bytes drawn"])

prop("C30", "The experiment on synthetic data expands what its flags and input say",
 "experiments/synthetic_data_benchmarks, with which the repository's published timings are reproduced, runs to its end for every valid combination of flags and every non-empty set of buckets of the domain (any CSV line whose first column is a bucket, repeated or not), and evaluates in each iteration: the unique buckets in order and nothing else with --only_nonzeros, whatever levels are given; the whole domain without an input; otherwise first the whole domain of the first level, then, level by level up to the domain's size, exactly the extensions of the distinct prefixes that the input's buckets have at the previous level. Levels are the given ones, or else chosen strictly increasing so that no level has more than max_expansion_factor times as many values as there are unique buckets. The values are those of one party of a key pair for some point of the domain and the value one at each level. It does as many iterations as asked for, all alike. Flags or input lines it cannot use (negative sizes, iterations that are not positive, factors below two, levels out of range or order, lines that are empty or start with no number, several levels or --only_nonzeros without an input, files that do not exist) make it stop with an error, not go on or access memory out of bounds.",
 ["inputs"], "every combination of flags and every set of buckets",
 "The experiment has no tests, and the published inputs all have 2^20 buckets.",
 ["experiments/synthetic_data_benchmarks.cc"],
 [("ComputePrefixes, ComputeLevelsToEvaluate", "experiments/synthetic_data_benchmarks.cc"), ("RunHierarchicalEvaluation, RunBatchedSinglePointEvaluation", "experiments/synthetic_data_benchmarks.cc"), ("ValidateFlags, ReadUniqueValuesFromFile", "experiments/synthetic_data_benchmarks.cc")],
 [("levels_to_evaluate", "strictly increasing, ending with the domain's size", "experiments/synthetic_data_benchmarks.cc"), ("prefixes", "the distinct prefixes of each length", "experiments/synthetic_data_benchmarks.cc")],
 ["every vector of values handed to the benchmark library; exit status; random seeds drawn"])

prop("C31", "Work, memory and message sizes grow no faster than the protocols promise",
 "What an operation costs, in steps, bytes copied, memory (in total and at its peak) and AES blocks, and the size of what it returns, are bounded by a constant times the following, for every input. DPF keys, and generating them: the domain's bits plus the value corrections of each hierarchy level. Evaluating n points of a domain of d bits: n*d. Expanding a whole level: its number of outputs. Continuing an evaluation context: its prefixes times the bits between the last level and this one, plus the outputs; it never starts again from the root, and walking down level by level costs as much in total as the levels have prefixes. EvaluateAndApply: keys times bits. DCF keys and evaluations: d; batches: times the number of keys. Interval gates: intervals times d. Hashing and pseudorandom bytes: their length, however they are read. Building hash tables, databases and parameters: the number (and size) of elements. A PIR request: queries times the logarithm of the records; serving it: queries times the size of the database; the response: queries times the largest record; the client's work: the size of the request and of the response.",
 ["inputs"], "every size of domain, batch, database and request",
 "Succinctness is what DPFs are for (a key is logarithmic in the domain), and incremental evaluation exists to avoid repeated work; a result that is right but was computed with quadratic effort passes any test, whose inputs are small.",
 ["dpf", "dcf", "pir"],
 [("DistributedPointFunction::EvaluateUntil, EvaluateAt, EvaluateAndApply, GenerateKeysIncremental", "dpf/distributed_point_function.h"), ("ExpandSeeds, EvaluateSeeds", "dpf/distributed_point_function.cc"), ("DistributedComparisonFunction::BatchEvaluate", "dcf/distributed_comparison_function.h"), ("InnerProduct, HandlePlainRequest, CreateRequest, HandleResponse", "pir")],
 [("partial_evaluations", "one per prefix of the last level that was evaluated", "dpf/distributed_point_function.proto"), ("correction_words", "one per level of the tree", "dpf/distributed_point_function.proto")],
 ["control-flow edges executed, bytes copied and allocated, cipher blocks, serialized sizes, per call"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
