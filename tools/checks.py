"""What each property's check builds and runs."""

COMMON_ASSUMPTIONS = [
    "the installed libprotobuf, Abseil, Highway and BoringSSL behave as documented",
    "RAND_bytes is replaced by a recorded deterministic source",
]


def runs(harness, config="asan", **kw):
    return dict(harness=harness, config=config, **kw)


# For cases that need more memory than a case is usually allowed.
BIG = {"ASAN_OPTIONS": "exitcode=99:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:hard_rss_limit_mb=14000:symbolize=1"}

MEMCHECK = ["valgrind", "-q", "--error-limit=no", "--track-origins=no"]


def memcheck(harness, quick, thorough, tier=None):
    """A harness's workload under valgrind's memcheck; only memcheck's verdict counts."""
    kw = dict(wrapper=MEMCHECK, scale={"quick": quick, "thorough": thorough}, only="unwritten")
    if tier:
        kw["tier"] = tier
    return runs(harness, config="mem", **kw)


CHECKS = {
    "C01": dict(
        technique="online reconstruction monitor over randomized executions of both parties under ASan/UBSan",
        note="Shares of both parties are summed and compared with beta/zero on every generated parameter set, "
             "point and prefix set; all 129 domain sizes for all 28 types. Held on the executions observed only.",
        runs=[runs("c01")],
        rule="random increasing domain sizes 0..128 with random value types per level, alpha, betas and "
             "key-generation overload; both parties are evaluated at random, neighbouring and edge points, or on "
             "whole domains and prefix sets, with up to 2^17 outputs, prefixes or points in one call, and their sum is compared with beta/zero; one object through up to 66000 key generations and evaluations. Non-trivial: at least one "
             "point was reconstructed; distinct by parameters, alpha and points.",
    ),
    "C02": dict(
        technique="online trace monitor over random call histories on evaluation contexts, against an independent evaluator",
        note="Every value returned along a random history of EvaluateUntil/Next/At calls (with the context "
             "serialized in between) is compared with an independent evaluation of the key, and every illegal "
             "call tried in each state must be refused. Held on the histories observed only.",
        runs=[runs("c02")],
        rule="random level chains and types; random histories of expansion and point-evaluation calls with shuffled, "
             "repeated and partial prefix sets, context round trips, and illegal calls on copies and in place; contexts of up to 2^17 partial evaluations; one context through up to 66000 calls. Non-trivial: at least "
             "one accepted call; distinct by parameters and call history.",
        must_observe=["far_gaps", "until_calls", "at_calls", "refusals", "resumed_from_bytes"],
    ),
    "C03": dict(
        technique="differential monitor: the same key and point through every evaluation interface",
        note="Batch, permuted, offset, context, expansion and multi-key evaluation are compared position by "
             "position with one-point evaluation; the callback sequence is checked. Held on the executions observed only.",
        runs=[runs("c03")],
        rule="random parameters, keys and points; each point is evaluated through every interface that reaches it. "
             "One-key batches of up to 66500 points and multi-key batches alike. Distinct by parameters, number of keys and shift.",
    ),
    "C04": dict(
        technique="differential monitor per instruction-set target against portable code and an independent evaluator, under ASan/UBSan",
        note="Every kernel call is repeated under every dispatch target of this CPU, plus scalar-only and EMU128 builds, "
             "on exactly sized buffers, and compared with an independent evaluation. Targets this CPU lacks (AVX10, NEON, ...) "
             "are not observed.",
        runs=[runs("c04"), runs("c04", config="scalar", scale={"quick": 0.5}),
              runs("c04", config="emu128", scale={"quick": 0.12, "thorough": 0.2})],
        rule="random numbers (up to tens of thousands) of seeds, levels, correction words, shifts, alignments and in-place use; random record "
             "lengths, alignments and selections; each under all targets. Distinct by these parameters.",
        must_observe=["target_scalar_only", "target_EMU128", "target_SSE2", "target_SSE4", "products", "seeds_compared"],
    ),
    "C10": dict(
        technique="online reconstruction monitor over randomized comparison-function executions under ASan/UBSan",
        note="Both parties' comparison shares are summed and compared with beta/zero for all 28 types over all domain sizes they "
             "support; batches are compared with single evaluation position by position. Held on the executions observed only.",
        runs=[runs("c10")],
        rule="random types, domain sizes 1..128, alphas, betas and points next to alpha, sharing its prefixes or at the "
             "edges; exhaustive on domains up to 5 bits (7 thorough); batches of mixed keys of any length up to tens of thousands; one object through up to 66000 key generations. Distinct by type, "
             "domain, alpha and beta.",
        must_observe=["points_below", "points_at", "points_above", "by_pointer", "refused", "shares_vs_reference"],
    ),
    "C11": dict(
        technique="online monitor comparing summed gate outputs with plain interval arithmetic, under ASan/UBSan",
        note="Both parties' outputs are summed and compared with r_out plus containment for random and exhaustively all tiny "
             "groups; batches are compared with single evaluation. Held on the executions observed only.",
        runs=[runs("c11")],
        rule="random group sizes 1..127, 0..40 intervals (full, single-point, boundary, repeated), masks and inputs at and next to "
             "the bounds; all intervals, input masks and inputs of groups of 1..4 bits; batches of mixed keys, some of thousands; one gate through up to 66000 key generations. Distinct by size, masks "
             "and intervals.",
        must_observe=["shares.inside", "shares.outside", "by_pointer", "mask_share_count", "no_intervals", "reversed"],
    ),
    "C05": dict(
        technique="differential monitor: library against an independent implementation of construction and wire format",
        note="Keys made by the library, made by an independent implementation from any seeds, and structured keys with arbitrary "
             "contents travel through an independent wire encoder and are evaluated by both. Held on the executions observed only.",
        runs=[runs("c05")],
        rule="random parameter sets over 28 types; seeds including all-zero, all-one and carry edges; both wire forms of "
             "integers, explicit defaults, unknown fields and swapped field order; comparison and interval keys likewise. "
             "Distinct by parameters, alpha and key contents.",
        must_observe=["library_keys", "foreign_keys", "arbitrary_keys", "comparison_shares", "interval_shares", "incremental_shares"],
    ),
    "C06": dict(
        technique="monitor over the recorded random source and generated keys, plus two-sample bit statistics",
        note="Every byte handed out by the random source is recorded and matched with the seeds of the keys made of it; the rest of "
             "the key must equal the documented function of seeds, alpha and beta; bit frequencies are compared between pairs of "
             "(alpha, beta). Held on the executions observed only; secrecy itself rests on AES and the construction.",
        runs=[runs("c06")],
        rule="random parameter sets over 28 types, alphas, betas and key-generation overloads, also with forced random bytes; "
             "several keys from one object; up to 66000 key pairs of one object. Distinct by parameters and alpha.",
        must_observe=["keygen.fresh_pairs", "comparison_keygen.fresh_pairs", "forced_pairs", "bits_compared"],
    ),
    "C07": dict(
        technique="structure-aware fuzzing of messages and arguments under ASan/UBSan with a documented-validity oracle",
        note="Well-formed messages are mutated field by field and fed to every entry point; sanitizers watch memory, a reference "
             "predicate decides which inputs must be accepted or refused with which code. Held on the executions observed only.",
        runs=[runs("c07")],
        rule="valid parameters, values, keys, contexts and gate messages with 1..3 random changes (cleared, edge, surplus, missing, "
             "swapped or foreign fields) or fully random messages; out-of-range levels, points, shifts, sizes and types. "
             "Distinct by parameters and the changes made.",
        must_observe=["parameters.valid_accepted", "parameters.invalid_refused", "malformed_key_refused", "mutated_key_evaluated",
                      "contexts.accepted", "contexts.refused", "type_apply", "negative_shift", "unregistered_refused"],
    ),
    "C08": dict(
        technique="differential monitor: C++ value types against independent group arithmetic and conversion, with mutated messages",
        note="Every operator, assignment (also aliased), copy and conversion of 73 value types is compared with independent "
             "arithmetic; 8-bit types exhaustively; messages are mutated and must be refused exactly when a reference "
             "predicate says so. Held on the executions observed only.",
        runs=[runs("c08")],
        rule="random operands biased to 0, 1, N-1, N/2 and range ends, equal and opposite operands; all pairs of values of 8-bit "
             "types; values in both wire forms; values of other types, one leaf out of range, 1..2 random message changes. "
             "Distinct by type and operands.",
        must_observe=["modular", "tuples", "xor", "nontrivial_sums", "converted", "accepted", "refused", "equal", "different", "pairs"],
    ),
    "C09": dict(
        technique="differential monitor under ASan on exactly sized buffers, plus chi-square monitors of the sampled values",
        note="Conversion from bytes is compared with an independent model on buffers of exactly the declared size; declared bit "
             "counts and refusals are compared with the documented bounds for random type descriptions; frequencies of single "
             "elements and of pairs are tested. Held on the executions observed only.",
        runs=[runs("c09")],
        rule="73 C++ types and random descriptions nested 4 deep; all-zero, all-one, random bytes; security levels at both sides of "
             "what is reachable; 0..300 samples, short, exact and long inputs; sizes for up to 2^31-1 samples. Distinct by type, level and bytes.",
        must_observe=["direct_values", "sampled_values", "packed_values", "unreachable", "mixed_moduli", "bits_declared", "sampled",
                      "unreachable_refused", "short_refused", "unsafe_sampled", "distributions", "shares", "too_many_bytes"],
    ),
    "C12": dict(
        technique="differential monitor against an independent AES and hash under ASan, for every batch, buffer and vector target",
        note="Hashes are compared block by block with an AES-128 written from the standard, for separate, in-place and partially "
             "overlapping exactly sized buffers; the vectorized form is observed through one level of tree evaluation on every "
             "target. Held on the executions observed only.",
        runs=[runs("c12"), runs("c12", config="scalar", scale={"quick": 0.1, "thorough": 0.1})],
        rule="random and structured keys and blocks (equal halves, zero halves, edges), 0..700 (some 2^16 and more) blocks around multiples of 8 and 64, "
             "alignments of 16..128 bytes, every overlap direction; one object through 70000 calls. Distinct by key and sizes.",
        must_observe=["separate", "in_place", "overlap_up", "overlap_down", "mismatch_refused", "interleaved", "vectorized_blocks"],
    ),
    "C13": dict(
        technique="differential monitor of the byte stream against an independent AES-CTR, with recorded random source",
        note="The concatenation of arbitrarily split reads is compared with a keystream from an independent AES; generated seeds "
             "are compared with the recorded random bytes. Held on the executions observed only.",
        runs=[runs("c13")],
        rule="random and structured seeds, offsets next to every counter carry, 1..30 reads of 0..2000 bytes, 70 kB reads, streams of megabytes, two "
             "interleaved instances; seed lengths 0..39; 70000 small reads of one generator. Distinct by seed and offset.",
        must_observe=["reads", "bytes", "lengths_refused", "seeds_generated"],
    ),
    "C21": dict(
        technique="online conservation and placement monitor over random insertion histories, under ASan/UBSan",
        note="After every insertion the whole table and stash are compared with the multiset of accepted elements, every element's "
             "place with the hash functions, and two equal tables with each other. Held on the executions observed only.",
        runs=[runs("c21")],
        rule="random tables of 1..60 buckets, 2..5 functions (SHA-256, Farm, colliding, constant), 0..59 relocations, stash limits "
             "0..7 or none, filled to twice their capacity, with repeated, empty and long elements; tables of the documented load up to "
             "1500 elements, some far larger. Distinct by table, salt and number of elements.",
        must_observe=["inserted", "stashed", "evictions", "refused", "overfull", "elements", "invalid_refused"],
    ),
    "C22": dict(
        technique="online monitor comparing whole tables with a reference model after every insertion, under ASan/UBSan",
        note="A model table follows every insertion; bucket contents, order, loads and refusals are compared after each. Held on the "
             "executions observed only.",
        runs=[runs("c22")],
        rule="random tables of 1..60 (some 280) buckets, 1..5 (some 40) functions (SHA-256, Farm, colliding, constant), bucket limits 1..7 or none, filled "
             "beyond capacity, with repeated, empty and long elements; some tables of tens of thousands of elements or buckets. Distinct by table, salt and number of elements.",
        must_observe=["simple.inserted", "simple.refused", "same_bucket_twice", "multiple_choice.inserted",
                      "multiple_choice.refused", "from_families", "invalid_refused"],
    ),
    "C23": dict(
        technique="differential monitor against an independent SHA-256 and the documented reduction, under ASan/UBSan",
        note="Every hash is compared with an independent SHA-256 (Farm: with the installed library) reduced by the documented rule; "
             "families, configurations, copies and threads are compared with the same reference. Held on the executions observed only.",
        runs=[runs("c23")],
        rule="random seeds and inputs around SHA block edges, up to 3000 bytes and one above 2^30 bytes; bounds 1, powers of two, up "
             "to 2^31-1; 0..129 (some 256..1155) functions per family; every kind of invalid configuration; one function called 70000 times. Distinct by family and seed.",
        must_observe=["hashes", "members", "separated", "accepted", "refused", "spread_samples", "hashes_in_threads", "huge"],
    ),
    "C15": dict(
        technique="differential monitor of inner products against a bit-by-bit reference, for every vector target, under ASan/UBSan",
        note="Every answer is compared with the XOR of the selected records computed bit by bit; every record is also selected alone; "
             "selections with surplus bits and blocks, also past 2^32 bits, must not change answers. Held on the executions observed only.",
        runs=[runs("c15"), runs("c15", config="scalar", scale={"quick": 0.2, "thorough": 0.2}), runs("c15huge", env=BIG)],
        rule="random databases of 1..700 (and 20000) records of equal, mixed, zero and up to 1 MB lengths, and above 2^31 bytes; 1..300 selections, sparse, "
             "dense, boundary; short, long and uneven selections; one database through up to 66000 requests. Distinct by database.",
        must_observe=["answers", "records", "surplus_bits", "short_refused", "uneven", "empty_refused", "far", "huge_records"],
    ),
    "C16": dict(
        technique="end-to-end monitor of dense PIR sessions against the database, with watched encryption and transport, under ASan/UBSan",
        note="Whole sessions run over serialized messages; every answer is compared with the zero-padded record, foreign states must "
             "not decode, and everything that does not fit must be refused. Held on the executions observed only.",
        runs=[runs("c16")],
        rule="random databases of 1..1024 records (`large` group: 65537) around block and power-of-two edges, queries of 1..12 indices "
             "with repeats, up to 4 requests answered and decoded in other orders; configurations up to 2^45 elements for clients; one client and server pair through up to 4000 requests. "
             "Distinct by database.",
        must_observe=["leader_helper.records_obtained", "plain_servers.records_obtained", "foreign_states", "large",
                      "requests_refused", "states_refused"],
    ),
    "C17": dict(
        technique="end-to-end monitor of cuckoo-hashed PIR sessions against a map, plus content audit of built databases, under ASan/UBSan",
        note="Every answer is compared with a map of the records; databases are read back bucket by bucket and audited (each record "
             "once, in one of its buckets); refusals to build are compared with a bipartite matching. Held on the executions observed only.",
        runs=[runs("c17")],
        rule="random databases of 1..400 (`large` group: 1500 and more) records, keys of 8 styles (prefixes of each other, binary, long, same but for the last byte), 2..15 hash "
             "functions, generated and hand-made parameters from full to sparse tables, both servers with other insertion orders; "
             "queries stored, absent, prefixes, extensions, longer than all keys, empty, repeated; one client and server pair through hundreds of requests. Distinct by parameters.",
        must_observe=["sessions.found", "sessions.absent", "absent_longer", "absent_empty", "plain_servers.found", "orders_compared",
                      "not_placed", "records_placed", "generated_parameters.built", "refused_all", "right"],
    ),
    "C18": dict(
        technique="end-to-end monitor of simple-hashed PIR sessions against a map, plus content audit of built databases, under ASan/UBSan",
        note="Every answer is compared byte for byte with a map of the records; every bucket of built databases is read back and "
             "compared with the records that belong there. Held on the executions observed only.",
        runs=[runs("c18")],
        rule="random databases of 1..400 (`large` group: 1500 and more) records, binary keys and values incl. NUL endings, empty values and values that "
             "look like buckets, 1 bucket up to far more buckets than records; queries stored, absent, prefixes, extensions, empty, "
             "repeated; one client and server pair through hundreds of requests. Distinct by parameters.",
        must_observe=["sessions.found", "sessions.absent", "absent_empty", "found_empty_value", "plain_servers.found", "shared_buckets",
                      "refused_all"],
    ),
    "C19": dict(
        technique="protocol monitor recording every sender, encrypter, decrypter and database call, with injected faults, under ASan/UBSan",
        note="Stand-ins for encryption, transport and databases record every call; contents, order and number of the calls and all "
             "responses are compared with what the protocol prescribes, over injected sender and helper misbehaviour. Held on the "
             "executions observed only.",
        runs=[runs("c19"), runs("c19huge", env=BIG)],
        rule="all three schemes and a custom server with responses of any shape; the sender runs the local work before, after, in another "
             "thread, twice or never and returns good, random, missing, surplus, longer, shorter or failed answers; 7 kinds of requests for "
             "each role; masked answers of up to megabytes, and of more than 2^31 bytes. Distinct by database and behaviour.",
        must_observe=["requests", "masked", "bad_seeds", "never_run", "helper_errors", "leader_errors", "leaders.wrong_shapes", "combined",
                      "combined_in_thread", "refused", "shapes", "huge_masked", "huge_combined", "huge_unmasked", "custom_servers.wrong_shapes"],
    ),
    "C20": dict(
        technique="structure-aware fuzzing of every PIR message under ASan/UBSan, with refusal and twin-server oracles",
        note="Configurations, parameters, requests, helper answers, responses and states are damaged by reflection and on the wire; no "
             "sanitizer report, crash or hang may occur, answers must have the fitting shape and equal a twin's, endpoints must answer "
             "good messages as before, and listed misfits must be refused. Held on the executions observed only.",
        runs=[runs("c20")],
        rule="all three schemes and roles, small databases; 12..48 damaged messages per case (field mutations, random messages, byte "
             "edits, truncations), sizes over the whole int64 range, buckets of any shape. Distinct by database.",
        must_observe=["answered", "requests.refused", "leader_answered", "leader_refused", "helper_answered", "helper_refused",
                      "helper_answers.decoded", "mismatches_refused", "responses_and_states.decoded", "responses_and_states.refused",
                      "buckets_decoded", "buckets_refused", "clients", "clients_refused", "servers", "servers_refused", "params",
                      "params_refused", "misfits"],
        assumptions=["numbers of buckets above 200000 and of hash functions above 300 are not tried where they cost memory or time by design"],
    ),
    "C14": dict(
        technique="provenance monitor: a recording random source and a ledger that assigns every handed-out byte to at most one secret",
        note="The random source is replaced by one that records every byte; each sampled secret must consist of bytes handed out during "
             "its call, each byte in at most one secret; low and high bits of shares are tested for uniformity. Held on the executions "
             "observed only; uniformity is judged statistically.",
        runs=[runs("c14")],
        rule="random histories of gate, request, parameter and generator calls; gates of 1..127 bits, 1..6 (some 206) intervals, edge-biased masks; one generator, gate or client through up to 66000 draws. "
             "Distinct by parameters.",
        must_observe=["shares", "gates", "request_secrets", "seeds", "bytes", "words", "blocks", "filled", "secrets_in_histories"],
        assumptions=["RAND_bytes itself (BoringSSL) is uniform and cannot fail"],
    ),
    "C25": dict(
        technique="model-based monitor of random builder histories, databases read back completely at build time and at the end, under ASan/UBSan",
        note="Random histories of insert, clone, clear, parameter, part and build calls over up to six live builders run next to a model; "
             "every built database is read back record by record, and again after everything else happened. Held on the executions "
             "observed only.",
        runs=[runs("c25")],
        rule="histories of 5..35 (thorough 65) steps per builder kind, up to 6 builders and 25 (some 700) records each, 5 parameter sets, dense part "
             "builders with leftovers; every kind of refused build followed by recovery; one builder through hundreds of fill, clone, build and clear cycles. Distinct by history.",
        must_observe=["dense.built", "cuckoo.built", "simple.built", "dense.clones", "cuckoo.clones", "simple.clones",
                      "dense.second_builds_refused", "cuckoo.second_builds_refused", "simple.second_builds_refused",
                      "cuckoo.no_params_refused", "simple.no_params_refused", "refusals", "records_read", "audited_later"],
    ),
    "C24": dict(
        technique="ThreadSanitizer on threads sharing one object, plus comparison of every result with a lone thread's; random pauses inside calls",
        note="Several threads call one shared object at once under ThreadSanitizer, whose happens-before analysis reports any "
             "unsynchronized conflicting accesses it sees, whether or not they collided; accesses inside the uninstrumented cipher library "
             "are announced to it by wrappers. Every result is compared with the one a lone thread gets from an equal object. Held on the "
             "executions observed only.",
        runs=[runs("c24", config="tsan")],
        rule="2..6 threads, each making every call of a random set in random order (or all in the same order), 1..2 (thorough 4) rounds; "
             "random DPF, DCF, gate and PIR parameters; random pauses at cipher, digest and call boundaries. Distinct by parameters and plan.",
        must_observe=["overlapped_calls", "calls.dpf.evaluate_at", "calls.dpf.context", "calls.dpf.evaluate_and_apply", "calls.dpf.generate_keys",
                      "calls.dcf.evaluate", "calls.dcf.batch_evaluate", "calls.dcf.generate_keys", "calls.mic.gen", "calls.mic.batch_eval",
                      "calls.hash.fixed_key", "calls.hash.sha256", "calls.db.dense", "calls.db.cuckoo", "calls.db.simple", "calls.server.plain",
                      "calls.server.helper", "calls.server.leader", "calls.client.create_request", "calls.client.handle_response"],
        assumptions=["the value types used to make keys were registered before (by an earlier call) where threads share a DPF or DCF",
                     "callbacks given by the caller (transport, encryption) are themselves safe to share"],
    ),
    "C26": dict(
        technique="fault injection at every buffer allocation, cipher call, random draw and caller's function; results compared with healthy runs",
        note="Each call runs once healthy, then again with one (or every later) aligned buffer, cipher context, cipher call or key schedule "
             "refused by stand-ins at the library's boundary; each outcome must be the healthy result or the error status that belongs to the "
             "refusal, and a healthy repetition must give the healthy result. Contexts are driven on after refusals and compared with an "
             "independent evaluator. Failing callers' functions (encryption, decryption, transport, databases, builders) must surface as they "
             "are. Held on the executions observed only.",
        runs=[runs("c26")],
        rule="random DPF, DCF, gate, hash, database and PIR objects with random calls on them; up to 5 (thorough 24) refusals per call and kind, "
             "the first and last request always among them. Distinct by parameters and seed; non-trivial: something was refused.",
        must_observe=["refused.alloc", "refused.cipher_ctx", "refused.cipher_init", "refused.cipher", "refused.key_schedule", "refused.random",
                      "reported_by.dpf.evaluate_at", "reported_by.dpf.context", "reported_by.dpf.evaluate_and_apply", "reported_by.dpf.generate_keys",
                      "reported_by.dcf.batch_evaluate", "reported_by.mic.gen", "reported_by.mic.batch_eval", "reported_by.hash.fixed_key",
                      "reported_by.db.dense", "reported_by.server.helper", "reported_by.server.leader", "reported_by.client.create_request",
                      "reported_by.client.handle_response", "accepted_after_refusal", "values_compared", "memory_refused", "failed.encrypter",
                      "failed.decrypter", "failed.sender_before", "failed.sender_after", "failed.leader_db", "failed.helper_db", "failed.build",
                      "failed.product", "failed.miscount"],
        assumptions=["memory that standard containers and protocol buffers allocate is not refused",
                     "RAND_bytes fails only for BasicRng: BoringSSL documents that it cannot fail elsewhere"],
    ),
    "C27": dict(
        technique="sanitizer allocator accounting: live heap bytes compared over ever longer rounds of the same call, session or life cycle",
        note="The bytes that are live in the heap (counted by the address sanitizer's allocator) are compared between rounds of 3, 4, 8, 16, 32 and 64 "
             "repetitions of one call, of an object's whole life, of a PIR session with ever different requests, of a context's repeated "
             "evaluation, of a builder's cycle. What is kept once or up to a bound stops growing; what grows in all rounds is a leak. Calls are "
             "repeated both healthy and with a buffer, cipher context, cipher call, key schedule or random draw refused. Held on the executions "
             "observed only.",
        runs=[runs("c27")],
        rule="random DPF, DCF, gate, hash, database and PIR objects with random calls on them. Distinct by parameters and seed; non-trivial: something was called.",
        must_observe=["calls.dpf.evaluate_at", "calls.dpf.context", "calls.dpf.generate_keys", "calls.dcf.batch_evaluate", "calls.mic.batch_eval",
                      "calls.hash.fixed_key", "calls.db.dense", "calls.server.leader", "calls.client.create_request", "refused.alloc", "refused.cipher_ctx",
                      "refused.cipher_init", "refused.cipher", "refused.key_schedule", "requests", "requests_without_helper", "refused_requests", "evaluations", "built"],
        assumptions=["growth that stops after 31 repetitions is a cache, not a leak", "a leak that only the 128th or a later repetition starts is not seen"],
    ),
    "C28": dict(
        technique="valgrind memcheck: definedness of every bit that decides anything or is returned, read after every call",
        note="Real calls run under memcheck, which tracks for every bit whether it was ever written, from aligned buffers and stack through the vector "
             "kernels and AES to the results. Its error count is read after every case, and the results of the calls themselves are checked bit by bit. "
             "Workloads: random objects and calls of all kinds, histories on contexts, malformed keys and messages, sampling, databases, hash tables. "
             "Held on the executions observed only; the AVX2 kernels are the ones observed (valgrind knows no AVX-512).",
        runs=[runs("c28", config="mem", wrapper=MEMCHECK),
              memcheck("c02", 0.03, 0.5), memcheck("c07", 0.004, 0.1), memcheck("c09", 0.002, 0.04), memcheck("c15", 0.03, 0.2),
              memcheck("c20", 0.02, 0.2), memcheck("c21", 0.03, 0.2), memcheck("c22", 0.02, 0.2),
              memcheck("c05", 0.02, 0.2, "thorough"), memcheck("c08", 0.002, 0.04, "thorough"), memcheck("c11", 0.02, 0.2, "thorough"),
              memcheck("c13", 0.02, 0.2, "thorough"), memcheck("c18", 0.02, 0.2, "thorough"), memcheck("c25", 0.05, 0.5, "thorough")],
        rule="random objects with random calls on them, and small shares of the workloads of C02, C07, C09, C15, C20, C21 and C22 (thorough: also C05, "
             "C08, C11, C13, C18, C25). Distinct by parameters and seed; non-trivial as in those checks.",
        must_observe=["monitor_alive", "on_memcheck", "result_bytes", "calls.dpf.evaluate_at", "calls.dpf.context", "calls.dpf.generate_keys",
                      "calls.dpf.evaluate_and_apply", "calls.dcf.batch_evaluate", "calls.mic.batch_eval", "calls.hash.fixed_key", "calls.prng.own",
                      "calls.db.dense", "calls.db.cuckoo", "calls.db.simple", "calls.server.plain", "calls.server.leader",
                      "calls.client.create_request", "calls.client.handle_response", "malformed_keys.evaluate_at", "malformed_keys.evaluate_until",
                      "malformed_keys.evaluate_and_apply", "malformed_contexts.context_calls", "malformed_comparison.dcf_batch",
                      "malformed_messages.leader", "malformed_messages.client", "large_results"],
        assumptions=["memcheck follows definedness through the instructions the kernels use"],
    ),
    "C29": dict(
        technique="online monitor of the trial library's requests, selections, records and databases against the protocol, under ASan/UBSan",
        note="Requests of the request generator are evaluated by an independent evaluator at the queried and other blocks, decrypted, and answered by the "
             "real servers; packed selections are compared bit by bit, sums and databases with the records. Held on the executions observed only.",
        runs=[runs("c29")],
        rule="random database sizes up to 2^31-1, indices (edges, repeated, none), contexts; selections of 0..700 bits for all block types; records of random "
             "sizes. Distinct by sizes and values; non-trivial: something was judged.",
        must_observe=["selected_blocks", "leader_requests", "answered", "generators", "random_selections", "packed_bits", "database_products", "random_strings",
                      "records_read"],
        assumptions=["Tink's hybrid encryption is replaced by an authenticated encryption of the same interface, so pir/testing/encrypt_decrypt.cc is not observed"],
    ),
    "C30": dict(
        technique="online monitor of whole runs of the experiment, each in a process of its own, against the flags, the input and an independent evaluator, under ASan/UBSan",
        note="Every vector the experiment evaluates is recorded; from their sizes the levels are deduced and compared with the flags, the input's prefixes and the "
             "promised limit; on small domains some alpha must explain all values. Held on the executions observed only.",
        runs=[runs("c30")],
        rule="random domain sizes 0..128, sets of 1..600 buckets (clustered, neighbouring, spread), CSV forms, factors, iterations, given or automatic levels. "
             "Distinct by flags and buckets; non-trivial: the run was judged.",
        must_observe=["only_nonzeros", "full_domains", "automatic_levels", "given_levels", "explained", "refused"],
        assumptions=["stand-ins for Google Benchmark, riegeli's line reader and cppitertools' imap behave as the originals", "given levels end with the domain's size"],
    ),
    "C31": dict(
        technique="compiler-inserted counters (SanitizerCoverage) and interposed allocation, copying and cipher functions around each call, compared at two sizes and with budgets",
        note="Counts control-flow edges, bytes copied, bytes allocated, the peak of live bytes, message sizes and AES blocks, none of which depend on the machine's "
             "load, for each operation at two sizes: neither may grow faster than its promised share, nor cost a multiple of its budget. Held on the executions "
             "observed only.",
        runs=[runs("c31", config="steps"), runs("c31", config="scalarsteps")],
        rule="operations of DPFs, DCFs, gates, hashes, generators, hash tables, databases, servers and clients, each at a random size and at eight times the size "
             "(a domain of 15 and 120 bits, a few and many prefixes or levels). Distinct by operation, value type and size; non-trivial: both calls succeeded and were measured.",
        must_observe=["dpf.generate_domain", "dpf.generate_levels", "dpf.create_levels", "dpf.evaluate_at_points", "dpf.evaluate_at_domain", "dpf.expand",
                      "dpf.evaluate_prefixes", "dpf.continue_prefixes", "dpf.continue_some", "dpf.walk_prefixes", "dpf.walk_points", "dpf.evaluate_and_apply", "dcf.generate_domain", "dcf.evaluate_domain",
                      "dcf.batch_keys", "mic.generate", "mic.evaluate", "hash.fixed_key", "hash.functions", "prng.one_read", "prng.many_reads", "table.cuckoo",
                      "db.build_dense", "db.build_cuckoo", "server.records_dense", "server.records_cuckoo", "server.queries_dense", "server.queries_cuckoo",
                      "pair.queries_dense", "client.queries_dense", "client.queries_cuckoo", "client.answers_cuckoo", "client.log_records_dense", "steps_seen",
                      "aes_blocks_seen"],
        assumptions=["a constant factor (three for AES blocks, five for message sizes, ten to twenty for the rest) is no defect",
                     "work is what the compiler's edge counters, memcpy and its like, malloc and its like, and the cipher calls see"],
    ),
}
