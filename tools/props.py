"""The properties, their anchors, and what each check assures."""

API, CLI = "src/api.rs", "pi-rs-cli-utils/src/lib.rs"
UT, IDX, KV, DBM, ERR = "src/utils.rs", "src/db/index.rs", "src/db/kv.rs", "src/db/mod.rs", "src/errors.rs"
B = "bff-modp/src/"
BFP, BF, FU, XO, PR = B + "bfusep32.rs", B + "prelude/bfuse.rs", B + "prelude/fuse.rs", B + "prelude/xor.rs", B + "prelude/mod.rs"


def m(name, where):
    return {"name": name, "where": where}


def st(name, meaning, where):
    return {"name": name, "meaning": meaning, "where": where}


BASE_NOTE = ("Sound up to the library models (std, rand_core, rand, base64, bincode, serde_json, sha2 are modelled or uninterpreted) and to the analysis' "
             "understanding of the code: an obligation whose terms coincide is proved for all inputs; one decided by random interpretation holds except with "
             "small probability per obligation; code the analysis does not understand leaves the obligation undecided, counted in the evidence, never alarmed on.")

TESTS = ("The tests run a handful of random small databases in one process and compare round trips; ")

PROPS = [
 dict(id="P01", title="Query parameters are single-use, across every entry point and copy",
  statement="A query-parameter object produces at most one query: once a query has been generated from it, every further attempt with that object, or with any copy of it made after the first use, fails with an error and yields no query. The used mark is set on every successful generation, starts out clear, is never cleared again, and an object on which generation failed before producing a query is not a way around it.",
  quantifier=dict(over=["inputs", "histories"], text="all parameter objects, indices and keys, all sequences of calls on an object and its clones, index and keyword PIR"),
  why_tests_cant="One test reuses one parameter object once; no test covers clones, other entry points or code paths that could reset the mark.",
  anchors=dict(files=[API], state=[st("used flag", "parameters were consumed", API)], mechanism=[m("used check and set", API + " generate_query"), m("error", ERR + " ErrorQueryParamsReused")], observe_at=["QueryParams::generate_query"]),
  note="Every public generate_query summary: Ok implies the entry flag was false and the exit flag is true; all field writes of the flag, constructors, Clone and serde impls are enumerated in the MIR. " + BASE_NOTE),
 dict(id="P02", title="LWE secrets, errors and seeds are fresh, independent CSPRNG draws",
  statement="Every coordinate of every secret vector and of every error vector is derived from its own draw of the operating-system CSPRNG, shared with no other coordinate, vector or parameter object. Every byte of the public seed and of a seed-generated value is likewise its own OS draw. No fixed, reused, or caller-influenced value stands in for such a draw.",
  quantifier=dict(over=["inputs", "histories"], text="all coordinates of all secret and error vectors, for all dimensions, matrix widths and calls"),
  why_tests_cant="Correct decryption is unaffected by a fixed, repeated or low-entropy secret; no test observes where randomness comes from.",
  anchors=dict(files=[API, UT, IDX, KV], mechanism=[m("random_ternary_vector / random_ternary", UT), m("generate_seed", UT), m("secret and error sampling", API)], observe_at=["generate_query_params", "BaseParams::new"]),
  note="Random-source leaves of the value graph carry their call site and loop indices; dependence and sharing are decided on those leaves. " + BASE_NOTE),
 dict(id="P03", title="Ternary sampling is exactly uniform over {0, 1, -1}",
  statement="A ternary sample takes each of the values 0, 1 and 2^32-1 for exactly the same number of accepted values of the underlying 32-bit draw, and draws outside that range are rejected, never folded in. Every coordinate of a secret or error vector has this distribution.",
  quantifier=dict(over=["inputs"], text="all 2^32 values of every underlying draw"),
  why_tests_cant="A skewed or truncated distribution decrypts correctly and only weakens security; no test measures it.",
  anchors=dict(files=[UT], mechanism=[m("rejection thresholds", UT + " random_ternary")], observe_at=["random_ternary", "random_ternary_vector"]),
  note="The sample is a piecewise-constant function of one draw; its breakpoints are read off the value graph and the preimages counted exactly. " + BASE_NOTE),
 dict(id="P04", title="Query parameters are one LWE sample and its matching hint",
  statement="Generated query parameters hold, for a single secret s, exactly s times the public matrix plus a ternary error, and exactly the same s times the server's hint, in 32-bit wrapping arithmetic. No other quantity enters either, and no coordinate is dropped, duplicated, or taken from another row or column.",
  quantifier=dict(over=["inputs"], text="all public matrices, hints, dimensions and draws"),
  why_tests_cant="Tests fix the dimensions and see only the sum; a defect that touches particular rows, sizes or carries goes unseen.",
  anchors=dict(files=[API, UT, DBM, IDX, KV], mechanism=[m("mult_left / mult_right", DBM), m("vec_mult_u32_u32", UT), m("QueryParams::new", API)], observe_at=["QueryParams::new"]),
  note="The two summaries are decomposed into s*A+e and s*H over the same random leaves and compared with the specification. " + BASE_NOTE),
 dict(id="P05", title="A query is the masked selection of exactly the right positions",
  statement="A query equals the parameters' masked vector with exactly one quantity, 2^32 divided by the plaintext modulus, added (wrapping) at exactly the requested row for an index query, or at exactly the three filter probe positions of the key for a keyword query. Every other coordinate is unchanged and nothing else influences the query.",
  quantifier=dict(over=["inputs"], text="all rows, keys, filter parameters, plaintext moduli and masks, including masks whose coordinate wraps"),
  why_tests_cant="Tests query a few rows of small databases; wrap-around and position errors in rarely drawn masks or keys are not reached.",
  anchors=dict(files=[API, UT, KV], mechanism=[m("indicator addition", API + " generate_query"), m("filter hash positions", KV + " get_hash_evals")], observe_at=["QueryParams::generate_query"]),
  note=BASE_NOTE),
 dict(id="P06", title="The server's answer is the exact inner product with every column",
  statement="For a query of the right length the server answers the bincode encoding of one 32-bit word per database column, in column order, each the wrapping inner product of the query with that column over all rows. Every stored entry and every query coordinate takes part exactly once.",
  quantifier=dict(over=["inputs"], text="all database matrices (any shape), all queries"),
  why_tests_cant="Tests use one database shape and honest queries; a dropped last row, a non-wrapping product or a swapped column needs other shapes and values.",
  anchors=dict(files=[API, UT, IDX, KV], mechanism=[m("vec_mult", IDX + ", " + KV), m("respond", API)], observe_at=["Shard::respond", "KVShard::respond"]),
  note=BASE_NOTE),
 dict(id="P07", title="Server work, memory access and answer size ignore the query's contents",
  statement="While answering, nothing the server branches on, no address it reads, no loop bound and no size it allocates or returns depends on the values inside the query (its length alone may matter). Answering changes no server state, writes nothing and draws no randomness, so equal queries get equal answers.",
  quantifier=dict(over=["inputs", "histories"], text="all queries and databases"),
  why_tests_cant="A data-dependent shortcut (skip zero coordinates, early exit) gives the same answers; tests observe only answers.",
  anchors=dict(files=[API, UT, IDX, KV], mechanism=[m("respond", API), m("vec_mult_u32_u32", UT)], observe_at=["Shard::respond", "KVShard::respond"]),
  note="Information-flow on the value graph: branch conditions, indices, trip counts and stores reached from respond are checked for dependence on query elements. " + BASE_NOTE),
 dict(id="P08", title="LWE arithmetic is modulo 2^32: it never traps and ignores the build profile",
  statement="Generating parameters, queries, hints, answers and decoding behave identically in debug and release builds. No arithmetic overflow trap is reachable from them on well-formed inputs, whatever the values of matrix entries, secrets, queries and responses.",
  quantifier=dict(over=["inputs", "configurations"], text="all 32-bit values of all operands; debug and release profiles"),
  why_tests_cant="Overflow needs particular value combinations; tests run one profile with a few random draws.",
  anchors=dict(files=[API, UT, DBM, IDX, KV], mechanism=[m("wrapping operations", UT + ", " + API)], observe_at=["all public operations"]),
  note="Both profiles' MIR are dumped; summaries must coincide, and each overflow assertion of the debug profile must be unreachable. " + BASE_NOTE),
 dict(id="P09", title="Client and server derive the same matrix, and the hint is that matrix times DB",
  statement="The client expands the published seed into exactly the matrix the server used (same shape, same generator, same order), and the published hint is exactly that matrix times the database in wrapping arithmetic, one row per database column. The seed alone determines the matrix.",
  quantifier=dict(over=["inputs"], text="all seeds, dimensions and databases, index and keyword PIR"),
  why_tests_cant="Tests use one dimension and heights; a disagreement in shape-dependent code or in one of the two derivations needs other shapes.",
  anchors=dict(files=[UT, DBM, IDX, KV], mechanism=[m("generate_lwe_matrix_from_seed", UT), m("generate_params_rhs", DBM), m("CommonParams::from", DBM)], observe_at=["CommonParams::from", "BaseParams::new"]),
  note=BASE_NOTE),
 dict(id="P10", title="Every configuration parameter reaches exactly the place that uses it",
  statement="The LWE dimension, matrix height, element size, plaintext width, seed and filter parameters given when a database is built are the ones its parameter objects, query parameters, accessors and decoders report and use, each under its own name, never exchanged or recomputed differently. This holds at every hop from shard construction through published parameters to the client.",
  quantifier=dict(over=["inputs", "configurations"], text="all parameter values, all hops, index and keyword PIR"),
  why_tests_cant="With the few configurations the tests use, exchanged or stale parameters often coincide.",
  anchors=dict(files=[API, DBM, IDX, KV], mechanism=[m("constructors and accessors", API + ", " + IDX + ", " + KV)], observe_at=["get_* accessors", "constructors"]),
  note=BASE_NOTE),
 dict(id="P11", title="Decoding inverts the encoding for every admissible noise value",
  statement="Whenever a response entry equals the hint's contribution plus plaintext times 2^32 over the plaintext modulus plus noise of absolute value below half that quotient, decoding returns exactly the plaintext (for keyword PIR, with the key's fingerprint removed modulo the plaintext modulus). This holds for every plaintext, every hint value and every such noise, including values that wrap around 2^32.",
  quantifier=dict(over=["inputs"], text="all plaintexts, hints, plaintext widths, and noise values in range, both decoders"),
  why_tests_cant="Random small noise almost never lands on the rounding and wrap-around boundaries; tests sample a few draws.",
  anchors=dict(files=[API, UT, KV], mechanism=[m("rounding", API + " parse_resp_as_row"), m("unmask", KV + " unmask_value"), m("scaling and rounding factors", UT)], observe_at=["parse_resp_as_row"]),
  note="The decoder's per-column value graph is compared with the specification at the boundary values of the noise interval and interior points. " + BASE_NOTE),
 dict(id="P12", title="Elements survive storage and decoding bit for bit",
  statement="Splitting an element into plaintext chunks, storing them as a database row and re-assembling the chunks gives back exactly the element's configured number of bits, for every element and every plaintext width, including widths that do not divide the element size. Row accessors and the base64 and byte decoders all return that same element.",
  quantifier=dict(over=["inputs", "configurations"], text="all elements, element sizes and plaintext widths 1 to 31"),
  why_tests_cant="Tests use sizes and widths that divide nicely; partial last chunks and particular bit patterns are not reached.",
  anchors=dict(files=[UT, IDX, KV, API], mechanism=[m("format conversions", UT), m("construct_row", IDX + ", " + KV), m("parse_resp_as_bytes/base64", API)], observe_at=["get_db_entry", "parse_resp_as_bytes", "parse_resp_as_base64"]),
  note=BASE_NOTE),
 dict(id="P17", title="Malformed or mismatched input is rejected with an error, never a panic",
  statement="Databases, key-value pairs, query parameters, queries and keyword responses are accepted exactly when well formed (decodable, long enough, enough of them, matching lengths) and otherwise refused with an error. No such input makes construction, answering or keyword decoding panic, and none is silently truncated or padded.",
  quantifier=dict(over=["inputs"], text="all element lists, keys, values, query vectors and response vectors, well formed or not"),
  why_tests_cant="The tests only feed well-formed inputs.",
  anchors=dict(files=[API, IDX, KV, UT, ERR], mechanism=[m("length checks", API + ", " + IDX + ", " + KV), m("error type", ERR)], observe_at=["from_base64_strings", "respond", "parse_resp_as_*"]),
  note="The Ok-condition of each entry point is compared with the specification and every assertion and panic site of its summary must be unreachable. " + BASE_NOTE),
 dict(id="P29", title="Database accessors agree with the stored matrix",
  statement="Row, column, entry and size accessors, and the transposition helper they rely on, describe one and the same matrix: entry i of a column accessor is the column's value at row i, row accessors are the transpose, sizes are the actual sizes. The iterator over rows yields every row exactly once, in order.",
  quantifier=dict(over=["inputs"], text="all matrices and positions in range"),
  why_tests_cant="The accessors used by tests are exercised on one shape; several accessors have no test.",
  anchors=dict(files=[IDX, KV, UT, API], mechanism=[m("accessors", IDX + ", " + KV), m("swap_matrix_fmt", UT)], observe_at=["get_db_entry", "get_matrix_*", "into_row_iter"]),
  note=BASE_NOTE),
 dict(id="P13", title="The keyword database stores exactly the given pairs, retrievably",
  statement="Building a keyword database from distinct keys and their rows stores, for every column i, a filter encoding of exactly the i-th entries under the per-column labels that the client later uses, all with the one seed published in the filter parameters. The published geometry is that of the stored columns, every given key contributes to every column, and the order of the pairs does not matter to what a key retrieves.",
  quantifier=dict(over=["inputs", "configurations"], text="all sets of distinct keys, rows, element sizes, plaintext widths and construction attempts"),
  why_tests_cant="Tests build a few random databases whose first construction attempt succeeds; stale seeds or columns of an abandoned attempt and odd widths are not reached.",
  anchors=dict(files=[KV, API], mechanism=[m("column filters", KV + " StorageFilters::from_kvs"), m("filter parameters", KV + " FilterParams")], observe_at=["KVDatabase::new", "KVShard::new", "KVDatabase::get_filter_params"]),
  note="Filter construction is an uninterpreted function of (keys, values, label, modulus, seed) that may fail on any attempt; the database's columns and published parameters are compared with the specification. " + BASE_NOTE),
 dict(id="P14", title="A value-storing filter returns every stored value exactly",
  statement="When construction of the value-storing binary fuse filter succeeds for distinct keys, looking up any of those keys gives back exactly the value stored for it, modulo the plaintext modulus (a power of two of at least 256). This holds for every number of keys, seed, label and hash outcome, and construction reports an error instead of a filter that lost a key.",
  quantifier=dict(over=["inputs"], text="all key sets and values, seeds, labels, moduli, and all values the hash function may take"),
  why_tests_cant="Peeling depends on hash collisions that a few random key sets do not produce, and the tests of the module itself are not among the stable ones.",
  anchors=dict(files=[BFP, PR, B + "prelude/bfusep.rs", BF], mechanism=[m("peeling and assignment", B + "prelude/bfusep.rs"), m("retrieve", BFP)], observe_at=["BinaryFuseP32::from_slice", "BinaryFuseP32::retrieve"]),
  note="Construction and lookup value graphs are composed with the hash function an uninterpreted leaf, so collisions and degenerate geometries occur under interpretation. " + BASE_NOTE),
 dict(id="P15", title="No false negatives: a filter contains every key it was built from",
  statement="For each of the nine membership filters (xor, fuse and binary fuse, with 8, 16 and 32 bit fingerprints) a filter built successfully from a set of distinct keys reports every one of them as contained. This holds for every key set, every value the hash function may take and every form of construction input.",
  quantifier=dict(over=["inputs"], text="all sets of distinct keys, all hash outcomes, 9 filter types, 3 construction forms"),
  why_tests_cant="Tests use random key sets of a fixed large size, and only the 32-bit variants are among the stable ones; collisions and tiny or odd sizes are not reached.",
  anchors=dict(files=[BF, FU, XO, PR, B + "bfuse8.rs", B + "bfuse16.rs", B + "bfuse32.rs", B + "fuse8.rs", B + "fuse16.rs", B + "fuse32.rs", B + "xor8.rs", B + "xor16.rs", B + "xor32.rs"], mechanism=[m("construction and membership macros", B + "prelude")], observe_at=["TryFrom / From", "Filter::contains"]),
  note="Construction and membership value graphs are composed with the hash function an uninterpreted leaf. " + BASE_NOTE),
 dict(id="P16", title="Filter probes stay inside the table and match the construction geometry",
  statement="For every filter and every hash value, the three probe positions are distinct-segment positions inside the fingerprint table, and lookups use the same positions construction used. The geometry (segment length, segment count, table length) is consistent for every number of keys, so neither construction nor a lookup indexes out of bounds.",
  quantifier=dict(over=["inputs"], text="all hash values, all numbers of keys, all filter types including the value-storing one"),
  why_tests_cant="Out-of-range probes need extreme hash values or particular sizes that random tests do not reach.",
  anchors=dict(files=[BF, FU, XO, BFP, PR], mechanism=[m("hash_of_hash and geometry", BF), m("H012", FU + ", " + XO)], observe_at=["Filter::contains", "BinaryFuseP32::hash_eval"]),
  note="Bounds checks of the lookup summaries must be unreachable given the geometry construction establishes; geometry is compared for sizes up to 2^32. " + BASE_NOTE),
 dict(id="P18", title="What is written to disk or serialised reads back as the same thing",
  statement="Writing a shard puts its database entries in the one file and its complete base parameters in the other, and reading parameters or a database back yields exactly what was written, with nothing skipped, defaulted or transformed asymmetrically. The published parameters a client gets are the complete parameters too.",
  quantifier=dict(over=["inputs", "histories"], text="all shards and parameter objects, all write / read sequences"),
  why_tests_cant="No test reads a written file back.",
  anchors=dict(files=[API, IDX, KV, DBM], mechanism=[m("write_to_file", API), m("load / from_file", IDX), m("serde derives", IDX + ", " + KV + ", " + B)], observe_at=["write_to_file", "IndexParams::load", "IndexDatabase::from_file"]),
  note="Effect order and data of the write paths; the derived Serialize and Deserialize implementations of each persisted type must cover all of its fields under the same names. " + BASE_NOTE),
 dict(id="P19", title="Key hashing uses the whole key and the same function everywhere",
  statement="A key string is mapped to its 256-bit key by SHA-256 of all of its bytes, keeping all 32 digest bytes in order, and the database and the client use that same mapping. Each probe position and fingerprint depends on every word of the 256-bit key and every byte of the seed, and fingerprints of different labels are independent functions of the key.",
  quantifier=dict(over=["inputs"], text="all key strings, seeds and labels"),
  why_tests_cant="Dropping a word of the key or bytes of the seed only raises the collision probability; a few random keys still work.",
  anchors=dict(files=[UT, KV, PR, B + "murmur3.rs"], mechanism=[m("sha256_into_u64_sized", UT), m("mix256 / mix", PR), m("mix64", B + "murmur3.rs")], observe_at=["KeyValue::from_base64_strings", "FilterParams::get_hash_evals"]),
  note="Dependence is decided on the value graph of the hash (each key word and seed byte reaches the result and changes it); SHA-256 itself is an uninterpreted library function. " + BASE_NOTE),
 dict(id="P20", title="Construction retries start afresh and report failure honestly",
  statement="When an attempt at building a filter fails, the next one starts from a clean state with a fresh seed and nothing of the failed attempt (queues, counters, tables, partial fingerprints) reaches the filter returned. When every attempt fails, construction reports failure and never hands out a filter.",
  quantifier=dict(over=["inputs", "histories"], text="all sequences of failing and succeeding attempts, all filter types"),
  why_tests_cant="Attempts practically never fail on the key sets tested, so the retry path is not executed.",
  anchors=dict(files=[BF, FU, XO, B + "prelude/bfusep.rs", KV], mechanism=[m("retry loops", B + "prelude"), m("attempt loop", KV + " from_kvs")], observe_at=["TryFrom / From", "BinaryFuseP32::from_slice"]),
  note="The hash function is interpreted so that early attempts collide; the resulting filter must equal the specification on the winning attempt's seed alone. " + BASE_NOTE),
 dict(id="P21", title="Operations are deterministic, free of hidden state, and confined in effect",
  statement="Apart from the documented file reads and writes and the operating-system randomness at the documented places, public operations have no side effects: no hidden global or thread-local state, clock, environment, network, process or filesystem access, and no memory-unsafe code. Operations not documented as random depend on their arguments alone.",
  quantifier=dict(over=["inputs", "histories"], text="all public operations, all call sequences"),
  why_tests_cant="The absence of an effect or of hidden state is not observable in a finite run.",
  anchors=dict(files=[API, UT, IDX, KV, DBM, CLI, B + "lib.rs"], mechanism=[m("effect sets", API + ", " + B)], observe_at=["all public operations"]),
  technique="interprocedural effect analysis: call-graph closure over rustc MIR (type-resolved callees) against an effect classification of every external function, static and unsafe construct",
  note="Effects are inferred over the call graph from each public entry; the analysis reports the call path to a disallowed effect. External crates' own internals are classified by function, not analysed."),
 dict(id="P22", title="Client secrets never leave the client's parameter object",
  statement="The LWE secret and error vectors never flow to anything that is published, written, printed, serialised or sent: a query is the only output derived from them, and only as the masked vector. The server-side and persisted objects contain no client secret, and secret values do not steer what errors or logs reveal.",
  quantifier=dict(over=["inputs", "histories"], text="all executions of the client operations"),
  why_tests_cant="A leak through a field, a derive or a log line leaves every result unchanged.",
  anchors=dict(files=[API, UT], mechanism=[m("secret vectors", API + " QueryParams::new")], observe_at=["QueryParams", "Query"]),
  technique="information-flow (taint) analysis on the value graph plus a type-level audit of what the parameter and query types contain and which traits expose them",
  note="Random leaves of the secret are traced to every output, store and external call of the client operations. " + BASE_NOTE),
 dict(id="P23", title="Command-line and environment settings mean what they say",
  statement="Each command-line flag or environment variable sets exactly the setting of its name; a base-two exponent e becomes exactly 2 to the e, and a boolean is true exactly for \"true\". A missing or malformed setting is reported as such, never silently replaced by another.",
  quantifier=dict(over=["inputs", "configurations"], text="all values of all flags and variables"),
  why_tests_cant="The helper crate has no tests among the stable ones.",
  anchors=dict(files=[CLI], mechanism=[m("flag parsing", CLI)], observe_at=["parse_cli_flags", "parse_from_env"]),
  note=BASE_NOTE),
 dict(id="P24", title="The hash proxy is transparent for arbitrary key types",
  statement="A hash-proxy filter is the inner filter over the hashes of the items: it is built from the hash of every item, each hashed by a fresh hasher of the configured type, and a lookup hashes the item in the same way. So an item it was built from is contained whenever the inner filter contains its hash, and its length is the inner filter's.",
  quantifier=dict(over=["inputs"], text="all item types, hashers, inner filters and items"),
  why_tests_cant="Tests use one hasher and one or two item types; type-generic behaviour is not sampled.",
  anchors=dict(files=[B + "hash_proxy.rs"], mechanism=[m("hash", B + "hash_proxy.rs")], observe_at=["HashProxy::from", "Filter::contains", "Filter::len"]),
  note="Decided on the generic (unmonomorphised) value graphs, so for every T, H and F. " + BASE_NOTE),
 dict(id="P25", title="Every supported feature combination builds and shares the same semantics",
  statement="The filter crate compiles without the standard library and with each of its optional features, and a feature changes nothing but what it names. In particular the filters' construction and lookup functions are the same in all combinations.",
  quantifier=dict(over=["configurations"], text="all feature combinations of the crate manifest"),
  why_tests_cant="Tests build one feature set.",
  anchors=dict(files=[B + "lib.rs", "bff-modp/Cargo.toml"], mechanism=[m("cfg features", B + "lib.rs")], observe_at=["compilation"]),
  technique="type checking of every feature combination (compile-fail witness) and MIR comparison across them",
  note="Each feature set is type-checked; MIR bodies of the filter functions must be identical across features."),
 dict(id="P26", title="Errors from fallible steps reach the caller",
  statement="When a step inside an operation fails (decoding, length check, serialisation, file access, filter construction), the operation returns an error to its caller; it is never swallowed, turned into a default or turned into a panic. An operation returns success only if every fallible step it took succeeded.",
  quantifier=dict(over=["inputs", "faults"], text="all failing steps in all public operations"),
  why_tests_cant="Tests inject no I/O or decoding failure.",
  anchors=dict(files=[API, UT, IDX, KV, DBM], mechanism=[m("error propagation", API + ", " + IDX + ", " + KV)], observe_at=["all fallible public operations"]),
  note="Every external fallible call reached by an operation: Ok of the operation must imply Ok of the call, and the error branch must not panic. " + BASE_NOTE),
 dict(id="P27", title="Index PIR retrieves exactly the stored element, end to end",
  statement="For a database built from elements of the configured size, any row index and any randomness, decoding the server's answer to the client's query gives exactly the element stored at that index, in each decoded form, whenever the worst-case noise stays below half the rounding factor.",
  quantifier=dict(over=["inputs", "configurations"], text="all elements, indices, element sizes, plaintext widths, dimensions and randomness within the noise bound"),
  why_tests_cant="Tests do this round trip for one configuration and a few indices and draws.",
  anchors=dict(files=[API, IDX, DBM, UT], mechanism=[m("protocol", API)], observe_at=["Shard", "QueryParams"]),
  note="The value graphs of construction, parameter generation, query, answer and decoding are composed under shared random leaves. " + BASE_NOTE),
 dict(id="P28", title="Keyword PIR retrieves exactly the stored value, end to end",
  statement="For a database built from distinct keys and values of the configured size, any of those keys and any randomness, decoding the server's answer to the client's query gives exactly the value stored under that key, in each decoded form, whenever the worst-case noise stays below half the rounding factor.",
  quantifier=dict(over=["inputs", "configurations"], text="all key sets, values, element sizes, plaintext widths, dimensions and randomness within the noise bound"),
  why_tests_cant="Tests do this round trip for one configuration and a few keys and draws.",
  anchors=dict(files=[API, KV, DBM, UT, BFP], mechanism=[m("protocol", API), m("value-storing filter", BFP)], observe_at=["KVShard", "QueryParams"]),
  note="The value graphs of construction (including the filter), parameter generation, query, answer and decoding are composed under shared random leaves. " + BASE_NOTE),
]

NA = [
 dict(id="P90", title="Queries are computationally indistinguishable (LWE security)",
  statement="No efficient server distinguishes the queries for two rows or two keys of its choice.",
  quantifier=dict(over=["inputs", "histories"], text="all adversaries, all pairs of queries"),
  why_tests_cant="A computational-hardness statement about distributions.",
  anchors=dict(files=[API, UT], mechanism=[m("LWE masking", API)]),
  na="A reduction to the hardness of LWE with these parameters, not a fact about the program text; the program-side conditions it needs (fresh independent ternary secrets and errors, single use, query = mask + indicator) are claimed as P01 to P05."),
 dict(id="P91", title="Noise stays in the decodable range for the recommended parameters",
  statement="With the dimension, height and plaintext width recommended, decoding fails with negligible probability.",
  quantifier=dict(over=["inputs"], text="the probability over all draws of secrets and errors, for all databases"),
  why_tests_cant="A tail bound over the random draws and the database contents.",
  anchors=dict(files=[API, UT], mechanism=[m("parameter choice", "Makefile, benches")]),
  na="A probabilistic tail bound over runtime values (database contents times sampled errors); static analysis of the source does not bound it. P11 claims the deterministic half: every noise value inside the range decodes exactly."),
 dict(id="P92", title="Filter false-positive rates match their fingerprint width",
  statement="A filter reports a key it does not hold with probability about 2 to the minus the fingerprint width.",
  quantifier=dict(over=["inputs"], text="distribution over absent keys"),
  why_tests_cant="A statistical property of the hash.",
  anchors=dict(files=[PR, BFP], mechanism=[m("fingerprints", PR)]),
  na="A statistical statement about hash outputs over random keys; no static argument over the source settles a probability of the mixing function."),
 dict(id="P93", title="Filter construction succeeds within its attempt budget",
  statement="Building a filter over distinct keys succeeds except with negligible probability, and terminates.",
  quantifier=dict(over=["inputs"], text="all key sets, probability over seeds"),
  why_tests_cant="A probability over seeds and random hypergraphs.",
  anchors=dict(files=[BF, FU, XO, BFP], mechanism=[m("peeling with retries", BF)]),
  na="Depends on the peeling threshold of random 3-uniform hypergraphs (a probabilistic statement); the retry discipline itself is claimed separately."),
 dict(id="P94", title="Online costs stay within the published factors",
  statement="Query, answer and offline costs stay within the factors stated for the scheme.",
  quantifier=dict(over=["inputs", "configurations"], text="all database sizes"),
  why_tests_cant="A performance statement.",
  anchors=dict(files=["benches/bench.rs", API], mechanism=[m("benchmarks", "benches/bench.rs")]),
  na="Running time and bandwidth factors are measurements, not decidable from the source; the query-independence of server work is claimed as P07."),
]
PROPS += NA
