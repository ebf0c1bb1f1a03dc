T=r'''# Static verification of claucece/chalamet

## What decides a property

Every check is a static analysis of /repo's current source; nothing of the repository is executed.

1. **Front end.** `driver/` is a small `rustc_private` driver (nightly) run as `RUSTC_WRAPPER` under `cargo check`. It writes the
   optimisation-free MIR, types, constants, impls, item attributes and resolved (monomorphic) callees of `keyword_pir_lwe`, `xorf`
   (bff-modp) and `pi_rs_cli_utils` as JSON (`engine/dump.py`; content-addressed cache under `.cache/`, keyed by the hash of /repo's
   sources, so every run analyses the current tree). Two profiles (dev, release); P25 dumps every feature combination.
2. **Value graphs.** `engine/vg.py` is a gated-SSA abstract interpreter over that MIR: one pass per function, calls inlined, branches merged
   with gates (no path enumeration), loops closed by scalar/sequence evolution (`map`, `sum`, `fold`, `any`, `first`, ...) or kept as
   named recurrences. The result of a function is a canonical *term* over its inputs (`engine/terms.py`: linear forms modulo 2^w, sequence
   algebra, guards). Library calls are modelled (`engine/models.py`) or uninterpreted. Terms are hash-consed: identical terms are the same
   function of the same inputs (global value numbering).
3. **Rules** (`rules/*.py`) state a property as: this summary's term equals that specification term; that leaf flows / does not flow there;
   this trap condition is unreachable; these are all the MIR writes of that field. Terms that do not coincide syntactically are compared by
   *GVN random interpretation* (Gulwani & Necula): both value graphs are interpreted over random valuations of their leaves
   (`engine/ev.py`). A difference is a witness that the code's value graph denotes another function.
   No solver, no path-wise symbolic execution, no concrete execution of the code.
4. **Valuations.** Generic random words would miss narrow conditions, so the leaves take: extreme words, powers of two and their
   neighbours, all-equal and all-zero vectors, zero tails; the *value pool* (every integer constant occurring in the analysed summaries, and
   its neighbours); for lengths, *size probing*: the constants the value graph compares with, divides by or masks with, the widths at which
   a count kept in fewer bits wraps, and their neighbours (`core.harvest`, `Check.sized`), evaluated with a larger budget. Hash values are
   leaves too: colliding, clustered, and with halves that agree, so retries, overflowing counters and zero fingerprints occur.
5. **Verdicts.** proved (canonical terms identical), agreed (random interpretation), VIOLATED (with function, rule and witness),
   undecided (the analysis does not understand the construct: counted in the evidence, never alarmed on). A missing public anchor fails closed.
   Source that does not compile under the driver gives no answer at all: exit 2.
   Rules name public entry points only; everything behind them is found by following the calls, so helpers may be extracted, renamed,
   inlined or reordered.

What is trusted: rustc's MIR construction, the driver, the library models, the term algebra. What it does not give: an agreement by random
interpretation is not a proof; the evidence counts the two separately (`proved` / `agreed`). Thorough runs use about seven times as many
interpretations and larger structures than quick ones.

## Properties

Statements are in properties.jsonl; `tools/props.py` is the table that file and MANIFEST.json are generated from. The 23 existing tests run
a handful of fixed geometries with random data in the dev profile, without malformed input, I/O faults, retries or reading back files.
"All inputs" below means: for all inputs where an obligation is proved, up to random interpretation where it agreed. Costs are wall-clock
on 8 cores with a warm dump; a cold one adds 40 to 60 s. Every seeded change named is caught by the check of its own property.

%TABLE%

Not applicable: P90 (LWE hardness: a reduction, not a program fact), P91 (a probability tail of runtime values; the deterministic half is
P11), P92 and P93 (statistics of the hash function and of random hypergraphs), P94 (measurements).

## Soundness of the machinery itself

- **Model conformance.** `tools/conform/` is a development aid, not a check: 238 small functions exercise the library models; each is
  compiled and its outputs compared with the interpreted value graph. It found, and guards against, wrong models. Opaque results are fine
  (undecided, quiet), wrong ones are bugs. Known remainder: a few harness limits and `to_string`, uninterpreted by design.
- **Silence.** A suite of behaviour-preserving rewrites (14 bundles over the client, server, codecs, databases, filters and CLI: helpers
  extracted, loops turned into iterator chains and back, early returns, intermediate structs, tables for branches, renamed privates) is run
  over all checks after every change of the engine; each alarm was fixed by teaching the engine the construct, or by making it raise
  "opaque". Every check is also run with several VERIF_SEEDs.
- **Detection.** `seeded/` holds the planted bugs (patch, demonstration, meta); a second set of about 110 throw-away mutants was written from
  the property texts. Of those, the ones not caught turned out to keep the behaviour (for instance an additional retry, or a default that
  still ends in an error).

## Defects found and repaired in /repo

All were confirmed against the code and repaired by minimal `fix:` commits; the list is in `known_findings.json`.
Not repaired: the index decoder (`parse_resp_as_row` of index PIR) panics on a response with too few entries; its signature has no error
channel, so a repair is an API change. P17 is stated for keyword responses only for this reason.
'''
R=[]
def p(id,how,oracle,bounds,cost,why,extra=''):
    import os
    seeds=sorted(d for d in os.listdir('/verif/seeded') if d.startswith(id.lower()))
    title=next(d['title'] for d in PR if d['id']==id)
    R.append(f"### {id} {title}\n\n- *Decided by:* {how}\n- *Oracle:* {oracle}\n- *Bounds, cost:* {bounds}; {cost}.\n- *Beyond tests:* {why}\n- *Caught:* {', '.join('`'+s+'`' for s in seeds)}{extra}\n")
import json
PR=[json.loads(l) for l in open('/verif/properties.jsonl')]
p('P01','typestate of the used flag on the summaries of every public `generate_query`: Ok implies the flag was clear on entry and is set on exit; enumeration of every MIR write of the field, of constructors, `Clone` and serde impls (a skipped or defaulted field resets it).','the flag automaton clear -> used, with no edge back.','all inputs and call histories (induction over one call)','2 s','a test calls twice; it cannot range over every way an object is copied, restored or half-used.')
p('P02','random-source leaves carry call site and loop indices; for every coordinate of secret, error and seed the set of leaves it depends on is computed and must be non-empty, its own, and OS-sourced; joint influence of coordinates on one leaf is searched under interpretation.','draws are pairwise disjoint and come from `OsRng`.','all dimensions (symbolic) plus sizes the graph distinguishes','15 s','independence of draws is not visible in any single run.')
p('P03','the sampler is a piecewise-constant function of one draw; breakpoints are read off the value graph and the preimages of 0, 1, -1 counted exactly over all 2^32 draws; every coordinate of a vector must be that sampler.','equal preimage counts, rejection of the rest.','exact, all draws','2 s','statistical tests cannot see a bias of one draw in 2^32.')
p('P04','parameters are decomposed over the same random leaves: lhs = s*A + e, rhs = s*H with one s; compared with the specification sums coordinate by coordinate.','the LWE equations in wrapping arithmetic.','symbolic dimension and height','2 s','needs the secret, which is not observable; tests only see decoding succeed.')
p('P05','value-graph equality of the query with mask + factor at the requested row / the three probe positions, and frame condition on all other coordinates; factor against 2^32/2^p for p in 1..31.','the specification term.','all rows, keys (hash uninterpreted), plaintext widths','2 s','tests decode a few rows at one width.')
p('P06','value-graph equality of the response with a map over all columns of the full inner product; the whole returned value, serialisation kept injective, is compared as well, with vanishing products; Ok condition equals length = height.','the wrapping inner product.','symbolic shape','2 s','tests never see zero answers, short queries or odd column counts.')
p('P07','information flow: branch conditions, indices, trip counts, allocation sizes, traps and stores reachable from `respond` are examined for dependence on query words; effects by P21\'s inference.','the query\'s length is its only public attribute.','symbolic shape, plus sizes the graph distinguishes','2 s','a non-interference statement relates pairs of runs.')
p('P08','dev and release MIR are both dumped; the rules of P04, P05, P06, P09, P11, P12 are repeated on release, and every overflow, bounds and panic assertion of the dev profile reached by the LWE operations must be unreachable, with responses placed at rounding boundaries and matrices at the signed and unsigned edges.','no reachable trap; same specification in both profiles.','all words (boundary-biased), small shapes','30 s','tests run in one profile on data that rarely wraps.')
p('P09','hint term = (A^T)*DB for the A that the *client-side* expansion derives from the published parameters; each entry of A is its own generator output and uses all 32 bits; larger shapes where the graph distinguishes them.','the specification sums; generator output uninterpreted.','symbolic shape; sized up to 2^14','3 s','server and client share code in tests, so a common mistake cancels.')
p('P10','provenance: each field of every parameter object, accessor and decoder input must be the term of the configuration argument of its name, at every hop.','field = argument, syntactically for nearly all obligations.','all configurations','20 s','tests use equal or symmetric values for several parameters.')
p('P11','the decoder\'s per-column value graph compared with rounding at the ends of the noise interval, interior points and wrap-around of hint and response, for all p in 1..31.','decode(hint + x*factor + noise) = x for every |noise| < factor/2.','boundary-directed interpretation','2 s','tests produce small noise only.')
p('P12','composition of storage, row accessor and decoder graphs is the identity on the configured bits; entries stay below 2^p; sizes: bytes, columns and bits at every length the graphs distinguish, also with zero tails.','the identity.','elements up to 2^15 bits','60 s','widths that do not divide the element size and long elements are not sampled.')
p('P13','filter construction is an uninterpreted function of (keys, values, label, modulus, seed) that may fail at any attempt; the columns, labels, seed and geometry of the database must be the specified applications.','column i = filter(keys, i-th entries, label i, 2^p, one seed).','all pair lists up to order; retries injected','70 s','a failed attempt and its cleanup do not occur in tests.')
p('P14','construction and lookup graphs of `BinaryFuseP32` are composed with the hash an uninterpreted leaf, including collisions, and geometry functions replaced to reach degenerate tables.','retrieve(construct(ks, vs), k_i) = v_i mod p.','up to 48 keys structurally, geometry separately to 2^32','70 s','unlucky hash outcomes have negligible probability under the real hash.')
p('P15','the same composition for the nine membership filters and three source forms; hash values with colliding positions, equal halves and zero fingerprints; lengths the wrappers distinguish.','contains(construct(ks), k) for every k in ks.','up to about 100 keys structurally; wrappers at probed sizes','90 s','see P14; a false negative may need one fingerprint in 2^32.')
p('P16','bounds assertions of lookup and construction must be unreachable given the geometry construction establishes; lookups use the construction\'s positions; geometry equalities for sizes to 2^32.','three positions in consecutive segments inside the table.','all hash values (symbolic); sizes to 2^32','45 s','tests use sizes up to a million and random hashes.')
p('P17','the Ok condition of each entry point equals the specified well-formedness; every assertion and panic site behind it is unreachable on ill-formed input too.','well-formed iff accepted.','all malformed classes, at probed sizes','100 s','tests give well-formed input only.')
p('P18','abstract file system with a lossless JSON codec: files written by `write_to_file` are read by `load` / `from_file` in composition; derived serde impls of every persisted type must cover all fields under matching names; open modes, buffers, flushes, renames are modelled.','reader . writer = identity; file contents = the complete value.','all values; existing longer files','60 s','no test reads a file back.')
p('P19','dependence of the hash on each key word, seed byte and label under interpretation; SHA-256 an uninterpreted leaf over the exact byte sequence; client and database derive the key by the same term.','each input byte matters exactly once.','keys at probed lengths to 2^17 bytes','30 s','two wrong sides agree in tests.')
p('P20','the hash is interpreted so that the first attempts collide; the resulting filter must be the specification on the winning seed alone, and exhausted attempts give an error.','state of attempt k+1 independent of attempt k.','0 to 3 failed attempts, several styles of collision','90 s','retries practically never happen with the real hash.')
p('P21','interprocedural effect inference over the call graph from every public entry: file, randomness, clock, environment, network, process, global state, unsafe; a disallowed effect is reported with its call path.','the table of documented effects.','whole program','4 s','absence of effects over all call paths.')
p('P22','information flow from the secret\'s random leaves to outputs, stores, external calls, error texts and logs; type containment audit of the published and persisted types and of the traits that expose them.','secrets reach the masked vector only.','all paths of the value graph','30 s','leakage needs pairs of runs.')
p('P23','abstract environment, argument and number parsers; every setting of `pi-rs-cli-utils` compared with its documented meaning, in both profiles.','name -> setting table, 2^e, "true".','all texts up to parser classes','4 s','environment-dependent code is not tested.')
p('P24','on the generic (unmonomorphised) value graphs: construction hashes every item by a fresh hasher, lookup the same way.','filter = inner filter over hashes.','every T, H, F','2 s','tests instantiate one hasher and filter.')
p('P25','type checking of every feature combination (a compile-fail witness) and comparison of the filters\' MIR across them: identical structure, otherwise value-graph comparison.','same function in all combinations.','all combinations of the declared features','100 s','tests build the default features.')
p('P26','fault injection in the abstract graphs: each fallible library call is made to fail in turn; the operation\'s result must be an error, with no trap on the way. The list of fallible callees reached is closed: a new one is covered or undecided.','failure of any step implies Err.','each single fault of each operation','85 s','tests inject no faults.')
p('P27','end-to-end composition for index PIR under shared random leaves: construct, publish, parameters, query, answer, decode.','the stored element.','small shapes, all p, extreme noise','9 s','tests draw benign noise and fixed geometry.')
p('P28','the same for keyword PIR, with the real filter graphs and the hash uninterpreted or the analysed one.','the stored value.','small shapes, colliding hashes','30 s','as P27 and P14.')
p('P29','accessors against the matrix: value-graph equality with transpose and index terms; both orientations of the matrix; probed sizes.','one matrix.','all indices; sizes to 2^13','5 s','tests touch few cells of square data.')
open('/verif/DESIGN.md','w').write(T.replace('%TABLE%','\n'.join(R).rstrip()))
