"""What each check decides, by which rule, on what trust (for MANIFEST.json and
the evidence files)."""

VG = "static analysis: abstract interpretation of rustc MIR into value graphs (global value numbering, loops summarised), compared with a written specification"
CURVE = "curve25519-dalek, elliptic-curve/sec1/ff/group and the RustCrypto hashes implement their documented contracts (table in sa/backend.py)"
GEN = "group elements form a prime-order group and scalars its field, as Group's documentation requires; H2G/H2S/ser/dec are functions of their arguments"

META = {}


def m(id, rule, explain, note, technique=VG, trusts=(GEN,), **kw):
    META[id] = dict(rule=rule, explain=explain, note=note, technique=technique, trusts=list(trusts), **kw)


m("C01", "for Voprf/Poprf finalize and batch_finalize, the path condition of Ok equals the specification's (proof equation over the given key, the clients' own blinded elements and the elements unblinded), and no other error replaces ProofVerification",
  "value graph of each verifiable finalization compared with its specification on every branch region; the loops of composite computation are summarised over a symbolic batch size",
  "all inputs, all batch sizes, all suites; group laws and the built-in group functions trusted")
m("C02", "the Ok condition of finalization, as a canonical boolean function of atoms, is the DLEQ equation hashed from pk, M, Z, sG+cK, sM+cZ",
  "acceptance condition of each verifiable finalization compared with the specification in both directions; generator constants and identity tests of both backends compared with their contract",
  "all inputs and batch sizes; curve arithmetic trusted", trusts=(GEN, CURVE))
m("C03", "composition: substituting the server's symbolic proof and the matching public key in the client's Ok condition reduces it to true",
  "server proving functions and client verification composed symbolically (single, batched, prepare/finish, absent and present info) and the acceptance condition normalised in the group algebra",
  "all keys, nonces, infos and batch sizes; group laws trusted")
m("C04", "the composites in proof generation and verification equal the specification's sum over i of H2S(seed, i, C_i, D_i) times the element, for a symbolic index and batch size",
  "value graphs of all proving and verifying functions compared with the specification; the summation is one closed fold over the batch",
  "all batch sizes up to 65535 symbolically")
m("C05", "Ok/Batch-error conditions over the lengths equal the specification, and the element function of every returned sequence at a symbolic index equals the specified one with the specified count",
  "length conditions and per-index values of every batched function, iterators represented by (length, element function)",
  "all lengths and indices; alloc and no-alloc interfaces")
m("C06", "composition: finalize(blind_evaluate(blind(x))) = evaluate(x) in the group algebra, per mode and info presence",
  "client and server functions composed symbolically and normalised; EC/ristretto inversion contract compared",
  "all inputs, infos, blinds and keys; group laws trusted", trusts=(GEN, CURVE))
m("C07", "returned elements equal sk * blinded (POPRF: (sk+m)^-1 * blinded) at a symbolic index; all interfaces agree under composition",
  "value graphs of all blind-evaluation interfaces compared with the specification and with each other",
  "all keys, elements, batch sizes")
m("C08", "POPRF value graphs equal the specification, in which the framed full info enters tweak, proof key and output hash; Protocol error exactly on a zero key or identity tweaked key",
  "value graphs of all POPRF operations; is_zero/identity predicates of both backends compared with their contract",
  "all infos, keys, inputs", trusts=(GEN, CURVE))
m("C09", "the tag argument of every hash operation in every value graph equals label || \"OPRFV1-\" || mode || \"-\" || suite identifier; identifiers and mode numbers as defined",
  "all hash call sites reachable from public functions, plus the constants of the suite implementations and the backends' use of the tag",
  "all configurations; ExpandMsgXmd trusted", trusts=(GEN, CURVE))
m("C10", "every hashed message equals the specified concatenation (two-byte big-endian length before each variable-length value) and the oversize error conditions equal len > 65535 exactly",
  "messages of all hash call sites and the error conditions of all public functions that take input, info or key info",
  "all lengths symbolically", trusts=(GEN, CURVE))
m("C11", "derive_key equals: first i in 0..=255 with H2S(seed|len|info|i) nonzero, Protocol error iff none; every server constructor stores pk = G*sk",
  "value graph of derive_key (loop summarised as first index satisfying the exit condition) and of all server constructors and accessors; generator and zero test of both backends",
  "all seeds and infos", trusts=(GEN, CURVE))
m("C12", "each drawing function makes exactly one draw from its rng parameter and its stored and applied secret is that draw; no other function draws; backend random_scalar excludes zero and keeps the full range",
  "value graphs and generator state transitions of every drawing function; draw events of every other function",
  "the sampling distribution of the libraries' random functions is trusted", trusts=(GEN, CURVE))
m("C13", "every scalar and element of a decoded value is the validated decoding of its slice; Ok iff all slices exist and decode; backend decoders equal their contract (canonical, non-identity, nonzero)",
  "value graphs of the nine decoders, key import, the serde field readers and the four backend decoding/encoding functions",
  "leaf decoders of the curve libraries trusted", trusts=(GEN, CURVE))
m("C14", "deserialize applied to the symbolic output of serialize gives back every field, for each type, and every serialized value is accepted",
  "the layout (sequence of encodings) of each serializer composed with the value graph of its decoder; backend encodings compared with their contract",
  "all values, all suites", trusts=(GEN, CURVE))
m("C15", "each derived/handwritten serde implementation writes each field through the canonical encoding and reads each through the validating reader, for every visitor path",
  "MIR of all serde implementations of the eleven serializable types (struct, newtype, sequence and map paths) and their field readers",
  "serde's data model and derive-generated control flow as written in MIR; the format crate is trusted", trusts=("serde formats honour the Serializer/Deserializer contract",))
m("C21", "for every public operation, the condition of each error variant equals the specification's",
  "error conditions of all public functions partitioned by variant and compared with the specification in both directions",
  "all inputs")
m("C24", "when H2G(input) is the identity, blind and evaluate return the input error and never Ok",
  "value graph of each blinding and evaluation function restricted to the identity region; identity predicates of both backends",
  "all inputs", trusts=(GEN, CURVE))

NOTEST = ["none", "default", "serde", "danger", "alloc", "std", "ristretto", "all", "release"]
IR = "static analysis: custom lints and dataflow over rustc's type-checked program and MIR"
m("C16", "every panic site (overflow, bounds, slicing, unwrap, explicit panic) reachable from a public function, along the inlined call graph, has an infeasible path condition; inversions only of scalars shown non-zero; no unmodelled callee that may panic",
  "all public functions and trait methods in ten or more feature and profile configurations", "two sites rest on library contracts (SEC1 length, inversion of nonzero); danger functions on raw scalars excepted",
  technique="static analysis: abstract interpretation of MIR, panic-site reachability by path conditions", trusts=(CURVE,))
m("C17", "every type with scalar or element fields has a Drop whose final state has each such field wiped (through derive-generated helpers analysed in turn); no field behind a wrapper that does not wipe; no mem::forget/ManuallyDrop",
  "MIR of all Drop implementations; fields and their types of every structure", "copies on the stack and in registers are outside the property; zeroize trusted", technique=IR, trusts=("Zeroize::zeroize overwrites its argument",))
m("C18", "no undecided branch condition, panic condition, slice index or variable-time comparison along the inlined call graph of a protocol operation depends on a secret except under is_zero/is_identity/validity atoms",
  "taint over the value graphs of all public operations and backend methods; secrets are state scalars, drawn values, seed, key and blind parameters", "MIR level; code generation and the curve libraries are outside (C29)", technique="static analysis: information flow (taint) over MIR value graphs", trusts=(CURVE,))
m("C19", "public inventory with and without danger; signatures without raw scalars; returned values never contain a secret field, its encoding, or a structure built from a raw element; no public field; only whitelisted traits on value types",
  "all exported functions, fields and trait implementations of every configuration", "serialization, serde and derived formatting, comparison and hashing are allowed ways to observe a value", technique=IR, configs=NOTEST)
m("C20", "no user-written unsafe, no statics, no interior-mutable types, no calls outside the set of pure crates and none matching ambient-effect paths; no_std and dependency set per configuration",
  "every call site, local type, field type, static and extern crate of every configuration", "purity of the named dependencies is trusted", technique=IR, trusts=("the listed dependency crates perform no I/O and keep no global state",), configs=NOTEST)
m("C22", "every public operation of a smaller configuration exists in each larger one with the identical value graph, return condition and effect on its arguments (or both equal the specification)",
  "value graphs of all public operations, hashed canonically, compared across ten configurations (features, release, test) and one more for each combination of outcomes of a compound cfg predicate in the source that those do not realise; thorough: every feature combination", "all inputs", technique="static analysis: cross-configuration comparison of MIR value graphs")
m("C25", "clone is the identity graph; eq is the conjunction over all leaf fields; cmp/partial_cmp is a lexicographic function of all field comparisons; hash feeds every field unconditionally",
  "Clone/PartialEq/PartialOrd/Ord/Hash implementations of the eleven types and of the error and mode enumerations", "field types' own comparisons trusted")
m("C26", "every method of both Group implementations equals its contract after rewriting library calls to the trusted vocabulary; associated types and lengths as documented",
  "eleven methods of both backends plus the identity default, types and length constants", "leaf functions of the curve libraries trusted", trusts=(CURVE,))
m("C23", "each violating program is rejected by rustc with a type mismatch (E0308, E0271 or E0277) inside the witness, and its correct twin, differing only in that one argument type, compiles",
  "generated witness functions over every public operation and argument: other ciphersuite (arbitrary, and equal in group and hash), other mode's client, other protocol role, conversions and comparisons between them, and hash output/block lengths",
  "the generic form decides all suites; the concrete form uses two suites that agree in group and hash and differ in identity only",
  technique="static analysis: type-level compile-fail witnesses with positive twins", configs=["none", "all"])
m("C32", "each program written against the documented interface, generic over every suite meeting the documented bounds, is accepted by rustc's type and borrow checker as a separate crate",
  "generated programs for every public operation (arguments by reference with arbitrary lifetimes, any generator, arrays, vectors and arbitrary collections, results that must not borrow), every protocol type's traits (clone, wipe, comparison, threads, 'static, serde) for arbitrary suites and for one whose marker implements nothing, every name, errors, danger functions, built-in and foreign groups and suites; without features, with each feature alone, with all and with the default ones (thorough: every combination)",
  "generic programs decide all suites, groups, generators and collections at once; what a program computes is decided by the other properties",
  technique="static analysis: type-level witnesses, programs that must type-check and borrow-check", configs=["all"])
m("C30", "for each pair of interfaces, the two value graphs (results, refusals and final argument values), composed on the same symbolic data, are equal; a difference counts when one of the functions also departs from its specification",
  "compositions of the public operations of each mode: blind, finalize, batch_finalize, blind_evaluate, batch_blind_evaluate, prepare and finish, new, new_from_seed, derive_key, danger constructors",
  "all inputs and batch sizes; random draws compared at the same positions of the stream")
m("C31", "each loop met along the inlined call graph of a public function has a bound that is a length or a constant, or draws from a caller-supplied source (random generator, serde reader) on every pass with an exit that tests the draw; no call cycle",
  "every loop of every public function and trait method in each configuration, classified by the loop summariser (bounded, unrolled, fold, sampling, unbounded)",
  "callees outside the crate are trusted to terminate", technique="static analysis: loop-bound inference and call-cycle detection over inlined MIR")
