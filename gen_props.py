import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    if state: d["anchors"]["state"]=state
    assert len(title)<=80,(id,len(title))
    P.append(d)
COMMON="src/common.rs";OP="src/oprf.rs";VO="src/voprf.rs";PO="src/poprf.rs";SE="src/serialization.rs"
GM="src/group/mod.rs";GE="src/group/elliptic_curve.rs";GR="src/group/ristretto.rs";LIB="src/lib.rs"

p("C01","No verified output without a valid server proof",
 "In the verifiable and the partially oblivious mode, a client obtains PRF outputs from a server response only if the server's proof verifies against exactly the public key (and public info) it was given, its own blinded elements and the very evaluated elements that are then unblinded. If the proof does not verify, finalization fails as a whole with the proof-verification error and yields no output. This holds for single and batched finalization, for every batch size including the empty batch.",
 ["inputs"],"all proofs, keys, infos, batches of evaluated elements a malicious server can send",
 "The tests finalize only honest responses plus one wrong public key; no tampered proof, element, info or batch position is ever tried.",
 [VO,PO,COMMON],[("proof verification before unblinding","VoprfClient::batch_finalize / PoprfClient::batch_finalize"),("challenge comparison","common.rs verify_proof")],
 ["VoprfClient::finalize","VoprfClient::batch_finalize","PoprfClient::finalize","PoprfClient::batch_finalize"])
p("C02","Proof acceptance is exactly the DLEQ equation",
 "Once the batch is well-formed, a proof (c, s) is accepted if and only if c equals the challenge hashed from the public key, the two composite elements M and Z, and the two commitments s*G + c*K and s*M + c*Z. No special value of the proof scalars, keys, elements or batch size is accepted or rejected by any other rule, and the comparison covers the whole challenge.",
 ["inputs"],"all proofs, keys and element batches",
 "A test can only try finitely many forged proofs; a shortcut for one special value or batch size is never sampled.",
 [COMMON,VO,PO],[("recomputation of commitments and challenge","common.rs verify_proof")],
 ["VoprfClient::batch_finalize","PoprfClient::batch_finalize"])
p("C03","An honest server's proof always verifies at the client",
 "For every key, nonce, info and batch, the proof a server produces is built with the key that matches the public key the client checks, over exactly the blinded elements it received and the evaluated elements it returns, and with a transcript (elements, their order and encoding, tags) identical to the one the client recomputes. The response scalar is the nonce minus challenge times key, so the client's check holds for every honest run, single or batched.",
 ["inputs"],"all keys, nonces, infos and batches in both proof-carrying modes",
 "Vectors fix two batch sizes; agreement of prover and verifier for other sizes, infos and the absent-info case is not tested.",
 [COMMON,VO,PO],[("proof generation","common.rs generate_proof"),("proof verification","common.rs verify_proof"),("server batch evaluation","batch_blind_evaluate_finish")],
 ["blind_evaluate","batch_blind_evaluate","batch_blind_evaluate_finish"])
p("C04","Every entry of a batch is bound by the proof",
 "In both proof generation and verification, each pair (blinded element, evaluated element) of the batch contributes to the composites with its own coefficient, hashed from a seed that binds the public key and the mode/suite context, the entry's index, and both elements of the pair. No entry of a batch of up to 65535 is skipped, merged, truncated or given a coefficient independent of any of these.",
 ["inputs"],"all batches up to 65535 entries, all positions",
 "Tests use batches of 1, 2 and 10 honest entries; an entry left out of the composite still verifies.",
 [COMMON],[("composite computation","common.rs compute_composites")],["batch_finalize","batch_blind_evaluate_finish"])
p("C05","Batch sizes must agree, and outputs match inputs one to one in order",
 "Batched verifiable evaluation and finalization reject with the batch error any batch whose parallel sequences (inputs, clients, evaluated elements; or blinded and prepared elements) differ in length or that exceeds 65535 entries, and accept every other size. On success there is exactly one output per entry, and the i-th output is computed from the i-th input, client state and element only.",
 ["inputs"],"all combinations of sequence lengths, all positions",
 "All batch tests use equal lengths of at most 10; no mismatch and no size limit is exercised.",
 [COMMON,VO,PO],[("length comparison","common.rs compute_composites; poprf.rs finalize_after_unblind; voprf.rs batch_finalize"),("lazy zip/map pipelines","voprf.rs, poprf.rs")],
 ["batch_finalize","batch_blind_evaluate","batch_blind_evaluate_finish"])
p("C06","Oblivious evaluation equals direct server evaluation",
 "In each mode, for every input, info (present or absent), blind and key, running blind, blind-evaluate and finalize gives the same output as the server's direct evaluation of that input and info. In particular, finalization removes exactly the blind that was applied, and client and server hash the same transcript; absent info behaves exactly as empty info on both sides.",
 ["inputs"],"all inputs, infos (including none), blinds and keys in the three modes",
 "Tests compare both sides for one fixed input and one non-empty info; absent or empty info is never compared.",
 [OP,VO,PO,COMMON],[("finalize hash","finalize_after_unblind in oprf.rs, voprf.rs, poprf.rs"),("server hash","common.rs server_evaluate_hash_input"),("blinding","common.rs deterministic_blind_unchecked")],
 ["finalize","batch_finalize","evaluate","blind"])
p("C07","Blind evaluation applies exactly the server key to each element",
 "Blind evaluation multiplies each received blinded element by exactly the server's secret key (in the partially oblivious mode: by the inverse of the info-tweaked key) and returns the results in the order received. The single, batch, and prepare/finish interfaces return the same evaluated elements, and the elements returned by the finish step are exactly the prepared ones.",
 ["inputs"],"all blinded elements, keys, infos and batch sizes",
 "Only two-element vectors check this; positions beyond and the single/batch agreement are sampled.",
 [OP,VO,PO],[("scalar multiplication of elements","blind_evaluate / batch_blind_evaluate_prepare / batch_blind_evaluate_finish")],
 ["OprfServer::blind_evaluate","VoprfServer::blind_evaluate","PoprfServer::blind_evaluate"])
p("C08","Public info binds key, evaluation, proof and output",
 "In the partially oblivious mode the info is hashed, length-framed, into a tweak that is added to the secret key by the server and, in the exponent, to the public key by the client; server evaluation, proof and client verification all use the key so tweaked by the same full info, which is also part of the final output hash. A zero tweaked key, or an identity tweaked public key, is refused with the protocol error.",
 ["inputs"],"all infos, keys and public keys",
 "The vectors use one info value; the degenerate tweak cannot be hit by sampling.",
 [PO],[("tweak on the server","poprf.rs compute_tweak"),("tweaked key on the client","poprf.rs compute_tweaked_key")],
 ["PoprfServer::blind_evaluate","PoprfServer::batch_blind_evaluate_prepare","PoprfServer::evaluate","PoprfClient::batch_finalize"])
p("C09","Every hash is domain-separated by purpose, version, mode and suite",
 "Each hash to the group, hash to a scalar and key derivation uses a tag made of a purpose label, the protocol version string, the mode number and the complete ciphersuite identifier; the proof seed embeds the same context. Purposes use distinct labels and modes distinct numbers, and the two parties of one mode always use the same tag for the same step.",
 ["inputs","configurations"],"all calls in all modes, suites and feature sets",
 "Vectors pin four suites; that no call path mixes modes or drops part of the tag is a property of every call site.",
 [COMMON,OP,VO,PO],[("tag construction","common.rs Dst::new and STR_* labels"),("mode numbers","common.rs Mode::to_u8")],["all public entry points that hash"])
p("C10","Transcripts are injectively framed and oversized values are refused",
 "Every variable-length value (input, public info, key info) hashed into an output, tweak or derived key is preceded by its exact length as two big-endian bytes, and every encoded element, seed and index by its fixed-size framing. A value longer than 65535 bytes is refused with the error for its kind - input, info, or key derivation - when it is blinded, evaluated, finalized or derived from, and is never truncated or hashed with a wrapped length; every length up to 65535 is accepted.",
 ["inputs"],"all lengths of input, info and key info",
 "No test uses an input longer than 64 bytes, so no length limit and no large length encoding is exercised.",
 [COMMON,OP,VO,PO],[("two-byte length encoding","common.rs i2osp_2, i2osp_2_array, Dst::i2osp_2")],
 ["blind","finalize","batch_finalize","evaluate","blind_evaluate","new_from_seed"])
p("C11","Key derivation and key pairs are deterministic, non-zero and consistent",
 "Deriving a key from a seed and key info tries the counters 0 to 255 in order and returns the first non-zero scalar hashed from seed, framed info and counter, reporting the protocol error only if all fail. Every way of creating a verifiable or partially oblivious server (random, from seed, from key bytes) stores a public key equal to the generator times the stored secret key, and the public key it reports is that one.",
 ["inputs"],"all seeds, infos and key encodings; all 256 counters",
 "The retry path has probability 2^-250 per step, so no test reaches counter 1.",
 [COMMON,VO,PO,OP],[("derivation loop","common.rs derive_key_internal"),("key pair","common.rs derive_keypair; new_with_key")],
 ["new","new_from_seed","new_with_key","get_public_key","derive_key"])
p("C12","Blinds, proof nonces and random keys are fresh from the caller's RNG",
 "Each blinding operation, proof and randomly generated server key draws its secret scalar or complete full-length seed from the random generator passed to that very call, and from nothing else; the drawn blind is uniformly sampled non-zero, is the one stored in the client state and the one applied to the input. A proof nonce is drawn anew for each proof, enters only the commitments and the response scalar, and is never stored or reused.",
 ["inputs","histories"],"all RNG outputs and all sequences of calls",
 "Tests use OS randomness or a cyclic stub and cannot tell fresh randomness from derived or reused values.",
 [COMMON,OP,VO,PO,GE,GR],[("blind sampling","blind() in oprf.rs, voprf.rs, poprf.rs"),("nonce sampling","common.rs generate_proof"),("seed sampling","new() in the servers"),("scalar sampling","Group::random_scalar")],
 ["blind","new","blind_evaluate","batch_blind_evaluate_finish"])
p("C13","Decoding admits only valid, canonical, non-degenerate values",
 "Every byte string accepted as a key, client or server state, element or proof yields group elements that are valid and not the identity and scalars that are reduced and non-zero, from fields of exactly the fixed encoding length; anything else is refused with the deserialization error. Each type's decoder reads exactly its fixed total length from the front of the input and refuses anything shorter. For each supported group, an element or scalar has exactly one accepted encoding, the one serialization produces; the group's decoders refuse shorter, longer and alternative encodings.",
 ["inputs"],"all byte strings, all types, both group backends",
 "The no-crash tests feed random bytes, which are never a valid alternative encoding, and check no result.",
 [SE,GE,GR,OP,VO,PO],[("field readers","serialization.rs deserialize_elem / deserialize_scalar"),("backend validation","Group::deserialize_elem / deserialize_scalar")],
 ["deserialize","new_with_key","Group::deserialize_elem","Group::deserialize_scalar"])
p("C14","Serialization and deserialization use the same layout",
 "For each of the nine wire and state types, serialization writes every field of the value, in a fixed order at fixed offsets, and deserialization reads each field back from exactly the offset and width where serialization wrote it, with the declared total length. So a serialized value decodes to an equal value for every suite, and persisted state resumes the protocol unchanged.",
 ["inputs","configurations"],"all values of the nine types, all suites",
 "Only fixed vectors of elements and proofs are encoded; client and server states are never round-tripped.",
 [SE],[("writers and readers","serialization.rs impls")],["serialize","deserialize"])
p("C15","Serde encodings carry the same canonical bytes and the same validation",
 "With serde support enabled, every serializable type writes each of its fields as the canonical fixed-length encoding of that element or scalar, and reading validates each field exactly as byte decoding does, refusing identity, zero or invalid values with an error. No field is skipped, defaulted or decoded without validation, so a decoded value equals the encoded one.",
 ["inputs","configurations"],"all serde inputs and all serializable types",
 "No test exercises serde at all.",
 [SE,COMMON,OP,VO,PO],[("field adapters","serialization.rs serde::Element / serde::Scalar"),("derives with serde(with)","struct attributes")],["Serialize/Deserialize impls"])
p("C16","No input makes the library panic",
 "With the built-in groups and valid suites, no public operation panics, whatever bytes, lengths, batch sizes, elements, scalars obtained through safe decoding, infos or proofs it is given: every failure is reported as an error value. Operations of the opt-in danger interface on unvalidated scalars are excepted.",
 ["inputs"],"all arguments of all public functions",
 "The no-crash tests cover only byte decoding of up to 200 random bytes; batch sizes, lengths and degenerate values are untested.",
 [COMMON,OP,VO,PO,SE,GE,GR],[("error propagation and infallibility arguments","all unwrap/assert/index sites")],["all public functions"])
p("C17","Secret-bearing values are wiped when dropped",
 "Every client state, server, message element, prepared element, prepared tweak and proof overwrites each of its group-element and scalar fields when the value is dropped, in every feature configuration. No field is exempted and dropping never leaves an un-wiped copy in that value.",
 ["inputs","configurations"],"all values of the eleven types, all feature sets",
 "Tests probe some types after an explicit drop; the prepared tweak and prepared element, and other feature sets, are not probed.",
 [COMMON,OP,VO,PO],[("drop implementations","derive_where(ZeroizeOnDrop) on the structs")],["Drop of each type"])
p("C18","Control flow and memory access do not depend on secrets",
 "Within protocol operations (derived comparison and formatting traits excepted), no branch, loop bound, early exit or memory index depends on a blind, secret key, tweak, nonce or drawn seed, except for checking that a scalar is zero or an element is the identity through the group's own constant-time predicates. Secrets are not compared or processed with variable-time operations.",
 ["inputs"],"all secret values on all paths",
 "Timing and branch behaviour are invisible to functional tests.",
 [COMMON,OP,VO,PO,GE,GR],[("constant-time predicates","is_zero_scalar / is_identity_elem"),("constant-time comparison","verify_proof")],["all functions handling secrets"])
p("C19","Raw secrets and unchecked constructors exist only in the danger interface",
 "Without the danger feature, no public function, field or trait implementation lets a user read out a blind or secret key other than through serialization, serde and the derived formatting, comparison and hashing, blind with a chosen scalar, derive a bare key, or build an element, prepared element, proof or state from unvalidated parts. With it, exactly the documented additional functions appear.",
 ["configurations","programs"],"all programs using the public API in each feature set",
 "Tests are compiled with extra test-only accessors and cannot observe what a downstream crate may call.",
 [LIB,COMMON,OP,VO,PO],[("cfg(feature = \"danger\") gates and field visibility","lib.rs exports, struct definitions")],["public API surface"])
p("C20","Operations are pure, memory-safe and no_std",
 "The library contains no unsafe code, keeps no mutable global, thread-local or interior-mutable state, performs no I/O and reads no clock, environment or ambient randomness: every result depends only on the arguments and the random generator passed in. It needs the allocator or standard library only when the corresponding feature is enabled.",
 ["histories","configurations"],"all call sequences and feature sets",
 "Absence of hidden state or ambient effects cannot be shown by examples.",
 [LIB,COMMON,OP,VO,PO,SE,GE,GR],[("no_std and unsafe_code lint","lib.rs attributes")],["all functions"])
p("C21","Each failure is reported with its documented error, and nothing else fails",
 "For every public operation the error returned identifies its cause: oversized or degenerate input gives the input error, oversized info the info error, oversized key info the key-derivation error, undecodable bytes the deserialization error, ill-formed batches the batch error, a bad proof the proof-verification error, and degenerate keys or tweaks the protocol error. No operation fails for any other cause or returns an error kind that does not belong to it.",
 ["inputs"],"all arguments of all fallible operations",
 "Only the decode-identity and decode-zero cases check an error kind.",
 [COMMON,OP,VO,PO,SE,GE,GR,"src/error.rs"],[("error mapping","map_err sites and early returns")],["all fallible public functions"])
p("C22","Optional features never change the behaviour of existing operations",
 "Every public operation available in the minimal build exists, with the same result for the same arguments, in every build with more of the optional features (danger, serde, alloc, std, ristretto255) enabled. What is compiled into a release behaves the same as what is compiled for test.",
 ["configurations"],"all feature combinations",
 "The stable tests run under two feature sets and only in test configuration.",
 ["src/*.rs","Cargo.toml"],[("cfg attributes","whole crate")],["all public functions"])
p("C23","Modes, suites and protocol roles cannot be mixed up at compile time",
 "A program that passes a value of one ciphersuite where another is expected, a client state of one mode to another mode's finalization, an unprepared or evaluated element where a prepared one is required, a blinded element where an evaluated one is required, or a suite whose hash output is 256 bytes or longer, or longer than its block, is rejected by the compiler. The corresponding correct program compiles.",
 ["programs"],"all programs using the public API",
 "A running test can only contain programs that compile.",
 [COMMON,OP,VO,PO,"src/ciphersuite.rs"],[("distinct types per role and phantom suite parameter","struct definitions"),("bounds on hash output size","ciphersuite.rs")],["public types"])
p("C24","Inputs hashing to the identity element are refused everywhere",
 "In every mode, an input that hashes to the group's identity element is refused with the input error both when a client blinds it and when a server evaluates it directly, so no blinded message or output is ever produced from the identity.",
 ["inputs"],"all inputs",
 "No such input is known, so no test can reach the path.",
 [COMMON,OP,VO,PO],[("identity check after hashing to the group","blind / evaluate")],["blind","evaluate"])
p("C25","Clones and comparisons consider every field",
 "Cloning any protocol type yields a value with every field equal to the original's, two values of a type compare equal exactly when all their fields do, and ordering and hashing consider the same fields, so equal values hash equally. This holds for every type and suite.",
 ["inputs"],"all pairs of values of the protocol types",
 "No test compares or hashes protocol values that differ in only one field.",
 [COMMON,OP,VO,PO],[("derive_where derives","struct attributes")],["Clone, PartialEq, Ord, Hash impls"])
p("C26","Both group backends implement the same contract",
 "For the ristretto255 and the NIST-curve backend alike: element and scalar encodings are the full fixed-length canonical ones, random scalars are sampled over the whole range with zero excluded, inversion, generator and identity are the group's own, and hashing to the group and to scalars passes the complete message and the complete tag to the standard expand_message_xmd construction with the suite's hash. Neither backend special-cases any input.",
 ["inputs","configurations"],"all inputs to the group operations of both backends",
 "The group tests check only that the encoded identity and zero are refused.",
 [GM,GE,GR],[("Group implementations","group/elliptic_curve.rs, group/ristretto.rs")],["Group trait methods"])
p("C27","Outputs are pseudorandom and blinded messages hide the input",
 "Without the server key, outputs are computationally indistinguishable from random, and a blinded message reveals nothing about the client's input.",
 ["inputs"],"all adversaries and inputs",
 "A cryptographic hardness statement, not observable by tests.",
 [COMMON,OP,VO,PO],[("multiplicative blinding","blind")])
p("C28","Numerical conformance with RFC 9497 for every input",
 "For every input, the bytes produced by the four built-in suites equal those the RFC 9497 algorithms define, including the curve and hash arithmetic of the underlying libraries.",
 ["inputs"],"all inputs in four suites and three modes",
 "The vectors cover two inputs per mode and suite.",
 ["src/*.rs"],[("curve and hash arithmetic","dependencies")])
p("C29","Execution time of compiled code is independent of secrets",
 "The machine code of every secret-handling operation, including the group libraries, runs in time and with memory accesses independent of secret values.",
 ["inputs"],"all secret values on all supported machines",
 "Functional tests cannot observe timing.",
 ["src/*.rs"],[("constant-time dependencies","curve25519-dalek, elliptic-curve")])
p("C30","Single, batch, split and danger interfaces agree",
 "Every convenience interface computes exactly what the general one computes on the same data, for every suite and input: blind equals the deterministic blinding with the scalar it drew, finalizing one client equals finalizing the batch that holds only that client and message, evaluating one blinded message equals evaluating the batch that holds only it (and, under the same random draws, gives the same proof), the allocating batch evaluation equals the prepare and finish steps run one after the other, and a server created from fresh randomness or a seed holds exactly the key pair that the key derivation function or the raw-key constructor gives for the same data. They also accept and refuse the same inputs.",
 ["inputs","histories"],"all inputs, batch sizes, suites and random streams",
 "The tests pin each interface to a few vectors separately; none compares two interfaces on the same arbitrary data.",
 [COMMON,OP,VO,PO],[("single calls delegate to batch calls","finalize, blind_evaluate"),("danger interface","deterministic_blind_unchecked, derive_key")],["single versus batch versus split calls"])
p("C31","Every operation terminates",
 "Every public operation, decoder and group method returns after a number of steps bounded by the sizes of its arguments: each loop runs at most a number of times given by the length of an argument or by a constant, there is no unbounded recursion, and the only repetition without a fixed bound is rejection sampling that draws a new value from the caller's random generator each time it repeats (and reading a serde map until the caller's deserializer reports its end).",
 ["inputs"],"all inputs, including adversarial messages, tags and empty sequences",
 "Tests stop at the inputs they use; a loop that never ends only for an empty slice, a zero scalar or exhausted counters passes them.",
 [COMMON,OP,VO,PO,GM,GE,GR],[("key derivation loop","derive_key_internal"),("rejection sampling","group/ristretto.rs random_scalar"),("batch loops","compute_composites")],["all public functions"])
p("C32","The documented interface is usable with every suite, caller and feature set",
 "Every documented operation, type and trait implementation of the library can be used by another crate, in every feature combination that documents it, for every ciphersuite and group meeting the documented bounds, whatever the suite's marker type itself implements, and with any cryptographic random generator, borrowed input of any lifetime and collection or iterator of the documented kind. Results borrow nothing beyond what their type says. Every protocol type can be cloned, is wiped on drop, can be sent and shared between threads, is serializable with the serde feature, and is comparable, hashable and printable whenever the group's elements and scalars are; every type a public operation returns can be named; groups and suites can be implemented outside the crate from the documented items alone.",
 ["programs","configurations"],"all programs against the documented interface, generic over suite, group, generator and collections",
 "The tests live inside the crate, see private items, use four suites whose marker types implement every trait, and run under two feature sets.",
 ["src/*.rs"],[("exports and feature gates","lib.rs"),("derive_where bounds","struct attributes"),("generic bounds of operations","oprf.rs, voprf.rs, poprf.rs")],["all public items"])
open("/verif/properties.jsonl","w").write("\n".join(json.dumps(x) for x in P)+"\n")
