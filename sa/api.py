"""C32: positive type-level witnesses. Programs written against the documented
interface, generic over every suite, group and generator that meets the
documented bounds, must be accepted by rustc's type and borrow checker on
/repo's current source, in every feature combination that documents them."""
import itertools
import json
import os
import shutil

import dump as dumper
import witness

ROOT = os.path.join(dumper.TARGET, "api")
BOUND = "<{0}::Hash as OutputSizeUser>::OutputSize: IsLess<U256> + IsLessOrEqual<<{0}::Hash as BlockSizeUser>::BlockSize>,".format("A")
FEATURES = ["alloc", "danger", "serde", "std", "ristretto255", "ristretto255-ciphersuite"]
IMPLIES = {"std": {"alloc"}, "ristretto255-ciphersuite": {"ristretto255"}}

P = []  # (name, features needed, what, source)


def add(name, what, src, feats=()):
    P.append((name, set(feats), what, src))


def f(name, what, params, ret, body, feats=(), gen="", where=""):
    """A function generic over the suite A (and the generator R)."""
    g = ["A: CipherSuite"] + (["R: RngCore + CryptoRng"] if "&mut R" in params else []) + ([gen] if gen else [])
    lts = [x for x in g if x.startswith("'")] + sorted({x.strip() for y in g if not y.startswith("'") for x in [y]}, key=g.index)
    src = "fn %s<%s>(%s) %s where %s %s { %s }" % (name, ", ".join(lts), params, ("-> " + ret) if ret else "", BOUND, where, body)
    add(name, what, src, feats)


MODES = ("Oprf", "Voprf", "Poprf")
TYPES = ["OprfClient", "VoprfClient", "PoprfClient", "OprfServer", "VoprfServer", "PoprfServer",
         "BlindedElement", "EvaluationElement", "Proof"]
ALL = TYPES + ["PreparedEvaluationElement", "PoprfPreparedTweak"]
for m in MODES:
    l = m.lower()
    f(l + "_blind", m + "Client::blind with any generator and borrowed input", "r: &mut R, i: &[u8]", "Result<(%sClient<A>, BlindedElement<A>)>" % m,
      "let copy = [1u8, 2]; let _local = %sClient::<A>::blind(&copy, r)?; let b = %sClient::<A>::blind(i, r)?; Ok((b.state, b.message))" % (m, m))
    f(l + "_blind_result_owned", "the result of %sClient::blind borrows neither input nor generator" % m, "mut r: R, x: &mut R", "(%sClient<A>, BlindedElement<A>)" % m,
      "let i = [1u8, 2, 3]; let b = %sClient::<A>::blind(&i, &mut r).unwrap(); (b.state, b.message)" % m)
    f(l + "_blind_deterministic", m + "Client::deterministic_blind_unchecked", "i: &[u8], b: Sc<A>", "Result<(%sClient<A>, BlindedElement<A>)>" % m,
      "let b = %sClient::<A>::deterministic_blind_unchecked(i, b)?; Ok((b.state, b.message))" % m, ["danger"])
    f(l + "_server_new", m + "Server::new", "r: &mut R", "Result<%sServer<A>>" % m, "%sServer::<A>::new(r)" % m)
    f(l + "_server_new_with_key", m + "Server::new_with_key", "k: &[u8]", "Result<%sServer<A>>" % m, "%sServer::<A>::new_with_key(k)" % m)
    f(l + "_server_new_from_seed", m + "Server::new_from_seed", "s: &[u8], i: &[u8]", "Result<%sServer<A>>" % m, "%sServer::<A>::new_from_seed(s, i)" % m)
    f(l + "_evaluate", m + "Server::evaluate through a shared reference", "s: &%sServer<A>, i: &[u8]" % m, "Result<Output<A::Hash>>", "s.evaluate(i%s)" % (", None" if m == "Poprf" else ""))
    if m != "Oprf":
        f(l + "_public_key", m + "Server::get_public_key", "s: &%sServer<A>" % m, "El<A>", "s.get_public_key()")
f("oprf_blind_evaluate", "OprfServer::blind_evaluate", "s: &OprfServer<A>, b: &BlindedElement<A>", "EvaluationElement<A>", "s.blind_evaluate(b)")
f("voprf_blind_evaluate", "VoprfServer::blind_evaluate with any generator", "r: &mut R, s: &VoprfServer<A>, b: &BlindedElement<A>", "(EvaluationElement<A>, Proof<A>)", "let x = s.blind_evaluate(r, b); (x.message, x.proof)")
f("poprf_blind_evaluate", "PoprfServer::blind_evaluate with any generator and borrowed info", "r: &mut R, s: &PoprfServer<A>, b: &BlindedElement<A>, i: Option<&[u8]>", "Result<(EvaluationElement<A>, Proof<A>)>", "let x = s.blind_evaluate(r, b, i)?; Ok((x.message, x.proof))")
f("poprf_evaluate_info", "PoprfServer::evaluate with borrowed info", "s: &PoprfServer<A>, i: &[u8], o: &[u8]", "Result<Output<A::Hash>>", "s.evaluate(i, Some(o))")
f("oprf_finalize", "OprfClient::finalize through shared references", "c: &OprfClient<A>, i: &[u8], e: &EvaluationElement<A>", "Result<Output<A::Hash>>", "c.finalize(i, e)")
f("voprf_finalize", "VoprfClient::finalize through shared references", "c: &VoprfClient<A>, i: &[u8], e: &EvaluationElement<A>, p: &Proof<A>, k: El<A>", "Result<Output<A::Hash>>", "c.finalize(i, e, p, k)")
f("poprf_finalize", "PoprfClient::finalize with borrowed info", "c: &PoprfClient<A>, i: &[u8], e: &EvaluationElement<A>, p: &Proof<A>, k: El<A>, o: Option<&[u8]>", "Result<Output<A::Hash>>", "c.finalize(i, e, p, k, o)")

# --- batches -----------------------------------------------------------------
for m in MODES[1:]:
    l, pop = m.lower(), m == "Poprf"
    info, none = (", o: Option<&[u8]>", ", o") if pop else ("", "")
    q = "?" if pop else ""
    for coll, feats in (("[BlindedElement<A>; 3]", []), ("Vec<BlindedElement<A>>", ["alloc"])):
        f("%s_batch_evaluate_%s" % (l, "vec" if feats else "array"), "%sServer::batch_blind_evaluate over %s; the result is owned" % (m, coll), "r: &mut R, s: &%sServer<A>, b: %s%s" % (m, coll, info), "Result<(Vec<EvaluationElement<A>>, Proof<A>)>",
          "let x = s.batch_blind_evaluate(r, &b%s)?; drop(b); Ok((x.messages, x.proof))" % none, ["alloc"])
    f(l + "_batch_evaluate_any", "%sServer::batch_blind_evaluate over every collection" % m, "r: &mut R, s: &%sServer<A>, b: &'a I%s" % (m, info), "Result<(Vec<EvaluationElement<A>>, Proof<A>)>",
      "let x = s.batch_blind_evaluate(r, b%s)?; Ok((x.messages, x.proof))" % none, ["alloc"], "'a, I", "A: 'a, &'a I: 'a + IntoIterator<Item = &'a BlindedElement<A>>, <&'a I as IntoIterator>::IntoIter: ExactSizeIterator")
    prep = "s.batch_blind_evaluate_prepare(b%s)%s" % (none, q)
    fin = "s.batch_blind_evaluate_finish(r, %s, &v)" if not pop else "PoprfServer::<A>::batch_blind_evaluate_finish(r, %s, &v, &t)"
    unpack = "let x = %s; let (t, it) = (x.prepared_tweak, x.prepared_evaluation_elements);" % prep if pop else "let it = %s;" % prep
    f(l + "_batch_split", "batch prepare and finish over any iterators without an allocator", "r: &mut R, s: &%sServer<A>, b: &[BlindedElement<A>; 2]%s" % (m, info), "Result<()>",
      unpack.replace("(b%s)" % none, "(b.iter()%s)" % none) + " let mut it = it; let v = [it.next().unwrap(), it.next().unwrap()];"
      " let y = " + fin % "b.iter()" + "?; let p: Proof<A> = y.proof; for e in y.messages { let _: EvaluationElement<A> = e; } Ok(())")
    f(l + "_batch_split_any", "batch prepare and finish over every iterator of blinded elements", "r: &mut R, s: &%sServer<A>, b: I, c: J, v: &Vec<PreparedEvaluationElement<A>>%s" % (m, info), "Result<Vec<EvaluationElement<A>>>",
      unpack + " let _v: Vec<PreparedEvaluationElement<A>> = it.collect(); let y = " + (fin % "c").replace("&v", "v") + "?; let _: Proof<A> = y.proof; Ok(y.messages.collect())", ["alloc"],
      "'a, I: Iterator<Item = &'a BlindedElement<A>>, J: Iterator<Item = &'a BlindedElement<A>> + ExactSizeIterator", "A: 'a,")
    f(l + "_batch_prepared_outlives_server", "prepared elements and finished messages borrow neither the server nor the generator", "mut r: R, z: &mut R, s: %sServer<A>, b: &[BlindedElement<A>; 1], o: Option<&[u8]>" % m, "Result<()>",
      unpack.replace("(b%s)" % none, "(b.iter()%s)" % none) + (" drop(s);" if pop else "") + " let mut it = it; let v = [it.next().unwrap()]; let y = " + (fin % "b.iter()").replace("(r,", "(&mut r,") + "?; drop(r); " + ("" if pop else "drop(s); drop(it); ") + "let mut m = y.messages; let _: Option<EvaluationElement<A>> = m.next(); Ok(())")
f("voprf_batch_finalize", "VoprfClient::batch_finalize over arrays of byte slices", "i: &[&[u8]; 2], c: &[VoprfClient<A>; 2], e: &[EvaluationElement<A>; 2], p: &Proof<A>, k: El<A>", "Result<()>",
  "for x in VoprfClient::<A>::batch_finalize(i, c, e, p, k)? { let _: Output<A::Hash> = x?; } Ok(())")
f("voprf_batch_finalize_vec", "VoprfClient::batch_finalize over vectors of byte vectors", "i: &Vec<Vec<u8>>, c: &Vec<VoprfClient<A>>, e: &Vec<EvaluationElement<A>>, p: &Proof<A>, k: El<A>", "Result<Vec<Output<A::Hash>>>",
  "VoprfClient::<A>::batch_finalize(i, c, e, p, k)?.collect()", ["alloc"])
f("voprf_batch_finalize_any", "VoprfClient::batch_finalize over every collection; the proof is not kept", "i: &'a II, c: &'a IC, e: &'a IM, p: Proof<A>, k: El<A>", "Result<Vec<Result<Output<A::Hash>>>>",
  "let it = VoprfClient::<A>::batch_finalize(i, c, e, &p, k)?; drop(p); Ok(it.collect())", ["alloc"],
  "'a, I: 'a + AsRef<[u8]>, II, IC, IM",
  "A: 'a, &'a II: 'a + IntoIterator<Item = I>, <&'a II as IntoIterator>::IntoIter: ExactSizeIterator, &'a IC: 'a + IntoIterator<Item = &'a VoprfClient<A>>, <&'a IC as IntoIterator>::IntoIter: ExactSizeIterator, &'a IM: 'a + IntoIterator<Item = &'a EvaluationElement<A>>, <&'a IM as IntoIterator>::IntoIter: ExactSizeIterator")
f("poprf_batch_finalize", "PoprfClient::batch_finalize over arrays of byte slices", "i: [&[u8]; 2], c: &[PoprfClient<A>; 2], e: &[EvaluationElement<A>; 2], p: &Proof<A>, k: El<A>, o: Option<&[u8]>", "Result<()>",
  "for x in PoprfClient::<A>::batch_finalize(i.into_iter(), c, e, p, k, o)? { let _: Output<A::Hash> = x?; } Ok(())")
f("poprf_batch_finalize_any", "PoprfClient::batch_finalize over every collection; the proof is not kept", "i: II, c: &'a IC, e: &'a IM, p: Proof<A>, k: El<A>, o: Option<&'a [u8]>", "Result<Vec<Result<Output<A::Hash>>>>",
  "let it = PoprfClient::<A>::batch_finalize(i, c, e, &p, k, o)?; drop(p); Ok(it.collect())", ["alloc"],
  "'a, II: 'a + Iterator<Item = &'a [u8]> + ExactSizeIterator, IC, IM",
  "A: 'a, &'a IC: 'a + IntoIterator<Item = &'a PoprfClient<A>>, <&'a IC as IntoIterator>::IntoIter: ExactSizeIterator, &'a IM: 'a + IntoIterator<Item = &'a EvaluationElement<A>>, <&'a IM as IntoIterator>::IntoIter: ExactSizeIterator")

# --- encodings ----------------------------------------------------------------
LEN = {"VoprfClient": "<Sc as> + <El as>"}
for t in TYPES:
    n = t.lower()
    if t in ("VoprfClient", "PoprfClient", "VoprfServer", "PoprfServer"):
        wh = "<A::Group as Group>::ScalarLen: core::ops::Add<<A::Group as Group>::ElemLen>, typenum::Sum<<A::Group as Group>::ScalarLen, <A::Group as Group>::ElemLen>: ArrayLength<u8>,"
    elif t == "Proof":
        wh = "<A::Group as Group>::ScalarLen: core::ops::Add<<A::Group as Group>::ScalarLen>, typenum::Sum<<A::Group as Group>::ScalarLen, <A::Group as Group>::ScalarLen>: ArrayLength<u8>,"
    else:
        wh = ""
    f(n + "_serialize", t + "::serialize, length " + t + "Len", "x: &%s<A>" % t, "GenericArray<u8, %sLen<A>>" % t, "x.serialize()", where=wh)
    f(n + "_deserialize", t + "::deserialize from a borrowed slice, result owned", "y: &[u8]", "Result<%s<A>>" % t, "let b = [1u8, 2, 3]; let _ = y; %s::<A>::deserialize(&b)" % t)
for t in ALL:
    f(t.lower() + "_serde", t + " is Serialize and DeserializeOwned for every suite", "", "", "fn s<T: serde::Serialize + serde::de::DeserializeOwned>() {} s::<%s<A>>()" % t, ["serde"])

# --- traits ---------------------------------------------------------------------
for t in ALL:
    n = t.lower()
    f(n + "_clone", t + " is Clone for every suite", "x: &%s<A>" % t, "%s<A>" % t, "fn c<T: Clone>(x: &T) -> T { x.clone() } c(x)")
    f(n + "_common", t + " is Debug, Eq, Ord and Hash whenever the group's element and scalar are", "", "",
      "fn s<T: core::fmt::Debug + Eq + PartialEq + Ord + PartialOrd + core::hash::Hash>() {} s::<%s<A>>()" % t,
      where="El<A>: core::fmt::Debug + Eq + Ord + core::hash::Hash, Sc<A>: core::fmt::Debug + Eq + Ord + core::hash::Hash,")
    f(n + "_threads", t + " is Send, Sync and Unpin", "", "", "fn s<T: Send + Sync + Unpin>() {} s::<%s<A>>()" % t,
      gen="", where="A: Send + Sync + Unpin, El<A>: Send + Sync + Unpin, Sc<A>: Send + Sync + Unpin,")
    f(n + "_static", t + " borrows nothing", "", "", "fn s<T: 'static>() {} s::<%s<A>>()" % t, where="A: 'static, A::Group: 'static, El<A>: 'static, Sc<A>: 'static,")
    add(n + "_marker", t + " of a suite whose marker type implements nothing is Clone, Debug and Eq", "fn %s_marker() { fn s<T: Clone + core::fmt::Debug + Eq + PartialEq + Send + Sync + Unpin + 'static>() {} s::<%s<S1>>() }" % (n, t))
for t, gate in (("OprfClientBlindResult", ()), ("VoprfClientBlindResult", ()), ("PoprfClientBlindResult", ()), ("VoprfServerEvaluateResult", ()), ("PoprfServerEvaluateResult", ()),
                ("VoprfServerBatchEvaluateResult", ("alloc",)), ("PoprfServerBatchEvaluateResult", ("alloc",))):
    m = t[:t.index("rf") + 2]
    call, args = {"OprfClientBlindResult": ("Client::<A>::blind(i, r)?", "i: &[u8]"), "VoprfClientBlindResult": ("Client::<A>::blind(i, r)?", "i: &[u8]"), "PoprfClientBlindResult": ("Client::<A>::blind(i, r)?", "i: &[u8]"),
                  "VoprfServerEvaluateResult": (None, "s.blind_evaluate(r, b)"), "PoprfServerEvaluateResult": (None, "s.blind_evaluate(r, b, None)?"),
                  "VoprfServerBatchEvaluateResult": (None, "s.batch_blind_evaluate(r, core::array::from_ref(b))?"), "PoprfServerBatchEvaluateResult": (None, "s.batch_blind_evaluate(r, core::array::from_ref(b), None)?")}[t]
    if call:
        pa, ex = "r: &mut R, " + args, m + call
    else:
        pa, ex = "r: &mut R, s: &%sServer<A>, b: &BlindedElement<A>" % m, args
    f("debug_" + t.lower(), t + " can be printed and sent whenever the group's element and scalar can", pa, "Result<()>",
      "fn w<T: core::fmt::Debug + Send + Sync + Unpin + 'static>(_: T) {} w(%s); Ok(())" % ex, gate,
      where="A: Send + Sync + Unpin + 'static, A::Group: 'static, El<A>: core::fmt::Debug + Send + Sync + Unpin + 'static, Sc<A>: core::fmt::Debug + Send + Sync + Unpin + 'static,")
    f("name_" + t.lower(), t + " can be named", pa, "Result<%s<A>>" % t, "Ok(%s)" % ex, gate)
f("name_voprfclientbatchfinalizeresult", "VoprfClientBatchFinalizeResult can be named", "i: &'a [&'a [u8]; 2], c: &'a [VoprfClient<A>; 2], e: &'a [EvaluationElement<A>; 2], p: &Proof<A>, k: El<A>",
  "Result<VoprfClientBatchFinalizeResult<'a, A, &'a &'a [u8], [&'a [u8]; 2], [VoprfClient<A>; 2], [EvaluationElement<A>; 2]>>", "VoprfClient::<A>::batch_finalize(i, c, e, p, k)", gen="'a")
f("name_poprfclientbatchfinalizeresult", "PoprfClientBatchFinalizeResult can be named", "i: II, c: &'a [PoprfClient<A>; 2], e: &'a [EvaluationElement<A>; 2], p: &Proof<A>, k: El<A>",
  "Result<PoprfClientBatchFinalizeResult<'a, A, II, [PoprfClient<A>; 2], [EvaluationElement<A>; 2]>>", "PoprfClient::<A>::batch_finalize(i, c, e, p, k, None)", gen="'a, II: 'a + Iterator<Item = &'a [u8]> + ExactSizeIterator")
f("name_voprfprepared", "VoprfServerBatchEvaluatePreparedEvaluationElements can be named", "s: &VoprfServer<A>, b: I", "VoprfServerBatchEvaluatePreparedEvaluationElements<A, I>", "s.batch_blind_evaluate_prepare(b)", gen="'a, I: Iterator<Item = &'a BlindedElement<A>>", where="A: 'a,")
f("name_poprfprepare", "PoprfServerBatchEvaluatePrepareResult and PoprfServerBatchEvaluatePreparedEvaluationElements can be named", "s: &PoprfServer<A>, b: I", "Result<PoprfServerBatchEvaluatePreparedEvaluationElements<A, I>>", "let x: PoprfServerBatchEvaluatePrepareResult<A, I> = s.batch_blind_evaluate_prepare(b, None)?; Ok(x.prepared_evaluation_elements)", gen="'a, I: Iterator<Item = &'a BlindedElement<A>>", where="A: 'a,")
f("name_voprffinish", "VoprfServerBatchEvaluateFinishResult and VoprfServerBatchEvaluateFinishedMessages can be named", "r: &mut R, s: &VoprfServer<A>, b: &[BlindedElement<A>; 2], v: &'b [PreparedEvaluationElement<A>; 2]",
  "Result<VoprfServerBatchEvaluateFinishedMessages<'b, A, [PreparedEvaluationElement<A>; 2]>>", "let x: VoprfServerBatchEvaluateFinishResult<'b, A, [PreparedEvaluationElement<A>; 2]> = s.batch_blind_evaluate_finish(r, b.iter(), v)?; Ok(x.messages)", gen="'b", where="A: 'b,")
f("name_poprffinish", "PoprfServerBatchEvaluateFinishResult and PoprfServerBatchEvaluateFinishedMessages can be named", "r: &mut R, t: &PoprfPreparedTweak<A>, b: &[BlindedElement<A>; 2], v: &'b [PreparedEvaluationElement<A>; 2]",
  "Result<PoprfServerBatchEvaluateFinishedMessages<'b, A, [PreparedEvaluationElement<A>; 2]>>", "let x: PoprfServerBatchEvaluateFinishResult<'b, A, [PreparedEvaluationElement<A>; 2]> = PoprfServer::<A>::batch_blind_evaluate_finish(r, b.iter(), v, t)?; Ok(x.messages)", gen="'b", where="A: 'b,")
for e in ("Error", "InternalError", "Mode"):
    tr = "Copy + Clone + core::fmt::Debug + Send + Sync + Unpin + 'static" + ("" if e == "Mode" else " + Eq + PartialEq + Ord + PartialOrd + core::hash::Hash")
    add(e.lower() + "_traits", "%s is %s" % (e, tr.replace("core::fmt::", "").replace("core::hash::", "")), "fn %s_traits() { fn s<T: %s>() {} s::<%s>() }" % (e.lower(), tr, e))
add("error_variants", "every documented error can be matched and printed", "fn error_variants(e: Error) -> u8 { fn d(_: &dyn core::fmt::Display) {} d(&e); match e { Error::Input => 0, Error::Info => 1, Error::DeriveKeyPair => 2, Error::Batch => 3, Error::Deserialization => 4, Error::ProofVerification => 5, Error::Protocol => 6 } }")
add("error_internal", "every internal error can be matched", "fn error_internal(e: InternalError) -> u8 { match e { InternalError::Input => 0, InternalError::I2osp => 1 } }")
add("error_std", "Error is a std error", "fn error_std(e: Error) -> Box<dyn std::error::Error + Send + Sync> { Box::new(e) }", ["std"])
add("result_alias", "Result has both parameters, the second defaulting to Error", "fn result_alias(a: voprf::Result<u8>, b: voprf::Result<u8, InternalError>) { let _: core::result::Result<u8, Error> = a; let _: core::result::Result<u8, InternalError> = b; }")
add("mode_number", "Mode's variants and number", "fn mode_number(m: Mode) -> u8 { match m { Mode::Oprf | Mode::Voprf | Mode::Poprf => m.to_u8() } }")

for t, fields, gate in (("OprfClientBlindResult", "state, message", ()), ("VoprfClientBlindResult", "state, message", ()), ("PoprfClientBlindResult", "state, message", ()),
                        ("VoprfServerEvaluateResult", "message, proof", ()), ("PoprfServerEvaluateResult", "message, proof", ()),
                        ("VoprfServerBatchEvaluateResult", "messages, proof", ("alloc",)), ("PoprfServerBatchEvaluateResult", "messages, proof", ("alloc",))):
    f("parts_" + t.lower(), t + " can be taken apart and put together", "x: %s<A>" % t, "%s<A>" % t, "let %s { %s } = x; %s { %s }" % (t, fields, t, fields), gate)
f("parts_poprfprepare", "PoprfServerBatchEvaluatePrepareResult can be taken apart", "x: PoprfServerBatchEvaluatePrepareResult<A, I>", "PoprfPreparedTweak<A>", "let PoprfServerBatchEvaluatePrepareResult { prepared_evaluation_elements: _, prepared_tweak } = x; prepared_tweak", gen="'a, I: Iterator<Item = &'a BlindedElement<A>>", where="A: 'a,")
for m in ("Voprf", "Poprf"):
    t = m + "ServerBatchEvaluateFinishResult"
    f("parts_%sfinish" % m.lower(), t + " can be taken apart", "x: %s<'b, A, [PreparedEvaluationElement<A>; 2]>" % t, "Proof<A>", "let %s { messages: _, proof } = x; proof" % t, gen="'b", where="A: 'b,")

# --- the danger interface --------------------------------------------------------
f("danger_derive_key", "derive_key", "s: &[u8], i: &[u8], m: Mode", "Result<Sc<A>>", "derive_key::<A>(s, i, m)", ["danger"])
for t in ("BlindedElement", "EvaluationElement"):
    f("danger_" + t.lower(), t + "::from_value_unchecked and value", "x: El<A>", "El<A>", "let y = %s::<A>::from_value_unchecked(x); y.value()" % t, ["danger"])

# --- groups and suites -------------------------------------------------------------
for c in ("p256::NistP256", "p384::NistP384", "p521::NistP521"):
    n = c.split("::")[0]
    add(n + "_builtin", "%s is a suite and a group" % c, "fn %s_builtin() { fn s<A: CipherSuite>() where %s {} s::<%s>(); fn g<G: Group>() {} g::<%s>(); let _ = <%s as CipherSuite>::ID; }" % (n, BOUND, c, c, c))
add("ristretto_group", "Ristretto255 is a group, and a custom suite may use it", """mod ristretto_group {
    use super::*;
    pub struct S;
    impl CipherSuite for S { const ID: &'static str = "own"; type Group = Ristretto255; type Hash = sha2::Sha512; }
    pub fn k(k: &[u8]) -> Result<VoprfServer<S>> { VoprfServer::new_with_key(k) }
    pub fn c<T: Copy + core::fmt::Debug + Default + Eq + Ord + core::hash::Hash + Send + Sync>() {}
    pub fn d() { c::<Ristretto255>() }
}""", ["ristretto255"])
add("ristretto_suite", "Ristretto255 is a suite", "fn ristretto_suite(k: &[u8]) -> Result<PoprfServer<Ristretto255>> { fn s<A: CipherSuite>() where %s {} s::<Ristretto255>(); let _ = <Ristretto255 as CipherSuite>::ID; PoprfServer::new_with_key(k) }" % BOUND, ["ristretto255-ciphersuite"])
add("own_group", "a group can be implemented outside the crate with the documented items alone", """mod own_group {
    use super::*;
    pub struct G;
    type C = p256::NistP256;
    impl Group for G {
        type Elem = p256::ProjectivePoint;
        type ElemLen = <C as Group>::ElemLen;
        type Scalar = p256::Scalar;
        type ScalarLen = <C as Group>::ScalarLen;
        fn hash_to_curve<H>(i: &[&[u8]], d: &[&[u8]]) -> Result<Self::Elem, InternalError> where H: BlockSizeUser + Default + FixedOutput + HashMarker, H::OutputSize: IsLess<U256> + IsLessOrEqual<H::BlockSize> { <C as Group>::hash_to_curve::<H>(i, d) }
        fn hash_to_scalar<H>(i: &[&[u8]], d: &[&[u8]]) -> Result<Self::Scalar, InternalError> where H: BlockSizeUser + Default + FixedOutput + HashMarker, H::OutputSize: IsLess<U256> + IsLessOrEqual<H::BlockSize> { <C as Group>::hash_to_scalar::<H>(i, d) }
        fn base_elem() -> Self::Elem { <C as Group>::base_elem() }
        fn identity_elem() -> Self::Elem { <C as Group>::identity_elem() }
        fn serialize_elem(e: Self::Elem) -> GenericArray<u8, Self::ElemLen> { <C as Group>::serialize_elem(e) }
        fn deserialize_elem(b: &[u8]) -> Result<Self::Elem> { <C as Group>::deserialize_elem(b) }
        fn random_scalar<R: RngCore + CryptoRng>(r: &mut R) -> Self::Scalar { <C as Group>::random_scalar(r) }
        fn invert_scalar(s: Self::Scalar) -> Self::Scalar { <C as Group>::invert_scalar(s) }
        fn is_zero_scalar(s: Self::Scalar) -> subtle::Choice { <C as Group>::is_zero_scalar(s) }
        fn zero_scalar_() -> Self::Scalar { loop {} }
        fn serialize_scalar(s: Self::Scalar) -> GenericArray<u8, Self::ScalarLen> { <C as Group>::serialize_scalar(s) }
        fn deserialize_scalar(b: &[u8]) -> Result<Self::Scalar> { <C as Group>::deserialize_scalar(b) }
    }
    pub struct S;
    impl CipherSuite for S { const ID: &'static str = "own"; type Group = G; type Hash = sha2::Sha256; }
    pub fn k(k: &[u8]) -> Result<PoprfServer<S>> { PoprfServer::new_with_key(k) }
}""".replace("        fn zero_scalar_() -> Self::Scalar { loop {} }\n", ""))
add("any_curve", "every curve with hashing to the group is a group", """fn any_curve<C>() where C: elliptic_curve::hash2curve::GroupDigest, elliptic_curve::ProjectivePoint<C>: elliptic_curve::group::cofactor::CofactorGroup + elliptic_curve::sec1::ToEncodedPoint<C>, elliptic_curve::FieldBytesSize<C>: elliptic_curve::sec1::ModulusSize, elliptic_curve::AffinePoint<C>: elliptic_curve::sec1::FromEncodedPoint<C> + elliptic_curve::sec1::ToEncodedPoint<C>, elliptic_curve::Scalar<C>: elliptic_curve::hash2curve::FromOkm { fn g<G: Group>() {} g::<C>() }""")

# A group, a hash and a suite that have the documented traits and no other.
add("minimal", "a suite whose group, elements, scalars, hash and marker implement the documented traits and no other can run every operation", """mod minimal {
    use super::*;
    use core::ops::{Add, Mul, Sub};
    use subtle::{Choice, ConstantTimeEq};
    pub struct E(u8);
    pub struct K(u8);
    impl Clone for E { fn clone(&self) -> Self { *self } }
    impl Copy for E {}
    impl Clone for K { fn clone(&self) -> Self { *self } }
    impl Copy for K {}
    impl ConstantTimeEq for E { fn ct_eq(&self, o: &Self) -> Choice { loop {} } }
    impl ConstantTimeEq for K { fn ct_eq(&self, o: &Self) -> Choice { loop {} } }
    impl zeroize::Zeroize for E { fn zeroize(&mut self) {} }
    impl zeroize::Zeroize for K { fn zeroize(&mut self) {} }
    impl<'a> Add<&'a E> for E { type Output = E; fn add(self, o: &'a E) -> E { self } }
    impl<'a> Mul<&'a K> for E { type Output = E; fn mul(self, o: &'a K) -> E { self } }
    impl<'a> Add<&'a K> for K { type Output = K; fn add(self, o: &'a K) -> K { self } }
    impl<'a> Mul<&'a K> for K { type Output = K; fn mul(self, o: &'a K) -> K { self } }
    impl<'a> Sub<&'a K> for K { type Output = K; fn sub(self, o: &'a K) -> K { self } }
    pub struct G;
    impl Group for G {
        type Elem = E;
        type ElemLen = typenum::U33;
        type Scalar = K;
        type ScalarLen = typenum::U32;
        fn hash_to_curve<H>(i: &[&[u8]], d: &[&[u8]]) -> Result<E, InternalError> where H: BlockSizeUser + Default + FixedOutput + HashMarker, H::OutputSize: IsLess<U256> + IsLessOrEqual<H::BlockSize> { loop {} }
        fn hash_to_scalar<H>(i: &[&[u8]], d: &[&[u8]]) -> Result<K, InternalError> where H: BlockSizeUser + Default + FixedOutput + HashMarker, H::OutputSize: IsLess<U256> + IsLessOrEqual<H::BlockSize> { loop {} }
        fn base_elem() -> E { loop {} }
        fn identity_elem() -> E { loop {} }
        fn serialize_elem(e: E) -> GenericArray<u8, typenum::U33> { loop {} }
        fn deserialize_elem(b: &[u8]) -> Result<E> { loop {} }
        fn random_scalar<R: RngCore + CryptoRng>(r: &mut R) -> K { loop {} }
        fn invert_scalar(s: K) -> K { loop {} }
        fn is_zero_scalar(s: K) -> Choice { loop {} }
        fn serialize_scalar(s: K) -> GenericArray<u8, typenum::U32> { loop {} }
        fn deserialize_scalar(b: &[u8]) -> Result<K> { loop {} }
    }
    pub struct H;
    impl Default for H { fn default() -> Self { H } }
    impl OutputSizeUser for H { type OutputSize = typenum::U32; }
    impl BlockSizeUser for H { type BlockSize = typenum::U64; }
    impl HashMarker for H {}
    impl digest::Update for H { fn update(&mut self, _: &[u8]) {} }
    impl FixedOutput for H { fn finalize_into(self, _: &mut Output<Self>) {} }
    pub struct M<'a>(core::cell::Cell<&'a mut u8>);
    impl<'a> CipherSuite for M<'a> { const ID: &'static str = "minimal"; type Group = G; type Hash = H; }
    pub struct Z<'a>(&'a mut u8);
    impl RngCore for Z<'_> {
        fn next_u32(&mut self) -> u32 { 0 }
        fn next_u64(&mut self) -> u64 { 0 }
        fn fill_bytes(&mut self, _: &mut [u8]) {}
        fn try_fill_bytes(&mut self, _: &mut [u8]) -> core::result::Result<(), rand_core::Error> { Ok(()) }
    }
    impl CryptoRng for Z<'_> {}
    pub fn o<'x, 's, 'd>(z: &mut Z<'x>, i: &'d [u8]) -> Result<Output<H>> {
        let s = OprfServer::<M<'s>>::new(z)?; let s = OprfServer::<M<'s>>::new_from_seed(i, i)?; let s = s.clone();
        let c = OprfClient::<M<'s>>::blind(i, z)?; let e = s.blind_evaluate(&c.message); s.evaluate(i)?; c.state.finalize(i, &e)
    }
    pub fn v<'x, 's, 'd>(z: &mut Z<'x>, i: &'d [u8]) -> Result<Output<H>> {
        let s = VoprfServer::<M<'s>>::new(z)?; let s = VoprfServer::<M<'s>>::new_from_seed(i, i)?; let s = s.clone();
        let c = VoprfClient::<M<'s>>::blind(i, z)?; let e = s.blind_evaluate(z, &c.message); s.evaluate(i)?; c.state.finalize(i, &e.message, &e.proof, s.get_public_key())
    }
    pub fn p<'x, 's, 'd>(z: &mut Z<'x>, i: &'d [u8]) -> Result<Output<H>> {
        let s = PoprfServer::<M<'s>>::new(z)?; let s = PoprfServer::<M<'s>>::new_from_seed(i, i)?; let s = s.clone();
        let c = PoprfClient::<M<'s>>::blind(i, z)?; let e = s.blind_evaluate(z, &c.message, Some(i))?; s.evaluate(i, None)?; c.state.finalize(i, &e.message, &e.proof, s.get_public_key(), Some(i))
    }
    pub fn b<'s>(y: &[u8]) -> Result<()> {
        let x = VoprfClient::<M<'s>>::deserialize(y)?; x.serialize(); let x = Proof::<M<'s>>::deserialize(y)?; x.serialize();
        let x = BlindedElement::<M<'s>>::deserialize(y)?; x.serialize(); let x = PoprfServer::<M<'s>>::deserialize(y)?; x.serialize(); Ok(())
    }
}""")
add("minimal_serde", "every protocol type of a suite whose group, elements, scalars, hash and marker implement nothing beyond the documented traits can be serialized", """mod minimal_serde {
    use super::*;
    use super::minimal::M;
    fn w<T: serde::Serialize + serde::de::DeserializeOwned>() {}
    fn s() { %s }
}""" % " ".join("w::<%s<M<'static>>>();" % t for t in ALL), ["serde"])

HEAD = """#![allow(dead_code, unused_variables, unused_imports, unused_mut, clippy::all)]
use digest::core_api::BlockSizeUser;
use digest::{FixedOutput, HashMarker, Output, OutputSizeUser};
use generic_array::typenum::{self, IsLess, IsLessOrEqual, U256};
use generic_array::{ArrayLength, GenericArray};
use rand_core::{CryptoRng, RngCore};
use voprf::*;
type El<A> = <<A as CipherSuite>::Group as Group>::Elem;
type Sc<A> = <<A as CipherSuite>::Group as Group>::Scalar;
struct S1;
impl CipherSuite for S1 { const ID: &'static str = "one"; type Group = p256::NistP256; type Hash = sha2::Sha256; }
"""


def closed(fs):
    out = set(fs)
    for x in fs:
        out |= IMPLIES.get(x, set())
    return out


def write(feats, label, default=False, programs=None):
    d = os.path.join(ROOT, label)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "src", "bin"))
    with open(os.path.join(d, "Cargo.toml"), "w") as fh:
        fh.write("""[package]
name = "api"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
voprf = { path = %s, default-features = %s, features = [%s] }
p256 = { version = "0.13", default-features = false, features = ["hash2curve", "voprf"] }
p384 = { version = "0.13", default-features = false, features = ["hash2curve", "voprf"] }
p521 = { version = "0.13.3", default-features = false, features = ["hash2curve", "voprf"] }
sha2 = { version = "0.10", default-features = false }
digest = "0.10"
elliptic-curve = { version = "0.13", features = ["hash2curve", "sec1", "voprf"] }
generic-array = { version = "0.14", features = ["more_lengths"] }
rand_core = { version = "0.6", default-features = false }
serde = { version = "1", default-features = false, features = ["derive"] }
subtle = { version = "2.3", default-features = false }
zeroize = { version = "1.5", default-features = false }
""" % (json.dumps(dumper.REPO), "true" if default else "false", ", ".join('"%s"' % x for x in sorted(feats))))
    lock = os.path.join(dumper.REPO, "Cargo.lock")
    if os.path.exists(lock):
        shutil.copy(lock, os.path.join(d, "Cargo.lock"))
    with open(os.path.join(d, "src", "lib.rs"), "w") as fh:
        fh.write("")
    have, lines, region = closed(feats), HEAD.rstrip("\n").split("\n"), []
    for name, need, what, src in P if programs is None else programs:
        if need <= have:
            a = len(lines) + 1
            lines += src.split("\n")
            region.append((a, len(lines), name))
    lines.append("fn main() {}")
    with open(os.path.join(d, "src", "bin", "api.rs"), "w") as fh:
        fh.write("\n".join(lines) + "\n")
    return d, region


DEFAULT = [("default_serde", set(), "every protocol type is Serialize and DeserializeOwned with the default features", "mod default_serde {\n    use super::*;\n" + "\n".join("    " + src for n, need, what, src in P if need == {"serde"} and n != "minimal_serde") + "\n}"),
           ("default_ristretto", set(), "Ristretto255 is a suite with the default features", [src for n, need, what, src in P if n == "ristretto_suite"][0])]


def anchor(name):
    """File that declares what a program uses."""
    if name.endswith(("serialize",)):
        return "src/serialization.rs"
    for k, v in (("voprf", "voprf.rs"), ("poprf", "poprf.rs"), ("oprf", "oprf.rs"), ("blindedelement", "common.rs"), ("evaluationelement", "common.rs"), ("preparedevaluationelement", "common.rs"),
                 ("proof", "common.rs"), ("mode", "common.rs"), ("danger_derive", "common.rs"), ("danger", "poprf.rs"), ("error", "error.rs"), ("internalerror", "error.rs"), ("result", "error.rs"), ("ristretto", "group/ristretto.rs"),
                 ("any_curve", "group/elliptic_curve.rs"), ("own_group", "group/mod.rs"), ("name_voprf", "voprf.rs"), ("name_poprf", "poprf.rs"), ("name_oprf", "oprf.rs"), ("debug_voprf", "voprf.rs"), ("debug_poprf", "poprf.rs"), ("debug_oprf", "oprf.rs")):
        if name.startswith(k):
            return "src/" + v
    return "Cargo.toml" if name.startswith("default") else "src/lib.rs"


def sets(thorough):
    """Feature combinations decided: none, each alone, all; thorough: every one."""
    if thorough:
        seen = []
        for k in range(len(FEATURES) + 1):
            for c in itertools.combinations(FEATURES, k):
                if closed(c) == set(c):
                    seen.append(c)
        return seen
    return [()] + [(x,) for x in FEATURES] + [tuple(FEATURES)]


def prebuild():
    for fs in sets(False):
        d, _ = write(fs, "+".join(fs) or "none")
        witness.compile(d, "api")


def check_C32(cx, rep):
    desc = {n: (what, src) for n, need, what, src in P + DEFAULT}
    work = [("+".join(fs) or "no features", fs, False, None) for fs in sets(os.environ.get("VERIF_TIER") == "thorough")] + [("default features", (), True, DEFAULT)]
    for label, fs, default, programs in work:
        d, region = write(fs, label.replace(" ", "-"), default, programs)
        try:
            errs, out = witness.locate(witness.compile(d, "api"), region)
        except dumper.BuildError as e:
            rep.ob("the library builds", label, "the documented interface is not usable at all: " + str(e)[:300], "Cargo.toml")
            continue
        rep.ob("the library builds", label, None)
        rep.ob("no stray error", label, None if not out else "%s %s" % (out[0][1], out[0][2][:300]))
        for a, b, key in region:
            what, src = desc[key]
            es = errs.get(key)
            rep.fn("%s" % what)
            rep.ob("documented program compiles (%s)" % label, what, None if not es else "a program that relies on it is rejected: %s%s" % (es[0][0] + " " if es[0][0] else "", es[0][1][:300]), anchor(key))
    rep.floor("documented program compiles (no features)", 130)
    rep.floor("documented program compiles (alloc)", 150)
