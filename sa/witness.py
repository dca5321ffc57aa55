"""C23: compile-fail witnesses with positive twins, decided by rustc's type
checker on a crate generated against /repo's current source."""
import fcntl
import glob
import json
import os
import re
import shutil
import subprocess

import dump as dumper

ROOT = os.path.join(dumper.TARGET, "witness")
TARGET = os.path.join(dumper.TARGET, "witness-target")
CODES = {"E0308", "E0271", "E0277"}
BOUND = "where <{0}::Hash as OutputSizeUser>::OutputSize: IsLess<U256> + IsLessOrEqual<<{0}::Hash as BlockSizeUser>::BlockSize>,"

# name, what is mixed up, (parameter, argument type when wrong, when right), body.
# {A} is the suite expected everywhere, {X} the type under test.
W = []


def w(name, what, bad, good, body, params="", feature=None, gen=""):
    W.append({"name": name, "what": what, "bad": bad, "good": good, "body": body, "params": params, "feature": feature, "gen": gen})


def suite(name, what, ty, body, params="", feature=None, gen=""):
    """ty over suite B where A is expected."""
    w(name + "_suite", what + " of another ciphersuite", ty.replace("@", "{B}"), ty.replace("@", "{A}"), body, params, feature, gen)


R = "r: &mut R, "
# --- ciphersuite mixing ------------------------------------------------------
suite("oprf_finalize_elem", "evaluation element", "&EvaluationElement<@>", "let _ = c.finalize(i, x);", "c: &OprfClient<{A}>, i: &[u8], ")
suite("oprf_finalize_client", "client state", "&OprfClient<@>", "let _ = OprfClient::<{A}>::finalize(x, i, e);", "e: &EvaluationElement<{A}>, i: &[u8], ")
suite("oprf_evaluate_elem", "blinded element", "&BlindedElement<@>", "let _ = s.blind_evaluate(x);", "s: &OprfServer<{A}>, ")
suite("oprf_evaluate_server", "server", "&OprfServer<@>", "let _ = OprfServer::<{A}>::blind_evaluate(x, b);", "b: &BlindedElement<{A}>, ")
suite("voprf_evaluate_elem", "blinded element", "&BlindedElement<@>", "let _ = s.blind_evaluate(r, x);", R + "s: &VoprfServer<{A}>, ")
suite("voprf_finalize_elem", "evaluation element", "&EvaluationElement<@>", "let _ = c.finalize(i, x, p, k);", "c: &VoprfClient<{A}>, i: &[u8], p: &Proof<{A}>, k: <<{A} as CipherSuite>::Group as Group>::Elem, ")
suite("voprf_finalize_proof", "proof", "&Proof<@>", "let _ = c.finalize(i, e, x, k);", "c: &VoprfClient<{A}>, i: &[u8], e: &EvaluationElement<{A}>, k: <<{A} as CipherSuite>::Group as Group>::Elem, ")
VBF = "i: &[&[u8]], k: <<{A} as CipherSuite>::Group as Group>::Elem, "
suite("voprf_batch_finalize_clients", "client states", "&[VoprfClient<@>; 2]", "let _ = VoprfClient::<{A}>::batch_finalize(j, x, e, p, k);", "j: &[&[u8]; 2], e: &[EvaluationElement<{A}>; 2], p: &Proof<{A}>, k: <<{A} as CipherSuite>::Group as Group>::Elem, ")
suite("voprf_batch_finalize_elems", "evaluation elements", "&[EvaluationElement<@>; 2]", "let _ = VoprfClient::<{A}>::batch_finalize(j, c, x, p, k);", "j: &[&[u8]; 2], c: &[VoprfClient<{A}>; 2], p: &Proof<{A}>, k: <<{A} as CipherSuite>::Group as Group>::Elem, ")
suite("voprf_batch_finalize_proof", "proof", "&Proof<@>", "let _ = VoprfClient::<{A}>::batch_finalize(j, c, e, x, k);", "j: &[&[u8]; 2], c: &[VoprfClient<{A}>; 2], e: &[EvaluationElement<{A}>; 2], k: <<{A} as CipherSuite>::Group as Group>::Elem, ")
suite("voprf_batch_evaluate", "blinded elements", "&[BlindedElement<@>; 2]", "let _ = s.batch_blind_evaluate(r, x);", R + "s: &VoprfServer<{A}>, ", "alloc")
suite("voprf_prepare", "blinded elements", "&[BlindedElement<@>; 2]", "let _ = s.batch_blind_evaluate_prepare(x.iter());", "s: &VoprfServer<{A}>, ")
suite("voprf_finish_blinded", "blinded elements", "&[BlindedElement<@>; 2]", "let _ = s.batch_blind_evaluate_finish(r, x.iter(), q);", R + "s: &VoprfServer<{A}>, q: &[PreparedEvaluationElement<{A}>; 2], ")
suite("voprf_finish_prepared", "prepared elements", "&[PreparedEvaluationElement<@>; 2]", "let _ = s.batch_blind_evaluate_finish(r, b.iter(), x);", R + "s: &VoprfServer<{A}>, b: &[BlindedElement<{A}>; 2], ")
suite("poprf_evaluate_elem", "blinded element", "&BlindedElement<@>", "let _ = s.blind_evaluate(r, x, None);", R + "s: &PoprfServer<{A}>, ")
suite("poprf_finalize_elem", "evaluation element", "&EvaluationElement<@>", "let _ = c.finalize(i, x, p, k, None);", "c: &PoprfClient<{A}>, i: &[u8], p: &Proof<{A}>, k: <<{A} as CipherSuite>::Group as Group>::Elem, ")
suite("poprf_finalize_proof", "proof", "&Proof<@>", "let _ = c.finalize(i, e, x, k, None);", "c: &PoprfClient<{A}>, i: &[u8], e: &EvaluationElement<{A}>, k: <<{A} as CipherSuite>::Group as Group>::Elem, ")
PBF = "j: [&'static [u8]; 2], "
suite("poprf_batch_finalize_clients", "client states", "&[PoprfClient<@>; 2]", "let _ = PoprfClient::<{A}>::batch_finalize(j.into_iter(), x, e, p, k, None);", PBF + "e: &[EvaluationElement<{A}>; 2], p: &Proof<{A}>, k: <<{A} as CipherSuite>::Group as Group>::Elem, ")
suite("poprf_batch_finalize_elems", "evaluation elements", "&[EvaluationElement<@>; 2]", "let _ = PoprfClient::<{A}>::batch_finalize(j.into_iter(), c, x, p, k, None);", PBF + "c: &[PoprfClient<{A}>; 2], p: &Proof<{A}>, k: <<{A} as CipherSuite>::Group as Group>::Elem, ")
suite("poprf_batch_finalize_proof", "proof", "&Proof<@>", "let _ = PoprfClient::<{A}>::batch_finalize(j.into_iter(), c, e, x, k, None);", PBF + "c: &[PoprfClient<{A}>; 2], e: &[EvaluationElement<{A}>; 2], k: <<{A} as CipherSuite>::Group as Group>::Elem, ")
suite("poprf_batch_evaluate", "blinded elements", "&[BlindedElement<@>; 2]", "let _ = s.batch_blind_evaluate(r, x, None);", R + "s: &PoprfServer<{A}>, ", "alloc")
suite("poprf_prepare", "blinded elements", "&[BlindedElement<@>; 2]", "let _ = s.batch_blind_evaluate_prepare(x.iter(), None);", "s: &PoprfServer<{A}>, ")
suite("poprf_finish_blinded", "blinded elements", "&[BlindedElement<@>; 2]", "let _ = PoprfServer::<{A}>::batch_blind_evaluate_finish(r, x.iter(), q, t);", R + "q: &[PreparedEvaluationElement<{A}>; 2], t: &PoprfPreparedTweak<{A}>, ")
suite("poprf_finish_prepared", "prepared elements", "&[PreparedEvaluationElement<@>; 2]", "let _ = PoprfServer::<{A}>::batch_blind_evaluate_finish(r, b.iter(), x, t);", R + "b: &[BlindedElement<{A}>; 2], t: &PoprfPreparedTweak<{A}>, ")
suite("poprf_finish_tweak", "prepared tweak", "&PoprfPreparedTweak<@>", "let _ = PoprfServer::<{A}>::batch_blind_evaluate_finish(r, b.iter(), q, x);", R + "b: &[BlindedElement<{A}>; 2], q: &[PreparedEvaluationElement<{A}>; 2], ")
for t in ("OprfClient", "VoprfClient", "PoprfClient", "OprfServer", "VoprfServer", "PoprfServer", "BlindedElement", "EvaluationElement", "PreparedEvaluationElement", "PoprfPreparedTweak", "Proof"):
    suite("convert_" + t.lower(), t + " converted from one", t + "<@>", "let _y: %s<{A}> = x.into();" % t)
for t in ("BlindedElement", "EvaluationElement", "PreparedEvaluationElement"):
    suite("compare_" + t.lower(), t + " compared with one", "&" + t + "<@>", "let _ = y == x;", "y: &%s<{A}>, " % t)

# --- client states of different modes ---------------------------------------
K = "k: <<{A} as CipherSuite>::Group as Group>::Elem, "
w("oprf_finalize_voprf", "VOPRF client state in OPRF finalize", "&VoprfClient<{A}>", "&OprfClient<{A}>", "let _ = OprfClient::<{A}>::finalize(x, i, e);", "i: &[u8], e: &EvaluationElement<{A}>, ")
w("oprf_finalize_poprf", "POPRF client state in OPRF finalize", "&PoprfClient<{A}>", "&OprfClient<{A}>", "let _ = OprfClient::<{A}>::finalize(x, i, e);", "i: &[u8], e: &EvaluationElement<{A}>, ")
w("voprf_finalize_oprf", "OPRF client state in VOPRF finalize", "&OprfClient<{A}>", "&VoprfClient<{A}>", "let _ = VoprfClient::<{A}>::finalize(x, i, e, p, k);", "i: &[u8], e: &EvaluationElement<{A}>, p: &Proof<{A}>, " + K)
w("voprf_finalize_poprf", "POPRF client state in VOPRF finalize", "&PoprfClient<{A}>", "&VoprfClient<{A}>", "let _ = VoprfClient::<{A}>::finalize(x, i, e, p, k);", "i: &[u8], e: &EvaluationElement<{A}>, p: &Proof<{A}>, " + K)
w("poprf_finalize_oprf", "OPRF client state in POPRF finalize", "&OprfClient<{A}>", "&PoprfClient<{A}>", "let _ = PoprfClient::<{A}>::finalize(x, i, e, p, k, None);", "i: &[u8], e: &EvaluationElement<{A}>, p: &Proof<{A}>, " + K)
w("poprf_finalize_voprf", "VOPRF client state in POPRF finalize", "&VoprfClient<{A}>", "&PoprfClient<{A}>", "let _ = PoprfClient::<{A}>::finalize(x, i, e, p, k, None);", "i: &[u8], e: &EvaluationElement<{A}>, p: &Proof<{A}>, " + K)
for bad in ("OprfClient", "PoprfClient"):
    w("voprf_batch_finalize_" + bad.lower(), bad + " states in VOPRF batch_finalize", "&[%s<{A}>; 2]" % bad, "&[VoprfClient<{A}>; 2]", "let _ = VoprfClient::<{A}>::batch_finalize(j, x, e, p, k);", "j: &[&[u8]; 2], e: &[EvaluationElement<{A}>; 2], p: &Proof<{A}>, " + K)
for bad in ("OprfClient", "VoprfClient"):
    w("poprf_batch_finalize_" + bad.lower(), bad + " states in POPRF batch_finalize", "&[%s<{A}>; 2]" % bad, "&[PoprfClient<{A}>; 2]", "let _ = PoprfClient::<{A}>::batch_finalize(j.into_iter(), x, e, p, k, None);", PBF + "e: &[EvaluationElement<{A}>; 2], p: &Proof<{A}>, " + K)
for a in ("Oprf", "Voprf", "Poprf"):
    for b in ("Oprf", "Voprf", "Poprf"):
        if a != b:
            for k in ("Client", "Server"):
                w("convert_%s_%s_%s" % (k.lower(), b.lower(), a.lower()), "%s%s converted to %s%s" % (b, k, a, k), "%s%s<{A}>" % (b, k), "%s%s<{A}>" % (a, k), "let _y: %s%s<{A}> = x.into();" % (a, k))

# --- protocol roles of elements ----------------------------------------------
EL = ("BlindedElement", "EvaluationElement", "PreparedEvaluationElement")


def role(name, need, body, params, shape="&%s<{A}>", feature=None):
    for bad in EL:
        if bad != need:
            w("%s_%s" % (name, bad.lower()), "%s where %s is required" % (bad, need), shape % bad, shape % need, body, params, feature)


role("role_oprf_evaluate", "BlindedElement", "let _ = s.blind_evaluate(x);", "s: &OprfServer<{A}>, ")
role("role_voprf_evaluate", "BlindedElement", "let _ = s.blind_evaluate(r, x);", R + "s: &VoprfServer<{A}>, ")
role("role_poprf_evaluate", "BlindedElement", "let _ = s.blind_evaluate(r, x, None);", R + "s: &PoprfServer<{A}>, ")
role("role_oprf_finalize", "EvaluationElement", "let _ = c.finalize(i, x);", "c: &OprfClient<{A}>, i: &[u8], ")
role("role_voprf_finalize", "EvaluationElement", "let _ = c.finalize(i, x, p, k);", "c: &VoprfClient<{A}>, i: &[u8], p: &Proof<{A}>, " + K)
role("role_poprf_finalize", "EvaluationElement", "let _ = c.finalize(i, x, p, k, None);", "c: &PoprfClient<{A}>, i: &[u8], p: &Proof<{A}>, " + K)
ARR = "&[%s<{A}>; 2]"
role("role_voprf_batch_finalize", "EvaluationElement", "let _ = VoprfClient::<{A}>::batch_finalize(j, c, x, p, k);", "j: &[&[u8]; 2], c: &[VoprfClient<{A}>; 2], p: &Proof<{A}>, " + K, ARR)
role("role_poprf_batch_finalize", "EvaluationElement", "let _ = PoprfClient::<{A}>::batch_finalize(j.into_iter(), c, x, p, k, None);", PBF + "c: &[PoprfClient<{A}>; 2], p: &Proof<{A}>, " + K, ARR)
role("role_voprf_batch_evaluate", "BlindedElement", "let _ = s.batch_blind_evaluate(r, x);", R + "s: &VoprfServer<{A}>, ", ARR, "alloc")
role("role_poprf_batch_evaluate", "BlindedElement", "let _ = s.batch_blind_evaluate(r, x, None);", R + "s: &PoprfServer<{A}>, ", ARR, "alloc")
role("role_voprf_prepare", "BlindedElement", "let _ = s.batch_blind_evaluate_prepare(x.iter());", "s: &VoprfServer<{A}>, ", ARR)
role("role_poprf_prepare", "BlindedElement", "let _ = s.batch_blind_evaluate_prepare(x.iter(), None);", "s: &PoprfServer<{A}>, ", ARR)
role("role_voprf_finish_blinded", "BlindedElement", "let _ = s.batch_blind_evaluate_finish(r, x.iter(), q);", R + "s: &VoprfServer<{A}>, q: &[PreparedEvaluationElement<{A}>; 2], ", ARR)
role("role_voprf_finish_prepared", "PreparedEvaluationElement", "let _ = s.batch_blind_evaluate_finish(r, b.iter(), x);", R + "s: &VoprfServer<{A}>, b: &[BlindedElement<{A}>; 2], ", ARR)
role("role_poprf_finish_blinded", "BlindedElement", "let _ = PoprfServer::<{A}>::batch_blind_evaluate_finish(r, x.iter(), q, t);", R + "q: &[PreparedEvaluationElement<{A}>; 2], t: &PoprfPreparedTweak<{A}>, ", ARR)
role("role_poprf_finish_prepared", "PreparedEvaluationElement", "let _ = PoprfServer::<{A}>::batch_blind_evaluate_finish(r, b.iter(), x, t);", R + "b: &[BlindedElement<{A}>; 2], t: &PoprfPreparedTweak<{A}>, ", ARR)
for need in EL:
    role("role_convert_" + need.lower(), need, "let _y: %s<{A}> = x.into();" % need, "", "%s<{A}>")
    role("role_compare_" + need.lower(), need, "let _ = y == x;", "y: &%s<{A}>, " % need)

# --- hash bounds of a ciphersuite ---------------------------------------------
# name, output size, block size, must be accepted
HASHES = [
    ("fits", "U32", "U64", True),
    ("fits_equal", "U64", "U64", True),
    ("fits_255", "U255", "U256", True),
    ("output_256", "U256", "U512", False),
    ("output_512", "U512", "U1024", False),
    ("longer_than_block", "U64", "U32", False),
]

HEAD = """#![allow(dead_code, unused_variables, unused_imports, clippy::all)]
use digest::core_api::BlockSizeUser;
use digest::OutputSizeUser;
use generic_array::typenum::{IsLess, IsLessOrEqual, U256};
use rand_core::{CryptoRng, RngCore};
use voprf::*;
struct S1;
struct S2;
impl CipherSuite for S1 { const ID: &'static str = "one"; type Group = p256::NistP256; type Hash = sha2::Sha256; }
impl CipherSuite for S2 { const ID: &'static str = "two"; type Group = p256::NistP256; type Hash = sha2::Sha256; }
"""

HASH_HEAD = """#![allow(dead_code, unused_variables, unused_imports, clippy::all)]
use digest::core_api::BlockSizeUser;
use digest::{FixedOutput, HashMarker, Output, OutputSizeUser, Update};
use generic_array::typenum::*;
use voprf::*;
"""


def functions(kind, feats):
    """Yields (witness, form, source)."""
    for x in W:
        if x["feature"] and x["feature"] not in feats:
            continue
        for form in ("generic", "concrete"):
            A, B = ("A", "B") if form == "generic" else ("S1", "S2")
            sub = lambda s: s.replace("{A}", A).replace("{B}", B)
            gen = ["A: CipherSuite", "B: CipherSuite"] if form == "generic" else []
            if "r: &mut R" in x["params"]:
                gen.append("R: RngCore + CryptoRng")
            where = (BOUND.format("A") + BOUND.format("B").replace("where", "")) if form == "generic" else ""
            if form == "generic" and ("compare_" in x["name"]):
                where += " <A::Group as Group>::Elem: Eq, <B::Group as Group>::Elem: Eq,"
            src = "fn %s_%s%s(%sx: %s) %s { %s }" % (x["name"], form, "<%s>" % ", ".join(gen) if gen else "", sub(x["params"]), sub(x[kind]), where, sub(x["body"]))
            yield x, form, src


def hash_src(name, out, block):
    return """mod %s {
    use super::*;
    #[derive(Clone, Default)]
    pub struct H;
    impl OutputSizeUser for H { type OutputSize = %s; }
    impl BlockSizeUser for H { type BlockSize = %s; }
    impl HashMarker for H {}
    impl Update for H { fn update(&mut self, _: &[u8]) {} }
    impl FixedOutput for H { fn finalize_into(self, _: &mut Output<Self>) {} }
    pub struct S;
    impl CipherSuite for S { const ID: &'static str = "w"; type Group = p256::NistP256; type Hash = H; }
    pub fn f(s: &OprfServer<S>, b: &BlindedElement<S>) { let _ = s.blind_evaluate(b); }
}""" % (name, out, block)


def write(feats, label):
    DIR = os.path.join(ROOT, label)
    shutil.rmtree(DIR, ignore_errors=True)
    os.makedirs(os.path.join(DIR, "src", "bin"))
    with open(os.path.join(DIR, "Cargo.toml"), "w") as f:
        f.write("""[package]
name = "witness"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
voprf = { path = %s, default-features = false, features = [%s] }
p256 = { version = "0.13", default-features = false, features = ["hash2curve", "voprf"] }
sha2 = { version = "0.10", default-features = false }
digest = "0.10"
generic-array = { version = "0.14", features = ["more_lengths"] }
rand_core = { version = "0.6", default-features = false }
""" % (json.dumps(dumper.REPO), ", ".join('"%s"' % f for f in feats)))
    lock = os.path.join(dumper.REPO, "Cargo.lock")
    if os.path.exists(lock):
        shutil.copy(lock, os.path.join(DIR, "Cargo.lock"))
    with open(os.path.join(DIR, "src", "lib.rs"), "w") as f:
        f.write("")
    maps = {}

    def emit(target, head, items):
        lines = head.rstrip("\n").split("\n")
        region = []
        for key, src in items:
            a = len(lines) + 1
            lines += src.split("\n")
            region.append((a, len(lines), key))
        lines.append("fn main() {}")
        with open(os.path.join(DIR, "src", "bin", target + ".rs"), "w") as f:
            f.write("\n".join(lines) + "\n")
        maps[target] = region

    for kind in ("good", "bad"):
        emit(kind, HEAD, [((x["name"], form), src) for x, form, src in functions(kind, feats)])
    emit("hash", HASH_HEAD, [((n, "hash"), hash_src(n, o, b)) for n, o, b, ok in HASHES])
    return DIR, maps


def forget(stamp):
    """cargo decides by modification times whether a dependency is fresh; what
    counts here is content."""
    path = os.path.join(TARGET, "analysed")
    try:
        with open(path) as f:
            if f.read() == stamp:
                return
    except OSError:
        pass
    for p in glob.glob(os.path.join(TARGET, "*", ".fingerprint", "voprf-*")):
        shutil.rmtree(p, ignore_errors=True)
    with open(path, "w") as f:
        f.write(stamp)


def compile(DIR, target):
    cmd = ["cargo", "+stable", "check", "--offline", "--quiet", "--message-format=json", "--bin", target, "--target-dir", TARGET]
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        forget(dumper.REPO + "\n" + dumper.repo_stamp())
        r = subprocess.run(cmd, cwd=DIR, env=dumper.base_env(), capture_output=True, text=True, timeout=600)
    errs, dep = [], []
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
            continue
        msg = m["message"]
        if m["target"]["name"] != target:
            dep.append(msg["message"])
            continue
        if not msg["spans"] and msg["message"].startswith(("aborting", "could not compile")):
            continue
        code = (msg["code"] or {}).get("code")
        for s in msg["spans"]:
            if s["is_primary"] or True:
                errs.append((s["line_start"], s["is_primary"], code, msg["message"]))
    if dep:
        raise dumper.BuildError("error: " + "; ".join(dep)[:1000])
    if r.returncode and not errs:
        raise dumper.BuildError(("error: " if "error" in r.stderr else "") + r.stderr[-1500:])
    return errs


def locate(errs, region):
    """(errors per region, errors outside every region)"""
    per, out = {}, []
    for line, prim, code, msg in errs:
        if not prim:
            continue
        for a, b, key in region:
            if a <= line <= b:
                per.setdefault(key, []).append((code, msg))
                break
        else:
            out.append((line, code, msg))
    return per, out


FEATS = {"none": [], "all": ["alloc", "std", "danger", "serde", "ristretto255"]}


CLIENTS = ["OprfClient", "VoprfClient", "PoprfClient"]
SERVERS = ["OprfServer", "VoprfServer", "PoprfServer"]
MESSAGES = ["BlindedElement", "PreparedEvaluationElement", "EvaluationElement", "Proof"]
ROLES = CLIENTS + SERVERS + ["PoprfPreparedTweak"] + MESSAGES


def roles(cx, i, d=0):
    """Role types (with their suite argument) occurring in a type."""
    out = set()
    if i is None or d > 10:
        return out
    t = cx.cfg.T[i]
    args = [a for a in t.get("a", []) if isinstance(a, int)]
    if t["k"] == "adt" and t["p"].startswith("voprf::"):
        n = t["p"].split("::")[-1]
        if n in ROLES:
            return {(n, args[0] if args else None)}
        a = cx.cfg.adts.get(t["p"])
        for v in a["variants"] if a else []:
            for f in v["f"]:
                # the field types are stated over the structure's own parameters
                out |= {(n, args[0] if args else s) for n, s in roles(cx, f["t"], d + 1)}
    if isinstance(t.get("e"), int):
        out |= roles(cx, t["e"], d + 1)
    for x in args:
        out |= roles(cx, x, d + 1)
    return out


def conversions(cx, rep):
    """No public function turns a value of one role into another role's type
    (except the server's evaluation), or one suite's value into another's;
    no role type can be put together from its parts."""
    n = 0
    for r in cx.cfg.D["roots"]:
        if "::tests" in r["p"] or "::tests" in r["pretty"] or not r["exported"]:
            continue
        ins = set().union(*[roles(cx, x) for x in r["in"]]) if r["in"] else set()
        outs = roles(cx, r["out"])
        if not ins or not outs:
            continue
        n += 1
        i, o = {x for x, _ in ins}, {x for x, _ in outs}
        why = None
        states = set(ROLES) - set(MESSAGES)
        for x in sorted(o & states):
            if x == "PoprfPreparedTweak" and i & states <= {"PoprfServer", "PoprfPreparedTweak"}:
                continue
            if i - {x}:
                why = "turns a %s into a %s" % (", ".join(sorted(i - {x})), x)
        for x in sorted(o & set(MESSAGES) - i):
            if i & set(MESSAGES) and not i & set(SERVERS):
                why = "turns a %s into a %s without a server" % (", ".join(sorted(i & set(MESSAGES))), x)
        if "PreparedEvaluationElement" in o and i & {"EvaluationElement"} and "PreparedEvaluationElement" not in i:
            why = "turns an EvaluationElement into a PreparedEvaluationElement"
        if len({s for _, s in ins | outs}) > 1:
            why = why or "mixes values of different suites"
        rep.ob("no conversion between roles, modes or suites", r["pretty"], why)
    for p, a in cx.cfg.adts.items():
        if a["exported"] and p.startswith("voprf::") and p.split("::")[-1] in ROLES:
            fs = [f for v in a["variants"] for f in v["f"] if f["t"] is not None]
            bad = fs and all(f.get("exported", f.get("pub")) for f in fs)
            rep.ob("role types cannot be put together", p.split("::")[-1], "every field is public, so the value of another role can be wrapped into it" if bad else None, a["span"])
    rep.floor("role types cannot be put together", 11)


def check_C23(cx, rep):
    feats = FEATS[cx.name]
    d, maps = write(feats, cx.name)
    desc = {x["name"]: x for x in W}

    def outside(what, out):
        rep.ob("no stray error", what, None if not out else "%s %s" % (out[0][1], out[0][2][:300]))

    def show(s):
        return s.replace("{A}", "A").replace("{B}", "B")

    good, gout = locate(compile(d, "good"), maps["good"])
    outside("correct programs", gout)
    for a, b, key in maps["good"]:
        x, es = desc[key[0]], good.get(key)
        rep.fn(re.sub(r"^.*?([\w:<>{}]+)\(.*$", r"\1", show(x["body"])))
        rep.ob("correct twin compiles (%s)" % key[1], "%s with %s" % (key[0], show(x["good"])), None if not es else "`%s` is rejected: %s %s" % (show(x["body"]), es[0][0], es[0][1][:300]))
    bad, bout = locate(compile(d, "bad"), maps["bad"])
    outside("violating programs", bout)
    for a, b, key in maps["bad"]:
        x, es = desc[key[0]], bad.get(key)
        if not es:
            why = "%s: `%s` is accepted with %s of type %s" % (x["what"], show(x["body"]), "x", show(x["bad"]))
        elif not any(c in CODES for c, m in es):
            why = "%s is rejected, but not as a type mismatch: %s %s" % (x["what"], es[0][0], es[0][1][:200])
        else:
            why = None
        rep.ob("rejected as a type mismatch (%s)" % key[1], "%s with %s" % (key[0], show(x["bad"])), why)
    hs, hout = locate(compile(d, "hash"), maps["hash"])
    outside("suites with dummy hashes", hout)
    for n, o, b, ok in HASHES:
        es = hs.get((n, "hash"))
        why = None
        if ok and es:
            why = "rejected: %s" % es[0][1][:300]
        elif not ok and not es:
            why = "the suite is accepted by the compiler (IsLess<U256> + IsLessOrEqual<BlockSize> are implemented for every pair of lengths and do not require the comparison to be true)"
        rep.ob("hash length bound", "impl CipherSuite with hash output %s and block %s" % (o, b), why, "src/ciphersuite.rs:CipherSuite")
    conversions(cx, rep)
    rep.floor("rejected as a type mismatch (generic)", 95)
    rep.floor("rejected as a type mismatch (concrete)", 95)
