"""The checks, one function per property: check_Cnn(cx, rep) inspects one
configuration (cx) and reports its obligations."""
import re

import backend
import dump as dumper
import relate
import spec as spec_mod
import terms
from compare import *
from core import *
from facets import *
from spec import *

CL = ("OprfClient", "VoprfClient", "PoprfClient")
SV = ("OprfServer", "VoprfServer", "PoprfServer")


class Cx:
    """One configuration with everything derived from it."""

    def __init__(self, name):
        self.name = name
        self.cfg = Cfg(name)
        self.spec = Spec(self.cfg)
        self._f = {}
        self._d = {}

    @property
    def full(self):
        return self.name in ("all", "release", "test")

    @property
    def danger(self):
        return "danger" in dumper.features(self.name)

    @property
    def alloc(self):
        return "alloc" in dumper.features(self.name)

    def has(self, f):
        return f in dumper.features(self.name)

    def where(self, root):
        return "%s (%s)" % (root.r["span"], root.name)

    def facets(self, key):
        """(root, misses) of a specified function; None when it does not exist."""
        if key not in self._f:
            fn = self.spec.fns[key]
            root = self.cfg.run_inh(key[0], key[1], fn.params)
            self._f[key] = None if root is None else (root, compare_fn(self.spec, root, fn))
        return self._f[key]

    def keys(self, pred):
        return [k for k in self.spec.fns if "inner" not in k[1] and pred(k[0].split("::")[-1], k[1])]

    def exists(self, key):
        """Whether the configuration is documented to have the function."""
        t, f = key[0].split("::")[-1], key[1]
        if f == "deterministic_blind_unchecked":
            return self.danger
        if f == "batch_blind_evaluate":
            return self.alloc
        return True

    def decoders(self):
        """{type: (serialize root, deserialize root)} of the nine wire types."""
        if not self._d:
            for p in WIRE:
                self._d[p] = (self.cfg.run_inh(p, "serialize", ["self"]), self.cfg.run_inh(p, "deserialize", ["input"]))
        return self._d


def name(key):
    return key[0].split("::")[-1] + "::" + key[1]


def spec_check(cx, rep, keys, relevant, kind):
    """Every function against its specification; misses that bear on the property
    (relevant(key, miss, root, fn)) are violations."""
    for key in keys:
        fx = cx.facets(key)
        if fx is None:
            if cx.exists(key):
                rep.ob(kind, name(key), "the function does not exist in this configuration")
            continue
        root, misses = fx
        rep.fn(root.name)
        bad = [m for m in misses if m.facet == "stop" or relevant(key, m, root, cx.spec.fns[key])]
        rep.ob(kind, name(key), None if not bad else "; ".join("%s%s: %s" % (m.facet, "(" + m.comp + ")" if m.comp else "", m.detail) for m in bad[:3]),
               cx.where(root))


# ------------------------------------------------------------------ helpers
def is_client_final(t, f):
    return t in CL and f in ("finalize", "batch_finalize")


def verifiable(t):
    return t[0] in "VP"


def is_proving(t, f):
    return t in SV and verifiable(t) and f in ("blind_evaluate", "batch_blind_evaluate", "batch_blind_evaluate_finish")


def has_kind(m, kind):
    """kind:<expected>/<found> facets in which `kind` takes part."""
    return m.facet.startswith("kind:") and kind in m.facet[5:].split("/")


def values_of(cx, key, root):
    """(found, specified) values of a function over all cases, as lists of terms."""
    out = []
    for cond, d in cx.spec.fns[key].cases:
        out.append((restrict(cond, root.v), build(cx.spec, d)))
    return out


def hashes(v, ops=("H", "H2S", "H2G")):
    return terms.subterms(v, lambda x: x.op in ops)


def unblinded(v):
    """Elements whose encodings enter the output hash."""
    out = set()
    for x in terms.subterms(v, lambda y: y.op == "H"):
        for y in (x.args[0].args if x.args[0].op == "cat" else (x.args[0],)):
            if isinstance(y, T) and y.op == "ser_e" and x.args[0].op == "cat" and x.args[0].args[-1].op == "bytes" and x.args[0].args[-1].args[0].endswith(b"Finalize"):
                out.add(y.args[0])
    return out


# ------------------------------------------------------------------ C01 .. C15
def check_C01(cx, rep):
    def rel(key, m, root, fn):
        if m.facet in ("accepts:ProofVerification", "accepts:Batch") and not m.comp:
            return True
        if has_kind(m, "ProofVerification"):
            return True
        if m.facet in ("count",):
            return True
        if m.facet == "val":
            # only when other elements than the verified ones are unblinded
            return any(unblinded(a) != unblinded(b) for a, b in values_of(cx, key, root))
        return False

    spec_check(cx, rep, cx.keys(lambda t, f: is_client_final(t, f) and verifiable(t)), rel, "outputs only behind the proof check")
    rep.floor("outputs only behind the proof check", 4)


def check_C02(cx, rep):
    def rel(key, m, root, fn):
        return m.facet == "accepts:ProofVerification" or m.facet == "panics" or has_kind(m, "ProofVerification") or (
            m.facet.startswith("refuses:") and not m.comp)

    spec_check(cx, rep, cx.keys(lambda t, f: is_client_final(t, f) and verifiable(t)), rel, "acceptance condition is the DLEQ equation")
    rep.floor("acceptance condition is the DLEQ equation", 4)
    backend.check_methods(cx, rep, ("base_elem",), "generator")


def check_C03(cx, rep):
    misses = []
    for key in cx.keys(lambda t, f: verifiable(t) and (is_proving(t, f) or is_client_final(t, f) or f.startswith("new") or f == "get_public_key" or f.endswith("prepare") or f == "blind")):
        fx = cx.facets(key)
        if fx and fx[1]:
            misses.append((key, fx))
    rel = relate.Rel(cx.cfg, cx.spec)
    try:
        res = relate.proof_accepted(rel, cx.alloc)
    except (Stop, relate.Missing) as e:
        res = [("honest run", str(e))]
    for lab, bad in res:
        if bad is not None and not misses:
            bad = None  # every function equals its specification, for which the relation is a theorem
        if bad is not None:
            bad += "; " + "; ".join("%s: %s" % (name(k), fx[1][0]) for k, fx in misses[:3])
        rep.ob("honest proof accepted", lab, bad)
    for key in cx.keys(lambda t, f: verifiable(t) and (is_proving(t, f) or is_client_final(t, f))):
        fx = cx.facets(key)
        if fx:
            rep.fn(fx[0].name)
            # an honest run must not fail for any other reason on the server either
            bad = [m for m in fx[1] if m.facet in ("stop", "panics") or (m.facet.startswith("refuses:") and is_proving(*key_tf(key)))]
            rep.ob("no unspecified failure while proving or verifying", name(key), None if not bad else repr(bad[0]), cx.where(fx[0]))
    rep.floor("honest proof accepted", 9)


def key_tf(key):
    return key[0].split("::")[-1], key[1]


def check_C04(cx, rep):
    def rel(key, m, root, fn):
        if is_proving(*key_tf(key)):
            if m.facet == "val" and m.comp.startswith("proof"):
                return True
            return m.facet in ("accepts:Batch", "count", "panics", "refuses:Batch")
        return m.facet in ("accepts:ProofVerification", "refuses:ProofVerification", "accepts:Batch", "panics", "refuses:Batch")

    spec_check(cx, rep, cx.keys(lambda t, f: verifiable(t) and (is_proving(t, f) or is_client_final(t, f))), rel,
               "composites bind every pair")
    rep.floor("composites bind every pair", 8)


def check_C05(cx, rep):
    def rel(key, m, root, fn):
        if m.facet in ("accepts:Batch", "count", "panics", "refuses:Batch") or has_kind(m, "Batch"):
            return True
        if m.facet.startswith("refuses:") and not m.comp:
            return m.facet == "refuses:Batch"
        return m.comp.endswith("[]") and (m.facet == "val" or m.facet.startswith("refuses") or m.facet.startswith("accepts"))

    spec_check(cx, rep, cx.keys(lambda t, f: "batch" in f), rel, "batch sizes and order")
    rep.floor("batch sizes and order", 6 if not cx.alloc else 8)


def check_C06(cx, rep):
    keys = cx.keys(lambda t, f: f in ("blind", "finalize", "batch_finalize", "evaluate", "blind_evaluate") or "batch_blind" in f)
    misses = []
    for key in keys:
        fx = cx.facets(key)
        if fx:
            rep.fn(fx[0].name)
            if fx[1]:
                misses.append((key, fx))
    rel = relate.Rel(cx.cfg, cx.spec)
    for kind, run in (("same output as direct evaluation", lambda: relate.same_output(rel, cx.alloc)),
                      ("absent info equals empty info", lambda: relate.absent_is_empty(rel))):
        try:
            res = run()
        except (Stop, relate.Missing) as e:
            res = [("composition", str(e))]
        for lab, bad in res:
            if bad is not None and not misses:
                bad = None
            if bad is not None and misses:
                bad += "; " + "; ".join("%s: %s" % (name(k), fx[1][0]) for k, fx in misses[:3])
            rep.ob(kind, lab, bad)
    rep.floor("same output as direct evaluation", 12)
    rep.floor("absent info equals empty info", 5)
    backend.check_methods(cx, rep, ("invert_scalar",), "inversion")


def check_C07(cx, rep):
    def rel(key, m, root, fn):
        if m.facet == "stop":
            return True
        if m.facet == "count":
            return True
        if m.facet == "val":
            return not m.comp.startswith("proof") and not m.comp.startswith("prepared_tweak")
        return False

    keys = cx.keys(lambda t, f: t in SV and "blind_evaluate" in f)
    spec_check(cx, rep, keys, rel, "elements are multiplied by the server key")
    misses = [k for k in keys if cx.facets(k) and cx.facets(k)[1]]
    try:
        res = relate.same_elements(relate.Rel(cx.cfg, cx.spec), cx.alloc)
    except (Stop, relate.Missing) as e:
        res = [("composition", str(e))]
    for lab, bad in res:
        rep.ob("all interfaces return the same elements", lab, bad if misses else None)
    rep.floor("elements are multiplied by the server key", 7)


def check_C30(cx, rep):
    keys = cx.keys(lambda t, f: f in ("blind", "finalize", "batch_finalize", "new", "new_from_seed") or "blind" in f and t in CL + SV)
    misses = []
    for key in keys:
        fx = cx.facets(key)
        if fx:
            rep.fn(fx[0].name)
            if fx[1]:
                misses.append((key, fx))
    lost = "; ".join("%s: %s" % (name(k), fx[1][0]) for k, fx in misses[:3])
    dk = cx.cfg.free.get("derive_key")
    if dk:
        r = cx.cfg.run(dk[0], ["seed", "info", "mode"])
        if r.fail or compare(cx.spec, r.pc, r.v, cx.spec.derive_key()):
            lost = (lost + "; " if lost else "") + "derive_key differs from the derivation of the servers' keys"
    try:
        res = relate.interfaces(relate.Rel(cx.cfg, cx.spec), cx.alloc)
    except (Stop, relate.Missing) as e:
        res = [("composition", str(e))]
    for lab, bad in res:
        if bad is not None and not lost:
            bad = None  # all equal their specifications, for which the relation is a theorem
        rep.ob("interfaces agree", lab, None if bad is None else bad + "; " + lost)
    rep.floor("interfaces agree", 9)


def check_C08(cx, rep):
    spec_check(cx, rep, cx.keys(lambda t, f: t in ("PoprfServer", "PoprfClient") and ("evaluate" in f or "finalize" in f)),
               lambda key, m, root, fn: not (m.facet.startswith("kind:") or m.facet in ("accepts:Input", "refuses:Input", "accepts:Batch", "refuses:Batch"))
               or has_kind(m, "Protocol") or has_kind(m, "Info"),
               "info is bound")
    rep.floor("info is bound", 6)
    backend.check_methods(cx, rep, ("is_zero_scalar", "identity_elem"), "zero and identity tests")
    backend.check_identity_default(cx, rep)


def label_sigs(v):
    """{(operation, tag, constant labels of the message)} of all hashes in v."""
    out = set()
    for x in hashes(v):
        msg = x.args[0]
        parts = msg.args if msg.op == "cat" else (msg,)
        labels = tuple(p.args[0].rstrip(b"\0") for p in parts if isinstance(p, T) and p.op == "bytes" and any(48 <= c < 123 for c in p.args[0]))
        labels = tuple(re.sub(rb"[\x00-\x1f]+", b"", l) for l in labels)
        out.add((x.op, show(x.args[1]) if x.op != "H" else "", labels))
    return out


def check_C09(cx, rep):
    def rel(key, m, root, fn):
        if m.facet == "stop":
            return True
        # the code may arrange its (infeasible) branches differently: only when a
        # comparison failed are the tags compared
        return any(label_sigs(a) != label_sigs(b) or tags(a) != tags(b) for a, b in values_of(cx, key, root))

    def tags(v):
        return {(x.op, x.args[1]) for x in hashes(v, ("H2S", "H2G"))}

    spec_check(cx, rep, cx.keys(lambda t, f: f not in ("get_public_key", "new_with_key")), rel, "hash tags")
    r = cx.cfg.free.get("derive_key")
    if r:
        derive_check(cx, rep, "hash tags", lambda m: m.facet in ("stop", "val") or m.facet.startswith(("accepts:Protocol", "refuses:Protocol")))
    # the suite constants and the mode numbers
    r = cx.cfg.inh.get(("voprf::common::Mode", "to_u8"))
    if r:
        x = cx.cfg.run(r[0], ["m"])
        m = mk("var", "m")
        bad = None
        for i, v in enumerate(("Oprf", "Voprf", "Poprf")):
            vs = [w["n"] for w in cx.cfg.adts["voprf::common::Mode"]["variants"]]
            if v not in vs:
                bad = "no mode " + v
                continue
            k = vs.index(v)
            only = and_(*[bvar(mk("isvar", m, j)) if j == k else not_(bvar(mk("isvar", m, j))) for j in range(len(vs))])
            d = diff(only, x.v, num(i))
            if d is not None:
                bad = "mode %s has number %s" % (v, short(d.a))
        rep.ob("mode numbers", "Mode::to_u8", bad, cx.where(x))
    suite_consts(cx, rep)
    rep.floor("hash tags", 18)
    backend.check_methods(cx, rep, ("hash_to_curve", "hash_to_scalar"), "backends hash the whole message and tag")
    rep.floor("mode numbers", 1)


def suite_consts(cx, rep):
    """Every CipherSuite implementation of the library takes its identifier, group
    and hash from where the suite says."""
    cfg = cx.cfg
    for i in cfg.D["impls"]:
        if i.get("tr") != "voprf::ciphersuite::CipherSuite":
            continue
        t = cfg.T[i["self"]]
        bad = []
        cs = [c for c in cfg.D["consts"] if c["p"] == i["p"] + "::ID"]
        ty = i["types"]
        if t["k"] == "adt" and t["p"].endswith("Ristretto255"):
            nm = "Ristretto255"
            val = bytes.fromhex(cs[0]["val"]["bytes"]) if cs and cs[0].get("val") and "bytes" in cs[0]["val"] else None
            if val != b"ristretto255-SHA512":
                bad.append("identifier is %r" % val)
            if cfg.T[ty["Group"]] != t:
                bad.append("group is " + show_ty(cfg, ty["Group"]))
            hn = show_ty(cfg, ty["Hash"])
            if "Sha512VarCore" not in hn or "UInt" not in hn:
                bad.append("hash is " + hn)
        elif t["k"] == "param":
            nm = "the curve parameters"
            v = cfg.run(cs[0], None).v if cs and "key" in cs[0] else None
            if v is None or v.op != "kst" or v.args[0] != "elliptic_curve::voprf::VoprfParameters::ID":
                bad.append("identifier is " + (short(v) if v is not None else "not found"))
            if ty["Group"] != i["self"]:
                bad.append("group is " + show_ty(cfg, ty["Group"]))
            h = cfg.T[ty["Hash"]]
            if not (h["k"] == "proj" and h["p"] == "elliptic_curve::voprf::VoprfParameters::Hash" and h["a"] == [i["self"]]):
                bad.append("hash is " + show_ty(cfg, ty["Hash"]))
        else:
            nm = show_ty(cfg, i["self"])
            bad.append("unknown suite")
        rep.ob("suite identifiers", "CipherSuite for " + nm, "; ".join(bad) or None, i["span"])
    rep.floor("suite identifiers", 1 + (1 if cx.has("ristretto255-ciphersuite") else 0))


def show_ty(cfg, i, d=0):
    if i is None or d > 6:
        return "?"
    t = cfg.T[i]
    if t["k"] == "adt":
        return t["p"] + ("<" + ",".join(show_ty(cfg, a, d + 1) for a in t.get("a", []) if isinstance(a, int)) + ">" if t.get("a") else "")
    if t["k"] == "proj":
        return "<%s>::%s" % (",".join(show_ty(cfg, a, d + 1) for a in t.get("a", []) if isinstance(a, int)), t["n"])
    return str(t.get("n", t["k"]))


def derive_check(cx, rep, kind, relevant):
    rs = cx.cfg.free.get("derive_key")
    if not rs:
        return
    r = cx.cfg.run(rs[0], ["seed", "info", "mode"])
    rep.fn(r.name)
    if r.fail:
        ms = [Miss("stop", r.fail)]
    else:
        ms = compare(cx.spec, r.pc, r.v, cx.spec.derive_key())
        if diff(not_(r.pc), TRUE, FALSE) is not None:
            ms.append(Miss("panics", "does not return"))
    bad = [m for m in ms if m.facet == "stop" or relevant(m)]
    rep.ob(kind, "derive_key", None if not bad else repr(bad[0]), cx.where(r))


def frame_sigs(v):
    """Hash messages with every encoded value replaced by a placeholder: what is
    left is the framing."""
    out = set()
    for x in hashes(v):
        parts = x.args[0].args if x.args[0].op == "cat" else (x.args[0],)
        s = []
        for p in parts:
            if not isinstance(p, T):
                s.append(str(p))
            elif p.op in ("ser_e", "ser_s", "H"):
                s.append(p.op)
            elif p.op == "bytes":
                s.append(p.args[0])
            elif p.op == "be":
                s.append("be%d(%s)" % (p.args[0], show(p.args[1])))
            else:
                s.append(show(p))
        out.add((x.op, tuple(s)))
    return out


def check_C10(cx, rep):
    def rel(key, m, root, fn):
        for k in ("Input", "Info", "DeriveKeyPair"):
            if m.facet in ("accepts:" + k, "refuses:" + k) or has_kind(m, k):
                if k != "Input" or not only_ident(cx, key, m, root):
                    return True
        if m.facet == "panics":
            return True
        if m.facet == "val" or m.facet.startswith(("accepts:", "refuses:")):
            return any(frame_sigs(a) != frame_sigs(b) for a, b in values_of(cx, key, root))
        return False

    spec_check(cx, rep, cx.keys(lambda t, f: f not in ("get_public_key", "new_with_key")), rel, "framing and length limits")
    derive_check(cx, rep, "framing and length limits", lambda m: True)
    rep.floor("framing and length limits", 18)
    backend.check_methods(cx, rep, ("hash_to_curve", "hash_to_scalar"), "backends hash the whole message and tag")


def only_ident(cx, key, m, root):
    """Whether an Input facet concerns only inputs that hash to the identity."""
    if "accepts" not in m.facet:
        return False
    for cond, d in cx.spec.fns[key].cases:
        if not isinstance(d, Exp):
            continue
        v = restrict(cond, root.v)
        okr = and_(root.pc, cond, cond_of(v, is_ok))
        if diff(and_(okr, too_long(mk("var", "input"))), TRUE, FALSE) is not None:
            return False
    return True


def check_C11(cx, rep):
    spec_check(cx, rep, cx.keys(lambda t, f: f.startswith("new") or f == "get_public_key"),
               lambda key, m, root, fn: True, "key derivation and key pairs")
    derive_check(cx, rep, "key derivation and key pairs", lambda m: True)
    rep.floor("key derivation and key pairs", 11)
    backend.check_methods(cx, rep, ("base_elem", "is_zero_scalar"), "generator and zero test")


def check_C12(cx, rep):
    def rel(key, m, root, fn):
        return m.facet in ("val", "panics") and (not is_proving(*key_tf(key)) or m.comp.startswith("proof"))

    keys = cx.keys(lambda t, f: f == "blind" or f == "new" or is_proving(t, f))
    spec_check(cx, rep, keys, rel, "drawn scalars and where they go")
    for key in keys:
        fx = cx.facets(key)
        if fx is None or fx[0].fail:
            continue
        root = fx[0]
        fn = cx.spec.fns[key]
        i = fn.params.index("rng")
        start = mk("var", "rng")
        after = root.after(i)
        bad = None
        # every draw comes from the generator given, and the generator advances
        # by exactly one draw when the call succeeds
        op = fn.draws[0][0]
        want = mk("nextrng", op, start) if op == "rnd" else mk("nextrng", op, SCAL, start)
        okr = and_(root.pc, cond_of(root.v, lambda x: not is_err(x)))
        if after is None:
            bad = "the generator is not advanced"
        else:
            x = diff(okr, after, want)
            if x is not None:
                bad = "after the call the generator is %s instead of having served one draw; when %s" % (short(x.a), short_when(x))
        seen = set()
        for t_ in terms.subterms(root.v, lambda y: y.op.startswith("rnd")):
            seen.add(t_.op)
            if t_.args[-1] is not start:
                bad = "draws from %s instead of the caller's generator" % short(t_.args[-1])
        ops = [e for e in root.I.events if e[0] == "draw"]
        if not ops:
            bad = "draws nothing"
        rep.ob("one draw from the caller's generator", name(key), bad, cx.where(root))
    # no other function takes randomness from anywhere
    for key in cx.keys(lambda t, f: True):
        fx = cx.facets(key)
        if fx is None or fx[0].fail or key in keys:
            continue
        ops = [e for e in fx[0].I.events if e[0] == "draw"]
        rep.ob("deterministic", name(key), None if not ops else "draws from a generator", cx.where(fx[0]))
    backend.check_methods(cx, rep, ("random_scalar",), "sampling of scalars")
    rep.floor("drawn scalars and where they go", 10 if not cx.alloc else 12)


# -- decoding
def is_bytes_of(t, base):
    """t is a slice of base: (offset, length)."""
    if t is base:
        return ZERO, blen(base)
    if t.op == "sl" and t.args[0] is base:
        return t.args[1], t.args[2]
    return None


def decoded_leaves(cfg, path, v):
    """[(kind, field path, term)] of the scalars and elements inside a value."""
    out = []
    for i in range(cfg.nfields(path)):
        k = cfg.fkind(path, i)
        x = fld(v, 0, i)
        if k in ("scalar", "elem"):
            out.append((k, cfg.fname(path, i), x))
        elif k in cfg.adts:
            out += [(a, cfg.fname(path, i) + "." + b, c) for a, b, c in decoded_leaves(cfg, k, x)]
    return out


def decoder_misses(cx, path):
    """How <path>::deserialize departs from: every field is the validated decoding
    of a slice of the input of exactly its encoding's length, and decoding
    fails, with the deserialization error, exactly when the input is too short
    for these slices or one of them does not decode."""
    s, d = cx.decoders()[path]
    if d is None:
        return None, [Miss("stop", "no deserialize")]
    if d.fail:
        return d, [Miss("stop", d.fail)]
    out = []
    V = mk("var", "input")
    okr = and_(d.pc, cond_of(d.v, is_ok))
    if diff(not_(d.pc), TRUE, FALSE) is not None:
        out.append(Miss("panics", "does not return"))
    pay = restrict(okr, ap(lambda x: x.args[2] if is_ok(x) else terms.BOT, d.v))
    need, good = ZERO, TRUE
    if feasible(okr) is None:
        return d, out + [Miss("refuses:Deserialization", "never succeeds")]
    for lf in set(leaves(pay)):
        if lf is terms.BOT:
            continue
        for kind, fname, x in decoded_leaves(cx.cfg, path, lf):
            ch = kind[0]
            want_op = "dec_" + ch
            n = ELEM if ch == "e" else SCAL
            if ch == "e" and x.op != want_op and derived_public(x):
                continue
            if x.op != want_op:
                out.append(Miss("val", "field %s is %s, not a validated decoding" % (fname, short(x)), fname))
                continue
            b = is_bytes_of(x.args[0], V)
            if b is None:
                out.append(Miss("val", "field %s is decoded from %s, not from the input" % (fname, short(x.args[0])), fname))
                continue
            y = diff(okr, b[1], n)
            if y is not None:
                out.append(Miss("val", "field %s is decoded from %s bytes instead of %s" % (fname, show(b[1]), show(n)), fname))
            end = add(b[0], b[1])
            need = end if diff(TRUE, TRUE, le(end, need)) is not None else need
            good = and_(good, le(end, blen(V)), bvar(mk("ok", ch, x.args[0])))
    if not any(m.facet in ("val", "stop") for m in out):
        y = diff(okr, good, TRUE)
        if y is not None:
            out.append(Miss("accepts:Deserialization", "succeeds although a field does not decode; when " + short_when(y)))
        bad = and_(d.pc, cond_of(d.v, is_err))
        y = diff(and_(bad, good), TRUE, FALSE)
        if y is not None:
            out.append(Miss("refuses:Deserialization", "fails although every field decodes; when " + short_when(y)))
    for lf in set(leaves(d.v)):
        if is_err(lf) and lf.args[2] is not error(cx.spec, "Deserialization"):
            reg = and_(d.pc, cond_of(d.v, lambda z: z is lf))
            if feasible(reg) is not None:
                out.append(Miss("kind:Deserialization/%s" % kind_of(cx.spec, lf.args[2]), "fails with %s" % short(lf.args[2])))
        elif lf is not terms.BOT and not is_ok(lf) and not is_err(lf):
            out.append(Miss("val", "not a Result: " + short(lf)))
    return d, out


def derived_public(x):
    return x.op == "el" and x.args[0] is GEN


def check_C13(cx, rep):
    for p in WIRE:
        d, ms = decoder_misses(cx, p)
        if d:
            rep.fn(d.name)
        bad = [m for m in ms]
        rep.ob("decoder validates every field", p.split("::")[-1] + "::deserialize", None if not bad else repr(bad[0]), d and cx.where(d))
    spec_check(cx, rep, cx.keys(lambda t, f: f == "new_with_key"),
               lambda key, m, root, fn: m.facet in ("accepts:Deserialization", "refuses:Deserialization", "panics") or has_kind(m, "Deserialization")
               or m.facet == "val", "key bytes are validated")
    backend.check_decoding(cx, rep)
    import serdes
    serdes.check_decoding(cx, rep)
    rep.floor("decoder validates every field", 9)
    rep.floor("key bytes are validated", 3)


def check_C14(cx, rep):
    for p in WIRE:
        s, d = cx.decoders()[p]
        nm = p.split("::")[-1]
        if s is None or d is None:
            rep.ob("decode inverts encode", nm, "serialize or deserialize does not exist")
            continue
        rep.fn(s.name)
        rep.fn(d.name)
        bad = None
        if s.fail or d.fail:
            bad = s.fail or d.fail
        lay = layout(s.v) if not bad else None
        if not bad and (lay is None or s.pc is not TRUE):
            bad = "serialize is not a concatenation of fixed-length encodings: " + short(s.v)
        if not bad:
            # total length
            total = add(*[ELEM if k == "e" else SCAL for k, _ in lay]) if lay else ZERO
            fields = decoded_leaves(cx.cfg, p, mk("var", "self"))
            have = {x for _, x in lay}
            for k, fname, x in fields:
                if x not in have:
                    bad = "field %s is not written" % fname
            if len(lay) != len(fields):
                bad = bad or "%d encodings for %d fields" % (len(lay), len(fields))
        if not bad:
            good, m = decoder(cx.cfg, p, lay)
            pay = ap(lambda x: x.args[2] if is_ok(x) else terms.BOT, d.v)
            okr = and_(d.pc, cond_of(d.v, is_ok))
            x = diff(and_(okr, good), restrict(okr, pay), rebuild_fields(cx.cfg, p, mk("var", "self"), m))
            if x is not None:
                bad = "serialized bytes decode to %s instead of %s" % (short(x.a), short(x.b))
            # the serialized bytes of any value decode
            if bad is None:
                x = diff(and_(d.pc, good), okr, TRUE)
                if x is not None:
                    bad = "serialized bytes are refused when " + short_when(x)
        rep.ob("decode inverts encode", nm, bad, "%s; %s" % (cx.where(s), d and cx.where(d)))
    rep.floor("decode inverts encode", 9)
    backend.check_decoding(cx, rep)


def check_C15(cx, rep):
    import serdes
    serdes.check(cx, rep)
    backend.check_decoding(cx, rep)


# ------------------------------------------------------------------ C21, C24
def check_C21(cx, rep):
    spec_check(cx, rep, cx.keys(lambda t, f: True),
               lambda key, m, root, fn: m.facet.startswith(("accepts:", "refuses:", "kind:")) or m.facet == "panics",
               "errors match their causes")
    derive_check(cx, rep, "errors match their causes", lambda m: m.facet.startswith(("accepts:", "refuses:", "kind:")) or m.facet == "panics")
    for p in WIRE:
        d, ms = decoder_misses(cx, p)
        bad = [m for m in ms if m.facet != "val"]
        rep.ob("errors match their causes", p.split("::")[-1] + "::deserialize", None if not bad else repr(bad[0]), d and cx.where(d))
    rep.floor("errors match their causes", 36)
    backend.check_methods(cx, rep, ("deserialize_elem", "deserialize_scalar", "hash_to_curve", "hash_to_scalar"), "backends report failures as documented",
                          lambda m: m.facet != "val")


def check_C24(cx, rep):
    for key in cx.keys(lambda t, f: f in ("blind", "deterministic_blind_unchecked", "evaluate") ):
        fx = cx.facets(key)
        if fx is None:
            if cx.exists(key):
                rep.ob("identity is refused", name(key), "the function does not exist")
            continue
        root, _ = fx
        rep.fn(root.name)
        bad = root.fail
        fn = cx.spec.fns[key]
        if bad is None:
            t, f = key_tf(key)
            mode = "OVP".index(t[0])
            P = H2G(mk("var", "input"), mode)
            # the element the function itself derives from the input
            own = {x for x in terms.subterms(root.v, lambda y: y.op == "H2G") if x.args[0] is mk("var", "input")}
            if len(own) == 1:
                P = own.pop()
            for cond, d in fn.cases:
                other = or_(*[c for k, c in d.errs if k != "Input"]) if len(d.errs) > 1 else FALSE
                v = restrict(cond, root.v)
                x = diff(and_(cond, is_ident(P), not_(other)), v, err(error(cx.spec, "Input")))
                if x is not None:
                    bad = "gives %s when the input hashes to the identity; when %s" % (short(x.a), short_when(x))
                x = diff(and_(cond, is_ident(P)), cond_of(v, is_ok), FALSE)
                if x is not None:
                    bad = "succeeds when the input hashes to the identity; when " + short_when(x)
                if diff(and_(cond, is_ident(P), not_(root.pc)), TRUE, FALSE) is not None:
                    bad = "does not return when the input hashes to the identity"
        rep.ob("identity is refused", name(key), bad, cx.where(root))
    rep.floor("identity is refused", 6)
    backend.check_methods(cx, rep, ("identity_elem",), "identity")
    backend.check_identity_default(cx, rep)


# ------------------------------------------------------------------ registry
from lints import *  # noqa: E402,F403  C16..C20, C22, C25
import lints  # noqa: E402
from meta import META  # noqa: E402


def check_C26(cx, rep):
    backend.check(cx, rep)


GLOBAL = {"C22": lints.global_C22}
from witness import check_C23  # noqa: E402,F401
from api import check_C32  # noqa: E402,F401
