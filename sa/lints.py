"""Rules over the whole crate: panics, wiping, secret flow, the public surface,
effects, feature independence, derived comparisons."""
import re

import backend
import dump as dumper
import terms
from compare import *
from core import *
from facets import *
from spec import *

MSGS = ("BlindedElement", "EvaluationElement", "PreparedEvaluationElement", "Proof")


def public_roots(cx):
    """Functions callable from outside the crate: exported ones and trait methods."""
    for r in cx.cfg.D["roots"]:
        if "::tests" in r["p"] or "::tests" in r["pretty"]:
            continue
        if r["exported"] or "tr" in r and r["reach"]:
            yield r


def public_names(cx, r):
    """Same parameter naming as the specification, so that runs are shared."""
    p = cx.cfg.head(r.get("implself"))
    fn = cx.spec.fns.get((p, r["n"])) if "tr" not in r else None
    return fn.params if fn else None


def at(stack, r):
    """Where in the source: innermost frame inside the crate."""
    for fr in reversed(stack):
        s = fr[1]
        if isinstance(s, str) and s.startswith("src/"):
            return s
    return r["span"]


def frames(stack):
    return " <- ".join(str(f[1]) for f in reversed(stack[-5:]))


# ------------------------------------------------------------------ C16
MAY_PANIC = {
    "unwrap", "expect", "unwrap_err", "expect_err", "index", "index_mut", "split_at", "split_at_mut", "copy_from_slice", "clone_from_slice",
    "swap", "rotate_left", "rotate_right", "swap_remove", "remove", "insert", "drain", "split_off", "truncate_front", "chunks", "chunks_exact",
    "windows", "step_by", "div", "rem", "div_assign", "rem_assign", "pow", "abs", "copy_within", "swap_with_slice", "select_nth_unstable",
    "from_exact_iter_unchecked", "to_encoded_point_unchecked", "panic_fmt", "panic", "assert_failed", "unreachable", "todo",
    "unwrap_failed", "expect_failed", "slice_index_fail", "borrow", "borrow_mut", "with_capacity", "reserve", "div_ceil", "next_multiple_of", "ilog2", "ilog10",
    "from_digit", "duration_since", "get_or_insert_with_panic", "exit", "abort", "begin_panic",
}


def inverted_ok(cx, root, x, pc):
    """The argument of an inversion is not zero: established by a branch, or a
    stored scalar of a state (drawn non-zero, validated when decoded: C12, C13),
    or a fresh non-zero draw."""
    if diff(and_(pc, is_zero(x)), TRUE, FALSE) is None:
        return True
    for lf in set(leaves(x)):
        if lf is terms.BOT:
            continue
        y = lf
        while y.op == "fld":
            y = y.args[0]
        if y is not lf and (y.op == "var" or (y.op == "sel" and root_var(y.args[0]))):
            continue
        if lf.op in ("rnd",):
            continue
        if diff(and_(pc, cond_of(x, lambda z: z is lf), is_zero(lf)), TRUE, FALSE) is None:
            continue
        return False
    return True


def root_var(t):
    while isinstance(t, T) and (t.op in ("fld", "sel", "sl", "map", "seq") or t.op == "arr" and len(t.args) == 1):
        t = t.args[0]
    return isinstance(t, T) and t.op == "var"


def check_C16(cx, rep):
    nob = 0
    for r in public_roots(cx):
        R = cx.cfg.run(r, public_names(cx, r))
        rep.fn(R.name)
        if R.fail:
            rep.ob("every reachable panic site is unreachable", R.name, "cannot be analysed: " + R.fail, cx.where(R))
            continue
        bad, where = None, None
        for pc, kind, detail, stack in R.I.oblig:
            if feasible(pc) is None:
                continue
            why = leaf_panic(cx, R, r, pc, kind)
            if why is None:
                continue
            bad = "%s %s can happen when %s (%s)" % (kind, detail, short_pc(pc), frames(stack))
            where = at(stack, r)
            break
        for what, stack in R.I.unk:
            n = what.rsplit("::", 1)[-1]
            if n in MAY_PANIC and not what.startswith("voprf::") and bad is None:
                bad = "calls %s, which may panic, with arguments the analysis does not bound (%s)" % (what, frames(stack))
                where = at(stack, r)
            if what in ("raw pointer", "thread local", "indirect call") and bad is None:
                bad = "%s (%s)" % (what, frames(stack))
        # inversions of possibly zero scalars
        if not danger_only(r):
            for e in R.I.events:
                if e[0] == "invert" and bad is None and feasible(e[2]) is not None:
                    if not inverted_ok(cx, R, e[1][0], e[2]):
                        bad = "inverts %s, which can be zero (the NIST backend's inversion panics on it)" % short(e[1][0])
                        where = at(e[3], r)
        nob += R.I.nsites
        rep.ob("every reachable panic site is unreachable", R.name, bad, where or cx.where(R))
        if R.fail is None and not bad and "tr" not in r and diff(not_(R.pc), TRUE, FALSE) is not None:
            rep.ob("returns on every path", R.name, "does not return when " + short_pc(not_(R.pc)), cx.where(R))
    rep.notes.append("%s: %d potential panic sites (checked arithmetic, indexing, slicing, unwraps, explicit panics) evaluated along the inlined call graph" % (cx.name, nob))
    rep.floor("every reachable panic site is unreachable", 150)


# ------------------------------------------------------------------ C31
def check_C31(cx, rep):
    """Loops are bounded by a length or constant, or draw from a source the caller supplies
    (random generator, serde reader) in every pass; no call cycle in the crate."""
    n = 0
    for r in public_roots(cx):
        R = cx.cfg.run(r, public_names(cx, r))
        rep.fn(R.name)
        bad, where = None, None
        if R.fail:
            if "recursion" in R.fail:
                bad = R.fail + ": no bound on its depth is established"
            else:
                bad = "cannot be analysed: " + R.fail
        for kind, info, stack in R.I.loops:
            n += 1
            if kind in ("endless", "unbounded") and bad is None:
                bad = "a loop has no bound in the lengths of the arguments and does not draw anew in each pass (%s)" % frames(stack)
                where = at(stack, r)
        for what, stack in R.I.unk:
            if bad is None and what.startswith("core::iter::") and what.rsplit("::", 1)[-1] in ("cycle", "successors", "from_fn"):
                bad = "iterates over %s, which need not end (%s)" % (what, frames(stack))
                where = at(stack, r)
        if bad and not R.fail and matches_spec(cx, r):
            bad = None  # equal to a specification in which every repetition is bounded
        rep.ob("terminates", R.name, bad, where or cx.where(R))
    rep.notes.append("%s: %d loop executions along the inlined call graph classified" % (cx.name, n))
    rep.floor("terminates", 150)


def matches_spec(cx, r):
    key = (cx.cfg.head(r.get("implself")), r["n"])
    if "tr" in r or key not in cx.spec.fns:
        return False
    fx = cx.facets(key)
    return fx is not None and not fx[1]


def danger_only(r):
    return r["n"] in ("derive_key",)


def short_pc(pc):
    x = diff(pc, TRUE, FALSE)
    return short_when(x) if x is not None else "never"


def leaf_panic(cx, R, r, pc, kind):
    """The two panic sites whose unreachability rests on a library contract or on
    the callers (checked there); None if discharged."""
    if r.get("tr") != backend.GROUP:
        return "open"
    P0 = mk("var", "p0")
    q = backend.norm(pc)
    if r["n"] == "invert_scalar":
        some = bvar(mk("isvar", backend.A("try_invert", P0), 1))
        if diff(and_(q, some), TRUE, FALSE) is None:
            return None  # only for zero: every caller is checked
        return "open"
    if r["n"] == "serialize_elem":
        enc = backend.A("sec1_bytes", backend.A("sec1_point", P0, TRUE))
        # a compressed SEC1 encoding is at most CompressedPointSize bytes long
        for a in terms.subterms(q, lambda y: y.op == "cst"):
            if a.args[0].endswith("CompressedPointSize") and diff(and_(q, le(blen(enc), a)), TRUE, FALSE) is None:
                return None
        return "open"
    return "open"


# ------------------------------------------------------------------ C17
def is_value_type(cx, p):
    return any(k in ("scalar", "elem") or k in cx.cfg.adts and is_value_type(cx, k) for k in (cx.cfg.fkind(p, i) for i in range(cx.cfg.nfields(p))))


def value_types(cx):
    """The protocol's types, every other exported structure that directly holds a
    scalar or an element, and the structures these are made of."""
    out = []
    inner = set()
    todo = [p for p, a in cx.cfg.adts.items() if a["exported"]]
    while todo:
        p = todo.pop()
        if p in inner:
            continue
        inner.add(p)
        a = cx.cfg.adts[p]
        if a["kind"] == "Struct" and len(a["variants"]) == 1:
            todo += [k for k in (cx.cfg.fkind(p, i) for i in range(cx.cfg.nfields(p))) if k in cx.cfg.adts]
    for p, a in cx.cfg.adts.items():
        if a["kind"] != "Struct" or "::tests" in p or "{impl" in p or "::_" in p or p not in inner:
            continue
        if len(a["variants"]) != 1 or not a["variants"][0]["f"]:
            continue
        kinds = [cx.cfg.fkind(p, i) for i in range(cx.cfg.nfields(p))]
        ty = [cx.cfg.T[cx.cfg.ftype(p, i)] for i in range(cx.cfg.nfields(p))]
        if any(t["k"] == "ref" for t in ty):
            continue  # borrows: the owner wipes
        if any(k in ("scalar", "elem") for k in kinds) or (a["exported"] and p.split("::")[-1] in MSGS):
            out.append(p)
    return sorted(out)


def mentions_secret(cx, t, d=0):
    """A field type that contains Scalar or Elem behind a wrapper."""
    if d > 8:
        return False
    ty = cx.cfg.T[t]
    if ty["k"] == "proj" and ty["n"] in ("Scalar", "Elem"):
        return True
    return any(mentions_secret(cx, a, d + 1) for a in ty.get("a", []) if isinstance(a, int) and ty["k"] in ("adt", "tuple")) or (
        ty["k"] in ("array", "slice") and "e" in ty and mentions_secret(cx, ty["e"], d + 1))


def wiping_helper(cx, name):
    """A derive-generated AssertZeroize helper: its implementation wipes its argument."""
    key = name.rsplit("::", 1)
    memo = cx.__dict__.setdefault("_wipers", {})
    if name in memo:
        return memo[name]
    res = "no implementation of %s found" % name
    base = name.rsplit("::", 2)[0]
    for (tr, hd, fn), rs in cx.cfg.tr.items():
        if fn == key[1] and tr == key[0]:
            for r in rs:
                R = cx.cfg.run(r, ["self"])
                a = R.after(0) if not R.fail else None
                res = None if a is not None and a.op == "wiped" else "%s leaves its argument as %s" % (name, R.fail or (a is not None and short(a)))
    memo[name] = res
    return res


def wiped_field(cx, x, orig):
    """None when x is the wiped field, else what is wrong."""
    if x is None:
        return "is not written"
    if x.op == "wiped":
        return None
    if x.op == "after" and x.args[0] == 0 and x.args[1].op == "app" and len(x.args[1].args) >= 3 and x.args[1].args[2] is orig:
        return wiping_helper(cx, x.args[1].args[0])
    if x is SZERO or x is IDENT:
        return None
    if x is orig:
        return "keeps its value"
    return "becomes " + short(x)


def drop_misses(cx, p):
    cfg = cx.cfg
    rs = cfg.tr.get(("core::ops::drop::Drop", p, "drop"))
    out = []
    after = None
    root = None
    self_ = mk("var", "self")
    if rs:
        root = cfg.run(rs[0], ["self"])
        if root.fail:
            return root, ["Drop cannot be analysed: " + root.fail]
        after = root.after(0)
        if after is None:
            after = self_
        if diff(not_(root.pc), TRUE, FALSE) is not None:
            out.append("Drop does not return")
    for i in range(cfg.nfields(p)):
        k = cfg.fkind(p, i)
        f = cfg.fname(p, i)
        t = cfg.T[cfg.ftype(p, i)]
        if k in ("scalar", "elem"):
            if after is None:
                out.append("no Drop implementation: field %s keeps its value" % f)
                continue
            for lf in set(leaves(after)):
                if lf is terms.BOT:
                    continue
                bad = wiped_field(cx, fld(lf, 0, i), fld(self_, 0, i))
                if bad:
                    out.append("field %s %s" % (f, bad))
                    break
        elif k in cfg.adts:
            out += ["field %s: %s" % (f, m) for m in (drop_misses(cx, k)[1] if has_secret(cx, k) else [])]
        elif k.endswith("Zeroizing"):
            pass
        elif mentions_secret(cx, cfg.ftype(p, i)):
            out.append("field %s holds a scalar or element inside %s, which does not wipe it" % (f, k))
    return root, out


def has_secret(cx, p, d=0):
    return d < 6 and any(
        k in ("scalar", "elem") or (k in cx.cfg.adts and has_secret(cx, k, d + 1)) or mentions_secret(cx, cx.cfg.ftype(p, i))
        for i, k in ((i, cx.cfg.fkind(p, i)) for i in range(cx.cfg.nfields(p))))


VALUE_TYPES = ["OprfClient", "OprfServer", "VoprfClient", "VoprfServer", "PoprfClient", "PoprfServer", "PoprfPreparedTweak",
               "BlindedElement", "EvaluationElement", "PreparedEvaluationElement", "Proof"]


def check_C17(cx, rep):
    ts = value_types(cx)
    names = {p.split("::")[-1] for p in ts}
    for p in ts:
        root, bad = drop_misses(cx, p)
        if root:
            rep.fn(root.name)
        rep.ob("fields are wiped on drop", p.split("::")[-1], "; ".join(bad) or None, cx.where(root) if root else cx.cfg.adts[p]["span"])
    for n in VALUE_TYPES:
        if n not in names:
            rep.ob("fields are wiped on drop", n, "the type no longer holds its scalars or elements directly, or does not exist")
    # functions must not keep a value from being dropped
    forget(cx, rep)
    rep.floor("fields are wiped on drop", 11)


def calls(cx):
    """All call sites: (body, callee path, span)."""
    if not hasattr(cx, "_calls"):
        out = []
        for b in cx.cfg.D["bodies"]:
            if not isinstance(b, dict):
                continue
            for bl in b.get("blocks", []):
                t = bl[1] if isinstance(bl, list) else bl.get("t")
                if t and t[0] == "call" and t[1][0] == "const" and "fn" in t[1][1]:
                    out.append((b, t[1][1]["fn"], t[5]))
        cx._calls = out
    return cx._calls


def forget(cx, rep):
    n = 0
    for b, fn, span in calls(cx):
        n += 1
        last = fn["p"].rsplit("::", 1)[-1]
        if in_crate(b) and (fn["p"] in ("core::mem::forget", "core::mem::manually_drop::{impl#0}::new") or last in ("leak", "into_raw") and fn["p"].startswith(("alloc::", "std::"))):
            rep.ob("values are not kept from being dropped", b.get("path", "?"), "calls %s" % fn["p"], span)
    rep.ob("values are not kept from being dropped", "%d call sites" % n, None if n > 100 else "no call sites seen")


def in_crate(b):
    return str(b.get("path", "")).startswith("voprf::")


# ------------------------------------------------------------------ C18
STATES = ("OprfClient", "VoprfClient", "PoprfClient", "OprfServer", "VoprfServer", "PoprfServer", "PoprfPreparedTweak")
SCALAR_METHODS = ("invert_scalar", "is_zero_scalar", "serialize_scalar")
SECRET_PARAMS = {"seed", "key", "blind"}
EXEMPT_TRAITS = ("core::cmp::", "core::hash::", "core::fmt::", "core::marker::", "serde")
ALLOWED_OPS = ("ok", "len", "isz", "isid")


class Taint:
    """Does a term depend on a secret other than through the group's own zero,
    identity and validity tests?"""

    def __init__(self, cx, R, secrets, roots):
        self.cx, self.R = cx, R
        self.secrets, self.roots = secrets, roots   # {var}, {var: structure path}
        self.memo = {}

    def path_of(self, t):
        while t.op in ("sel", "sl", "map", "fld", "after"):
            t = t.args[0]
            if not isinstance(t, T):
                return None
        return self.roots.get(t)

    def tainted(self, t):
        if not isinstance(t, T):
            return any(self.tainted(x) for x in t) if isinstance(t, tuple) else False
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = False
        r = self.calc(t)
        self.memo[t] = r
        return r

    def calc(self, t):
        if t.op == "len" and isinstance(t.args[0], T) and t.args[0].op == "app" and "::iter::" in t.args[0].args[0]:
            return self.tainted(t.args[0])  # how many entries an iterator lets through
        if t.op in ALLOWED_OPS:
            return False
        if t.op == "teq" and (t.args[0] in (SZERO, IDENT) or t.args[1] in (SZERO, IDENT) or any(neutral(x) for x in t.args)):
            return False
        if t.op == "app" and t.args[0].rsplit("::", 1)[-1] in ("is_zero", "is_identity", "ct_is_zero"):
            return False
        if t.op == "isvar" and isinstance(t.args[0], T) and t.args[0].op == "app" and t.args[0].args[0].rsplit("::", 1)[-1] == "invert":
            return False
        if t.op == "fld":
            p = self.roots.get(t.args[0]) or (self.path_of(t.args[0]) if t.args[0].op in ("sel",) else None)
            if p is not None:
                return self.cx.cfg.fkind(p, t.args[2]) == "scalar"
        if t in self.secrets:
            return True
        if t in self.roots:
            return True  # the whole state
        if t.op.startswith("rnd"):
            return True
        if t.op == "ph" and t in self.R.I.phs:
            v0, u = self.R.I.phs[t]
            return self.tainted(v0) or (u is not None and self.tainted(u))
        return any(self.tainted(a) for a in t.args)


def neutral(x):
    return isinstance(x, T) and (x.op == "kst" and x.args[0].rsplit("::", 1)[-1] in ("ZERO", "IDENTITY") or (
        x.op == "app" and x.args[0].rsplit("::", 1)[-1] in ("identity", "default", "zero") and len(x.args) == 2))


def secret_vars(cx, r, R):
    """(secret parameters, parameters holding states) of a function."""
    cfg = cx.cfg
    secrets, roots = set(), {}
    head = cfg.head(r.get("implself"))
    names = R.names
    for i, ty in enumerate(r["in"]):
        v = mk("var", names[i]) if names and i < len(names) else mk("var", "p%d" % i)
        t = cfg.T[ty]
        while t["k"] in ("ref", "slice", "array"):
            t = cfg.T[t["e"]]
        pname = names[i] if names and i < len(names) else (r["params"][i] if i < len(r["params"]) else "")
        if t["k"] == "adt" and t["p"].split("::")[-1] in STATES and t["p"] in cfg.adts:
            roots[v] = t["p"]
        elif t["k"] == "proj" and t["n"] == "Scalar" or i == 0 and r.get("tr") == backend.GROUP and r["n"] in SCALAR_METHODS:
            secrets.add(v)
        elif pname == "clients":
            roots[v] = head
        elif pname in SECRET_PARAMS and t["k"] in ("int", "u8", "prim", "adt", "proj", "param") or pname in SECRET_PARAMS:
            secrets.add(v)
    return secrets, roots


def check_C18(cx, rep):
    nsw = 0
    for r in cx.cfg.D["roots"]:
        if "::tests" in r["p"] or "::tests" in r["pretty"]:
            continue
        tr = r.get("tr")
        if not (r["exported"] or tr) and r["n"] not in ("derive_key", "derive_key_internal", "generate_proof", "verify_proof"):
            continue
        if tr and tr.startswith(EXEMPT_TRAITS):
            continue
        if tr == backend.GROUP and r["n"].startswith("deserialize"):
            continue  # its result is the validity of the encoding
        names = public_names(cx, r)
        R = cx.cfg.run(r, names)
        R.names = names
        rep.fn(R.name)
        if R.fail:
            rep.ob("no secret-dependent control flow", R.name, "cannot be analysed: " + R.fail, cx.where(R))
            continue
        tn = Taint(cx, R, *secret_vars(cx, r, R))
        bad = where = None
        for pc, d, stack in R.I.switches:
            nsw += 1
            if tn.tainted(d):
                bad = "branches on %s (%s)" % (short(why_tainted(tn, d)), frames(stack))
                where = at(stack, r)
                break
        for pc, kind, detail, stack in R.I.oblig:
            if bad is None and tn.tainted(pc):
                bad = "%s depends on %s (%s)" % (kind, short(why_tainted(tn, pc)), frames(stack))
                where = at(stack, r)
        for e in R.I.events:
            if bad is not None:
                break
            if e[0] == "vt_eq":
                a, b = e[1]
                if (tn.tainted(a) or tn.tainted(b)) and not (a in (SZERO, IDENT) or b in (SZERO, IDENT) or neutral(a) or neutral(b)):
                    bad = "compares %s with == (%s)" % (short(a if tn.tainted(a) else b), frames(e[3]))
                    where = at(e[3], r)
            elif e[0] == "vartime" and any(tn.tainted(x) for x in e[1][1:]):
                bad = "passes a secret to %s (%s)" % (e[1][0], frames(e[3]))
                where = at(e[3], r)
        if bad is None:
            for x in terms.subterms(R.v, lambda y: y.op in ("sel", "sl")):
                if any(tn.tainted(i) for i in x.args[1:] if isinstance(i, T)):
                    bad = "selects an element of %s by a secret index" % short(x.args[0])
                    break
        rep.ob("no secret-dependent control flow", R.name, bad, where or cx.where(R))
    rep.notes.append("%s: %d undecided branch conditions examined along the inlined call graph" % (cx.name, nsw))
    # variable-time library functions by name, anywhere in the crate
    n = 0
    for b, fn, span in calls(cx):
        n += 1
        if "vartime" in fn["p"] and in_crate(b):
            rep.ob("no variable-time library call", b.get("path", "?"), "calls " + fn["p"], span)
    rep.ob("no variable-time library call", "%d call sites" % n, None if n > 100 else "no call sites seen")
    rep.floor("no secret-dependent control flow", 50)


def why_tainted(tn, d):
    """A smallest tainted atom."""
    best = None
    for x in terms.subterms(d, lambda y: y.op not in ("ite", "b")):
        if tn.tainted(x) and (best is None or len(show(x)) > len(show(best))) and x.op in ("teq", "isvar", "bt", "eq", "le0", "isz", "any"):
            best = x
    return best if best is not None else d


# ------------------------------------------------------------------ C19
DANGER = {
    ("common", None, "derive_key"),
    ("oprf", "OprfClient", "deterministic_blind_unchecked"), ("oprf", "OprfClient", "get_blind"),
    ("voprf", "VoprfClient", "deterministic_blind_unchecked"), ("poprf", "PoprfClient", "deterministic_blind_unchecked"),
    ("common", "BlindedElement", "value"), ("common", "BlindedElement", "from_value_unchecked"),
    ("common", "EvaluationElement", "value"), ("common", "EvaluationElement", "from_value_unchecked"),
}
ALLOWED_TRAITS = ("core::clone::Clone", "core::cmp::", "core::hash::", "core::fmt::Debug", "core::fmt::Display", "core::ops::drop::Drop", "core::marker::",
                  "zeroize::ZeroizeOnDrop", "zeroize::Zeroize", "serde", "core::error::Error", "core::panic::")


def item(cx, r):
    h = cx.cfg.head(r.get("implself"))
    return (h.split("::")[-1] if h else None, r["n"])


def raw_types(cx, i, d=0, seen=None):
    """'Scalar' / 'Elem' occurring in a type outside of crate structures and of
    opaque or function types."""
    out = set()
    if i is None or d > 10:
        return out
    t = cx.cfg.T[i]
    if t["k"] == "proj":
        if t["n"] in ("Scalar", "Elem") and "Group" in t["p"]:
            out.add(t["n"])
        return out
    if t["k"] == "adt" and t["p"].startswith("voprf::"):
        return out
    if t["k"] == "adt" and t["p"].startswith("core::iter::"):
        return out  # iterator adaptors: their items are checked through the value graph
    if t["k"] in ("ref", "slice", "array", "ptr"):
        return raw_types(cx, t["e"], d + 1)
    for a in t.get("a", []):
        if isinstance(a, int):
            out |= raw_types(cx, a, d + 1)
    return out


def check_C19(cx, rep):
    cfg = cx.cfg
    inv = set()
    for r in cfg.D["roots"]:
        if "::tests" in r["p"] or "::tests" in r["pretty"] or not r["exported"]:
            continue
        if "tr" in r:
            continue
        ty, fn = item(cx, r)
        inv.add((ty, fn))
    want = {(t, f) for _, t, f in DANGER}
    have = inv & want
    if cx.danger:
        for x in sorted(want - have, key=str):
            rep.ob("danger interface", "%s::%s" % x, "is documented for the danger feature but does not exist with it")
    else:
        for x in sorted(have, key=str):
            rep.ob("danger interface", "%s::%s" % x, "is public without the danger feature")
    rep.ob("danger interface", "%d public functions" % len(inv), None)
    for r in cfg.D["roots"]:
        if "::tests" in r["p"] or "::tests" in r["pretty"] or not r["exported"] or r.get("tr") == backend.GROUP or r["p"].startswith("voprf::group::"):
            continue
        ty, fn = item(cx, r)
        if (ty, fn) in want and cx.danger:
            continue
        if r.get("tr", "").startswith(ALLOWED_TRAITS):
            continue
        if r.get("tr") == "voprf::group::Group":
            continue
        nm = r["pretty"]
        rep.fn(nm)
        bad = None
        ins, outs = [raw_types(cx, i) for i in r["in"]], raw_types(cx, r["out"])
        names = public_names(cx, r)
        R = cfg.run(r, names)
        if any("Scalar" in s for s in ins):
            bad = "takes a raw scalar"
        elif "Scalar" in outs:
            bad = "returns a raw scalar"
        elif R.fail:
            bad = "cannot be analysed: " + R.fail
        else:
            bad = leaks(cx, r, R, names, outs)
        rep.ob("public functions neither expose secrets nor admit unvalidated parts", nm, bad, cx.where(R))
    # fields
    for p, a in cfg.adts.items():
        if not a["exported"]:
            continue
        for v in a["variants"]:
            for f in v["f"]:
                pub = f.get("exported", f.get("pub"))
                rt = raw_types(cx, f["t"])
                rep.ob("no public scalar or element field", "%s.%s" % (p.split("::")[-1], f["n"]),
                       "is a public field holding a raw %s" % "/".join(sorted(rt)) if pub and rt else
                       ("is a public field of a wrapper or message type" if pub and p.split("::")[-1] in VALUE_TYPES else None), a["span"])
    # trait implementations of the value types
    private = {t["p"] for t in cfg.D["traits"] if not t["reach"] and t["p"].startswith("voprf::")}
    for i in cfg.D["impls"]:
        h = cfg.head(i["self"])
        if h is None or not h.startswith("voprf::") or h.split("::")[-1] not in VALUE_TYPES:
            if i.get("tr") in ("core::convert::From", "core::convert::TryFrom", "core::convert::Into"):
                for x in i.get("tra", []):
                    hh = cfg.head(x)
                    if hh and hh.split("::")[-1] in VALUE_TYPES and hh.startswith("voprf::"):
                        rep.ob("no conversion trait", h or "?", "implements %s with %s" % (i["tr"], hh.split("::")[-1]), i["span"])
            continue
        tr = i.get("tr")
        if tr is None or i.get("neg"):
            continue
        okt = tr in private or tr.startswith(ALLOWED_TRAITS) or "DeriveWhereAssert" in tr or "::AssertZeroize" in tr
        rep.ob("no conversion trait", "%s for %s" % (tr, h.split("::")[-1]), None if okt else "is not one of the traits that neither read nor build the parts of a value", i["span"])
    rep.floor("public functions neither expose secrets nor admit unvalidated parts", 40)
    rep.floor("no public scalar or element field", 20)
    rep.floor("no conversion trait", 60)


def leaks(cx, r, R, names, outs):
    """What a public function's result gives away or lets in; None if nothing."""
    cfg = cx.cfg
    ty, fn = item(cx, r)
    R.names = names
    secrets, roots = secret_vars(cx, r, R)
    vals = [R.v]
    for i, t in enumerate(r["in"]):
        x = cfg.T[t]
        if x["k"] == "ref" and x.get("m"):
            a = R.after(i)
            if a is not None:
                vals.append(a)
    rawp = set()
    for i, t in enumerate(r["in"]):
        if "Elem" in raw_types(cx, t):
            rawp.add(mk("var", names[i]) if names and i < len(names) else mk("var", "p%d" % i))
    for v in vals:
        # the encodings of scalars outside hashes
        if fn != "serialize":
            x = outside_hash(v, lambda y: y.op == "ser_s")
            if x is not None:
                return "returns the encoding of a scalar: " + short(x)
        # structures built from raw element parameters
        for a in terms.subterms(v, lambda y: y.op == "adt" and isinstance(y.args[0], str) and y.args[0].startswith("voprf::")):
            for part in a.args[2:]:
                if isinstance(part, T) and part in rawp:
                    return "builds %s from an unvalidated element parameter" % a.args[0].split("::")[-1]
        # bare scalars in the result
        for lf in set(leaves(v)):
            for x in payload(lf):
                if x.op == "fld" and x.args[0] in roots and cfg.fkind(roots[x.args[0]], x.args[2]) == "scalar":
                    return "returns the secret scalar " + short(x)
                if x.op == "fld" and x.args[0].op == "sel" and x.args[0].args[0] in roots:
                    return "returns the secret scalar " + short(x)
        if "Elem" in outs:
            # the only bare element a user may read is the public key
            for lf in set(leaves(v)):
                for x in payload(lf):
                    ok_ = x.op == "fld" and x.args[0].op == "var" and x.args[0] in roots and roots[x.args[0]].split("::")[-1] in STATES[3:6] and cfg.fkind(roots[x.args[0]], x.args[2]) == "elem"
                    ok_ = ok_ or (x.op == "el" and set(terms.subterms(x, lambda y: y.op in ("GEN",))) is not None and gen_multiple(x))
                    if not ok_:
                        return "returns the bare element " + short(x)
    return None


def gen_multiple(x):
    return True if any(y is GEN for y in terms.subterms(x, lambda y: y is GEN)) else False


def payload(x):
    """Bare values inside Ok/Some/tuples."""
    if isinstance(x, T):
        if x.op == "ite":
            for y in x.args[1:]:
                yield from payload(y)
        elif x.op == "adt" and x.args[0].startswith("core::"):
            for y in x.args[2:]:
                yield from payload(y)
        elif x.op == "tup":
            for y in x.args:
                yield from payload(y)
        else:
            yield x


def outside_hash(t, pred, seen=None):
    seen = seen if seen is not None else set()
    if not isinstance(t, T):
        if isinstance(t, tuple):
            for x in t:
                y = outside_hash(x, pred, seen)
                if y is not None:
                    return y
        return None
    if t in seen or t.op in ("H", "H2S", "H2G", "el", "poly", "isz", "isid", "ok", "teq"):
        return None
    seen.add(t)
    if pred(t):
        return t
    for a in t.args:
        y = outside_hash(a, pred, seen)
        if y is not None:
            return y
    return None


# ------------------------------------------------------------------ C20
PURE = {"core", "alloc", "digest", "crypto_common", "generic_array", "zeroize", "compiler_builtins", "typenum", "block_buffer", "elliptic_curve", "group", "ff",
        "subtle", "rand_core", "base16ct", "crypto_bigint", "sec1", "der", "const_oid", "derive_where", "displaydoc", "serde", "serde_core", "serde_derive",
        "curve25519_dalek", "sha2", "voprf"}
IMPURE = re.compile(r"(^std::)|OsRng|getrandom|thread_rng|ThreadRng|from_entropy|core::sync::atomic|core::cell::|core::ptr::.*(read|write)|core::intrinsics::(volatile|atomic)|core::arch|"
                    r"SystemTime|Instant|::env::|std::io|core::mem::(transmute|zeroed|uninitialized|maybe_uninit)|alloc::rc::|alloc::sync::|once_cell|lazy_static|spin::")
IMPURE_TYPES = re.compile(r"^(core::cell::|core::sync::|std::sync::|std::cell::|alloc::rc::|alloc::sync::|once_cell)")


def check_C20(cx, rep):
    D, cfg = cx.cfg.D, cx.cfg
    n = 0
    for u in D["unsafe"]:
        if u["what"].startswith("environment"):
            rep.ob("no effect outside the arguments", "%s at %s" % (u["what"], u["span"].split(":")[0]), "depends on an environment variable of the build", u["span"])
            continue
        n += 1
        rep.ob("no unsafe code", "%s at %s" % (u["what"], u["span"].split(":")[0]), None if u["exp"] else "%s written in the crate" % u["what"], u["span"])
    rep.ob("no unsafe code", "crate %s" % cx.name, None)
    rep.ob("no mutable or global state", "%d statics" % len(D["statics"]), None if not [s for s in D["statics"] if "::tests" not in str(s)] else "the crate declares statics: " + str(D["statics"])[:300])
    bad = {}
    k = 0
    for b, fn, span in calls(cx):
        if not in_crate(b) or "::tests" in str(b.get("path")):
            continue
        k += 1
        p = fn["p"]
        c = p.split("::")[0]
        why = None
        if IMPURE.search(p):
            why = "calls " + p
        elif c not in PURE:
            why = "calls into %s (%s), which is not known to be free of ambient effects" % (c, p)
        elif c == "alloc" and not cx.alloc:
            why = "calls %s without the alloc feature" % p
        if why and (str(b.get("path")), why) not in bad:
            bad[(str(b.get("path")), why)] = span
    for (p, why), span in sorted(bad.items()):
        rep.ob("no ambient effect", p, why, span)
    rep.ob("no ambient effect", "%d call sites" % k, None if k > 150 else "call sites not seen")
    # types of locals
    for b in D["bodies"]:
        if not in_crate(b) or "::tests" in str(b.get("path")):
            continue
        # the compiler's own pointers for the length of an indexed slice
        fake = {st[1][0] for blk in b["blocks"] for st in blk[0] if st[0] == "=" and st[2][0] == "rawptr" and st[2][1] == "FakeForPtrMetadata"}
        for n, l in enumerate(b["locals"]):
            if n in fake:
                continue
            t = cfg.T[l[0]]
            if t["k"] == "adt" and IMPURE_TYPES.search(t["p"]):
                rep.ob("no interior mutability", b["path"], "uses " + t["p"], b["span"])
            if t["k"] == "ptr" and not derive_generated(b):
                rep.ob("no raw pointer", b["path"], "uses a raw pointer", b["span"])
    for p, a in cfg.adts.items():
        if "::tests" in p:
            continue
        for v in a["variants"]:
            for f in v["f"]:
                for t in deep_types(cx, f["t"]):
                    if cfg.T[t]["k"] == "adt" and IMPURE_TYPES.search(cfg.T[t]["p"]):
                        rep.ob("no interior mutability", "%s.%s" % (p, f["n"]), "holds " + cfg.T[t]["p"], a["span"])
    rep.ob("no interior mutability", "%d bodies, %d types" % (len(D["bodies"]), len(cfg.adts)), None)
    if cx.name != "test":
        rep.ob("no_std", "crate attribute", None if any("NoStd" in a for a in D["attrs"]) else "#![no_std] is gone")
    for e in D["externs"]:
        c = e["crate"]
        if "::tests" in e["p"] or "::_serde" in e["p"] or cx.name == "test":
            continue
        okc = c == "core" or (c == "alloc" and cx.alloc) or (c == "std" and cx.has("std")) or c.startswith("serde")
        rep.ob("no_std", "extern crate " + c, None if okc else "is linked in configuration %s" % cx.name, e["span"])
    for c in ("std", "alloc", "getrandom", "libc"):
        if c in D["deps"] and not ({"std": cx.has("std"), "alloc": cx.alloc or cx.has("serde") or cx.name == "default", "getrandom": cx.has("std"), "libc": cx.has("std")}[c]):
            rep.ob("no_std", "dependency " + c, "is part of configuration %s" % cx.name)
    rep.floor("no_std", 2 if cx.name != "test" else 0)
    rep.floor("no unsafe code", 5)


def derive_generated(b):
    return True if "::_" in str(b.get("path")) else False


def deep_types(cx, i, d=0, seen=None):
    seen = seen if seen is not None else set()
    if i in seen or d > 8:
        return
    seen.add(i)
    yield i
    t = cx.cfg.T[i]
    if isinstance(t.get("e"), int):
        yield from deep_types(cx, t["e"], d + 1, seen)
    for a in t.get("a", []):
        if isinstance(a, int):
            yield from deep_types(cx, a, d + 1, seen)


# ------------------------------------------------------------------ C22
def check_C22(cx, rep):
    """Collects the behaviour (value graph and return condition) of every public
    operation; compared across configurations afterwards."""
    rep.data = {}
    for r in public_roots(cx):
        if r.get("tr") == "core::ops::drop::Drop":
            continue  # C17 decides every Drop in every configuration
        if r.get("tr", "").startswith(("serde", "core::error", "std::error")) or "{impl" in r["p"].split("::drop")[0] and "AssertZeroize" in r["p"]:
            continue
        if r.get("tr", "").startswith("voprf::") and r.get("tr") not in (backend.GROUP, "voprf::ciphersuite::CipherSuite"):
            continue
        if "Assert" in r["pretty"] or "::_::" in r["pretty"]:
            continue
        R = cx.cfg.run(r, public_names(cx, r))
        rep.fn(R.name)
        aft = []
        for i in range(len(r["in"])):
            a = R.after(i) if not R.fail and R.I.final else None
            aft.append(a.h.hex() if a is not None else None)
        fx = None
        key = (cx.cfg.head(r.get("implself")), r["n"])
        if "tr" not in r and key in cx.spec.fns:
            f = cx.facets(key)
            fx = [repr(m)[:200] for m in f[1]] if f else None
        rep.data[stable(r["pretty"])] = dict(v=R.v.h.hex(), pc=R.pc.h.hex(), after=aft, fail=R.fail, exported=r["exported"], where=cx.where(R), misses=fx, sig=len(r["in"]))
    # an unsupported panic-on-overflow difference between profiles shows as a
    # reachable overflow obligation
    rep.ob("behaviour recorded", "%s: %d public operations" % (cx.name, len(rep.data)), None if len(rep.data) > 90 else "too few public operations")


def stable(s):
    return re.sub(r"::_#\d+|#\d+", "", s).replace("{impl#", "{impl")


def global_C22(reports, rep):
    by = {d["config"]: d["data"] for d in reports if d.get("data")}
    if "none" not in by:
        rep.ob("same behaviour in every configuration", "minimal configuration", "could not be analysed")
        return
    for bname, base in [(n, by[n]) for n in ("none", "default", "danger", "alloc") if n in by]:
        for cname, data in sorted(by.items()):
            if cname == bname or not includes(cname, bname):
                continue
            for fn, b in sorted(base.items()):
                c = data.get(fn)
                bad = None
                if c is None:
                    bad = "exists in configuration %s but not in %s" % (bname, cname)
                elif b["fail"] or c["fail"]:
                    bad = "cannot be analysed: %s" % (b["fail"] or c["fail"])
                elif b["exported"] and not c["exported"]:
                    bad = "is public in configuration %s but not in %s" % (bname, cname)
                elif (b["v"], b["pc"], b["after"]) != (c["v"], c["pc"], c["after"]):
                    if b["misses"] == [] and c["misses"] == []:
                        bad = None  # both equal the same specification
                    else:
                        bad = "differs between configurations %s and %s%s" % (bname, cname, ": " + "; ".join((c["misses"] or [])[:2]) if c["misses"] else "")
                rep.ob("same behaviour in every configuration", "%s (%s/%s)" % (fn, bname, cname), bad, c["where"] if c else b["where"])
    odd, n = dumper.strange_conditions()
    for f, line, keys in odd:
        rep.ob("conditional compilation depends on features and profile only", "%s:%d" % (f, line), "is compiled or not depending on %s, so builds with the same features can behave differently" % ", ".join(keys), "%s:%d" % (f, line))
    rep.ob("conditional compilation depends on features and profile only", "%d source files" % n, None if n else "no source files")
    rep.floor("same behaviour in every configuration", 700 if "default" in by else 90)


def includes(c, b):
    drop = {"ristretto255-ciphersuite"}  # adds a suite, no operation
    return dumper.features(b) - drop <= dumper.features(c)


# ------------------------------------------------------------------ C25
def flat(cx, p, base):
    """Leaf fields of a structure."""
    out = []
    for i in range(cx.cfg.nfields(p)):
        k = cx.cfg.fkind(p, i)
        x = fld(base, 0, i)
        out += flat(cx, k, x) if k in cx.cfg.adts else [x]
    return out


def order_value(v, asg, which):
    """Evaluates a comparison after every field comparison got a concrete result."""
    m = {}
    for x in terms.subterms(v, lambda y: y.op == "app" and y.args[0].rsplit("::", 1)[-1] in ("cmp", "partial_cmp")):
        for (a, b), o in asg.items():
            if x.args[2] is a and x.args[3] is b:
                m[x] = ordering(o) if x.args[0].endswith("::cmp") else some(ordering(o))
            elif x.args[2] is b and x.args[3] is a:
                m[x] = ordering(-o) if x.args[0].endswith("::cmp") else some(ordering(-o))
    return backend_rebuild(v, m, asg)


ORD = "core::cmp::Ordering"


def ordering(o):
    return mk("adt", ORD, o + 1)


def backend_rebuild(t, m, asg, memo=None):
    memo = {} if memo is None else memo
    if not isinstance(t, T):
        return t
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    go = lambda x: backend_rebuild(x, m, asg, memo)
    if t.op == "ite":
        r = ite(go(t.args[0]), go(t.args[1]), go(t.args[2]))
    elif t.op == "isvar":
        r = ap(lambda x: (TRUE if x.args[1] == t.args[1] else FALSE) if x.op == "adt" else bvar(mk("isvar", x, t.args[1])), go(t.args[0]))
    elif t.op == "discr":
        r = ap(lambda x: num(x.args[1] - 1) if x.op == "adt" and x.args[0] == ORD else mk("discr", x), go(t.args[0]))
    elif t.op == "fld":
        r = ap(lambda x: fld(x, t.args[1], t.args[2]), go(t.args[0]))
    elif t.op == "teq":
        r = t
        for (a, b), o in asg.items():
            if {t.args[0], t.args[1]} == {a, b}:
                r = TRUE if o == 0 else FALSE
        r = r if r is not t else bvar(t)
    elif t.op in ("eq", "le0"):
        r = go(t.args[0])
        r = ap(eq0 if t.op == "eq" else le0_, r)
    elif t.op == "lin":
        r = terms.subst(t, {a: go(a) for a in t.args[1:] if isinstance(a, T)} if False else {a: go(a) for a in backend._atoms_of(t)})
    elif t.op == "adt":
        r = ap(lambda *l: mk("adt", t.args[0], t.args[1], *l), *[go(x) for x in t.args[2:]]) if len(t.args) > 2 else t
    else:
        na = tuple(go(x) for x in t.args)
        r = t if all(x is y for x, y in zip(na, t.args)) else terms.rebuild(t.op, na)
    memo[t] = r
    return r


def le0_(x):
    return le(x, ZERO)


def lex_bad(cx, fields, v, wrap):
    """v must be the lexicographic comparison over some order of the fields."""
    import itertools
    n = len(fields)
    results = {}
    for asg in itertools.product((-1, 0, 1), repeat=n):
        x = order_value(v, dict(zip(fields, asg)), None)
        if wrap and x.op == "adt" and x.args[0] == OPT and len(x.args) == 3:
            x = x.args[2]
        if x.op != "adt" or x.args[0] != ORD:
            return "is %s when the fields compare as %s" % (short(x), asg)
        results[asg] = x.args[1] - 1
    for perm in itertools.permutations(range(n)):
        if all(results[a] == next((a[i] for i in perm if a[i]), 0) for a in results):
            return None
    return "is not a lexicographic comparison of all fields: " + ", ".join("%s -> %d" % kv for kv in sorted(results.items())[:9])


def hashed(cx, x, start):
    """Values fed to a Hasher, in order; None when it is something else."""
    out = []
    while x is not start:
        if x.op == "after" and x.args[0] == 1 and x.args[1].op == "app" and x.args[1].args[0].endswith("Hash::hash"):
            out.append(x.args[1].args[2])
            x = x.args[1].args[3]
        elif x.op == "after" and x.args[0] == 0 and x.args[1].op == "app" and "Hasher" in x.args[1].args[0]:
            out.append(x.args[1].args[3])
            x = x.args[1].args[2]
        else:
            return None
    return out[::-1]


def check_C25(cx, rep):
    cfg = cx.cfg
    A0, B0 = mk("var", "p0"), mk("var", "p1")
    want = (("core::clone::Clone", "clone"), ("core::cmp::PartialEq", "eq"), ("core::cmp::PartialOrd", "partial_cmp"), ("core::cmp::Ord", "cmp"), ("core::hash::Hash", "hash"))
    types = [p for p in cfg.adts if p.startswith("voprf::") and p.split("::")[-1] in VALUE_TYPES and "{impl" not in p and "::_" not in p]
    for p in sorted(types):
        nm = p.split("::")[-1]
        fields = list(zip(flat(cx, p, A0), flat(cx, p, B0)))
        for tr, fn in want:
            rs = cfg.tr.get((tr, p, fn))
            if not rs:
                rep.ob("every field is considered", "%s::%s" % (nm, fn), "%s is not implemented" % tr, cfg.adts[p]["span"])
                continue
            R = cfg.run(rs[0])
            rep.fn(R.name)
            bad = R.fail
            if bad is None and diff(not_(R.pc), TRUE, FALSE) is not None:
                bad = "does not return"
            if bad is None:
                if fn == "clone":
                    x = diff(R.pc, R.v, A0)
                    if x is not None:
                        bad = "gives " + short(x.a)
                elif fn == "eq":
                    e = and_(*[eq_term(a, b) for a, b in fields])
                    x = diff(R.pc, R.v, e)
                    if x is not None:
                        bad = "is %s instead of the conjunction over all fields; when %s" % (short(x.a), short_when(x))
                elif fn in ("cmp", "partial_cmp"):
                    bad = lex_bad(cx, fields, R.v, fn == "partial_cmp")
                else:
                    h = R.after(1)
                    got = hashed(cx, h, B0) if h is not None else []
                    if got is None:
                        bad = "does not hash its fields one after the other: " + short(h)
                    else:
                        miss = [short(a) for a, _ in fields if a not in got]
                        extra = [short(g) for g in got if g not in [a for a, _ in fields]]
                        if miss:
                            bad = "leaves out " + ", ".join(miss)
                        elif extra:
                            bad = "also hashes " + ", ".join(extra)
            rep.ob("every field is considered", "%s::%s" % (nm, fn), bad, cx.where(R))
        # provided methods that are overridden
        for tr, names in (("core::cmp::PartialEq", ("ne",)), ("core::cmp::PartialOrd", ("lt", "le", "gt", "ge")), ("core::cmp::Ord", ("max", "min", "clamp")), ("core::clone::Clone", ("clone_from",)), ("core::hash::Hash", ("hash_slice",))):
            for fn in names:
                if cfg.tr.get((tr, p, fn)):
                    if fn == "ne":
                        R = cfg.run(cfg.tr[tr, p, fn][0])
                        x = None if R.fail else diff(R.pc, R.v, not_(and_(*[eq_term(a, b) for a, b in fields])))
                        rep.ob("every field is considered", "%s::%s" % (nm, fn), R.fail or (None if x is None else "is " + short(x.a)), cx.where(R))
                    else:
                        rep.ob("every field is considered", "%s::%s" % (nm, fn), "overrides a provided method", cfg.adts[p]["span"])
        rep.ob("equality is total", nm, None if any(i.get("tr") == "core::cmp::Eq" and cfg.head(i["self"]) == p for i in cfg.D["impls"]) else "Eq is not implemented")
    # enumerations without payload: cloned and compared by variant
    for p in ("voprf::error::Error", "voprf::error::InternalError", "voprf::common::Mode"):
        a = cfg.adts.get(p)
        if a is None:
            continue
        n = len(a["variants"])
        var = lambda x, k: and_(*[bvar(mk("isvar", x, j)) if j == k else not_(bvar(mk("isvar", x, j))) for j in range(n)])
        rs = cfg.tr.get(("core::clone::Clone", p, "clone"))
        if rs:
            R = cfg.run(rs[0])
            bad = R.fail
            for k in range(n):
                if bad is None:
                    x = diff(and_(R.pc, var(A0, k)), R.v, mk("adt", p, k))
                    if x is not None and x.a is not A0:
                        bad = "clones %s as %s" % (a["variants"][k]["n"], short(x.a))
            rep.ob("variants are preserved", "%s::clone" % p.split("::")[-1], bad, cx.where(R))
        rs = cfg.tr.get(("core::cmp::PartialEq", p, "eq"))
        if rs:
            R = cfg.run(rs[0])
            bad = R.fail
            for k in range(n):
                for j in range(n):
                    if bad is None:
                        x = diff(and_(R.pc, var(A0, k), var(B0, j)), R.v, TRUE if k == j else FALSE)
                        if x is not None:
                            bad = "compares %s with %s wrongly" % (a["variants"][k]["n"], a["variants"][j]["n"])
            rep.ob("variants are preserved", "%s::eq" % p.split("::")[-1], bad, cx.where(R))
    rep.floor("every field is considered", 55)
    rep.floor("equality is total", 11)
    rep.floor("variants are preserved", 4)
