"""Abstract interpretation of the dumped MIR into value graphs.

One pass over the control-flow graph of a public function (callees inlined at
their instantiated bodies, blocks visited in topological order, states merged
at joins as decision diagrams over the branch conditions).  Loops are
summarised from one template iteration (induction variables, accumulators,
early exits); `&mut` references are (location, path) pairs, shared references
are transparent because the crate has no interior mutability (checked by C20).
Calls into other crates are modelled by models.py as uninterpreted functions
or by the algebra of terms.py.
"""
import itertools

from terms import *
import terms as tm

OPT = "core::option::Option"
RES = "core::result::Result"
CF = "core::ops::control_flow::ControlFlow"
USIZE_MAX = (1 << 64) - 1

BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64,
        "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64, "char": 32}


class Stop(Exception):
    """The analysis cannot represent the program (reported as undecided)."""


def adt(path, variant, *f):
    def go(*ls):
        if ls and not path.startswith("core::"):
            b = ls[0]
            if b.op == "fld" and b.args[2] == 0 and b.args[1] == variant:
                base = b.args[0]
                if (base, path, len(ls)) in ETA and all(
                    l.op == "fld" and l.args[0] is base and l.args[1] == variant and l.args[2] == i
                    for i, l in enumerate(ls)
                ):
                    return base
        return mk("adt", path, variant, *ls)

    return ap(go, *f) if f else mk("adt", path, variant)


class _Eta:
    """Rebuilding a value from all its own fields gives the value back."""

    def __init__(self):
        self.arity = {}

    def __contains__(self, k):
        base, path, n = k
        return self.arity.get(path) == n


ETA = _Eta()


def tup(*xs):
    return ap(lambda *l: mk("tup", *l), *xs) if xs else mk("tup")


UNIT = mk("tup")


def some(x):
    return adt(OPT, 1, x)


NONE = mk("adt", OPT, 0)


def ok(x):
    return adt(RES, 0, x)


def err(x):
    return adt(RES, 1, x)


def opt(c, x):
    return ite(c, some(x), NONE)


def nonneg(t):
    m = min_const(t)
    return m is not None and m >= 0


class State:
    __slots__ = ("pc", "store")

    def __init__(self, pc, store):
        self.pc = pc
        self.store = store

    def copy(self):
        return State(self.pc, dict(self.store))


def merge(sts):
    sts = [s for s in sts if s.pc is not FALSE]
    if not sts:
        return None
    if len(sts) == 1:
        return sts[0]
    acc = sts[0].copy()
    for s in sts[1:]:
        st_ = {}
        for k in set(acc.store) | set(s.store):
            a = acc.store.get(k)
            b = s.store.get(k)
            if a is None:
                st_[k] = b
            elif b is None or a is b:
                st_[k] = a
            else:
                st_[k] = ite(acc.pc, a, ite(s.pc, b, BOT))
        acc = State(or_(acc.pc, s.pc), st_)
    return acc


FNS = {}
VARTIME = {
    "sort", "sort_by", "sort_by_key", "sort_by_cached_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key",
    "select_nth_unstable", "select_nth_unstable_by", "select_nth_unstable_by_key", "binary_search", "binary_search_by",
    "binary_search_by_key", "partition_point", "is_sorted", "contains", "starts_with", "ends_with", "strip_prefix", "strip_suffix",
    "trim_ascii", "trim_ascii_start", "trim_ascii_end", "dedup", "from_utf8", "is_ascii", "eq_ignore_ascii_case",
}


def fnv(fj):
    key = fj["p"] + "|" + str(fj.get("inst") or fj.get("a")) + "|" + str(fj.get("self"))
    FNS[key] = fj
    return mk("fnv", key)


class Ctx:
    """One call of an external function, as seen by a model."""

    __slots__ = ("I", "fj", "args", "st", "span", "dty", "atys")

    def __init__(self, I, fj, args, st, span, dty, atys):
        self.I, self.fj, self.args, self.st = I, fj, args, st
        self.span, self.dty, self.atys = span, dty, atys


class Interp:
    def __init__(self, D, root):
        self.user_next = {}    # iterators of the crate: type -> instance of `next`
        self.user_as_ref = {}  # types of the crate viewed as bytes: type -> instance of `as_ref`
        self.D = D
        self.T = D["types"]
        self.root = root
        self.map = root["map"]
        self.bodies = D["bodies"]
        self.frames = itertools.count(1)
        self.oblig = []   # (pc, kind, detail, stack)
        self.switches = []  # (pc, cond, stack)
        self.unk = []  # (what, stack)
        self.events = []  # leaf calls (name, args, pc, stack)
        self.stack = []
        self.nsites = 0
        self.ninlined = set()
        self.loops = []
        self.phs = {}  # loop placeholder -> (initial value, value after one iteration)
        self.steps = 0
        self.atys_cache = {}
        import models
        self.models = models
        if not ETA.arity:
            pass
        for a in D["adts"]:
            if a["kind"] == "Struct":
                n = len(a["variants"][0]["f"])
                if n:
                    ETA.arity[a["p"]] = n

    # ---------------------------------------------------------- types
    def ty(self, i):
        return self.T[i]

    def tstr(self, i, d=0):
        t = self.T[i]
        if d > 12:
            return ".."
        k = t["k"]
        a = lambda: ",".join(self.tstr(x, d + 1) if isinstance(x, int) else str(x.get("c")) for x in t.get("a", []))
        if k == "prim":
            return t["n"]
        if k in ("adt", "fndef", "closure"):
            return t["p"] + "<" + a() + ">"
        if k == "proj":
            if t["tr"].startswith("voprf::") or t["n"] in ("OutputSize", "BlockSize"):
                # associated types of the suite (Group, Hash, Elem, ...): the
                # name of the generic parameter is irrelevant
                root = t
                while root["k"] == "proj":
                    root = self.T[root["a"][0]]
                if root["k"] == "param":
                    return t["n"]
            return "<%s>::%s" % (a(), t["n"])
        if k == "ref":
            return "&" + ("mut " if t["m"] else "") + self.tstr(t["e"], d + 1)
        if k in ("array", "slice", "ptr"):
            return k + "[" + self.tstr(t["e"], d + 1) + (";%s" % t.get("n") if "n" in t else "") + "]"
        if k == "tuple":
            return "(" + a() + ")"
        if k == "param":
            return t["n"]
        return t.get("d", k)

    def peel(self, i):
        t = self.T[i]
        while t["k"] in ("ref", "ptr"):
            i = t["e"]
            t = self.T[i]
        return t

    def elem_ty(self, i):
        t = self.peel(i)
        if t["k"] in ("array", "slice"):
            return t["e"]
        if t["k"] == "adt" and t["p"].split("::")[-1] in ("GenericArray", "Vec", "Box"):
            return t["a"][0]
        return None

    def is_bytes(self, i):
        t = self.peel(i)
        if t["k"] == "prim" and t["n"] == "str":
            return True
        e = self.elem_ty(i)
        if e is not None:
            return self.T[e].get("n") == "u8" and self.T[e]["k"] == "prim"
        return t["k"] == "adt" and t["p"] == "alloc::string::String"

    def tylen(self, i):
        """Value of a typenum unsigned integer type."""
        t = self.T[i]
        if t["k"] == "adt":
            n = t["p"].split("::")[-1]
            if n == "UTerm":
                return ZERO
            if n == "UInt":
                hi = self.tylen(t["a"][0])
                b = self.T[t["a"][1]]["p"].split("::")[-1]
                return add(scale(2, hi), num(1 if b == "B1" else 0))
        if t["k"] == "proj":
            if t["tr"].endswith("arith::Add") and t["n"] == "Output":
                return add(self.tylen(t["a"][0]), self.tylen(t["a"][1]))
            if t["n"] in ("ElemLen", "ScalarLen"):
                return mk("cst", t["n"])
            if t["n"] == "OutputSize":
                return mk("cst", "HashLen")
        return mk("cst", self.tstr(i))

    def type_len(self, i):
        """Length of a fixed-length array type, or None."""
        t = self.peel(i)
        if t["k"] == "array" and isinstance(t["n"], int):
            return num(t["n"])
        if t["k"] == "adt" and t["p"].endswith("GenericArray"):
            return self.tylen(t["a"][1])
        return None

    def coerce(self, v, tyi):
        """Opaque terms of types with a known shape are expanded."""
        t = self.peel(tyi)
        k = t["k"]
        if k == "prim":
            if t["n"] == "bool":
                return ap(lambda x: x if x.op == "b" else bvar(mk("bt", x)), v)
            if t["n"] in BITS:
                bits = BITS[t["n"]]

                def f(x):
                    if x.op in ("n", "lin", "u", "len", "cst", "min", "imul", "trunc", "ph", "bv",
                                "firstk", "count", "iop", "byteat"):
                        return x
                    return mk("u", bits, x)

                return ap(f, v)
            return v
        if k == "adt" and t["p"] in (OPT, RES, CF):
            p = t["p"]
            a = [x for x in t["a"] if isinstance(x, int)]

            def g(x):
                if x.op == "adt":
                    return x
                if p == OPT:
                    return ite(bvar(mk("isvar", x, 1)), some(self.coerce(mk("fld", x, 1, 0), a[0])), NONE)
                if p == RES:
                    return ite(
                        bvar(mk("isvar", x, 0)),
                        ok(self.coerce(mk("fld", x, 0, 0), a[0])),
                        err(self.coerce(mk("fld", x, 1, 0), a[1])),
                    )
                return ite(
                    bvar(mk("isvar", x, 0)),
                    adt(CF, 0, self.coerce(mk("fld", x, 0, 0), a[1])),
                    adt(CF, 1, self.coerce(mk("fld", x, 1, 0), a[0])),
                )

            return ap(g, v)
        if k == "adt" and t["p"].split("::")[-1] == "Choice":
            return ap(lambda x: x if x.op == "b" else bvar(mk("bt", x)), v)
        if k == "adt" and t["p"] in self.enums():
            n = self.enums()[t["p"]]
            if n and all(m == 0 for m in n):
                p = t["p"]

                def e(x):
                    if x.op == "adt":
                        return x
                    r = mk("adt", p, len(n) - 1)
                    for i in reversed(range(len(n) - 1)):
                        r = ite(bvar(mk("isvar", x, i)), mk("adt", p, i), r)
                    return r

                return ap(e, v)
        if k == "tuple" and self.T[tyi]["k"] == "tuple":
            a = t["a"]

            def h(x):
                if x.op == "tup":
                    return x
                return tup(*[self.coerce(mk("fld", x, 0, i), e) for i, e in enumerate(a)])

            return ap(h, v)
        return v

    def enums(self):
        if not hasattr(self, "_enums"):
            self._enums = {
                a["p"]: [len(v["f"]) for v in a["variants"]] for a in self.D["adts"] if a["kind"] == "Enum"
            }
        return self._enums

    def stk(self, span):
        return tuple(self.stack) + ((None, span),)

    # ---------------------------------------------------------- places
    def field(self, v, variant, i, tyi):
        def f(x):
            if x.op == "adt":
                if variant is not None and x.args[1] != variant:
                    return BOT
                if i + 2 < len(x.args):
                    return x.args[i + 2]
                return BOT
            if x.op == "tup":
                return x.args[i] if i < len(x.args) else BOT
            if x.op == "clos":
                return x.args[2 + i] if 2 + i < len(x.args) else BOT
            if x.op == "mref":
                raise Stop("field of a mutable reference")
            r = mk("fld", x, variant or 0, i)
            return self.coerce(r, tyi) if tyi is not None else r

        return ap(f, v)

    def load(self, st, loc, path):
        v = st.store.get(loc)
        if v is None:
            raise Stop(f"uninitialised location {loc}")
        for e in path:
            v = self.step(v, e)
        return v

    def step(self, v, e):
        if e[0] == "f":
            return self.field(v, e[2], e[1], e[3])
        if e[0] == "i":
            return select(v, e[1])
        if e[0] == "sl":
            return self.gslice(v, e[1], e[2], e[3])
        raise Stop(f"path element {e[0]}")

    def gslice(self, v, off, ln, isbytes):
        if isbytes:
            return slice_(v, off, ln)

        def f(x, off, ln):
            if off is ZERO and ln is self.vlen(x):
                return x
            if x.op == "arr" and off.op == "n" and ln.op == "n":
                return mk("arr", *x.args[off.args[0]: off.args[0] + ln.args[0]])
            return mk("seq", st_make([ln], lambda k: select(x, add(off, k))))

        return ap(f, v, off, ln)

    def upd(self, v, path, new):
        if not path:
            return new
        e, rest = path[0], path[1:]
        if rest:
            new = self.upd(self.step(v, e), rest, new)
        if e[0] == "f":
            i, variant = e[1], e[2]

            def f(x, n):
                if x.op in ("adt", "tup", "clos"):
                    o = {"adt": 2, "tup": 0, "clos": 2}[x.op]
                    a = list(x.args)
                    if i + o >= len(a):
                        return BOT
                    a[i + o] = n
                    return mk(x.op, *a)
                if len(e) > 4 and e[4]:
                    path_, n_ = e[4]
                    fs = [mk("fld", x, variant or 0, j) for j in range(n_)]
                    fs[i] = n
                    return mk("adt", path_, variant or 0, *fs) if path_ else mk("tup", *fs)
                return mk("updf", x, variant or 0, i, n)

            return ap(f, v, new)
        if e[0] == "i":
            def g(x, i, n):
                if x.op == "arr" and i.op == "n" and i.args[0] < len(x.args):
                    a = list(x.args)
                    a[i.args[0]] = n
                    return mk("arr", *a)
                if x.op in ("bytes", "zeros", "cat", "sl"):
                    return splice(x, i, ONE, byte(n))
                return mk("upd", x, i, n)

            return ap(g, v, e[1], new)
        if e[0] == "sl":
            off, ln, isb = e[1], e[2], e[3]
            if isb:
                return splice(v, off, ln, new)

            def h(x, o, l, n):
                if x.op == "arr" and n.op == "arr" and o.op == "n" and l.op == "n":
                    a = list(x.args)
                    a[o.args[0]: o.args[0] + l.args[0]] = n.args
                    return mk("arr", *a)
                return mk("updsl", x, o, l, n)

            return ap(h, v, off, ln, new)
        raise Stop("update path")

    def deref(self, st, v):
        """Read through a reference."""
        def f(x):
            if x.op == "mref":
                return self.load(st, x.args[0], x.args[1])
            return x

        if v.op != "ite" and v.op != "mref":
            return v
        return ap(f, v)

    def store_ref(self, st, ref, val):
        """Write through a (possibly conditional) mutable reference."""
        def conds(v, c):
            if v.op == "ite":
                conds(v.args[1], and_(c, bvar(v.args[0])))
                conds(v.args[2], and_(c, not_(bvar(v.args[0]))))
            elif v is BOT:
                return
            elif v.op == "mref":
                loc, path = v.args
                old = st.store[loc]
                new = self.upd(old, path, val)
                st.store[loc] = new if c is TRUE else ite(c, new, old)
            else:
                raise Stop(f"write through {v.op}")

        conds(ref, TRUE)

    def adt_shape(self, tyi):
        t = self.T[tyi]
        if t["k"] == "tuple":
            return ("", len(t["a"]))
        if t["k"] == "adt":
            n = ETA.arity.get(t["p"])
            if n:
                return (t["p"], n)
        return None

    def read_place(self, fr, st, p):
        v = st.store.get((fr, p[0]))
        if v is None:
            raise Stop(f"uninitialised local _{p[0]}")
        variant = None
        tyi = self.cur_locals(fr)[p[0]][0]
        for e in p[1:]:
            t = self.T[tyi] if tyi is not None else None
            if e == "*":
                v = self.deref(st, v)
                tyi = t["e"] if t and t["k"] in ("ref", "ptr") else None
            elif e == "oc" or e == "ub":
                pass
            elif e[0] == "f":
                v = self.field(v, variant, e[1], e[2])
                variant = None
                tyi = e[2]
            elif e[0] == "d":
                variant = e[1]
            elif e[0] == "i":
                v = select(v, st.store[(fr, e[1])])
                tyi = self.elem_ty(tyi) if tyi is not None else None
                if tyi is not None:
                    v = self.coerce(v, tyi)
            elif e[0] == "ci":
                n = self.vlen(v)
                i = sub(n, num(e[1])) if e[3] else num(e[1])
                v = select(v, i)
                tyi = self.elem_ty(tyi) if tyi is not None else None
                if tyi is not None:
                    v = self.coerce(v, tyi)
            elif e[0] == "ss":
                n = self.vlen(v)
                end = sub(n, num(e[2])) if e[3] else num(e[2])
                v = self.gslice(v, num(e[1]), sub(end, num(e[1])), self.is_bytes(tyi))
                tyi = None if tyi is None else tyi
            else:
                raise Stop(f"projection {e}")
        return v

    def place_ref(self, fr, st, p):
        """(loc, path) of a place, as a (conditional) mref value."""
        cur = mk("mref", (fr, p[0]), ())
        variant = None
        tyi = self.cur_locals(fr)[p[0]][0]
        for e in p[1:]:
            t = self.T[tyi] if tyi is not None else None
            if e == "*":
                v = self.deref(st, cur)

                def chk(x):
                    if x.op != "mref":
                        raise Stop("mutable borrow through " + x.op)
                    return x

                cur = ap(chk, v)
                tyi = t["e"] if t and t["k"] in ("ref", "ptr") else None
            elif e[0] == "f":
                el = ("f", e[1], variant, e[2], self.adt_shape(tyi) if tyi is not None else None)
                cur = ap(lambda x: mk("mref", x.args[0], x.args[1] + (el,)), cur)
                variant = None
                tyi = e[2]
            elif e[0] == "d":
                variant = e[1]
            elif e[0] == "i":
                iv = st.store[(fr, e[1])]
                cur = ap(lambda x, i: mk("mref", x.args[0], x.args[1] + (("i", i),)), cur, iv)
                tyi = self.elem_ty(tyi) if tyi is not None else None
            elif e[0] in ("ci", "ss"):
                v = self.deref(st, cur)
                n = self.vlen(v)
                if e[0] == "ci":
                    i = sub(n, num(e[1])) if e[3] else num(e[1])
                    cur = ap(lambda x, i: mk("mref", x.args[0], x.args[1] + (("i", i),)), cur, i)
                    tyi = self.elem_ty(tyi) if tyi is not None else None
                else:
                    end = sub(n, num(e[2])) if e[3] else num(e[2])
                    o = num(e[1])
                    l = sub(end, o)
                    isb = self.is_bytes(tyi)
                    cur = ap(lambda x, l: mk("mref", x.args[0], x.args[1] + (("sl", o, l, isb),)), cur, l)
            else:
                raise Stop(f"projection {e}")
        return cur

    def write_place(self, fr, st, p, val):
        if len(p) == 1:
            st.store[(fr, p[0])] = val
            return
        if "*" not in p[1:]:
            r = None
            # plain fields of a local that may be uninitialised so far
            if (fr, p[0]) not in st.store:
                tyi = self.cur_locals(fr)[p[0]][0]
                st.store[(fr, p[0])] = mk("uninit")
        self.store_ref(st, self.place_ref(fr, st, p), val)

    def cur_locals(self, fr):
        return self.frame_locals[fr]

    frame_locals = None

    def vlen(self, v):
        return ap(lambda x: blen(x), v)

    # ---------------------------------------------------------- operands
    def operand(self, fr, st, o):
        if o[0] in ("copy", "move"):
            return self.read_place(fr, st, o[1])
        if o[0] == "const":
            return self.const(o[1])
        if o[0] == "rtc":
            return FALSE
        raise Stop(f"operand {o[0]}")

    def const(self, c):
        if "fn" in c:
            return fnv(c["fn"])
        if "closure" in c:
            return mk("clos", c["closure"], ())
        t = self.T[c["t"]]
        if "val" in c:
            v = c["val"]
            if "f" in v:
                fs = [self.const(x) for x in v["f"]]
                if t["k"] == "tuple":
                    return tup(*fs)
                if t["k"] == "array":
                    return ap(lambda *l: mk("arr", *l), *fs) if fs else mk("arr")
                return adt(t["p"], v["variant"] or 0, *fs)
            if "int" in v:
                n = int(v["int"])
                if t["k"] == "prim":
                    if t["n"] == "bool":
                        return TRUE if n else FALSE
                    if t["n"].startswith("i") and n >= 1 << (8 * v["sz"] - 1):
                        n -= 1 << (8 * v["sz"])
                    return num(n)
                if t["k"] == "adt":
                    if t["p"] in self.enums():
                        return mk("adt", t["p"], n)
                    if t["p"] == OPT and n == 0 and self.T[t["a"][0]]["k"] == "ref":
                        return adt(OPT, 0)  # the null pointer
                    return mk("k", self.tstr(c["t"]), n)
                return num(n)
            if "bytes" in v:
                return mk("bytes", bytes.fromhex(v["bytes"]))
            if "zst" in v:
                if t["k"] == "tuple":
                    return tup(*[self.zst(x) for x in t["a"]])
                return self.zst(c["t"])
            if "static" in v:
                return mk("static", v["static"])
        if "promoted" in c:
            return self.const_body(c["promoted"])
        if "uneval" in c:
            n = c.get("n")
            tr = c.get("tr", "")
            if tr.endswith("Unsigned") and c.get("a"):
                return self.tylen(c["a"][0])
            if n == "ID" and tr.endswith("CipherSuite"):
                return mk("id")
            if "constbody" in c and c["constbody"] in self.map:
                return self.const_body(c["constbody"])
            a = ",".join(self.tstr(x) for x in c.get("a", []) if isinstance(x, int))
            return self.coerce(mk("kst", c["uneval"], a), c["t"])
        if "opaque" in c:
            return self.coerce(mk("kst", c["opaque"], ""), c["t"])
        raise Stop("constant")

    def zst(self, tyi):
        t = self.T[tyi]
        if t["k"] == "tuple":
            return tup(*[self.zst(x) for x in t["a"]])
        if t["k"] == "adt":
            return mk("adt", t["p"], 0)
        if t["k"] == "array":
            return mk("arr")
        return mk("zst", self.tstr(tyi))

    def const_body(self, key):
        if key not in self.map:
            return mk("kst", key, "")
        st = State(TRUE, {})
        save = self.stack
        s2, v = self.exec_body(key, [], st)
        if s2 is None:
            return BOT
        return v

    # ---------------------------------------------------------- rvalues
    def rvalue(self, fr, st, r, dty, span):
        k = r[0]
        if k == "use":
            return self.operand(fr, st, r[1])
        if k == "ref":
            if r[1] == "mut":
                p = r[2]
                # reborrow of a shared-transparent value is not possible: must be mref
                return self.place_ref(fr, st, p)
            return self.read_place(fr, st, r[2])
        if k == "agg":
            kd = r[1]
            ops = [self.operand(fr, st, o) for o in r[2]]
            if kd["k"] == "array":
                if self.T[kd["t"]].get("n") == "u8" and ops:
                    return cat(*[byte(x) for x in ops])
                return ap(lambda *l: mk("arr", *l), *ops) if ops else mk("arr")
            if kd["k"] == "tuple":
                return tup(*ops)
            if kd["k"] == "adt":
                return adt(kd["p"], kd["v"], *ops)
            if kd["k"] == "closure":
                return ap(lambda *l: mk("clos", kd["inst"], (), *l), *ops) if ops else mk("clos", kd["inst"], ())
            raise Stop("aggregate " + str(kd))
        if k == "repeat":
            v = self.operand(fr, st, r[1])
            n = r[2]
            isb = self.elem_ty(dty) is not None and self.is_bytes(dty)
            if isb and v is ZERO:
                return mk("zeros", num(n)) if isinstance(n, int) and n > 64 else (
                    mk("bytes", bytes(n)) if isinstance(n, int) else mk("zeros", mk("cst", str(n))))
            if isinstance(n, int) and n <= 64:
                if isb:
                    return cat(*[byte(v) for _ in range(n)])
                return ap(lambda x: mk("arr", *([x] * n)), v)
            return ap(lambda x: mk("rep", x, str(n)), v)
        if k == "discr":
            v = self.read_place(fr, st, r[1])
            tab = {a: self.signed(int(b), dty) for a, b in r[3]}
            v = self.coerce(v, r[2])

            def f(x):
                if x.op == "adt":
                    return num(tab.get(x.args[1], x.args[1]))
                if x.op == "k":
                    return num(x.args[1])
                return mk("discr", x)

            return ap(f, v)
        if k == "cast":
            return self.cast(r[1], self.operand(fr, st, r[2]), r[3], r[4], r[5], st)
        if k == "bin":
            return self.binop(r[1], self.operand(fr, st, r[2]), self.operand(fr, st, r[3]), r[4], st)
        if k == "un":
            v = self.operand(fr, st, r[2])
            if r[1] == "Not":
                if self.T[r[3]].get("n") == "bool":
                    return not_(v)
                return ap(lambda x: mk("iop", "Not", x), v)
            if r[1] == "Neg":
                return scale(-1, v)
            if r[1] == "PtrMetadata":
                return self.vlen(self.deref(st, v))
            raise Stop("unary " + r[1])
        if k == "rawptr" and r[1] == "FakeForPtrMetadata":
            return self.read_place(fr, st, r[2])  # only its length is asked for
        if k == "rawptr":
            self.unk.append(("raw pointer", self.stk(span)))
            return mk("raw", self.root["p"], span)
        if k == "tls":
            self.unk.append(("thread local", self.stk(span)))
            return mk("static", r[1])
        raise Stop("rvalue " + str(r)[:80])

    def trunc(self, v, bits, st, signed=False):
        hi = (1 << bits) - 1

        def f(x):
            if x.op == "n":
                return num(x.args[0] & hi)
            m, n = max_const(x), min_const(x)
            if m is not None and n is not None and n >= 0 and m <= hi:
                return x
            return mk("trunc", bits, x)

        v2 = ap(f, v)
        # values in range on every path reaching this point are unchanged
        if any(x.op == "trunc" for x in leaves(v2)):
            def g(pc, x):
                if x.op == "n":
                    return num(x.args[0] & hi)
                m, n = max_const(x), min_const(x)
                if (n is not None and n >= 0 or self.implied(pc, scale(-1, x))) and (
                    m is not None and m <= hi or self.implied(pc, sub(x, num(hi)))
                ):
                    return x
                return mk("trunc", bits, x)

            v2 = ap_under(st.pc, g, v)
        return v2

    def implied(self, pc, l):
        return implied_le0(pc, l)

    def cast(self, kind, v, tyi, sty, inst, st):
        if "Unsize" in kind or "MutToConst" in kind or kind in ("PtrToPtr", "Transmute", "Subtype"):
            return v
        if "ClosureFnPointer" in kind or "ReifyFnPointer" in kind or "UnsafeFnPointer" in kind:
            return v
        if kind == "IntToInt":
            t = self.T[tyi]
            s = self.T[sty]
            if s.get("n") == "bool":
                return ite(v, ONE, ZERO)
            if s["k"] == "prim" and t["k"] == "prim":
                if t["n"].startswith("u"):
                    return self.trunc(v, BITS[t["n"]], st)
                if t["n"] in BITS and t["n"] != "char":
                    bits = BITS[t["n"]]
                    half, full = 1 << (bits - 1), 1 << bits
                    over = self.out_of_range(v, -half, half - 1, st)
                    if over is not FALSE:
                        return ite(over, ap(lambda x: num((x.args[0] + half) % full - half) if x.op == "n" else mk("swrap", bits, x), v), v)
                return v
            return v
        raise Stop("cast " + kind)

    CMP = {"Eq", "Ne", "Lt", "Le", "Gt", "Ge"}

    def int_ty(self, tyi):
        t = self.peel(tyi)
        return t["n"] if t["k"] == "prim" and t["n"] in BITS else None

    def signed(self, x, tyi):
        """The number a bit pattern of the given type stands for."""
        it = self.int_ty(tyi) if tyi is not None else None
        if it and it.startswith("i") and x >> (BITS[it] - 1):
            return x - (1 << BITS[it])
        return x

    def binop(self, op, a, b, tyi, st):
        it = self.int_ty(tyi)
        t = self.peel(tyi)
        if t.get("n") == "bool" and t["k"] == "prim":
            x = {"BitAnd": lambda: and_(a, b), "BitOr": lambda: or_(a, b),
                 "BitXor": lambda: ite(a, not_(b), b), "Eq": lambda: ite(a, b, not_(b)),
                 "Ne": lambda: ite(a, not_(b), b),
                 "Lt": lambda: and_(not_(a), b), "Gt": lambda: and_(a, not_(b)),
                 "Le": lambda: or_(not_(a), b), "Ge": lambda: or_(a, not_(b))}.get(op)
            if x:
                return x()
            raise Stop("bool op " + op)
        if op in self.CMP:
            if it:
                if any(x.op == "iop" for v in (a, b) for x in leaves(v)):
                    def cmp(x, y):
                        z = self.shifted(op, x, y, it)
                        if z is not None:
                            return z
                        return {"Eq": lambda: ieq(x, y), "Ne": lambda: not_(ieq(x, y)), "Lt": lambda: lt(x, y),
                                "Le": lambda: le(x, y), "Gt": lambda: lt(y, x), "Ge": lambda: le(y, x)}[op]()

                    return ap(cmp, a, b)
                return {"Eq": lambda: ieq(a, b), "Ne": lambda: not_(ieq(a, b)), "Lt": lambda: lt(a, b),
                        "Le": lambda: le(a, b), "Gt": lambda: lt(b, a), "Ge": lambda: le(b, a)}[op]()
            if op == "Eq":
                return eq_term(a, b)
            if op == "Ne":
                return not_(eq_term(a, b))
            return ap(lambda x, y: bvar(mk("cond", op, x, y)), a, b)
        if it is None:
            return ap(lambda x, y: mk("iop", op, x, y), a, b)
        if op == "Cmp":
            o = "core::cmp::Ordering"
            return ite(lt(a, b), adt(o, 0), ite(ieq(a, b), adt(o, 1), adt(o, 2)))
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        bits = BITS[it]
        uns = it.startswith("u")
        hi = (1 << bits) - 1 if uns else (1 << (bits - 1)) - 1
        lo = 0 if uns else -(1 << (bits - 1))
        if base in ("Add", "Sub", "Mul"):
            r = {"Add": add, "Sub": sub, "Mul": imul}[base](a, b)
            over = self.out_of_range(r, lo, hi, st)
            if op.endswith("WithOverflow"):
                return tup(r, over)
            if op.endswith("Unchecked") or over is FALSE:
                return r
            # wrapping arithmetic (overflow checks are off)
            w = ap(lambda x: num(x.args[0] & hi) if uns and x.op == "n" else mk("wrap", bits, x), r)
            return ite(over, w, r)

        def f(x, y):
            if x.op == "n" and y.op == "n":
                p, q = x.args[0], y.args[0]
                try:
                    z = {"Div": lambda: p // q, "Rem": lambda: p % q, "BitAnd": lambda: p & q,
                         "BitOr": lambda: p | q, "BitXor": lambda: p ^ q,
                         "Shl": lambda: (p << q) & ((1 << bits) - 1), "Shr": lambda: p >> q}[base]()
                    return num(z)
                except Exception:
                    pass
            if base == "Shr" and y.op == "n":
                # byte extraction
                return mk("iop", "Shr", x, y)
            if base == "Shl" and y.op == "n" and False:
                return x
            return mk("iop", base, x, y)

        r = ap(f, a, b)
        if op.endswith("WithOverflow"):
            sh = FALSE
            if base in ("Shl", "Shr"):
                sh = not_(lt(b, num(bits)))
            return tup(r, sh)
        return r

    def shifted(self, op, a, b, it):
        """A comparison of x >> k, x / 2^k or x & !(2^k - 1) with a constant is
        one of x itself."""
        if not it.startswith("u"):
            return None
        flip = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le", "Eq": "Eq", "Ne": "Ne"}

        def high(x):
            if x.op != "iop" or len(x.args) != 3:
                return None
            o, y, m = x.args
            if o == "BitAnd" and y.op == "n":
                y, m = m, y
            if m.op != "n" or not is_nat(y):
                return None
            m = m.args[0]
            if o == "Shr" and m < BITS[it]:
                return y, 1 << m, 1
            if o == "Div" and m > 0:
                return y, m, 1
            if o == "BitAnd":
                low = ((1 << BITS[it]) - 1) ^ m
                if m and low & (low + 1) == 0:
                    return y, low + 1, low + 1
            return None

        if a.op == "n" and b.op == "iop":
            a, b, op = b, a, flip[op]
        if a.op != "iop" or b.op != "n":
            return None
        h = high(a)
        if h is None:
            return None
        y, q, unit = h
        c = b.args[0]

        def below(c):  # unit * (y div q) < c
            return lt(y, num(-(-c // unit) * q))

        return {"Lt": lambda: below(c), "Ge": lambda: not_(below(c)), "Le": lambda: below(c + 1), "Gt": lambda: not_(below(c + 1)),
                "Eq": lambda: and_(below(c + 1), not_(below(c))), "Ne": lambda: or_(not_(below(c + 1)), below(c))}[op]()

    def out_of_range(self, r, lo, hi, st):
        def f(x):
            m, n = max_const(x), min_const(x)
            up = FALSE if m is not None and m <= hi else not_(le0(sub(x, num(hi))))
            dn = FALSE if n is not None and n >= lo else not_(le0(sub(num(lo), x)))
            return or_(up, dn)

        return self.simp(st.pc, ap(f, r))

    def simp(self, pc, c):
        """Drop the linear conditions of c that pc decides."""
        if c.op == "b":
            return c
        c = self.restrict(pc, c)
        if c.op != "ite":
            return c
        for a in atoms(c):
            if a.op in ("le0", "eq"):
                l = a.args[0]
                val = None
                if a.op == "le0":
                    if implied_le0(pc, l):
                        val = 1
                    elif implied_le0(pc, sub(ONE, l)):
                        val = 0
                else:
                    if implied_le0(pc, add(l, ONE)) or implied_le0(pc, sub(ONE, l)):
                        val = 0
                    elif implied_le0(pc, l) and implied_le0(pc, scale(-1, l)):
                        val = 1
                if val is not None:
                    c = cof_deep(c, a, val)
        return c

    def restrict(self, pc, c):
        if ite(pc, c, FALSE) is FALSE:
            return FALSE
        if ite(pc, c, TRUE) is TRUE:
            return TRUE
        return c

    # ---------------------------------------------------------- blocks
    def succs(self, t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]]
        return []

    def body(self, key):
        return self.bodies[self.map[key]]

    def exec_body(self, key, args, st):
        """Returns (state, value) at the return of the body, or (None, BOT)."""
        if len(self.stack) > 70:
            raise Stop("call depth")
        deep = sum(1 for s in self.stack if s[0] == key)
        if deep > 2:
            # recursion that ends by itself on the values at hand is followed
            self.recursions = getattr(self, "recursions", 0) + 1
            if deep > 24 or self.recursions > 200:
                raise Stop("recursion in " + key)
        b = self.body(key)
        fr = next(self.frames)
        if self.frame_locals is None:
            self.frame_locals = {}
        self.frame_locals[fr] = b["locals"]
        self.ninlined.add(b["path"])
        outer = st.store
        s = State(st.pc, dict(outer))
        for i, a in enumerate(args):
            s.store[(fr, i + 1)] = self.coerce(a, b["locals"][i + 1][0]) if a.op != "mref" else a
        out = self.run_region(fr, b, None, 0, s, None)
        rets = merge(out.pop("ret", []))
        if rets is None:
            return None, BOT
        if self.T[b["locals"][0][0]] == {"k": "tuple", "a": []}:
            v = rets.store.get((fr, 0), UNIT)
        else:
            v = rets.store.get((fr, 0), UNIT)
        rets.store = {k: x for k, x in rets.store.items() if k[0] != fr}
        return rets, v

    def drop_glue(self, st, ref, plan, span):
        """Runs the crate's own `Drop` implementations of a value that goes away."""
        if "many" in plan:
            raise Stop("drop of a container of values with their own Drop")
        if plan["own"]:
            self.stack.append((plan["own"], span))
            try:
                st, _ = self.exec_body(plan["own"], [ref], st)
            finally:
                self.stack.pop()
            if st is None or st.pc is FALSE:
                return None
        sh = self.adt_shape(plan["t"])
        d = None
        for vi, (dv, fs) in enumerate(plan["vs"]):
            if not fs:
                continue
            rest = None
            if plan["e"]:
                d = self.rvalue_discr(st, ref, plan)
                c = self.simp(st.pc, ieq(d, num(int(dv))))
                rest = st.copy()
                rest.pc = and_(st.pc, not_(c))
                st = st.copy()
                st.pc = and_(st.pc, c)
                if st.pc is FALSE:
                    st = rest
                    continue
            for i, ft, p in fs:
                el = ("f", i, vi if plan["e"] else None, ft, sh)
                r2 = ap(lambda x: mk("mref", x.args[0], x.args[1] + (el,)), ref)
                st = self.drop_glue(st, r2, p, span)
                if st is None:
                    break
            st = merge([x for x in (st, rest) if x is not None])
            if st is None:
                return None
        return st

    def rvalue_discr(self, st, ref, plan):
        tab = {i: int(dv) for i, (dv, _) in enumerate(plan["vs"])}
        v = self.coerce(self.deref(st, ref), plan["t"])

        def f(x):
            if x.op == "adt":
                return num(tab.get(x.args[1], x.args[1]))
            if x.op == "k":
                return num(x.args[1])
            return mk("discr", x)

        return ap(f, v)

    def region_order(self, b, blocks, entry, header):
        key = (id(b), frozenset(blocks) if blocks is not None else None, entry, header)
        r = self.atys_cache.get(key)
        if r is not None:
            return r
        n = b["blocks"]
        allb = set(blocks) if blocks is not None else None

        def sc(i):
            return [t for t in self.succs(n[i][1])
                    if (allb is None or t in allb) and t != header]

        # Tarjan, iterative
        index, low, onst, stack, comps = {}, {}, set(), [], []
        cnt = itertools.count()
        work = [(entry, iter(sc(entry)))]
        index[entry] = low[entry] = next(cnt)
        stack.append(entry)
        onst.add(entry)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in index:
                    index[w] = low[w] = next(cnt)
                    stack.append(w)
                    onst.add(w)
                    work.append((w, iter(sc(w))))
                    adv = True
                    break
                elif w in onst:
                    low[v] = min(low[v], index[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == index[v]:
                comp = []
                while True:
                    w = stack.pop()
                    onst.discard(w)
                    comp.append(w)
                    if w == v:
                        break
                cyc = len(comp) > 1 or v in sc(v)
                comps.append((comp, cyc))
        comps.reverse()
        self.atys_cache[key] = comps
        return comps

    def run_region(self, fr, b, blocks, entry, st, header):
        ins = {entry: [st]}
        out = {}
        inside = set(blocks) if blocks is not None else None

        def route(label, s):
            if s.pc is FALSE:
                return
            if isinstance(label, int) and (inside is None or label in inside) and label != header:
                ins.setdefault(label, []).append(s)
            else:
                out.setdefault(label, []).append(s)

        for comp, cyc in self.region_order(b, blocks, entry, header):
            if not cyc:
                i = comp[0]
                s = merge(ins.pop(i, []))
                if s is None:
                    continue
                for label, s2 in self.block(fr, b, i, s.copy()):
                    route(label, s2)
            else:
                hs = [i for i in comp if i in ins]
                if not hs:
                    continue
                if len(hs) > 1:
                    raise Stop("irreducible loop")
                h = hs[0]
                s = merge(ins.pop(h))
                if s is None:
                    continue
                cs = frozenset(comp)

                def body_fn(s0, _h=h, _cs=cs):
                    o = self.run_region(fr, b, _cs, _h, s0, _h)
                    back = merge(o.pop(_h, []))
                    return {l: merge(x) for l, x in o.items()}, back

                span = b["span"]
                for x in b["blocks"][h][0]:
                    span = x[-1]
                ht = b["blocks"][h][1]
                if ht[0] == "call":
                    span = ht[5]
                for label, s2 in self.loop(s, body_fn, self.stk(span)).items():
                    route(label, s2)
        return out

    def block(self, fr, b, i, st):
        self.steps += 1
        if self.steps > 60000:
            raise Stop("analysis budget")
        stmts, term, _ = b["blocks"][i]
        loc = b["locals"]
        for s in stmts:
            if s[0] == "=":
                p = s[1]
                dty = loc[p[0]][0] if len(p) == 1 else None
                v = self.rvalue(fr, st, s[2], dty, s[3]) if dty is not None or s[2][0] != "repeat" else \
                    self.rvalue(fr, st, s[2], p[-1][2] if isinstance(p[-1], list) and p[-1][0] == "f" else None, s[3])
                self.write_place(fr, st, p, v)
            elif s[0] == "setd":
                raise Stop("set discriminant")
            elif s[0] == "intr":
                raise Stop("intrinsic " + s[1][:40])
        t = term
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "return":
            return [("ret", st)]
        if k in ("unreachable", "unwind"):
            return []
        if k == "drop":
            if t[5]:
                st = self.drop_glue(st, self.place_ref(fr, st, t[1]), t[5], t[4])
                if st is None or st.pc is FALSE:
                    return []
            return [(t[2], st)]
        if k == "switch":
            return self.switch(fr, st, t)
        if k == "assert":
            c = self.operand(fr, st, t[1])
            good = c if t[2] else not_(c)
            good = self.simp(st.pc, good)
            self.nsites += 1
            self.obligation(and_(st.pc, not_(good)), "assert:" + t[3][0], t[3][1] if len(t[3]) > 1 else "", t[5])
            st.pc = and_(st.pc, good)
            return [(t[4], st)] if st.pc is not FALSE else []
        if k == "call":
            return self.call_term(fr, b, st, t)
        raise Stop("terminator " + k)

    def obligation(self, pc, kind, detail, span):
        if pc is FALSE:
            return
        self.oblig.append((pc, kind, detail if isinstance(detail, str) else "", self.stk(span)))

    def switch(self, fr, st, t):
        d = self.operand(fr, st, t[1])
        isbool = self.T[t[5]].get("n") == "bool"
        res = []
        rest = TRUE
        decided = d.op in ("b", "n")
        for val, bb in t[2]:
            val = self.signed(int(val), t[5])
            if isbool:
                c = d if val else not_(d)
            else:
                it = self.int_ty(t[5])
                c = ap(lambda x: (self.shifted("Eq", x, num(val), it) if it else None) or eq0(sub(x, num(val))), d)
            c = self.simp(st.pc, c)
            here = and_(rest, c)
            pc = and_(st.pc, here)
            if pc is not FALSE:
                res.append((bb, State(pc, dict(st.store))))
            rest = and_(rest, not_(c))
        pc = and_(st.pc, rest)
        if pc is not FALSE:
            res.append((t[3], State(pc, dict(st.store))))
        if not decided:
            self.switches.append((st.pc, d, self.stk(t[4])))
        return res

    def call_term(self, fr, b, st, t):
        _, f, args, dest, target, span, atys, dty = t
        vals = [self.operand(fr, st, a) for a in args]
        if f[0] == "const" and "fn" in f[1]:
            fj = f[1]["fn"]
            s2, v = self.call_fn(fj, vals, st, span, dty, atys)
        else:
            fv = self.operand(fr, st, f)
            s2, v = self.call_value(fv, vals, st, span, dty, atys)
        if s2 is None or s2.pc is FALSE:
            return []
        if target is None:
            # a diverging call: a panic
            return []
        self.write_place(fr, s2, dest, v)
        return [(target, s2)]

    # ---------------------------------------------------------- calls
    def call_fn(self, fj, vals, st, span, dty=None, atys=None):
        p = fj["p"]
        for m, a, k in fj.get("own", ()):
            {"next": self.user_next, "as_ref": self.user_as_ref}.get(m, {})[a] = k
        if "ctor" in fj:
            return st, adt(fj["ctor"], fj["variant"], *vals)
        tr = fj.get("tr", "")
        if tr.startswith("core::ops::function::Fn"):
            tv = vals[1]
            if tv.op == "ite":
                # split on the shape of the argument tuple
                pass
            n = None
            if atys is not None:
                tt = self.T[atys[1]]
                n = len(tt["a"]) if tt["k"] == "tuple" else None
            if n is None:
                n = len(tv.args) if tv.op == "tup" else None
            if n is None:
                raise Stop("call with unknown argument tuple")
            al = [self.field(tv, None, i, None) for i in range(n)]
            return self.call_value(vals[0], al, st, span, dty, None)
        if fj["n"] in VARTIME and p.startswith(("core::slice::", "alloc::slice::", "core::str::", "alloc::str::", "alloc::vec::Vec")):
            # the time taken depends on the contents of the arguments
            self.events.append(("vartime", (p,) + tuple(self.deref_all(st, v) for v in vals), st.pc, self.stk(span)))
        m = self.models.find(self, fj)
        own = fj.get("inst") in self.map and (m is not None and m.prefer_inline or fj["inst"].startswith("voprf::"))
        if m is not None and not own:
            c = Ctx(self, fj, vals, st, span, dty, atys)
            self.stack.append((p, span))
            try:
                r = m.fn(c)
            finally:
                self.stack.pop()
            if r is NotImplemented:
                m = None
            else:
                if c.st is None or c.st.pc is FALSE:
                    return None, BOT
                if r is None:
                    r = UNIT
                if dty is not None:
                    r = self.coerce_result(r, dty)
                return c.st, r
        k = fj.get("inst", fj.get("definst"))
        if k is not None and k in self.map:
            self.stack.append((k, span))
            try:
                return self.exec_body(k, vals, st)
            finally:
                self.stack.pop()
        return self.opaque(fj, vals, st, span, dty, atys=atys)

    def coerce_result(self, r, dty):
        t = self.T[dty]
        if t["k"] == "ref" and t["m"]:
            return r
        return self.coerce(r, dty)

    def callee_name(self, fj):
        a = []
        for x in fj.get("a", []):
            if isinstance(x, int):
                a.append(self.tstr(x))
        return fj["p"], ",".join(a)

    def opaque(self, fj, vals, st, span, dty, note=True, atys=None):
        """A call of which only the arguments are known."""
        name, targs = self.callee_name(fj)
        if note:
            self.unk.append((name, self.stk(span)))
        st = st.copy()
        ins = [self.deref_all(st, v) for v in vals]
        if "vartime" in name:
            self.events.append(("vartime", (name,) + tuple(ins), st.pc, self.stk(span)))

        def f(*ls):
            return mk("app", name, targs, *ls)

        r = ap(f, *ins) if ins else mk("app", name, targs)
        if dty is not None:
            t = self.peel(dty)
            if t["k"] == "array" and isinstance(t["n"], int):
                for x in leaves(r):
                    tm.KNOWN_LEN[x] = t["n"]
        for j, v in enumerate(vals):
            if any(x.op == "mref" for x in leaves(v)):
                self.store_ref(st, v, ap(lambda x: mk("after", j, x), r))
        if vals and dty is not None and vals[0].op == "mref" and atys is not None and atys[0] == dty \
                and self.T[dty]["k"] == "ref" and self.T[dty]["m"] and "ra" not in fj and fj.get("tr") is None:
            return st, vals[0]  # a builder: a method that returns the reference it was called on
        if dty is not None:
            r = self.coerce_result(r, dty)
        return st, r

    def deref_all(self, st, v):
        """Replace mutable references inside a value by what they point to."""
        def f(x):
            if x.op == "mref":
                return self.deref_all(st, self.load(st, x.args[0], x.args[1]))
            if x.op in ("adt", "tup", "clos", "arr"):
                if contains(x, lambda y: y.op == "mref"):
                    o = {"adt": 2, "tup": 0, "clos": 2, "arr": 0}[x.op]
                    fs = [self.deref_all(st, y) for y in x.args[o:]]
                    return ap(lambda *l: mk(x.op, *x.args[:o], *l), *fs)
            return x

        return ap(f, v)

    def call_value(self, fv, args, st, span, dty=None, atys=None):
        if fv.op == "ite":
            res = []
            for leaf in dict.fromkeys(leaves(fv)):
                if leaf is BOT:
                    continue
                c = cond_eq_leaf(fv, leaf)
                s = State(and_(st.pc, c), dict(st.store))
                if s.pc is FALSE:
                    continue
                s2, v = self.call_value(leaf, args, s, span, dty, atys)
                if s2 is not None:
                    s2.store["rv"] = v
                    res.append(s2)
            m = merge(res)
            if m is None:
                return None, BOT
            m = m.copy()
            return m, m.store.pop("rv")
        if fv.op == "mref":
            inner = self.load(st, fv.args[0], fv.args[1])
            if inner.op == "mref":
                return self.call_value(inner, args, st, span, dty, atys)
            if inner.op == "clos":
                k = inner.args[0]
                if k in self.map:
                    self.stack.append((k, span))
                    try:
                        return self.exec_body(k, [fv] + args, st)
                    finally:
                        self.stack.pop()
            return self.call_value(inner, args, st, span, dty, atys)
        if fv.op == "clos":
            k = fv.args[0]
            if k in self.map:
                self.stack.append((k, span))
                try:
                    b = self.body(k)
                    env = fv
                    et = self.T[b["locals"][1][0]]
                    if et["k"] == "ref" and et["m"]:
                        loc = ("env", next(self.frames))
                        st = st.copy()
                        st.store[loc] = fv
                        env = mk("mref", loc, ())
                    return self.exec_body(k, [env] + args, st)
                finally:
                    self.stack.pop()
        if fv.op == "fnv":
            return self.call_fn(FNS[fv.args[0]], args, st, span, dty, atys)
        # unknown function value
        self.unk.append(("indirect call", self.stk(span)))
        ins = [self.deref_all(st, v) for v in args]
        return st, ap(lambda *l: mk("app", "call", "", *l), fv, *ins)

    # ---------------------------------------------------------- loops
    def loop(self, s, body_fn, where):
        import loops
        return loops.run(self, s, body_fn, where)

    # ---------------------------------------------------------- roots
    def param(self, x, tyi, st, i):
        t = self.T[tyi]
        if t["k"] == "ref" and t["m"]:
            loc = ("root", i)
            st.store[loc] = self.param(x, t["e"], st, (i, "*"))
            return mk("mref", loc, ())
        if t["k"] == "adt" and "fs" in t:
            return adt(t["p"], 0, *[self.param(mk("fld", x, 0, j), f, st, (i, j)) for j, f in enumerate(t["fs"])])
        if t["k"] == "tuple" and any(self.holds_mut(f) for f in t["a"]):
            return tup(*[self.param(mk("fld", x, 0, j), f, st, (i, j)) for j, f in enumerate(t["a"])])
        return self.coerce(x, tyi)

    def holds_mut(self, tyi):
        t = self.T[tyi]
        return t["k"] == "ref" and t["m"] or "fs" in t or t["k"] == "tuple" and any(map(self.holds_mut, t["a"]))

    def run_root(self, names=None):
        r = self.root
        st = State(TRUE, {})
        args = []
        for i, tyi in enumerate(r["in"]):
            n = names[i] if names else f"p{i}"
            args.append(self.param(mk("var", n), tyi, st, i))
        self.stack = [(r["p"], r["span"])]
        s2, v = self.exec_body(r["key"], args, st)
        self.final = s2
        if s2 is None:
            return BOT
        v = self.deref_all(s2, v)
        return v
