"""Models of functions outside the crate: the trusted leaf contracts.

Iterator and slice plumbing is given its defining equations, group, scalar and
hash operations become the algebra of terms.py.  Everything not listed here is
an uninterpreted function of its arguments.
"""
from terms import *
import terms as tm
from interp import (
    Stop, State, merge, adt, tup, some, ok, err, opt, NONE, OPT, RES, CF, UNIT, Ctx, BITS, nonneg,
)
import copy

import loops

TRAIT = {}
PATH = {}
INH = {}


class M:
    def __init__(self, fn, prefer_inline=False):
        self.fn = fn
        self.prefer_inline = prefer_inline


def trait(tr, *names, prefer_inline=False):
    def d(f):
        for n in names:
            TRAIT[(tr, n)] = M(f, prefer_inline)
        return f

    return d


def inh(head, *names):
    def d(f):
        for n in names:
            INH[(head, n)] = M(f)
        return f

    return d


def path(*ps):
    def d(f):
        for p in ps:
            PATH[p] = M(f)
        return f

    return d


def head(I, tyi):
    t = I.ty(tyi)
    if t["k"] == "prim":
        return t["n"]
    if t["k"] == "adt":
        return t["p"].split("::")[-1]
    return t["k"]


def find(I, fj):
    p = fj["p"]
    m = PATH.get(p)
    if m:
        return m
    tr = fj.get("tr")
    if tr:
        m = TRAIT.get((tr.split("::")[-1], fj["n"]))
        if m:
            return m
        return None
    if "implself" in fj:
        h = head(I, fj["implself"])
        m = INH.get((h, fj["n"]))
        if m:
            return m
    return None


# ---------------------------------------------------------------- group
G = "Group"


def G_(*names):
    return trait(G, *names)


def is_voprf_group(c):
    return c.fj["tr"].startswith("voprf::")


@G_("identity_elem")
def _(c):
    return IDENT if is_voprf_group(c) else NotImplemented


@G_("base_elem")
def _(c):
    return GEN if is_voprf_group(c) else NotImplemented


@G_("serialize_elem")
def _(c):
    return ap(lambda x: mk("ser_e", x), c.args[0])


@G_("serialize_scalar")
def _(c):
    return ap(lambda x: mk("ser_s", x), c.args[0])


@G_("is_identity_elem")
def _(c):
    return is_ident(c.args[0])


@G_("is_zero_scalar")
def _(c):
    return is_zero(c.args[0])


@G_("invert_scalar")
def _(c):
    c.I.events.append(("invert", c.args, c.st.pc, c.I.stk(c.span)))
    return s_inv(c.args[0])


@G_("zero_scalar")
def _(c):
    return SZERO


@G_("random_scalar")
def _(c):
    return draw(c, "rnd")


def draw(c, op, extra=()):
    """A draw from the caller's generator: a function of its state, which advances."""
    I = c.I
    rng = I.deref_all(c.st, c.args[0])
    c.I.events.append(("draw", (op,) + tuple(c.args), c.st.pc, I.stk(c.span)))
    r = ap(lambda x, *e: mk(op, *e, x), rng, *extra) if extra else ap(lambda x: mk(op, x), rng)
    c.st = c.st.copy()
    if any(x.op == "mref" for x in leaves(c.args[0])):
        I.store_ref(c.st, deepest(I, c.st, c.args[0]), ap(lambda x: mk("nextrng", op, x), rng))
    return r


def deepest(I, st, ref):
    def f(x):
        v = I.load(st, x.args[0], x.args[1])
        if v.op == "mref":
            return f(v)
        return x

    return ap(f, ref)


def hash_input(I, v):
    """Concatenation of a slice of byte slices."""
    def f(x):
        if x.op == "arr":
            return cat(*x.args)
        return mk("flat", x)

    return ap(f, v)


def dst_ok(d):
    def f(x):
        lo = min_const(blen(x))
        if lo is not None and lo >= 1:
            return TRUE
        return not_(eq0(blen(x)))

    return ap(f, d)


def hashed(c, op):
    msg = hash_input(c.I, c.args[0])
    dst = hash_input(c.I, c.args[1])
    H = c.I.tstr(c.fj["a"][1]) if len(c.fj.get("a", [])) > 1 else "?"
    v = ap(lambda m, d: mk(op, m, d, H), msg, dst)
    good = dst_ok(dst)
    c.I.events.append((op, (msg, dst), c.st.pc, c.I.stk(c.span)))
    if good is TRUE:
        return ok(v)
    return ite(good, ok(v), err(mk("ierr", op)))


@G_("hash_to_scalar")
def _(c):
    if not is_voprf_group(c):
        return NotImplemented
    return hashed(c, "H2S")


@G_("hash_to_curve")
def _(c):
    if not is_voprf_group(c):
        return NotImplemented
    return hashed(c, "H2G")


def deser(c, kind):
    b = c.args[0]

    def f(x):
        v = bvar(mk("ok", kind, x))
        return ite(v, ok(mk("dec_" + kind, x)), err(mk("ierr", "de_" + kind)))

    return c.I_err(ap(f, b)) if hasattr(c, "I_err") else ap(f, b)


@G_("deserialize_elem")
def _(c):
    return deser_typed(c, "e")


@G_("deserialize_scalar")
def _(c):
    return deser_typed(c, "s")


def variant_ix(I, path_, name):
    for a in I.D["adts"]:
        if a["p"] == path_:
            for i, v in enumerate(a["variants"]):
                if v["n"] == name:
                    return i
    return None


def deser_typed(c, kind):
    """Group::deserialize_*: its failures are the deserialization error
    (established for the built-in groups by C13)."""
    I = c.I
    ix = variant_ix(I, "voprf::error::Error", "Deserialization")
    e = mk("adt", "voprf::error::Error", ix)
    n = mk("cst", {"e": "ElemLen", "s": "ScalarLen"}[kind])

    def f(x):
        if x.op == "ser_" + kind:
            pass
        good = and_(ieq(blen(x), n), bvar(mk("ok", kind, x)))
        return ite(good, ok(mk("dec_" + kind, x)), err(e))

    return ap(f, c.args[0])


# ---------------------------------------------------------------- arithmetic
def sort_of(I, tyi):
    """'e' / 's' for group elements / scalars of an abstract group."""
    t = I.peel(tyi)
    if t["k"] == "proj" and t["tr"].startswith("voprf::") and t["n"] in ("Elem", "Scalar"):
        return "e" if t["n"] == "Elem" else "s"
    return None


def arith(op):
    def f(c):
        I = c.I
        if not c.atys:
            return NotImplemented
        a, b = sort_of(I, c.atys[0]), sort_of(I, c.atys[1])
        x, y = I.deref(c.st, c.args[0]), I.deref(c.st, c.args[1])
        if op in ("add", "sub") and a == b and a:
            if a == "e":
                return e_add(x, y if op == "add" else e_neg(y))
            return s_add(x, y, 1 if op == "add" else -1)
        if op == "mul":
            if a == "e" and b == "s":
                return e_mul(x, y)
            if a == "s" and b == "e":
                return e_mul(y, x)
            if a == "s" and b == "s":
                return s_mul(x, y)
        return NotImplemented

    return f


for _tr, _n, _o in (("Add", "add", "add"), ("Sub", "sub", "sub"), ("Mul", "mul", "mul")):
    TRAIT[(_tr, _n)] = M(arith(_o))


def arith_assign(op):
    f0 = arith(op)

    def f(c):
        I = c.I
        ref = c.args[0]
        cur = I.deref(c.st, ref)
        c2 = Ctx(I, c.fj, [cur, c.args[1]], c.st, c.span, None, c.atys)
        r = f0(c2)
        if r is NotImplemented:
            return r
        c.st = c.st.copy()
        I.store_ref(c.st, ref, r)
        return UNIT

    return f


for _tr, _n, _o in (
    ("AddAssign", "add_assign", "add"), ("SubAssign", "sub_assign", "sub"), ("MulAssign", "mul_assign", "mul"),
):
    TRAIT[(_tr, _n)] = M(arith_assign(_o))


@trait("Neg", "neg")
def _(c):
    s = sort_of(c.I, c.atys[0]) if c.atys else None
    if s == "e":
        return e_neg(c.args[0])
    if s == "s":
        return s_sub(SZERO, c.args[0])
    return NotImplemented


@trait("Sum", "sum")
def _(c):
    return NotImplemented


def ct_eq(c):
    I = c.I
    x, y = I.deref(c.st, c.args[0]), I.deref(c.st, c.args[1])
    return eq_any(I, x, y)


def eq_any(I, x, y):
    def f(a, b):
        if a.op in ("n", "lin", "u", "len", "cst") and b.op in ("n", "lin", "u", "len", "cst"):
            return eq0(sub(a, b))
        if a.op == "adt" and b.op == "adt" and a.args[0] == b.args[0]:
            if a.args[1] != b.args[1]:
                return FALSE
            return and_(*[eq_any(I, p, q) for p, q in zip(a.args[2:], b.args[2:])])
        if a.op == b.op and a.op in ("tup", "arr") and len(a.args) == len(b.args):
            return and_(*[eq_any(I, p, q) for p, q in zip(a.args, b.args)])
        return eq_term(a, b)

    return ap(f, x, y)


@trait("ConstantTimeEq", "ct_eq", "ct_ne")
def _(c):
    # comparing encodings of the same kind compares the values
    x, y = c.I.deref(c.st, c.args[0]), c.I.deref(c.st, c.args[1])

    def un(a, b):
        if a.op == b.op and a.op in ("ser_s", "ser_e"):
            return eq_term(a.args[0], b.args[0])
        return eq_any(c.I, a, b)

    r = ap(un, x, y)
    return not_(r) if c.fj["n"] == "ct_ne" else r


@trait("PartialEq", "eq", "ne", prefer_inline=True)
def _(c):
    I = c.I
    if c.atys is None:
        return NotImplemented
    t = I.peel(c.atys[0])
    if t["k"] == "adt" and t["p"].startswith("voprf::"):
        return NotImplemented
    x, y = I.deref_all(c.st, c.args[0]), I.deref_all(c.st, c.args[1])
    c.I.events.append(("vt_eq", (x, y), c.st.pc, c.I.stk(c.span)))
    if I.is_bytes(c.atys[0]):
        def f(a, b):
            if a.op == b.op and a.op in ("ser_s", "ser_e"):
                return eq_term(a.args[0], b.args[0])
            la, lb = blen(a), blen(b)
            e = eq0(sub(la, lb))
            return and_(e, eq_term(a, b))

        r = ap(f, x, y)
    elif t["k"] == "prim" and t["n"] == "bool":
        r = ite(x, y, not_(y))
    else:
        r = eq_any(I, x, y)
    return not_(r) if c.fj["n"] == "ne" else r


@trait("PartialOrd", "lt", "le", "gt", "ge", prefer_inline=True)
def _(c):
    I = c.I
    if c.atys and I.int_ty(c.atys[0]):
        a, b = I.deref_all(c.st, c.args[0]), I.deref_all(c.st, c.args[1])
        return {"lt": lambda: lt(a, b), "le": lambda: le(a, b), "gt": lambda: lt(b, a), "ge": lambda: le(b, a)}[c.fj["n"]]()
    return NotImplemented


@path("core::intrinsics::raw_eq")
def _(c):
    x, y = c.I.deref_all(c.st, c.args[0]), c.I.deref_all(c.st, c.args[1])
    c.I.events.append(("vt_eq", (x, y), c.st.pc, c.I.stk(c.span)))
    return eq_any(c.I, x, y)


@trait("BitXor", "bitxor")
def _(c):
    if c.atys and head(c.I, c.atys[0]) == "Choice":
        return ite(c.args[0], not_(c.args[1]), c.args[1])
    return NotImplemented


@inh("Choice", "unwrap_u8")
def _(c):
    return ite(c.args[0], ONE, ZERO)


@trait("BitAnd", "bitand")
def _(c):
    if c.atys and head(c.I, c.atys[0]) == "Choice":
        return and_(c.args[0], c.args[1])
    return NotImplemented


@trait("BitOr", "bitor")
def _(c):
    if c.atys and head(c.I, c.atys[0]) == "Choice":
        return or_(c.args[0], c.args[1])
    return NotImplemented


@trait("Not", "not")
def _(c):
    if c.atys and head(c.I, c.atys[0]) in ("Choice", "bool"):
        return not_(c.args[0])
    return NotImplemented


@trait("ConditionallySelectable", "conditional_select")
def _(c):
    a, b, ch = c.args
    return ite(ch, b, a)


@trait("ConditionallySelectable", "conditional_assign")
def _(c):
    I = c.I
    x, y = I.deref(c.st, c.args[0]), I.deref(c.st, c.args[1])
    c.st = c.st.copy()
    I.store_ref(c.st, c.args[0], ite(c.args[2], y, x))
    return UNIT


@trait("ConditionallySelectable", "conditional_swap")
def _(c):
    I = c.I
    x, y = I.deref(c.st, c.args[0]), I.deref(c.st, c.args[1])
    c.st = c.st.copy()
    I.store_ref(c.st, c.args[0], ite(c.args[2], y, x))
    I.store_ref(c.st, c.args[1], ite(c.args[2], x, y))
    return UNIT


# ---------------------------------------------------------------- hashing
def hname(c):
    t = c.I.ty(c.fj["self"]) if "self" in c.fj else None
    return c.I.tstr(c.fj["self"]) if t is not None else "?"


@trait("Digest", "new")
def _(c):
    return mk("hst", hname(c), EMPTY)


@trait("Default", "default", prefer_inline=True)
def _(c):
    I = c.I
    if c.dty is None:
        return NotImplemented
    t = I.ty(c.dty)
    if t["k"] == "ref":
        return EMPTY
    if t["k"] == "adt" and t["p"].endswith("GenericArray"):
        if I.is_bytes(c.dty):
            n = I.tylen(t["a"][1])
            return mk("bytes", bytes(n.args[0])) if n.op == "n" else mk("zeros", n)
        return NotImplemented
    if t["k"] == "array" and I.is_bytes(c.dty) and isinstance(t["n"], int):
        return mk("bytes", bytes(t["n"]))
    if t["k"] == "adt" and t["p"].split("::")[-1] == "Vec":
        return EMPTY if I.is_bytes(c.dty) else mk("arr")
    if t["k"] == "prim":
        return FALSE if t["n"] == "bool" else ZERO
    if t["k"] == "proj" and t["n"] == "Hash":
        return mk("hst", I.tstr(c.dty), EMPTY)
    return NotImplemented


@trait("Digest", "new_with_prefix")
def _(c):
    return ap(lambda b: mk("hst", hname(c), b), bytes_of(c, 0))


def bytes_of(c, i):
    I = c.I
    v = I.deref_all(c.st, c.args[i])
    for _ in range(4):
        if not any(x.op == "adt" and x.args[0] in I.user_as_ref for x in leaves(v)):
            break

        def own(x):
            if x.op != "adt" or x.args[0] not in I.user_as_ref:
                return x
            s2, r = I.exec_body(I.user_as_ref[x.args[0]], [x], c.st)
            return BOT if s2 is None else I.deref_all(c.st, r)

        v = ap(own, v)
    return ap(as_bytes, v)


def hupd(h, b):
    def f(x, y):
        if x.op == "hst":
            return mk("hst", *x.args[:-1], cat(x.args[-1], y))
        return mk("hupd", x, y)

    return ap(f, h, b)


@trait("Digest", "chain_update")
def _(c):
    return hupd(c.args[0], bytes_of(c, 1))


@trait("Update", "chain")
def _(c):
    return hupd(c.args[0], bytes_of(c, 1))


@trait("Digest", "update")
def _(c):
    return upd_hash(c)


def upd_hash(c):
    I = c.I
    h = I.deref(c.st, c.args[0])
    n = hupd(h, bytes_of(c, 1))
    c.st = c.st.copy()
    I.store_ref(c.st, c.args[0], n)
    return UNIT


@trait("Update", "update")
def _(c):
    return upd_hash(c)


def hfin(x):
    def f(x):
        if x.op == "hst":
            return mk("H", x.args[-1], *x.args[:-1])
        return mk("hfin", x)

    return ap(f, x)


@trait("Digest", "finalize")
def _(c):
    return hfin(c.args[0])


@trait("FixedOutput", "finalize_fixed")
def _(c):
    return hfin(c.args[0])


@trait("Digest", "digest")
def _(c):
    return ap(lambda b: mk("H", b, hname(c)), bytes_of(c, 0))


@trait("Digest", "output_size")
def _(c):
    return mk("cst", "HashLen")


@trait("Digest", "finalize_reset")
def _(c):
    I = c.I
    h = I.deref(c.st, c.args[0])
    c.st = c.st.copy()
    I.store_ref(c.st, c.args[0], mk("hst", hname(c), EMPTY))
    return hfin(h)


def hash_into(c, h):
    c.st = c.st.copy()
    c.I.store_ref(c.st, c.args[1], hfin(h))
    return UNIT


@trait("Digest", "finalize_into")
def _(c):
    return hash_into(c, c.args[0])


@trait("FixedOutput", "finalize_into")
def _(c):
    return hash_into(c, c.args[0])


@trait("Digest", "finalize_into_reset")
def _(c):
    I = c.I
    h = I.deref(c.st, c.args[0])
    v = hash_into(c, h)
    I.store_ref(c.st, c.args[0], mk("hst", hname(c), EMPTY))
    return v


# ---------------------------------------------------------------- randomness
def rng_fill(c):
    I = c.I
    buf = I.deref(c.st, c.args[1])
    n = I.vlen(buf)
    rng = I.deref_all(c.st, c.args[0])
    c.I.events.append(("draw", ("rndb",) + tuple(c.args), c.st.pc, I.stk(c.span)))
    v = ap(lambda n, x: mk("rndb", n, x), n, rng)
    c.st = c.st.copy()
    I.store_ref(c.st, c.args[1], v)
    if any(x.op == "mref" for x in leaves(c.args[0])):
        I.store_ref(c.st, deepest(I, c.st, c.args[0]), ap(lambda n, x: mk("nextrng", "rndb", n, x), n, rng))
    return v


@trait("RngCore", "fill_bytes")
def _(c):
    rng_fill(c)
    return UNIT


@trait("RngCore", "try_fill_bytes")
def _(c):
    v = rng_fill(c)
    return ap(lambda x: ite(bvar(mk("ok", "rng", x)), ok(UNIT), err(mk("rngerr", x))), v)


@trait("RngCore", "next_u32", "next_u64")
def _(c):
    bits = 32 if c.fj["n"] == "next_u32" else 64
    return ap(lambda x: mk("u", bits, x), draw(c, "rnd" + str(bits)))


# ---------------------------------------------------------------- bytes and slices
@inh("u8", "to_be_bytes")
@inh("u16", "to_be_bytes")
@inh("u32", "to_be_bytes")
@inh("u64", "to_be_bytes")
@inh("usize", "to_be_bytes")
def _(c):
    n = BITS[head(c.I, c.fj["implself"])] // 8
    return be(n, c.args[0])


@inh("u8", "to_le_bytes")
@inh("u16", "to_le_bytes")
@inh("u32", "to_le_bytes")
@inh("u64", "to_le_bytes")
@inh("usize", "to_le_bytes")
def _(c):
    n = BITS[head(c.I, c.fj["implself"])] // 8
    return le_bytes(n, c.args[0])


def int_models():
    for name, bits in BITS.items():
        if name.startswith("i") or name == "char":
            continue
        hi = (1 << bits) - 1

        def checked(op, hi=hi):
            def f(c):
                r = op(c.args[0], c.args[1])
                over = c.I.out_of_range(r, 0, hi, c.st)
                return ite(over, NONE, some(r))

            return f

        def saturating(op, top, hi=hi):
            def f(c):
                r = op(c.args[0], c.args[1])
                over = c.I.out_of_range(r, 0, hi, c.st)
                return ite(over, num(hi if top else 0), r)

            return f

        def wrapping(op, hi=hi, bits=bits):
            def f(c):
                r = op(c.args[0], c.args[1])
                over = c.I.out_of_range(r, 0, hi, c.st)
                w = ap(lambda x: num(x.args[0] & hi) if x.op == "n" else mk("wrap", bits, x), r)
                return ite(over, w, r)

            return f

        def overflowing(op, hi=hi, bits=bits):
            def f(c):
                r = op(c.args[0], c.args[1])
                over = c.I.out_of_range(r, 0, hi, c.st)
                w = ap(lambda x: num(x.args[0] & hi) if x.op == "n" else mk("wrap", bits, x), r)
                return tup(ite(over, w, r), over)

            return f

        for o, op, top in (("add", add, True), ("sub", sub, False), ("mul", imul, True)):
            INH[(name, "checked_" + o)] = M(checked(op))
            INH[(name, "saturating_" + o)] = M(saturating(op, top))
            INH[(name, "wrapping_" + o)] = M(wrapping(op))
            INH[(name, "overflowing_" + o)] = M(overflowing(op))

        def abs_diff(c):
            a, b = c.args
            return ite(le(a, b), sub(b, a), sub(a, b))

        INH[(name, "abs_diff")] = M(abs_diff)

        def from_be(c):
            def f(x):
                if x.op == "be" and x.args[0] * 8 == c_bits(c):
                    return x.args[1]
                if x.op == "bytes":
                    return num(int.from_bytes(x.args[0], "big"))
                return mk("u", c_bits(c), mk("frombe", x))

            return ap(f, c.args[0])

        INH[(name, "from_be_bytes")] = M(from_be)


def c_bits(c):
    return BITS[head(c.I, c.fj["implself"])]


int_models()


@trait("Ord", "min", "max", prefer_inline=True)
def _(c):
    if not (c.atys and c.I.int_ty(c.atys[0])):
        return NotImplemented
    a, b = c.args
    r = le(a, b)
    return ite(r, a, b) if c.fj["n"] == "min" else ite(r, b, a)


@path("core::intrinsics::integer_min", "core::intrinsics::integer_max")
def _(c):
    a, b = c.args
    r = le(a, b)
    return ite(r, a, b) if c.fj["n"].endswith("min") else ite(r, b, a)


@path("core::intrinsics::likely", "core::intrinsics::unlikely")
def _(c):
    return c.args[0]


@path("core::intrinsics::cold_path", "core::intrinsics::assume", "core::hint::assert_unchecked", "core::hint::spin_loop")
def _(c):
    return UNIT


@path("core::intrinsics::saturating_add", "core::intrinsics::saturating_sub")
def _(c):
    n = c.I.ty(c.dty).get("n")
    if n not in BITS or n.startswith("i"):
        return NotImplemented
    hi = (1 << BITS[n]) - 1
    up = c.fj["n"].endswith("add")
    r = (add if up else sub)(*c.args)
    return ite(c.I.out_of_range(r, 0, hi, c.st), num(hi if up else 0), r)


@path("core::cmp::min")
def _(c):
    if not (c.atys and c.I.int_ty(c.atys[0])):
        return NotImplemented
    a, b = c.args
    return ite(le(a, b), a, b)


@path("core::cmp::max")
def _(c):
    if not (c.atys and c.I.int_ty(c.atys[0])):
        return NotImplemented
    a, b = c.args
    return ite(le(a, b), b, a)


def val(c, i):
    return c.I.deref(c.st, c.args[i])


SL = ("slice", "array", "str", "Vec", "GenericArray", "Box", "String")


def inh_all(*names):
    def d(f):
        for h in SL:
            for n in names:
                INH[(h, n)] = M(f)
        return f

    return d


@inh_all("len")
def _(c):
    return c.I.vlen(val(c, 0))


@inh_all("is_empty")
def _(c):
    return ap(lambda n: eq0(n), c.I.vlen(val(c, 0)))


@inh_all("as_bytes", "as_slice", "as_ref", "to_vec", "into_vec", "into_boxed_slice", "as_mut_slice", "each_ref",
         "into_bytes", "to_owned", "as_str", "into_iter_slice")
def _(c):
    if c.fj["n"] == "as_mut_slice":
        return c.args[0]
    return val(c, 0)


@trait("Deref", "deref")
@trait("AsRef", "as_ref")
@trait("Borrow", "borrow")
@trait("ToOwned", "to_owned")
@trait("ToVec", "to_vec")
def _(c):
    I = c.I
    t = I.peel(c.atys[0]) if c.atys else {}
    if t.get("k") in ("slice", "array", "prim", "param") or (
        t.get("k") == "adt" and t["p"].split("::")[-1] in ("GenericArray", "Vec", "Box", "NonZeroScalar", "Zeroizing", "String")
    ):
        if t.get("k") == "adt" and t["p"].split("::")[-1] == "NonZeroScalar":
            return NotImplemented
        return val(c, 0)
    return NotImplemented


@trait("DerefMut", "deref_mut")
@trait("AsMut", "as_mut")
@trait("BorrowMut", "borrow_mut")
def _(c):
    t = c.I.peel(c.atys[0]) if c.atys else {}
    if t.get("k") in ("slice", "array") or (
        t.get("k") == "adt" and t["p"].split("::")[-1] in ("GenericArray", "Vec", "Box", "Zeroizing")
    ):
        return c.args[0]
    return NotImplemented


def range_of(I, c, r, n):
    """(start, length, ok) of a range value applied to length n."""
    def f(r, n):
        if r.op == "adt":
            nm = r.args[0].split("::")[-1]
            a = r.args[2:]
            if nm == "Range":
                return tup(a[0], sub(a[1], a[0]), tm.and_(le(a[0], a[1]), le(a[1], n)))
            if nm == "RangeFrom":
                return tup(a[0], sub(n, a[0]), le(a[0], n))
            if nm == "RangeTo":
                return tup(ZERO, a[0], le(a[0], n))
            if nm == "RangeFull":
                return tup(ZERO, n, TRUE)
            if nm == "RangeInclusive":
                e = add(a[1], ONE)
                return tup(a[0], sub(e, a[0]), tm.and_(le(a[0], e), le(e, n)))
            if nm == "RangeToInclusive":
                e = add(a[0], ONE)
                return tup(ZERO, e, le(e, n))
        raise Stop("range " + r.op)

    return ap(f, r, n)


def part(t, i):
    return ap(lambda x: x.args[i], t)


def index(c, mut):
    I = c.I
    base = val(c, 0)
    ix = c.args[1]
    it = I.peel(c.atys[1])
    n = I.vlen(base)
    isb = I.is_bytes(c.atys[0])
    if it["k"] == "prim":
        good = I.simp(c.st.pc, lt(ix, n))
        I.nsites += 1
        I.obligation(and_(c.st.pc, not_(good)), "index", "", c.span)
        c.st = c.st.copy()
        c.st.pc = and_(c.st.pc, good)
        if mut:
            return ap(lambda x, i: mk("mref", x.args[0], x.args[1] + (("i", i),)), c.args[0], ix)
        if isb:
            return ap(lambda b, i: byte_at(b, i), base, ix)
        return select(base, ix)
    r = range_of(I, c, ix, n)
    off, ln, good = part(r, 0), part(r, 1), part(r, 2)
    good = I.simp(c.st.pc, good)
    I.nsites += 1
    I.obligation(and_(c.st.pc, not_(good)), "slice index", "", c.span)
    c.st = c.st.copy()
    c.st.pc = and_(c.st.pc, good)
    if mut:
        return ap(lambda x, o, l: mk("mref", x.args[0], x.args[1] + (("sl", o, l, isb),)), c.args[0], off, ln)
    return I.gslice(base, off, ln, isb)


def byte_at(b, i):
    if b.op == "bytes" and i.op == "n" and i.args[0] < len(b.args[0]):
        return num(b.args[0][i.args[0]])
    if b.op == "leb":
        b, i = mk("be", *b.args), sub(num(b.args[0] - 1), i)
    return mk("byteat", b, i)


@trait("Index", "index")
def _(c):
    return index(c, False)


@trait("IndexMut", "index_mut")
def _(c):
    return index(c, True)


@inh_all("split_at", "split_at_checked", "split_at_unchecked")
def _(c):
    I = c.I
    b, m = val(c, 0), c.args[1]
    n = I.vlen(b)
    isb = I.is_bytes(c.atys[0])
    good = I.simp(c.st.pc, le(m, n))
    pair = tup(I.gslice(b, ZERO, m, isb), I.gslice(b, m, sub(n, m), isb))
    if c.fj["n"] == "split_at_checked":
        return ite(good, some(pair), NONE)
    I.nsites += 1
    I.obligation(and_(c.st.pc, not_(good)), "split_at", "", c.span)
    c.st = c.st.copy()
    c.st.pc = and_(c.st.pc, good)
    return pair


def fixed_chunks(c, mut, exact):
    """Chunks of a constant size of a slice of constant length."""
    I = c.I
    n, total = c.args[1], I.vlen(val(c, 0))
    if n.op != "n" or total.op != "n" or not n.args[0] or total.args[0] // n.args[0] > UNROLL:
        return None
    n, total = n.args[0], total.args[0]
    isb = I.is_bytes(c.atys[0])
    offs = [o for o in range(0, total, n) if o + n <= total or not exact]

    def one(o):
        a, l = num(o), num(min(n, total - o))
        if mut:
            return ap(lambda x: mk("mref", x.args[0], x.args[1] + (("sl", a, l, isb),)), c.args[0])
        return I.gslice(val(c, 0), a, l, isb)

    items = [one(o) for o in offs]
    if not items:
        return mk("iter", st_make([ZERO], lambda k: mk("never")), ZERO)
    return as_iter(I, c, ap(lambda *xs: mk("arr", *xs), *items))


@inh_all("chunks_exact_mut", "chunks_mut")
def _(c):
    x = c.args[0]
    if any(y.op != "mref" for y in leaves(x) if y is not BOT):
        return NotImplemented
    it = fixed_chunks(c, True, "exact" in c.fj["n"])
    return NotImplemented if it is None else it


@inh_all("chunks_exact", "chunks")
def _(c):
    I = c.I
    if not I.is_bytes(c.atys[0]):
        it = fixed_chunks(c, False, "exact" in c.fj["n"])
        return NotImplemented if it is None else it
    n = c.args[1]
    good = I.simp(c.st.pc, le(ONE, n))
    I.nsites += 1
    I.obligation(and_(c.st.pc, not_(good)), c.fj["n"], "", c.span)
    c.st = c.st.copy()
    c.st.pc = and_(c.st.pc, good)
    exact = c.fj["n"] == "chunks_exact"
    return ap(lambda b, n: mk("adt", "iter::ChunksExact" if exact else "iter::Chunks", 0, b, n), val(c, 0), n)


@inh_all("split_at_mut")
def _(c):
    I = c.I
    b, m = val(c, 0), c.args[1]
    n = I.vlen(b)
    isb = I.is_bytes(c.atys[0])
    good = I.simp(c.st.pc, le(m, n))
    I.nsites += 1
    I.obligation(and_(c.st.pc, not_(good)), "split_at_mut", "", c.span)
    c.st = c.st.copy()
    c.st.pc = and_(c.st.pc, good)
    z = ap(lambda x, m: mk("mref", x.args[0], x.args[1] + (("sl", ZERO, m, isb),)), c.args[0], m)
    w = ap(lambda x, m, n: mk("mref", x.args[0], x.args[1] + (("sl", m, sub(n, m), isb),)), c.args[0], m, n)
    return tup(z, w)


@inh_all("first", "last", "split_first", "split_last")
def _(c):
    I = c.I
    b = val(c, 0)
    n = I.vlen(b)
    isb = I.is_bytes(c.atys[0])
    empty = ap(lambda x: eq0(x), n)
    nm = c.fj["n"]
    last = nm.endswith("last")
    i = sub(n, ONE) if last else ZERO
    e = ap(lambda b, i: byte_at(b, i) if isb else select(b, i), b, i)
    if nm.startswith("split"):
        rest = I.gslice(b, ZERO if last else ONE, sub(n, ONE), isb)
        e = tup(e, rest)
    return ite(empty, NONE, some(e))


@inh_all("get")
def _(c):
    I = c.I
    b = val(c, 0)
    n = I.vlen(b)
    isb = I.is_bytes(c.atys[0])
    it = I.peel(c.atys[1])
    if it["k"] == "prim":
        i = c.args[1]
        e = ap(lambda b, i: byte_at(b, i) if isb else select(b, i), b, i)
        return ite(I.simp(c.st.pc, lt(i, n)), some(e), NONE)
    r = range_of(I, c, c.args[1], n)
    return ite(I.simp(c.st.pc, part(r, 2)), some(I.gslice(b, part(r, 0), part(r, 1), isb)), NONE)


def elem_ref(ref, i):
    return ap(lambda x, i: mk("mref", x.args[0], x.args[1] + (("i", i),)), ref, i)


@inh_all("get_mut", "first_mut", "last_mut")
def _(c):
    I = c.I
    b = val(c, 0)
    if not all(x.op == "mref" for x in leaves(c.args[0])):
        return NotImplemented
    n = I.vlen(b)
    isb = I.is_bytes(c.atys[0])
    if c.fj["n"] != "get_mut" or I.peel(c.atys[1])["k"] == "prim":
        i = {"first_mut": ZERO, "last_mut": sub(n, ONE)}.get(c.fj["n"]) if c.fj["n"] != "get_mut" else c.args[1]
        return ite(I.simp(c.st.pc, le(add(i, ONE), n) if c.fj["n"] == "get_mut" else le(ONE, n)), some(elem_ref(c.args[0], i)), NONE)
    r = range_of(I, c, c.args[1], n)
    z = ap(lambda x, o, l: mk("mref", x.args[0], x.args[1] + (("sl", o, l, isb),)), c.args[0], part(r, 0), part(r, 1))
    return ite(I.simp(c.st.pc, part(r, 2)), some(z), NONE)


@inh("slice", "split_off", "split_off_first", "split_off_last")
def _(c):
    I = c.I
    if not all(x.op == "mref" for x in leaves(c.args[0])):
        return NotImplemented
    b = val(c, 0)
    n = I.vlen(b)
    isb = I.is_bytes(c.atys[0])
    nm = c.fj["n"]
    if nm == "split_off":
        r = range_of(I, c, c.args[1], n)
        o, l, good = part(r, 0), part(r, 1), part(r, 2)
        front = ap(lambda x: TRUE if x.args[0].split("::")[-1] in ("RangeTo", "RangeToInclusive") else FALSE, c.args[1])
    else:
        front = TRUE if nm == "split_off_first" else FALSE
        o, l, good = (ZERO if front is TRUE else sub(n, ONE)), ONE, le(ONE, n)
    good = I.simp(c.st.pc, good)
    rest = ite(front, I.gslice(b, l, sub(n, l), isb), I.gslice(b, ZERO, o, isb))
    if nm == "split_off":
        out = I.gslice(b, o, l, isb)
    else:
        out = ap(lambda b, i: byte_at(b, i) if isb else select(b, i), b, o)
    c.st = c.st.copy()
    I.store_ref(c.st, c.args[0], ite(good, rest, b))
    return ite(good, some(out), NONE)


@inh_all("swap")
def _(c):
    I = c.I
    b = val(c, 0)
    n = I.vlen(b)
    i, j = c.args[1], c.args[2]
    good = I.simp(c.st.pc, and_(lt(i, n), lt(j, n)))
    I.nsites += 1
    I.obligation(and_(c.st.pc, not_(good)), "index", "", c.span)
    c.st = c.st.copy()
    c.st.pc = and_(c.st.pc, good)
    isb = I.is_bytes(c.atys[0])
    x = ap(lambda b, i: byte_at(b, i) if isb else select(b, i), b, i)
    y = ap(lambda b, i: byte_at(b, i) if isb else select(b, i), b, j)
    I.store_ref(c.st, elem_ref(c.args[0], i), y)
    I.store_ref(c.st, elem_ref(c.args[0], j), x)
    return UNIT


def known_array(v):
    """Elements of an array or byte string of known length, else None."""
    xs = [x for x in dict.fromkeys(leaves(v)) if x is not BOT]
    if len(xs) != 1:
        return None
    x = xs[0]
    if x.op == "arr":
        return list(x.args)
    if x.op in ("iter", "seq", "adt", "tup", "spent"):
        return None
    n = blen(x)
    if n.op != "n" or n.args[0] > 64:
        return None
    return [byte_at(x, num(i)) for i in range(n.args[0])]


def from_items(isb, xs):
    if isb:
        return cat(*[byte(x) for x in xs])
    return ap(lambda *l: mk("arr", *l), *xs) if xs else mk("arr")


@inh_all("reverse", "rotate_left", "rotate_right", "copy_within", "fill_with")
def _(c):
    I = c.I
    isb = I.is_bytes(c.atys[0])
    nm = c.fj["n"]
    v = val(c, 0)
    if nm == "reverse" and isb and v.op == "leb":
        xs = []
    else:
        xs = known_array(v)
        if xs is None:
            return NotImplemented
    c.st = c.st.copy()
    if nm == "reverse":
        new = mk("be", *v.args) if not xs and v.op == "leb" else from_items(isb, xs[::-1])
    elif nm == "fill_with":
        ys = []
        st_ = c.st
        for _ in xs:
            st_, y = I.call_value(c.args[1], [], st_, c.span, None, None)
            if st_ is None:
                c.st = None
                return BOT
            ys.append(y)
        c.st = st_.copy()
        new = from_items(isb, ys)
    elif nm == "copy_within":
        r = range_of(I, c, c.args[1], num(len(xs)))
        o, l, d = part(r, 0), part(r, 1), c.args[2]
        if not (o.op == l.op == d.op == "n") or max(o.args[0] + l.args[0], d.args[0] + l.args[0]) > len(xs):
            return NotImplemented
        o, l, d = o.args[0], l.args[0], d.args[0]
        new = from_items(isb, xs[:d] + xs[o:o + l] + xs[d + l:])
    else:
        k = c.args[1]
        if k.op != "n" or k.args[0] > len(xs):
            return NotImplemented
        k = k.args[0] if nm == "rotate_left" else len(xs) - k.args[0]
        new = from_items(isb, xs[k:] + xs[:k])
    I.store_ref(c.st, c.args[0], new)
    return UNIT


@inh_all("contains")
def _(c):
    I = c.I
    xs = known_array(val(c, 0))
    if xs is None:
        return NotImplemented
    y = I.deref_all(c.st, c.args[1])
    I.events.append(("vt_eq", (val(c, 0), y), c.st.pc, I.stk(c.span)))
    r = FALSE
    for x in xs:
        r = or_(r, eq_any(I, I.deref_all(c.st, x), y))
    return r


@inh_all("starts_with", "ends_with")
def _(c):
    I = c.I
    if not I.is_bytes(c.atys[0]) or not I.is_bytes(c.atys[1]):
        return NotImplemented
    a, b = val(c, 0), I.deref(c.st, c.args[1])
    I.events.append(("vt_eq", (a, b), c.st.pc, I.stk(c.span)))
    n, m = I.vlen(a), I.vlen(b)
    has = I.simp(c.st.pc, le(m, n))
    part_ = I.gslice(a, ZERO if c.fj["n"] == "starts_with" else sub(n, m), m, True)
    return ite(has, ap(eq_term, part_, b), FALSE)


def array_ty(I, i):
    """Length of the first fixed-length array inside a type."""
    t = I.peel(i)
    if t["k"] == "array":
        return num(t["n"]) if isinstance(t["n"], int) else None
    if t["k"] == "adt":
        for a in t["a"][:1]:
            if isinstance(a, int):
                return array_ty(I, a)
    if t["k"] == "tuple":
        for a in t.get("a", []):
            n = array_ty(I, a)
            if n is not None:
                return n
    return None


@inh_all("first_chunk", "last_chunk", "split_first_chunk", "split_last_chunk")
def _(c):
    I = c.I
    w = array_ty(I, c.dty) if c.dty is not None else None
    if w is None:
        return NotImplemented
    isb = I.is_bytes(c.atys[0])
    b = val(c, 0)
    n = I.vlen(b)
    nm = c.fj["n"]
    rest = sub(n, w)
    last = "last" in nm
    e = I.gslice(b, rest if last else ZERO, w, isb)
    if nm.startswith("split"):
        r = I.gslice(b, ZERO if last else w, rest, isb)
        e = tup(r, e) if last else tup(e, r)
    return ite(I.simp(c.st.pc, le(w, n)), some(e), NONE)


@inh_all("first_chunk_mut", "last_chunk_mut", "split_first_chunk_mut", "split_last_chunk_mut")
def _(c):
    I = c.I
    w = array_ty(I, c.dty) if c.dty is not None else None
    if w is None or not all(x.op == "mref" for x in leaves(c.args[0])):
        return NotImplemented
    isb = I.is_bytes(c.atys[0])
    n = I.vlen(val(c, 0))
    nm = c.fj["n"]
    rest = sub(n, w)
    last = "last" in nm

    def at(o, l):
        return ap(lambda x, o, l: mk("mref", x.args[0], x.args[1] + (("sl", o, l, isb),)), c.args[0], o, l)

    e = at(rest if last else ZERO, w)
    if nm.startswith("split"):
        r = at(ZERO if last else w, rest)
        e = tup(r, e) if last else tup(e, r)
    return ite(I.simp(c.st.pc, le(w, n)), some(e), NONE)


@inh_all("windows")
def _(c):
    I = c.I
    b, w = val(c, 0), c.args[1]
    n = I.vlen(b)
    good = I.simp(c.st.pc, le(ONE, w))
    I.nsites += 1
    I.obligation(and_(c.st.pc, not_(good)), "windows", "", c.span)
    c.st = c.st.copy()
    c.st.pc = and_(c.st.pc, good)
    isb = I.is_bytes(c.atys[0])
    return ap(lambda b, n, w: mk_iter([add(sub(n, w), ONE)], lambda k: I.gslice(b, k, w, isb)), b, n, w)


@inh("str", "bytes")
def _(c):
    return as_iter(c.I, c, val(c, 0))


@trait("Lengthen", "append", "prepend")
def _(c):
    I = c.I
    x, y = c.args
    if I.is_bytes(c.dty):
        y = ap(byte, y)
    elif any(z.op != "arr" for z in leaves(x)):
        return NotImplemented
    else:
        return ap(lambda x, y: mk("arr", *(x.args + (y,) if c.fj["n"] == "append" else (y,) + x.args)), x, y)
    return cat(x, y) if c.fj["n"] == "append" else cat(y, x)


@trait("Shorten", "pop_front", "pop_back")
def _(c):
    I = c.I
    b = c.args[0]
    isb = I.is_bytes(c.atys[0])
    n = I.vlen(b)
    i = ZERO if c.fj["n"] == "pop_front" else sub(n, ONE)
    e = ap(lambda b, i: byte_at(b, i) if isb else select(b, i), b, i)
    rest = I.gslice(b, ONE if c.fj["n"] == "pop_front" else ZERO, sub(n, ONE), isb)
    return tup(e, rest) if c.fj["n"] == "pop_front" else tup(rest, e)


@trait("Split", "split")
def _(c):
    I = c.I
    b = val(c, 0)
    t = I.ty(c.dty) if c.dty is not None else None
    if t is None or t["k"] != "tuple":
        return NotImplemented
    w = I.type_len(t["a"][0])
    if w is None or any(x.op == "mref" for x in leaves(c.args[0])):
        return NotImplemented
    isb = I.is_bytes(c.atys[0])
    return tup(I.gslice(b, ZERO, w, isb), I.gslice(b, w, sub(I.vlen(b), w), isb))


@trait("GenericSequence", "generate")
def _(c):
    """Filled in index order, one call for each index."""
    I = c.I
    n = I.type_len(c.dty) if c.dty is not None else None
    if n is None:
        return NotImplemented
    isb = I.is_bytes(c.dty)
    if n.op == "n" and n.args[0] <= 64:
        xs, s = [], c.st
        for i in range(n.args[0]):
            s, v = I.call_value(c.args[0], [num(i)], s, c.span, None, None)
            if s is None:
                c.st = None
                return BOT
            xs.append(v)
        c.st = s
        return from_items(isb, xs)
    if not isb:
        return NotImplemented
    loc = ("gen", next(I.frames))
    c.st = c.st.copy()
    c.st.store[loc] = mk("zeros", n)

    def step(s, v, item):
        s2, b = I.call_value(c.args[0], [item], s, c.span, None, None)
        if s2 is None:
            return []
        s2 = s2.copy()
        I.store_ref(s2, mk("mref", loc, (("i", item),)), b)
        return [("cont", s2, {})]

    def fin(l, s, v):
        s = s.copy()
        return s, s.store.pop(loc)

    return drive(c, mk("iter", st_make([n], lambda k: k), ZERO), {}, step, fin)


@trait("FunctionalSequence", "map", "zip", "fold")
def _(c):
    I = c.I
    xs = known_array(val(c, 0))
    nm = c.fj["n"]
    if xs is None:
        return NotImplemented
    if nm == "zip":
        ys = known_array(val(c, 1))
        if ys is None or len(ys) != len(xs):
            return NotImplemented
        calls = [[x, y] for x, y in zip(xs, ys)]
    else:
        calls = [[x] for x in xs]
    s, out = c.st, []
    acc = c.args[1] if nm == "fold" else None
    for a in calls:
        s, v = I.call_value(c.args[2 if nm in ("zip", "fold") else 1], ([acc] if nm == "fold" else []) + a, s, c.span, None, None)
        if s is None:
            c.st = None
            return BOT
        acc = v
        out.append(v)
    c.st = s
    return acc if nm == "fold" else from_items(I.is_bytes(c.dty), out)


@path("generic_array::transmute")
def _(c):
    # only used by arr!, from an array of the same elements
    return c.args[0]


@path("core::mem::size_of")
def _(c):
    a = [x for x in (c.fj.get("a") or []) if isinstance(x, int)]
    if len(a) == 1:
        t = c.I.ty(a[0])
        w = {"u8": 1, "i8": 1, "bool": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "usize": 8, "isize": 8, "u128": 16}
        if t["k"] == "prim" and t["n"] in w:
            return num(w[t["n"]])
        if t["k"] == "array" and isinstance(t["n"], int) and c.I.is_bytes(a[0]):
            return num(t["n"])
    return NotImplemented


@inh("EncodedPoint", "len")
def _(c):
    # the length of its byte form
    I = c.I
    name, targs = I.callee_name(c.fj)
    v = val(c, 0)
    return ap(lambda x: blen(mk("app", name.replace("::len", "::as_bytes"), targs, x)), v)


@inh_all("copy_from_slice", "clone_from_slice")
def _(c):
    I = c.I
    if c.fj["n"] == "clone_from_slice" and head(I, c.fj["implself"]) == "GenericArray":
        return ga_from(c)
    dst, src = val(c, 0), I.deref(c.st, c.args[1])
    good = I.simp(c.st.pc, ap(lambda a, b: eq0(sub(blen(a), blen(b))), dst, src))
    I.nsites += 1
    I.obligation(and_(c.st.pc, not_(good)), "copy_from_slice", "", c.span)
    c.st = c.st.copy()
    c.st.pc = and_(c.st.pc, good)
    I.store_ref(c.st, c.args[0], src)
    return UNIT


def ga_from(c):
    """GenericArray::{from_slice, clone_from_slice}: panics unless lengths agree."""
    I = c.I
    v = val(c, 0)
    n = I.type_len(c.dty)
    good = I.simp(c.st.pc, ap(lambda x: eq0(sub(blen(x), n)), v))
    I.nsites += 1
    I.obligation(and_(c.st.pc, not_(good)), "from_slice", "", c.span)
    c.st = c.st.copy()
    c.st.pc = and_(c.st.pc, good)
    return v


@inh("GenericArray", "from_slice")
def _(c):
    return ga_from(c)


@inh_all("fill")
def _(c):
    I = c.I
    if not I.is_bytes(c.atys[0]):
        return NotImplemented
    v = val(c, 0)
    n = I.vlen(v)
    b = c.args[1]

    def f(n, b):
        if b is ZERO:
            return mk("bytes", bytes(n.args[0])) if n.op == "n" else mk("zeros", n)
        return mk("fill", n, b)

    c.st = c.st.copy()
    I.store_ref(c.st, c.args[0], ap(f, n, b))
    return UNIT


@trait("Concat", "concat")
def _(c):
    if c.atys and c.I.is_bytes(c.atys[0]):
        return cat(c.args[0], c.args[1])
    if len(c.args) == 1:
        return hash_input(c.I, val(c, 0))
    return NotImplemented


@inh_all("concat")
def _(c):
    e = c.I.elem_ty(c.atys[0])
    if e is not None and c.I.is_bytes(e):
        return hash_input(c.I, val(c, 0))
    return NotImplemented


@inh_all("as_flattened")
def _(c):
    def f(v):
        if v.op == "arr" and all(x.op == "arr" for x in v.args):
            return mk("arr", *[y for x in v.args for y in x.args])
        raise Stop("as_flattened of " + v.op)

    return ap(f, val(c, 0))


def elemlen_conv(c):
    """Conversions between array types of the same bytes."""
    I = c.I
    if c.dty is None or not c.atys:
        return NotImplemented
    s, d = I.peel(c.atys[0]), I.peel(c.dty)
    if s == d:
        return c.args[0]
    arrs = ("array", "slice")

    def isarr(t):
        return t["k"] in arrs or (t["k"] == "adt" and t["p"].split("::")[-1] in ("GenericArray", "Vec", "Box")) or (
            t["k"] == "prim" and t["n"] == "str")

    if isarr(s) and isarr(d):
        v = I.deref(c.st, c.args[0])
        sl, dl = I.type_len(c.atys[0]), I.type_len(c.dty)
        if dl is not None and sl is None:
            # &GenericArray from &[T]: panics unless the lengths agree
            good = I.simp(c.st.pc, ap(lambda x: eq0(sub(blen(x), dl)), v))
            I.nsites += 1
            I.obligation(and_(c.st.pc, not_(good)), "array from slice", "", c.span)
            c.st = c.st.copy()
            c.st.pc = and_(c.st.pc, good)
        return v
    if s["k"] == "adt" and s["p"].split("::")[-1] == "Choice" and d.get("n") == "bool":
        return c.args[0]
    if s.get("n") == "u8" and d["k"] == "adt" and d["p"].split("::")[-1] == "Choice":
        return ap(lambda x: not_(eq0(x)), c.args[0])
    if s["k"] == "adt" and s["p"].split("::")[-1] == "CtOption" and d["k"] == "adt" and d["p"] == OPT:
        return ct_to_opt(c, c.args[0])
    if s["k"] == "prim" and d["k"] == "prim":
        if s["n"] == "bool":
            return ite(c.args[0], ONE, ZERO)
        return c.args[0]
    if d["k"] == "adt" and d["p"] == OPT and len(d["a"]) == 1 and d["a"][0] == c.atys[0]:
        return some(c.args[0])
    return NotImplemented


def ct_to_opt(c, v):
    def f(x):
        if x.op == "adt":
            return x
        return opt(bvar(mk("isvar", x, 1)), mk("fld", x, 1, 0))

    return ap(f, v)


@trait("From", "from", prefer_inline=False)
def _(c):
    r = elemlen_conv(c)
    return r


@trait("Into", "into")
def _(c):
    return elemlen_conv(c)


@trait("TryFrom", "try_from")
@trait("TryInto", "try_into")
def _(c):
    I = c.I
    if c.dty is None or not c.atys:
        return NotImplemented
    d = I.peel(c.dty)
    if d["k"] == "adt" and d["p"] == RES:
        target = d["a"][0]
        tt = I.peel(target)
        s = I.peel(c.atys[0])
        if tt["k"] == "prim" and s["k"] == "prim" and tt["n"] in BITS and s["n"] in BITS:
            if tt["n"].startswith("u"):
                over = I.out_of_range(c.args[0], 0, (1 << BITS[tt["n"]]) - 1, c.st)
                return ite(over, err(mk("converr")), ok(c.args[0]))
            return NotImplemented
        dl, sl = I.type_len(target), I.type_len(c.atys[0])
        if dl is not None and I.elem_ty(c.atys[0]) is not None:
            v = I.deref(c.st, c.args[0])
            good = I.simp(c.st.pc, ap(lambda x: eq0(sub(blen(x), dl)), v))
            return ite(good, ok(v), err(mk("converr")))
    return NotImplemented


@trait("Clone", "clone", prefer_inline=True)
def _(c):
    return val(c, 0)


@trait("Clone", "clone_from")
def _(c):
    c.st = c.st.copy()
    c.I.store_ref(c.st, c.args[0], val(c, 1))
    return UNIT


@inh("Option", "cloned", "copied")
def _(c):
    return ap(lambda x: x, val(c, 0))


@path("core::mem::swap")
def _(c):
    I = c.I
    a, b = val(c, 0), val(c, 1)
    c.st = c.st.copy()
    I.store_ref(c.st, c.args[0], b)
    I.store_ref(c.st, c.args[1], a)
    return UNIT


@path("core::mem::replace")
def _(c):
    I = c.I
    a = val(c, 0)
    c.st = c.st.copy()
    I.store_ref(c.st, c.args[0], c.args[1])
    return a


@path("core::mem::drop", "core::mem::forget", "core::hint::black_box")
def _(c):
    if "drop" in c.fj:
        loc = ("it", next(c.I.frames))
        s = c.st.copy()
        s.store[loc] = c.args[0]
        c.st = c.I.drop_glue(s, mk("mref", loc, ()), c.fj["drop"], c.span)
        return UNIT
    return UNIT if not c.fj["p"].endswith("black_box") else c.args[0]


@path("core::hint::must_use", "core::convert::identity")
def _(c):
    return c.args[0]


@trait("Zeroize", "zeroize")
def _(c):
    I = c.I
    refs = c.args[0]
    c.I.events.append(("zeroize", (I.deref_all(c.st, refs), refs), c.st.pc, I.stk(c.span)))
    if not any(x.op == "mref" for x in leaves(refs)):
        return UNIT
    s = sort_of(I, c.atys[0]) if c.atys else None
    z = {"e": mk("wiped"), "s": mk("wiped")}.get(s, mk("wiped"))
    if c.atys and I.is_bytes(c.atys[0]):
        v = I.deref(c.st, refs)
        z = ap(lambda n: mk("bytes", bytes(n.args[0])) if n.op == "n" else mk("zeros", n), I.vlen(v))
    c.st = c.st.copy()
    I.store_ref(c.st, deepest(I, c.st, refs), z)
    return UNIT


# ---------------------------------------------------------------- vectors
@inh("Vec", "new", "with_capacity")
def _(c):
    return EMPTY if c.dty is not None and c.I.is_bytes(c.dty) else mk("arr")


def vpush(v, x):
    def f(v, x):
        if v.op == "arr":
            return mk("arr", *v.args, x)
        return mk("push", v, x)

    # the pushed value keeps its own conditions
    if v.op != "ite" and v.op == "ph":
        return ap(lambda x: mk("push", v, x), x)
    return ap(f, v, x)


@inh("Vec", "push")
def _(c):
    I = c.I
    v = val(c, 0)
    n = cat(v, byte(c.args[1])) if I.is_bytes(c.atys[0]) else vpush(v, c.args[1])
    c.st = c.st.copy()
    I.store_ref(c.st, c.args[0], n)
    return UNIT


@inh("Vec", "extend_from_slice")
def _(c):
    I = c.I
    if not I.is_bytes(c.atys[0]):
        return NotImplemented
    v = cat(val(c, 0), I.deref(c.st, c.args[1]))
    c.st = c.st.copy()
    I.store_ref(c.st, c.args[0], v)
    return UNIT


@trait("Extend", "extend")
def _(c):
    I = c.I
    cur = val(c, 0)
    if cur.op == "arr" and not cur.args and not I.is_bytes(c.atys[0]):
        it = as_iter(I, c, c.args[1])
        new = collect_seq(I, c, it)
        c.st = c.st.copy()
        I.store_ref(c.st, c.args[0], new)
        return UNIT
    return NotImplemented


@inh("Vec", "reserve", "shrink_to_fit", "reserve_exact")
def _(c):
    return UNIT


# ---------------------------------------------------------------- iterators
def lazy(items):
    pass


def as_iter(I, c, v, depth=0):
    """View a value as an iterator (leafwise)."""
    def f(x):
        if x.op in ("iter", "mapm", "itc"):
            return x
        if x.op == "adt":
            nm = x.args[0].split("::")[-1]
            a = x.args[2:]
            if nm == "Range":
                n = sub(a[1], a[0])
                return mk("iter", st_make([n], lambda k: add(a[0], k)), ZERO)
            if nm == "RangeInclusive":
                n = add(sub(a[1], a[0]), ONE)
                return mk("iter", st_make([n], lambda k: add(a[0], k)), ZERO)
            if nm == "RangeFrom":
                return mk("iter", st_make([], lambda k: add(a[0], k)), ZERO)
            if nm == "Option":
                if x.args[1] == 0:
                    return mk("iter", st_make([ZERO], lambda k: mk("never")), ZERO)
                return mk("iter", st_make([ONE], lambda k: a[0]), ZERO)
            if own_iterator(I, x):
                return x
            raise Stop("iterator over " + nm)
        if x.op == "arr":
            return mk("iter", st([num(len(x.args))], lam_sel(x)), ZERO)
        if x.op == "seq":
            return mk("iter", x.args[0], ZERO)
        if x.op == "mref":
            inner = I.load(c.st, x.args[0], x.args[1])
            if any(y.op in ("iter", "mapm", "itc") or y.op == "adt" and ("range" in y.args[0].lower() or own_iterator(I, y)) for y in leaves(inner)):
                return x
            if inner.op == "mref":
                return as_iter(I, c, inner)
            return iter_mut_of(I, x, inner)
        if x.op in ("bytes", "cat", "zeros", "H", "ser_e", "ser_s", "be", "sl", "rndb"):
            return mk("iter", st_make([blen(x)], lambda k: mk("byteat", x, k)), ZERO)
        if x.op == "spent":
            raise Stop("an iterator read again after it was consumed through a reference")
        # an opaque collection or iterator
        return mk("iter", st_make([blen(x)], lambda k: select(x, k)), ZERO)

    return ap(f, v)


def iter_mut_of(I, ref, inner):
    """Exclusive references to the elements in turn."""
    def f(y):
        if y.op == "adt":
            raise Stop("exclusive iteration over " + y.args[0])
        return mk_iter([blen(y)], lambda k: mk("mref", ref.args[0], ref.args[1] + (("i", k),)))

    return ap(f, inner)


@inh_all("iter_mut")
def _(c):
    v = c.args[0]
    if v.op != "mref":
        return NotImplemented
    inner = c.I.load(c.st, v.args[0], v.args[1])
    while inner.op == "mref":
        v, inner = inner, c.I.load(c.st, inner.args[0], inner.args[1])
    if any(y.op == "adt" for y in leaves(inner)):
        return NotImplemented
    return iter_mut_of(c.I, v, inner)


def lam_sel(x):
    k = fresh("nat")
    return lam(k, mk("sel", x, k))


def opt_items(x):
    return x


@trait("IntoIterator", "into_iter")
def _(c):
    inst = c.fj.get("inst")
    if inst is not None and inst in c.I.map and inst.startswith("voprf::"):
        return NotImplemented  # written by the crate
    return as_iter(c.I, c, c.args[0])


@inh_all("iter")
def _(c):
    return as_iter(c.I, c, val(c, 0))


@inh("Option", "iter")
def _(c):
    return as_iter(c.I, c, val(c, 0))


@path("core::iter::sources::once::once")
def _(c):
    return ap(lambda x: mk("iter", st_make([ONE], lambda k: x), ZERO), c.args[0])


@path("core::iter::sources::empty::empty")
def _(c):
    return mk("iter", st_make([ZERO], lambda k: mk("never")), ZERO)


@path("core::iter::sources::repeat::repeat")
def _(c):
    return ap(lambda x: mk("iter", st_make([], lambda k: x), ZERO), c.args[0])


@path("core::iter::sources::repeat_n::repeat_n")
def _(c):
    return ap(lambda x, n: mk("iter", st_make([n], lambda k: x), ZERO), c.args[0], c.args[1])


@path("core::iter::sources::repeat_with::repeat_with")
def _(c):
    f = c.args[0]
    if contains(f, lambda y: y.op == "mref"):
        return mk("mapm", mk("iter", st_make([], lambda k: UNIT), ZERO), f, 0)
    I = c.I
    return stream_map(c, mk("iter", st_make([], lambda k: UNIT), ZERO), f, noarg=True)


@path("core::iter::adapters::zip::zip")
def _(c):
    return zip_(c, c.args[0], c.args[1])


def it_parts(x):
    """(lens, at) of an iterator leaf at its current position."""
    s, pos = x.args
    if pos is ZERO:
        return list(s.args[:-1]), lambda k: st_at(s, k)
    return [sub(n, pos) for n in s.args[:-1]], lambda k: st_at(s, add(pos, k))


def mk_iter(lens, at):
    """Iterator whose item conditions that do not depend on the index are
    decided outside."""
    k = fresh("nat")
    body = at(k)
    return iter_of(lens, k, body)


def iter_of(lens, k, body):
    for a in atoms(body):
        if k not in a.fv:
            return ite(bvar(a), iter_of(lens, k, cof_deep(body, a, 1)), iter_of(lens, k, cof_deep(body, a, 0)))
    return mk("iter", st(lens, lam(k, body)), ZERO)


def need_pure(c, *its):
    for v in its:
        for x in leaves(v):
            if x is not BOT and x.op != "iter":
                raise Stop("iterator with side effects in " + c.fj["n"])


def own_iter(c, i=0):
    """The iterator argument by value (a `&mut I` is followed)."""
    I = c.I
    v = as_iter(I, c, c.args[i])

    return followed(c, v)


def followed(c, v):
    """An iterator that is consumed through `&mut`: how far is not kept, so
    nothing may read it again."""
    I = c.I

    def f(x):
        if x.op == "mref":
            y = as_iter(I, c, I.load(c.st, x.args[0], x.args[1]))
            if y.op == "mref":
                return f(y)
            c.st = c.st.copy()
            I.store_ref(c.st, x, mk("spent"))
            return y
        return x

    return ap(f, v)


def it_trait(*names):
    return trait("Iterator", *names)


def stream_map(c, it, f, noarg=False):
    I = c.I

    def g(x, here):
        lens, at = it_parts(x)
        k = fresh("nat")
        item = at(k)
        inb = here
        for n in lens:
            inb = and_(inb, lt(k, n))
        s0 = State(and_(c.st.pc, inb), dict(c.st.store))
        s2, v = I.call_value(f, [] if noarg else [item], s0, c.span, None, None)
        if s2 is None:
            v = mk("never")
        v = restrict(and_(c.st.pc, inb), v)
        if v is BOT:
            v = mk("never")
        return iter_of(lens, k, v)

    # each alternative under the condition that selects it
    memo = {}
    for x in dict.fromkeys(leaves(it)):
        here = cond_eq_leaf(it, x)
        if x is not BOT and and_(c.st.pc, here) is not FALSE:
            memo[x] = g(x, here)
    return ap(lambda x: memo.get(x, BOT), it)


def has_mref(v):
    return any(contains(x, lambda y: y.op == "mref") for x in leaves(v))


@it_trait("map")
def _(c):
    it = own_iter(c)
    f = c.args[1]
    if has_mref(f) or has_mref(it) or any(x.op != "iter" for x in leaves(it) if x is not BOT):
        return ap(lambda x, g: mk("mapm", x, g, 1), it, f)
    return stream_map(c, it, f)


@it_trait("inspect")
def _(c):
    it = own_iter(c)
    f = c.args[1]
    if has_mref(f) or has_mref(it) or any(x.op != "iter" for x in leaves(it) if x is not BOT):
        return NotImplemented
    stream_map(c, it, f)  # for what the closure may do besides looking
    return it


@path("core::iter::sources::successors::successors")
def _(c):
    """Counting up until the step gives nothing."""
    first, f = c.args
    if has_mref(f) or first.op != "adt" or first.args[1] != 1 or first.args[2].op != "n":
        return NotImplemented
    a = first.args[2].args[0]
    k = fresh("nat")
    here = mark(c.I)
    s2, v = c.I.call_value(f, [k], State(c.st.pc, dict(c.st.store)), c.span, None, None)
    if s2 is None or s2.pc is not c.st.pc:
        reset(c.I, here)
        return NotImplemented
    v = restrict(c.st.pc, v)
    for bits in (8, 16, 32, 64):
        top = (1 << bits) - 1
        if v is ite(le(add(k, ONE), num(top)), some(add(k, ONE)), NONE) and a <= top:
            return mk("iter", st_make([num(top + 1 - a)], lambda j: add(num(a), j)), ZERO)
    reset(c.I, here)
    return NotImplemented


def mark(I):
    return len(I.oblig), len(I.switches), len(I.unk), len(I.events), I.nsites, len(I.loops)


def reset(I, s):
    from loops import rollback
    rollback(I, s)


def zip_(c, a, b):
    I = c.I
    x, y = followed(c, as_iter(I, c, a)), followed(c, as_iter(I, c, b))

    def f(p, q):
        if p.op != "iter" or q.op != "iter":
            return mk("itc", "zip", p, q)
        l1, a1 = it_parts(p)
        l2, a2 = it_parts(q)
        return mk_iter(l1 + l2, lambda k: tup(a1(k), a2(k)))

    return ap(f, x, y)


@it_trait("zip")
def _(c):
    return zip_(c, own_iter(c), c.args[1])


@it_trait("enumerate")
def _(c):
    def f(p):
        if p.op != "iter":
            return mk("itc", "zip", mk("iter", st_make([], lambda k: k), ZERO), p)
        l, a = it_parts(p)
        return mk_iter(l, lambda k: tup(k, a(k)))

    return ap(f, own_iter(c))


@it_trait("cloned", "copied", "by_ref", "fuse", "peekable")
def _(c):
    if c.fj["n"] == "by_ref":
        return c.args[0]
    it = own_iter(c)
    if c.fj["n"] == "peekable":
        need_pure(c, it)  # looking ahead has no effect of its own
    return it


@it_trait("rev")
def _(c):
    it = own_iter(c)
    need_pure(c, it)

    def f(p):
        l, a = it_parts(p)
        n = min_of(l)
        return mk_iter(l, lambda k: a(sub(sub(n, ONE), k)))

    return ap(f, it)


@it_trait("skip")
def _(c):
    it = own_iter(c)
    need_pure(c, it)

    def f(p, n):
        l, a = it_parts(p)
        left = [sub(x, n) for x in l]
        if all(c.I.simp(c.st.pc, le(n, x)) is TRUE for x in l):
            return mk_iter(left, lambda k: a(add(n, k)))
        # skipping more than there is leaves nothing
        left = [ite(le(n, x), y, ZERO) for x, y in zip(l, left)]
        return ap(lambda *q: mk_iter(list(q), lambda k: a(add(n, k))), *left)

    return ap(f, it, c.args[1])


@it_trait("take")
def _(c):
    it = own_iter(c)

    def f(p, n):
        if p.op != "iter":
            # the count is looked at first
            return mk("itc", "zip2", mk("iter", st_make([n], lambda k: k), ZERO), p)
        l, a = it_parts(p)
        return mk_iter(l + [n], a)

    return ap(f, it, c.args[1])


@it_trait("step_by")
def _(c):
    it = own_iter(c)
    need_pure(c, it)

    def f(p, n):
        l, a = it_parts(p)
        if n.op == "n" and n.args[0] > 0 and len(l) == 1 and l[0].op == "n":
            return mk_iter([num(-(-l[0].args[0] // n.args[0]))], lambda k: a(scale(n.args[0], k)))
        return mk_iter([mk("ceildiv", x, n) for x in l], lambda k: a(imul(n, k)))

    return ap(f, it, c.args[1])


@it_trait("chain")
def _(c):
    it = own_iter(c)
    other = followed(c, as_iter(c.I, c, c.args[1]))
    need_pure(c, it, other)
    return chained(c, it, other)


def chained(c, it, other):

    def f(p, q):
        l1, a1 = it_parts(p)
        l2, a2 = it_parts(q)
        n1 = min_of(l1)
        if c.st is not None and c.I.simp(c.st.pc, le(ZERO, n1)) is not TRUE:
            return ite(le(ZERO, n1), g(p, q, n1), g(p, q, ZERO))
        return g(p, q, n1)

    def g(p, q, n1):
        if n1 is ZERO:
            return q
        l1, a1 = it_parts(p)
        l2, a2 = it_parts(q)
        n2 = min_of(l2) if l2 else None
        b1, b2 = byte_view(p), byte_view(q)
        if b1 is not None and b2 is not None and b1.op != "ite" and b2.op != "ite":
            return as_iter(c.I, c, cat(b1, b2))
        if n1.op == "n" and n1.args[0] <= UNROLL:
            if n1 is ZERO:
                return q
            if n2 is not None and n2.op == "n" and n2.args[0] <= UNROLL:
                items = [a1(num(i)) for i in range(n1.args[0])] + [a2(num(i)) for i in range(n2.args[0])]
                arr = ap(lambda *xs: mk("arr", *xs), *items) if items else mk("arr")
                return as_iter(c.I, c, arr)
        lens = [add(n1, x) for x in l2]
        if n1.op == "n" and n1.args[0] <= UNROLL and all(a1(num(i)) is a2(sub(num(i), n1)) for i in range(n1.args[0])):
            return mk_iter(lens, lambda k: a2(sub(k, n1)))  # the second one continues the first
        return mk_iter(lens, lambda k: ite(lt(k, n1), a1(k), a2(sub(k, n1))))

    return ap(f, it, other)


def it_len(c, it):
    def f(p):
        if p.op in ("mapm",):
            return it_len(c, p.args[0])
        if p.op == "mref":
            return it_len(c, as_iter(c.I, c, c.I.load(c.st, p.args[0], p.args[1])))
        if p.op == "itc":
            a, b = it_len(c, p.args[1]), it_len(c, p.args[2])
            if a.op == "inf":
                return b
            if b.op == "inf":
                return a
            return min_of([a, b])
        if p.op != "iter":
            raise Stop("length of an iterator of the crate")
        l, _ = it_parts(p)
        # a range that runs backwards, or an iterator moved past its end, is empty
        l = [x if c.I.simp(c.st.pc, le(ZERO, x)) is TRUE else ite(le(ZERO, x), x, ZERO) for x in l]
        return ap(lambda *q: min_of(list(q)), *l)

    return ap(f, it)


@trait("ExactSizeIterator", "len")
def _(c):
    return min_split(c, it_len(c, as_iter(c.I, c, val(c, 0))))


def min_split(c, n):
    """A minimum is split on the comparison of its parts."""
    def f(x):
        if x.op != "min":
            return x
        a = list(x.args)
        m = a[0]
        for y in a[1:]:
            m = ap(lambda p, q: ite(le0(sub(p, q)), p, q), m, y)
        return m

    return ap(f, n)


@trait("ExactSizeIterator", "is_empty")
def _(c):
    return ap(lambda n: eq0(n), min_split(c, it_len(c, as_iter(c.I, c, val(c, 0)))))


@it_trait("size_hint")
def _(c):
    n = min_split(c, it_len(c, as_iter(c.I, c, val(c, 0))))
    return tup(n, some(n))


@it_trait("count")
def _(c):
    it = own_iter(c)
    need_pure(c, it)
    return min_split(c, it_len(c, it))


def own_iterator(I, x):
    return x.op == "adt" and (x.args[0] in I.user_next or x.args[0].startswith("iter::"))


def next_stateful(I, c, st_, ref, cur):
    """`from_fn`, and `map_while`, `take_while`, `scan` over any iterator."""
    kind, parts = cur.args[0], list(cur.args[2:])
    if kind in ("iter::ChunksExact", "iter::Chunks"):
        b, n = parts
        m = I.vlen(b)
        s = st_.copy()
        if kind == "iter::ChunksExact":
            has, w = I.simp(s.pc, le(n, m)), n
        else:
            has, w = I.simp(s.pc, le(ONE, m)), ite(le(n, m), n, m)
        rest = ite(has, I.gslice(b, w, sub(m, w), True), b)
        I.store_ref(s, ref, mk("adt", kind, 0, rest, n) if rest.op != "ite" else ap(lambda r: mk("adt", kind, 0, r, n), rest))
        return s, ite(has, some(I.gslice(b, ZERO, w, True)), NONE)
    locs = [("it", next(I.frames)) for _ in parts]
    s = st_.copy()
    for l, p in zip(locs, parts):
        s.store[l] = p
    refs = [mk("mref", l, ()) for l in locs]
    outs = []
    if kind in ("iter::Filter", "iter::FilterMap"):
        c2 = copy.copy(c)
        c2.st = s
        c2.args = refs
        v = predicate_loop(c2, some, NONE, True) if kind == "iter::Filter" else find_map(c2)
        if c2.st is None:
            return None, BOT
        s2 = c2.st.copy()
        s2.store["nx"] = v
        outs.append(s2)
    elif kind == "iter::FromFn":
        s2, v = I.call_value(refs[0], [], s, c.span, None, None)
        if s2 is not None:
            s2 = s2.copy()
            s2.store["nx"] = v
            outs.append(s2)
    else:
        s2, v = next_(I, c, s, refs[0])
        if s2 is None:
            return None, BOT
        has = cond_of(v, lambda x: x.op == "adt" and x.args[1] == 1)
        sn = State(and_(s2.pc, not_(has)), dict(s2.store))
        if sn.pc is not FALSE:
            sn.store["nx"] = NONE
            outs.append(sn)
        sy = State(and_(s2.pc, has), dict(s2.store))
        if sy.pc is not FALSE:
            item = ap(lambda x: x.args[2], restrict(has, v))
            args = [refs[2], item] if kind == "iter::Scan" else [item]
            s3, w = I.call_value(refs[1], args, sy, c.span, None, None)
            if s3 is not None:
                s3 = s3.copy()
                s3.store["nx"] = ite(w, some(item), NONE) if kind == "iter::TakeWhile" else w
                outs.append(s3)
    m = merge(outs)
    if m is None:
        return None, BOT
    m = m.copy()
    r = m.store.pop("nx")
    now = [m.store.pop(l) for l in locs]
    I.store_ref(m, ref, ap(lambda *l: mk("adt", kind, 0, *l), *now))
    return m, r


@path("core::iter::sources::from_fn::from_fn")
def _(c):
    return ap(lambda f: mk("adt", "iter::FromFn", 0, f), c.args[0])


def next_(I, c, st_, ref):
    """Advance the iterator at ref: (state, Option item)."""
    cur = I.load(st_, ref.args[0], ref.args[1])
    if cur.op == "ite":
        res = []
        for leaf in dict.fromkeys(leaves(cur)):
            if leaf is BOT:
                continue
            cc = cond_eq_leaf(cur, leaf)
            s = State(and_(st_.pc, cc), dict(st_.store))
            if s.pc is FALSE:
                continue
            I.store_ref(s, ref, leaf)
            s2, v = next_(I, c, s, ref)
            if s2 is not None:
                s2 = s2.copy()
                s2.store["nx"] = v
                res.append(s2)
        m = merge(res)
        if m is None:
            return None, BOT
        m = m.copy()
        return m, m.store.pop("nx")
    if cur.op == "mref":
        return next_(I, c, st_, cur)
    if cur.op == "adt" and cur.args[0].startswith("iter::"):
        return next_stateful(I, c, st_, ref, cur)
    if cur.op == "adt" and cur.args[0] in I.user_next:
        k = I.user_next[cur.args[0]]
        I.stack.append((k, c.span))
        try:
            return I.exec_body(k, [ref], st_)
        finally:
            I.stack.pop()
    if cur.op == "mapm":
        inner, f, na = cur.args
        loc = ("it", next(I.frames))
        s = st_.copy()
        s.store[loc] = inner
        s2, v = next_(I, c, s, mk("mref", loc, ()))
        if s2 is None:
            return None, BOT
        inner2 = s2.store[loc]
        has = cond_of(v, lambda x: x.op == "adt" and x.args[1] == 1)
        outs = []
        sy = State(and_(s2.pc, has), dict(s2.store))
        sn = State(and_(s2.pc, not_(has)), dict(s2.store))
        if sn.pc is not FALSE:
            sn.store["nx"] = NONE
            outs.append(sn)
        if sy.pc is not FALSE:
            item = restrict(has, v)
            item = ap(lambda x: x.args[2], item)
            floc = ("itf", next(I.frames))
            sy.store[floc] = f
            s3, w = I.call_value(mk("mref", floc, ()), [item] if na else [], sy, c.span, None, None)
            if s3 is not None:
                s3 = s3.copy()
                f2 = s3.store.pop(floc, f)
                s3.store["nx"] = some(w)
                s3.store["nf"] = f2
                outs.append(s3)
        m = merge(outs)
        if m is None:
            return None, BOT
        m = m.copy()
        r = m.store.pop("nx")
        f2 = m.store.pop("nf", f)
        m.store.pop(loc, None)
        I.store_ref(m, ref, ap(lambda i, g: mk("mapm", i, g, na), inner2, f2))
        return m, r
    if cur.op == "itc":
        kind, a, b = cur.args
        la, lb = ("it", next(I.frames)), ("it", next(I.frames))
        s = st_.copy()
        s.store[la], s.store[lb] = a, b
        s2, v = next_(I, c, s, mk("mref", la, ()))
        if s2 is None:
            return None, BOT
        has = cond_of(v, lambda x: x.op == "adt" and x.args[1] == 1)
        outs = []
        sn = State(and_(s2.pc, not_(has)), dict(s2.store))
        if sn.pc is not FALSE:
            sn.store["nx"] = NONE
            outs.append(sn)
        sy = State(and_(s2.pc, has), dict(s2.store))
        if sy.pc is not FALSE:
            s3, w = next_(I, c, sy, mk("mref", lb, ()))
            if s3 is not None:
                s3 = s3.copy()
                has2 = cond_of(w, lambda x: x.op == "adt" and x.args[1] == 1)
                va = ap(lambda x: x.args[2], restrict(has, v))
                vb = ap(lambda x: x.args[2], restrict(has2, w))
                pair = vb if kind == "zip2" else tup(va, vb)
                s3.store["nx"] = ite(has2, some(pair), NONE)
                outs.append(s3)
        m = merge(outs)
        m = m.copy()
        r = m.store.pop("nx")
        na, nb = m.store.pop(la), m.store.pop(lb)
        I.store_ref(m, ref, ap(lambda x, y: mk("itc", kind, x, y), na, nb))
        return m, r
    if cur.op != "iter":
        it = as_iter(I, c, cur)
        if it.op not in ("iter",):
            raise Stop("next of " + cur.op)
        s = st_.copy()
        I.store_ref(s, ref, it)
        return next_(I, c, s, ref)
    s, pos = cur.args
    has = TRUE
    for n in s.args[:-1]:
        has = and_(has, lt(pos, n))
    has = I.simp(st_.pc, has)
    st2 = st_.copy()
    if has is FALSE:
        return st2, NONE
    item = st_at(s, pos)
    np_ = mk("iter", s, add(pos, ONE))
    # the position only advances when an item is returned; an exhausted
    # iterator stays exhausted, so the advanced value may be used for both
    I.store_ref(st2, ref, np_)
    return st2, ite(has, some(item), NONE)


@it_trait("next")
def _(c):
    st2, v = next_(c.I, c, c.st, c.args[0])
    c.st = st2
    return v


@inh("Peekable", "peek")
def _(c):
    ref = c.args[0]
    cur = c.I.load(c.st, ref.args[0], ref.args[1])
    need_pure(c, cur)
    return next_(c.I, c, c.st, ref)[1]


@it_trait("nth")
def _(c):
    I = c.I
    ref = c.args[0]
    cur = as_iter(I, c, I.load(c.st, ref.args[0], ref.args[1]))
    need_pure(c, cur)
    n = c.args[1]

    def f(p, n):
        l, a = it_parts(p)
        has = TRUE
        for x in l:
            has = and_(has, lt(n, x))
        return opt(has, a(n))

    r = ap(f, cur, n)
    c.st = c.st.copy()
    I.store_ref(c.st, ref, ap(lambda p, n: mk("iter", p.args[0], add(p.args[1], n, ONE)), cur, n))
    return r


@trait("DoubleEndedIterator", "next_back")
def _(c):
    I = c.I
    ref = c.args[0]
    cur = as_iter(I, c, I.load(c.st, ref.args[0], ref.args[1]))
    need_pure(c, cur)

    def f(p):
        l, a = it_parts(p)
        n = min_of(l)
        return opt(lt(ZERO, n), a(sub(n, ONE)))

    r = ap(f, cur)
    c.st = c.st.copy()
    I.store_ref(c.st, ref, ap(lambda p: mk("iter", st([sub(n, ONE) for n in p.args[0].args[:-1]], p.args[0].args[-1]), p.args[1]), cur))
    return r


@it_trait("last")
def _(c):
    cur = own_iter(c)
    need_pure(c, cur)

    def f(p):
        l, a = it_parts(p)
        n = min_of(l)
        return opt(lt(ZERO, n), a(sub(n, ONE)))

    return ap(f, cur)


def drive(c, it, init, step, finish):
    """Run a consumer through the loop summariser.

    init: dict of loop variables; step(state, vars, item) -> list of
    (label, state, vars) with label "cont" or "break"; finish(label, state,
    vars) -> (state, value)."""
    I = c.I
    loc = ("drv", next(I.frames))
    s = c.st.copy()
    s.store[loc + ("it",)] = it
    for n, v in init.items():
        s.store[loc + (n,)] = v

    def body(s0):
        s1, v = next_(I, c, s0, mk("mref", loc + ("it",), ()))
        if s1 is None:
            return {}, None
        has = cond_of(v, lambda x: x.op == "adt" and x.args[1] == 1)
        ex = {}
        sn = State(and_(s1.pc, not_(has)), dict(s1.store))
        if sn.pc is not FALSE:
            ex["done"] = [sn]
        back = []
        sy = State(and_(s1.pc, has), dict(s1.store))
        if sy.pc is not FALSE:
            item = ap(lambda x: x.args[2], restrict(has, v))
            vars_ = {n: sy.store[loc + (n,)] for n in init}
            for label, s2, vs in step(sy, vars_, item):
                if s2 is None or s2.pc is FALSE:
                    continue
                s2 = s2.copy()
                for n, x in vs.items():
                    s2.store[loc + (n,)] = x
                if label == "cont":
                    back.append(s2)
                else:
                    ex.setdefault(label, []).append(s2)
        return {l: merge(x) for l, x in ex.items()}, merge(back)

    outs = loops.run(I, s, body, I.stk(c.span))
    res = []
    for label, s2 in outs.items():
        vars_ = {n: s2.store.get(loc + (n,)) for n in list(init) + ["out"]}
        s3, v = finish(label, s2.copy(), vars_)
        if s3 is None:
            continue
        s3 = s3.copy()
        s3.store = {k: x for k, x in s3.store.items() if not (isinstance(k, tuple) and k[:2] == loc)}
        s3.store["rv"] = v
        res.append(s3)
    m = merge(res)
    if m is None:
        c.st = None
        return BOT
    m = m.copy()
    r = m.store.pop("rv")
    c.st = m
    return r


def consumer_iter(c):
    """Iterator argument of a consuming method: `&mut it` advances in place."""
    return as_iter(c.I, c, c.args[0])


@it_trait("fold")
def _(c):
    I = c.I
    f = c.args[2]
    floc = fstore(c, f)

    def step(s, v, item):
        s2, a = I.call_value(floc, [v["acc"], item], s, c.span, None, None)
        return [("cont", s2, {"acc": a})] if s2 is not None else []

    return drive(c, consumer_iter(c), {"acc": c.args[1]}, step, lambda l, s, v: (s, v["acc"]))


def fstore(c, f):
    """A closure kept in a location so that its own state can change."""
    if not any(x.op == "clos" and len(x.args) > 2 for x in leaves(f)):
        return f
    return f


@it_trait("for_each")
def _(c):
    I = c.I
    f = c.args[1]

    def step(s, v, item):
        s2, _ = I.call_value(f, [item], s, c.span, None, None)
        return [("cont", s2, {})] if s2 is not None else []

    return drive(c, consumer_iter(c), {}, step, lambda l, s, v: (s, UNIT))


@it_trait("sum")
def _(c):
    I = c.I
    s = sort_of(I, c.dty) if c.dty is not None else None
    if s not in ("e", "s"):
        if c.dty is not None and I.int_ty(c.dty):
            it = own_iter(c)
            need_pure(c, it)

            def fi(p):
                l, a = it_parts(p)
                k = fresh("nat")
                b = a(k)
                if b.op == "n":
                    return imul(min_of(l), b)
                n = min_of(l)
                if n.op == "n" and n.args[0] <= UNROLL:
                    return add(*[a(num(i)) for i in range(n.args[0])]) if n.args[0] else ZERO
                return mk("sumN", *l, lam(k, b))

            return ap(fi, it)
        return NotImplemented

    def step(st_, v, item):
        item = I.deref(st_, item)
        return [("cont", st_, {"acc": (e_add if s == "e" else s_add)(v["acc"], item)})]

    return drive(c, consumer_iter(c), {"acc": IDENT if s == "e" else SZERO}, step, lambda l, s_, v: (s_, v["acc"]))


def predicate_loop(c, on_true, on_done, by_ref):
    I = c.I
    f = c.args[1]

    def step(s, v, item):
        s2, b = I.call_value(f, [item], s, c.span, None, None)
        if s2 is None:
            return []
        b = ap(lambda x: x if x.op == "b" else bvar(mk("bt", x)), b)
        y = State(and_(s2.pc, b), dict(s2.store))
        n = State(and_(s2.pc, not_(b)), dict(s2.store))
        return [("hit", y, {"out": item}), ("cont", n, {})]

    def fin(l, s, v):
        if l == "hit":
            return s, on_true(v["out"])
        return s, on_done

    return drive(c, consumer_iter(c), {}, step, fin)


@it_trait("any")
def _(c):
    return predicate_loop(c, lambda x: TRUE, FALSE, True)


@it_trait("all")
def _(c):
    I = c.I
    f = c.args[1]

    def step(s, v, item):
        s2, b = I.call_value(f, [item], s, c.span, None, None)
        if s2 is None:
            return []
        b = ap(lambda x: x if x.op == "b" else bvar(mk("bt", x)), b)
        y = State(and_(s2.pc, b), dict(s2.store))
        n = State(and_(s2.pc, not_(b)), dict(s2.store))
        return [("hit", n, {}), ("cont", y, {})]

    return drive(c, consumer_iter(c), {}, step, lambda l, s, v: (s, FALSE if l == "hit" else TRUE))


@it_trait("find")
def _(c):
    return predicate_loop(c, some, NONE, True)


@it_trait("position")
def _(c):
    I = c.I
    f = c.args[1]

    def step(s, v, item):
        s2, b = I.call_value(f, [item], s, c.span, None, None)
        if s2 is None:
            return []
        y = State(and_(s2.pc, b), dict(s2.store))
        n = State(and_(s2.pc, not_(b)), dict(s2.store))
        return [("hit", y, {"out": v["i"]}), ("cont", n, {"i": add(v["i"], ONE)})]

    return drive(c, consumer_iter(c), {"i": ZERO}, step, lambda l, s, v: (s, some(v["out"]) if l == "hit" else NONE))


@it_trait("find_map")
def find_map(c):
    I = c.I
    f = c.args[1]

    def step(s, v, item):
        s2, o = I.call_value(f, [item], s, c.span, None, None)
        if s2 is None:
            return []
        has = cond_of(o, lambda x: x.op == "adt" and x.args[1] == 1)
        y = State(and_(s2.pc, has), dict(s2.store))
        n = State(and_(s2.pc, not_(has)), dict(s2.store))
        return [("hit", y, {"out": restrict(has, o)}), ("cont", n, {})]

    return drive(c, consumer_iter(c), {}, step, lambda l, s, v: (s, v["out"] if l == "hit" else NONE))


def try_parts(o):
    """(continues?, payload, residual) of a Result / Option / ControlFlow value."""
    cont = cond_of(o, lambda x: x.op == "adt" and (
        (x.args[0] == RES and x.args[1] == 0) or (x.args[0] == OPT and x.args[1] == 1)
        or (x.args[0] == CF and x.args[1] == 0)))
    pay = ap(lambda x: x.args[2] if len(x.args) > 2 else UNIT, restrict(cont, o))
    return cont, pay


@it_trait("try_fold", "try_for_each")
def _(c):
    I = c.I
    each = c.fj["n"] == "try_for_each"
    f = c.args[1] if each else c.args[2]
    dt = I.peel(c.dty)

    def wrap(x):
        if dt["p"] == RES:
            return ok(x)
        if dt["p"] == OPT:
            return some(x)
        return adt(CF, 0, x)

    def step(s, v, item):
        s2, o = I.call_value(f, [item] if each else [v["acc"], item], s, c.span, None, None)
        if s2 is None:
            return []
        cont, pay = try_parts(o)
        y = State(and_(s2.pc, cont), dict(s2.store))
        n = State(and_(s2.pc, not_(cont)), dict(s2.store))
        return [("cont", y, {"acc": pay}), ("hit", n, {"out": restrict(not_(cont), o)})]

    init = {"acc": UNIT if each else c.args[1]}
    return drive(c, consumer_iter(c), init, step, lambda l, s, v: (s, v["out"] if l == "hit" else wrap(v["acc"])))


def collect_seq(I, c, it):
    if all(x.op == "iter" for x in leaves(it) if x is not BOT):
        return ap(lambda p: seq_of(p), it)

    def step(s, v, item):
        return [("cont", s, {"acc": vpush(v["acc"], item)})]

    return drive(c, it, {"acc": mk("arr")}, step, lambda l, s, v: (s, v["acc"]))


def seq_of(p):
    l, a = it_parts(p)
    n = min_of(l)
    if n.op == "n" and n.args[0] <= UNROLL:
        items = [a(num(i)) for i in range(n.args[0])]
        return ap(lambda *xs: mk("arr", *xs), *items) if items else mk("arr")
    if p.args[1] is ZERO:
        return mk("seq", p.args[0])
    k = fresh("nat")
    return mk("seq", st(l, lam(k, a(k))))


def byte_view(p):
    """The byte string an iterator leaf runs over, when it is one."""
    if p.op != "iter" or not p.args[0].args[:-1]:
        return None
    l, a = it_parts(p)
    k = fresh("nat")
    x = a(k)
    if x is BOT:
        return None
    x = byte(x) if x.op != "ite" else x
    if x.op != "sl":
        return None
    off = sub(x.args[1], k)
    if k in off.fv or k in x.args[0].fv:
        return None
    return slice_(x.args[0], off, min_of(l))


def collect_bytes(c, it, fixed):
    views = {x: byte_view(x) for x in leaves(it) if x is not BOT}
    if not views or any(v is None or v.op == "ite" for v in views.values()):
        return NotImplemented
    v = ap(lambda x: views[x] if x in views else x, it)
    if not fixed:
        return v
    n = c.I.type_len(c.dty)  # GenericArray::from_iter panics unless the count is right
    good = c.I.simp(c.st.pc, ap(lambda x: eq0(sub(blen(x), n)), v))
    c.I.nsites += 1
    c.I.obligation(and_(c.st.pc, not_(good)), "collect", "", c.span)
    c.st = c.st.copy()
    c.st.pc = and_(c.st.pc, good)
    return restrict(c.st.pc, v)


@inh("GenericArray", "from_exact_iter")
def _(c):
    it = as_iter(c.I, c, c.args[0])
    t = c.I.peel(c.dty)
    if t["k"] != "adt" or t["p"] != OPT or not c.I.is_bytes(t["a"][0]):
        return NotImplemented
    views = {x: byte_view(x) for x in leaves(it) if x is not BOT}
    if not views or any(v is None or v.op == "ite" for v in views.values()):
        return NotImplemented
    n = c.I.type_len(t["a"][0])
    return ap(lambda x: ite(eq0(sub(blen(views[x]), n)), some(views[x]), NONE) if x in views else x, it)


@trait("FromIterator", "from_iter")
def _(c):
    return collect(c)


@it_trait("collect")
def collect(c):
    I = c.I
    t = I.peel(c.dty)
    for m, a, k in c.fj.get("own", ()):
        if m == "from_iter" and t["k"] == "adt" and a == t["p"] and k in I.map:
            c.st, v = I.exec_body(k, [c.args[0]], c.st)
            return v
    it = consumer_iter(c)
    if t["k"] == "adt" and t["p"] in (RES, OPT):
        inner = t["a"][0]

        def step(s, v, item):
            cont, pay = try_parts(item)
            y = State(and_(s.pc, cont), dict(s.store))
            n = State(and_(s.pc, not_(cont)), dict(s.store))
            return [("cont", y, {"acc": vpush(v["acc"], pay)}), ("hit", n, {"out": restrict(not_(cont), item)})]

        wrap = ok if t["p"] == RES else some
        return drive(c, it, {"acc": mk("arr")}, step, lambda l, s, v: (s, v["out"] if l == "hit" else wrap(v["acc"])))
    if t["k"] == "adt" and t["p"].split("::")[-1] in ("Vec", "Box", "GenericArray", "VecDeque"):
        if I.is_bytes(c.dty):
            return collect_bytes(c, it, t["p"].split("::")[-1] == "GenericArray")
        return collect_seq(I, c, it)
    return NotImplemented


@it_trait("unzip")
def _(c):
    I = c.I
    it = consumer_iter(c)
    if not all(x.op == "iter" for x in leaves(it) if x is not BOT):
        return NotImplemented

    def proj(i):
        def g(p):
            l, a = it_parts(p)
            k = fresh("nat")
            return seq_of(mk("iter", st(l, lam(k, ap(lambda y: y.args[i], a(k)))), ZERO))

        return ap(g, it)

    return tup(proj(0), proj(1))


@it_trait("map_while")
def _(c):
    return ap(lambda x, f: mk("adt", "iter::MapWhile", 0, x, f), as_iter(c.I, c, c.args[0]), c.args[1])


@it_trait("take_while")
def _(c):
    return ap(lambda x, f: mk("adt", "iter::TakeWhile", 0, x, f), as_iter(c.I, c, c.args[0]), c.args[1])


@it_trait("scan")
def _(c):
    return ap(lambda x, z, f: mk("adt", "iter::Scan", 0, x, f, z), as_iter(c.I, c, c.args[0]), c.args[1], c.args[2])


@it_trait("filter", "filter_map")
def _(c):
    kind = "iter::Filter" if c.fj["n"] == "filter" else "iter::FilterMap"
    return ap(lambda x, f: mk("adt", kind, 0, x, f), as_iter(c.I, c, c.args[0]), c.args[1])


def known_items(it):
    """Items of an iterator without effects and of known length, else None."""
    xs = [x for x in dict.fromkeys(leaves(it)) if x is not BOT]
    if len(xs) != 1 or xs[0].op != "iter":
        return None
    l, a = it_parts(xs[0])
    n = min_of(l)
    if n.op != "n" or n.args[0] > 64:
        return None
    return [a(num(i)) for i in range(n.args[0])]


@it_trait("flatten", "flat_map")
def _(c):
    I = c.I
    it = own_iter(c)
    if c.fj["n"] == "flatten" and it.op == "ite":
        # one of several lists of known items
        if any(known_items(x) is None or len(known_items(x)) > UNROLL for x in leaves(it) if x is not BOT):
            return NotImplemented

        def one(x):
            if x is BOT:
                return x
            out = mk("iter", st_make([ZERO], lambda k: mk("never")), ZERO)
            for y in known_items(x):
                y = as_iter(I, c, y)
                need_pure(c, y)
                out = chained(c, out, y)
            return out

        return ap(one, it)
    xs = known_items(it)
    if xs is None or len(xs) > UNROLL:
        return NotImplemented
    s, its = c.st, []
    for x in xs:
        if c.fj["n"] == "flat_map":
            s, x = I.call_value(c.args[1], [x], s, c.span, None, None)
            if s is None:
                c.st = None
                return BOT
        its.append(as_iter(I, c, x))
    c.st = s
    need_pure(c, *its)
    if not its:
        return mk("iter", st_make([ZERO], lambda k: mk("never")), ZERO)
    out = its[0]
    for y in its[1:]:
        out = chained(c, out, y)
    return out


@it_trait("skip_while")
def _(c):
    return NotImplemented


@it_trait("eq", "ne")
def _(c):
    I = c.I
    x, y = own_iter(c), followed(c, as_iter(I, c, c.args[1]))
    r = None
    xs, ys = known_items(x), known_items(y)
    if xs is not None and ys is not None:
        r = TRUE if len(xs) == len(ys) else FALSE
        for a, b in zip(xs, ys):
            r = and_(r, eq_any(I, I.deref_all(c.st, a), I.deref_all(c.st, b)))
        c.I.events.append(("vt_eq", (tup(*xs), tup(*ys)), c.st.pc, c.I.stk(c.span)))
    elif x.op == "iter" and y.op == "iter":
        a, b = byte_view(x), byte_view(y)
        if a is not None and b is not None and a.op != "ite" and b.op != "ite":
            c.I.events.append(("vt_eq", (a, b), c.st.pc, c.I.stk(c.span)))
            r = and_(eq0(sub(blen(a), blen(b))), eq_term(a, b))
    if r is None:
        return NotImplemented
    return not_(r) if c.fj["n"] == "ne" else r


@it_trait("reduce")
def _(c):
    I = c.I
    xs = known_items(own_iter(c))
    if xs is None:
        return NotImplemented
    if not xs:
        return NONE
    acc, s = xs[0], c.st
    for x in xs[1:]:
        s, acc = I.call_value(c.args[1], [acc, x], s, c.span, None, None)
        if s is None:
            c.st = None
            return BOT
    c.st = s
    return some(acc)


@it_trait("max", "min")
def _(c):
    I = c.I
    xs = known_items(own_iter(c))
    t = I.peel(I.ty(c.dty)["a"][0]) if c.dty is not None and I.ty(c.dty)["k"] == "adt" else None
    if xs is None or t is None or t["k"] != "prim" or t["n"] in ("bool", "char"):
        return NotImplemented
    if not xs:
        return NONE
    xs = [I.deref_all(c.st, x) for x in xs]
    acc = xs[0]
    for x in xs[1:]:
        acc = ap(lambda a, b: ite(lt(a, b) if c.fj["n"] == "max" else lt(b, a), b, a), acc, x)
    return some(acc)


# array helpers
@path("core::array::from_fn")
def _(c):
    I = c.I
    t = I.peel(c.dty)
    if t["k"] == "array" and isinstance(t["n"], int) and t["n"] <= 32:
        xs = []
        s = c.st
        for i in range(t["n"]):
            s, v = I.call_value(c.args[0], [num(i)], s, c.span, None, None)
            if s is None:
                c.st = None
                return BOT
            xs.append(v)
        c.st = s
        if I.is_bytes(c.dty):
            return cat(*[byte(x) for x in xs])
        return ap(lambda *l: mk("arr", *l), *xs)
    return NotImplemented


@inh("array", "map")
def _(c):
    I = c.I
    v = c.args[0]
    ns = {len(x.args) if x.op == "arr" else -1 for x in leaves(v) if x is not BOT}
    if len(ns) != 1 or -1 in ns:
        return NotImplemented
    xs = []
    s = c.st
    for i in range(ns.pop()):
        x = ap(lambda a: a.args[i], v)
        s, y = I.call_value(c.args[1], [x], s, c.span, None, None)
        if s is None:
            c.st = None
            return BOT
        xs.append(y)
    c.st = s
    return ap(lambda *l: mk("arr", *l), *xs) if xs else mk("arr")


@path("core::slice::raw::from_ref", "core::array::from_ref")
def _(c):
    return ap(lambda x: mk("arr", x), val(c, 0))


# ---------------------------------------------------------------- panics
def panic(c):
    c.I.obligation(c.st.pc, "panic", c.fj["p"], c.span)
    c.I.nsites += 1
    c.st = None
    return BOT


for _p in (
    "core::panicking::panic_fmt", "core::panicking::panic", "core::option::unwrap_failed",
    "core::result::unwrap_failed", "core::result::unwrap_failed::unwrap_failed_inner",
    "core::option::expect_failed", "core::panicking::panic_display", "core::panicking::unreachable_display",
    "core::panicking::assert_failed", "core::panicking::panic_explicit", "core::panicking::panic_const",
    "core::panicking::panic_nounwind", "std::panicking::begin_panic", "core::panicking::panic_str_2015",
    "core::panicking::panic_str_literal",
):
    PATH[_p] = M(panic)


@inh("CtOption", "unwrap", "expect")
def _(c):
    I = c.I
    v = ct_to_opt(c, c.args[0])
    some_ = cond_of(v, lambda x: x.op == "adt" and x.args[1] == 1)
    I.nsites += 1
    I.obligation(and_(c.st.pc, not_(some_)), "CtOption::unwrap", "", c.span)
    c.st = c.st.copy()
    c.st.pc = and_(c.st.pc, some_)
    return ap(lambda x: x.args[2], restrict(some_, v))


@inh("CtOption", "new")
def _(c):
    v = c.args[0]
    return ap(lambda x: opt(x, v), c.args[1])


@inh("CtOption", "into_option")
def _(c):
    return ct_to_opt(c, c.args[0])


def ct_apply(c, wrap):
    """`map` / `and_then`: subtle evaluates the function in both cases, but only the present one is visible"""
    v = ct_to_opt(c, c.args[0])
    some_ = cond_of(v, lambda x: x.op == "adt" and x.args[1] == 1)
    inner = ap(lambda x: x.args[2], restrict(some_, v))
    s2, y = c.I.call_value(c.args[1], [inner], c.st, c.span, None, None)
    if s2 is None:
        c.st = None
        return BOT
    c.st = s2
    if wrap:
        y = some(y)
    return ite(some_, ap(lambda x: x if x.op == "adt" else ct_to_opt(c, x), y), NONE)


@inh("CtOption", "map")
def _(c):
    return ct_apply(c, True)


@inh("CtOption", "and_then")
def _(c):
    return ct_apply(c, False)


@inh("CtOption", "or_else")
def _(c):
    v = ct_to_opt(c, c.args[0])
    some_ = cond_of(v, lambda x: x.op == "adt" and x.args[1] == 1)
    s2, y = c.I.call_value(c.args[1], [], c.st, c.span, None, None)
    if s2 is None:
        c.st = None
        return BOT
    c.st = s2
    return ite(some_, v, ct_to_opt(c, y))


@inh("CtOption", "unwrap_or")
def _(c):
    v = ct_to_opt(c, c.args[0])
    some_ = cond_of(v, lambda x: x.op == "adt" and x.args[1] == 1)
    return ite(some_, ap(lambda x: x.args[2], restrict(some_, v)), c.args[1])


@inh("CtOption", "is_some")
def _(c):
    v = ct_to_opt(c, val(c, 0))
    return cond_of(v, lambda x: x.op == "adt" and x.args[1] == 1)


@inh("CtOption", "is_none")
def _(c):
    v = ct_to_opt(c, val(c, 0))
    return not_(cond_of(v, lambda x: x.op == "adt" and x.args[1] == 1))


# formatting only influences text
@trait("Display", "fmt")
@trait("Debug", "fmt", prefer_inline=True)
def _(c):
    return NotImplemented
