"""Value-graph term domain.

Values of the abstract interpretation are hash-consed Herbrand terms.  A value
that depends on branch conditions is a multi-terminal decision diagram ("ite"
nodes over atomic conditions in a fixed order) whose leaves are ite-free terms,
so two program fragments computing the same value graph get the *same* node:
equality of values is pointer equality.  Integers, scalars and group elements
are kept in algebraic normal form; byte strings are flattened concatenations.
No solver and no path enumeration is involved.
"""
import hashlib
import itertools
import sys

sys.setrecursionlimit(100000)


class T:
    __slots__ = ("op", "args", "h", "fv", "lamh", "key")

    def __repr__(self):
        return show(self)


_tab = {}
_EMPTY = frozenset()


def _dig(m, a):
    if isinstance(a, T):
        m.update(b"T")
        m.update(a.h)
    elif isinstance(a, tuple):
        m.update(b"(")
        for x in a:
            _dig(m, x)
        m.update(b")")
    elif isinstance(a, bytes):
        m.update(b"B%d:" % len(a))
        m.update(a)
    else:
        s = repr(a).encode()
        m.update(b"R%d:" % len(s))
        m.update(s)


def _tfv(a):
    if isinstance(a, T):
        return a.fv
    if isinstance(a, tuple):
        r = _EMPTY
        for x in a:
            r = r | _tfv(x)
        return r
    return _EMPTY


def _tlam(a):
    if isinstance(a, T):
        return a.lamh
    if isinstance(a, tuple):
        return max((_tlam(x) for x in a), default=0)
    return 0


def mk(op, *args):
    k = (op,) + args
    t = _tab.get(k)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    m = hashlib.blake2b(op.encode(), digest_size=12)
    for a in args:
        _dig(m, a)
    t.h = m.digest()
    fv = _EMPTY
    for a in args:
        f = _tfv(a)
        if f:
            fv = fv | f
    if op == "ph":
        fv = fv | {t}
    t.fv = fv
    lh = max((_tlam(a) for a in args), default=0)
    if op == "lam":
        lh = max(lh, args[0])
    t.lamh = lh
    t.key = None
    _tab[k] = t
    return t


# ---------------------------------------------------------------- decision diagrams
TRUE = mk("b", 1)
FALSE = mk("b", 0)
BOT = mk("bot")


def okey(a):
    """Order of condition atoms (length equalities first)."""
    if a.key is None:
        a.key = ({"eq": 0, "le0": 1}.get(a.op, 2), a.h)
    return a.key


def is_leaf(v):
    return v.op != "ite"


def node(a, t, e):
    if t is e:
        return t
    if t is BOT:
        return e
    if e is BOT:
        return t
    return mk("ite", a, t, e)


def bvar(a):
    """Boolean value of an atomic condition term."""
    return mk("ite", a, TRUE, FALSE)


_ite_memo = {}


def ite(c, t, e):
    if c is TRUE:
        return t
    if c is FALSE:
        return e
    if c is BOT:
        return BOT
    if t is e:
        return t
    if t is BOT:
        return e
    if e is BOT:
        return t
    if t is TRUE and e is FALSE:
        return c
    k = (c, t, e)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    if c.op != "ite":
        raise TypeError(f"condition is not boolean: {show(c)}")
    top = None
    for v in (c, t, e):
        if v.op == "ite":
            a = v.args[0]
            if top is None or okey(a) < okey(top):
                top = a
    r = node(
        top,
        ite(cof(c, top, 1), cof(t, top, 1), cof(e, top, 1)),
        ite(cof(c, top, 0), cof(t, top, 0), cof(e, top, 0)),
    )
    _ite_memo[k] = r
    return r


def cof(v, a, val):
    """Cofactor with respect to an atom that is not below the top of v."""
    if v.op == "ite" and v.args[0] is a:
        return v.args[1] if val else v.args[2]
    return v


_cofd_memo = {}


def cof_deep(v, a, val):
    if v.op != "ite":
        return v
    if v.args[0] is a:
        return v.args[1] if val else v.args[2]
    if okey(v.args[0]) > okey(a):
        return v
    k = (v, a, val)
    r = _cofd_memo.get(k)
    if r is None:
        r = node(v.args[0], cof_deep(v.args[1], a, val), cof_deep(v.args[2], a, val))
        _cofd_memo[k] = r
    return r


def and_(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, c, FALSE)
    return r


def or_(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, c)
    return r


def not_(c):
    if c is BOT:
        return BOT
    return ite(c, FALSE, TRUE)


_res_memo = {}


def restrict(c, v):
    """v simplified by assuming c (Coudert-Madre restriction); BOT if c is false."""
    if c is FALSE:
        return BOT
    if c is TRUE or v.op != "ite":
        return v
    k = (c, v)
    r = _res_memo.get(k)
    if r is not None:
        return r
    ca, va = c.args[0], v.args[0]
    if ca is va:
        if c.args[1] is FALSE:
            r = restrict(c.args[2], v.args[2])
        elif c.args[2] is FALSE:
            r = restrict(c.args[1], v.args[1])
        else:
            r = node(va, restrict(c.args[1], v.args[1]), restrict(c.args[2], v.args[2]))
    elif okey(ca) < okey(va):
        r = restrict(or_(c.args[1], c.args[2]), v)
    else:
        r = node(va, restrict(c, v.args[1]), restrict(c, v.args[2]))
    _res_memo[k] = r
    return r


DEAD = mk("dead")


def under(pc, v):
    """v where pc holds, a marker elsewhere (canonical for comparisons)."""
    return ite(pc, v, DEAD)


def ap(f, *vs):
    """Apply f to the leaves of decision diagrams."""
    memo = {}

    def go(vs):
        top = None
        for v in vs:
            if v is BOT:
                return BOT
            if v.op == "ite":
                a = v.args[0]
                if top is None or okey(a) < okey(top):
                    top = a
        if top is None:
            return f(*vs)
        r = memo.get(vs)
        if r is None:
            r = ite(
                bvar(top),
                go(tuple(cof(v, top, 1) for v in vs)),
                go(tuple(cof(v, top, 0) for v in vs)),
            )
            memo[vs] = r
        return r

    return go(tuple(vs))


def ap_under(pc, f, v):
    """Like ap for one value; f also gets the condition of the leaf."""
    if v.op != "ite":
        return f(pc, v)
    a = v.args[0]
    ts, es = and_(pc, bvar(a)), and_(pc, not_(bvar(a)))
    if ts is FALSE:
        return ap_under(es, f, v.args[2])
    if es is FALSE:
        return ap_under(ts, f, v.args[1])
    return ite(bvar(a), ap_under(ts, f, v.args[1]), ap_under(es, f, v.args[2]))


def leaves(v, acc=None, seen=None):
    acc = [] if acc is None else acc
    seen = set() if seen is None else seen
    if v in seen:
        return acc
    seen.add(v)
    if v.op == "ite":
        leaves(v.args[1], acc, seen)
        leaves(v.args[2], acc, seen)
    else:
        acc.append(v)
    return acc


def atoms(v, acc=None, seen=None):
    acc = [] if acc is None else acc
    seen = set() if seen is None else seen
    if v.op == "ite" and v not in seen:
        seen.add(v)
        if v.args[0] not in acc:
            acc.append(v.args[0])
        atoms(v.args[1], acc, seen)
        atoms(v.args[2], acc, seen)
    return acc


def cond_of(v, pred):
    """Condition under which the leaf of v satisfies pred."""
    memo = {}

    def go(v):
        r = memo.get(v)
        if r is None:
            if v.op == "ite":
                r = ite(bvar(v.args[0]), go(v.args[1]), go(v.args[2]))
            elif v is BOT:
                r = BOT
            else:
                r = TRUE if pred(v) else FALSE
            memo[v] = r
        return r

    return go(v)


def cond_eq_leaf(v, leaf):
    return cond_of(v, lambda x: x is leaf)


def forced(pc):
    """Literals (atom, value) that hold on every path of pc."""
    res = []
    for a in atoms(pc):
        if cof_deep(pc, a, 0) is FALSE:
            res.append((a, 1))
        elif cof_deep(pc, a, 1) is FALSE:
            res.append((a, 0))
    return res


def pick(v, lits):
    """Follow v along a partial assignment (dict atom -> 0/1)."""
    for a, x in lits.items():
        v = cof_deep(v, a, x)
    return v


# ---------------------------------------------------------------- integers
def num(n):
    return mk("n", n)


ZERO = num(0)
ONE = num(1)


def _lin(t):
    if t.op == "n":
        return t.args[0], {}
    if t.op == "lin":
        d = {}
        a = t.args
        for i in range(1, len(a), 2):
            d[a[i + 1]] = a[i]
        return a[0], d
    return 0, {t: 1}


def _mklin(c, d):
    d = {t: k for t, k in d.items() if k}
    if not d:
        return num(c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    out = [c]
    for t in sorted(d, key=lambda x: x.h):
        out += [d[t], t]
    return mk("lin", *out)


def add(*ts):
    def f(*ls):
        c, d = 0, {}
        for l in ls:
            c2, d2 = _lin(l)
            c += c2
            for t, k in d2.items():
                d[t] = d.get(t, 0) + k
        return _mklin(c, d)

    return ap(f, *ts)


def scale(n, t):
    def f(l):
        c, d = _lin(l)
        return _mklin(n * c, {x: n * k for x, k in d.items()})

    return ap(f, t)


def sub(a, b):
    return add(a, scale(-1, b))


def imul(a, b):
    def f(x, y):
        if x.op == "n":
            return scale(x.args[0], y)
        if y.op == "n":
            return scale(y.args[0], x)
        p, q = sorted((x, y), key=lambda z: z.h)
        return mk("imul", p, q)

    return ap(f, a, b)


NAT_OPS = {"len", "cst", "min", "firstk", "count"}


def is_nat(t):
    return t.op in NAT_OPS or (t.op in ("ph", "bv") and len(t.args) > 1 and t.args[1] in ("nat", "num")) or (t.op == "n" and t.args[0] >= 0) or (t.op == "u")


def min_const(t):
    """Constant lower bound of a linear term over naturals, or None."""
    return lo_const(t)


def nat_min(x):
    # fixed-size encodings are never empty
    if x.op == "cst":
        return 1
    return 0


LEN_MAX = (1 << 63) - 1
CST_MAX = 4096  # valid suites: every encoding and identifier is short


def max_const(t):
    """Constant upper bound of an (ite-free) integer term, or None."""
    c, d = _lin(t)
    for x, k in d.items():
        if k > 0:
            m = atom_max(x)
            if m is None:
                return None
            c += k * m
        elif k < 0:
            if not is_nat(x):
                return None
            c += k * nat_min(x)
    return c


def atom_max(x):
    if x.op == "len":
        return LEN_MAX
    if x.op == "cst":
        return CST_MAX
    if x.op in ("ph", "bv") and len(x.args) > 1 and x.args[1] == "nat":
        return LEN_MAX  # an index below some length
    if x.op == "u":
        return (1 << x.args[0]) - 1
    if x.op == "min":
        ms = [max_const(a) for a in x.args]
        ms = [m for m in ms if m is not None]
        return min(ms) if ms else None
    if x.op == "firstk":
        ms = [max_const(a) for a in x.args[:-1]]
        ms = [m for m in ms if m is not None]
        return min(ms) if ms else None
    if x.op == "byteat":
        return 255
    if x.op == "n":
        return x.args[0]
    return None


def lo_const(t):
    """Constant lower bound of an (ite-free) integer term, or None."""
    m = max_const(scale(-1, t))
    return None if m is None else -m


def le0(l):
    """Boolean value of l <= 0 for an (ite-free) integer term."""
    c, d = _lin(l)
    if not d:
        return TRUE if c <= 0 else FALSE
    lo = lo_const(l)
    if lo is not None and lo > 0:
        return FALSE
    hi = max_const(l)
    if hi is not None and hi <= 0:
        return TRUE
    g = 0
    import math

    for k in d.values():
        g = math.gcd(g, abs(k))
    if g > 1:
        d = {t: k // g for t, k in d.items()}
        c = -((-c) // g)  # ceil: sum <= -c/g
    # naturals: t <= 0 is t == 0, and t >= 1 is t != 0
    if len(d) == 1:
        (t, k), = d.items()
        if is_nat(t):
            if k == 1 and c == 0:
                return eq0(t)
            if k == -1 and c == 1:
                return not_(eq0(t))
    first = min(d, key=lambda x: x.h)
    if d[first] < 0:
        # not( -l + 1 <= 0 )
        c2 = -c + 1
        d2 = {t: -k for t, k in d.items()}
        return not_(bvar(mk("le0", _mklin(c2, d2))))
    return bvar(mk("le0", _mklin(c, d)))


def eq0(l):
    c, d = _lin(l)
    if not d:
        return TRUE if c == 0 else FALSE
    lo = lo_const(l)
    if lo is not None and lo > 0:
        return FALSE
    hi = max_const(l)
    if hi is not None and hi < 0:
        return FALSE
    first = min(d, key=lambda x: x.h)
    if d[first] < 0:
        c = -c
        d = {t: -k for t, k in d.items()}
    return bvar(mk("eq", _mklin(c, d)))


def le(a, b):
    return ap(lambda x: le0(x), sub(a, b))


def lt(a, b):
    return le(add(a, ONE), b)


def ieq(a, b):
    return ap(lambda x: eq0(x), sub(a, b))


def _facts(pc):
    fs = []
    for a, v in forced(pc):
        if a.op == "le0":
            l = a.args[0]
            fs.append(l if v else add(scale(-1, l), ONE))
        elif a.op == "eq" and v:
            fs.append(a.args[0])
            fs.append(scale(-1, a.args[0]))
        elif a.op == "eq" and not v:
            # naturals: t != 0 gives 1 - t <= 0
            l = a.args[0]
            if is_nat(l):
                fs.append(sub(ONE, l))
    return fs


_imp_memo = {}


def implied_le0(pc, l):
    """Is l <= 0 implied by the linear facts of pc (bounded combination)?"""
    if l.op == "ite":
        return all(implied_le0(pc, x) for x in leaves(l))
    r = le0(l)
    if r is TRUE:
        return True
    k = (pc, l)
    if k in _imp_memo:
        return _imp_memo[k]
    res = False
    if ite(pc, r, TRUE) is TRUE:
        res = True
    else:
        fs = _facts(pc)

        def ok(g):
            # g <= 0 follows from non-negativity alone
            n = min_const(scale(-1, g))
            return n is not None and n >= 0

        for m in (1, 2, 3):
            for combo in itertools.combinations(fs, m):
                g = l
                for f in combo:
                    g = sub(g, f)
                if ok(g):
                    res = True
                    break
            if res:
                break
    _imp_memo[k] = res
    return res


def implied_le(pc, a, b):
    return implied_le0(pc, sub(a, b))


def min_of(lens):
    lens = list(dict.fromkeys(lens))
    consts = [x for x in lens if x.op == "n"]
    rest = [x for x in lens if x.op != "n"]
    if consts:
        m = min(consts, key=lambda x: x.args[0])
        rest.append(m)
    if len(rest) > 1:
        over = set()
        for x in rest:
            for y in rest:
                if x is not y and x.op != "ite" and y.op != "ite":
                    d = sub(x, y)
                    if d.op == "n" and d.args[0] > 0:
                        over.add(x)
        rest = [x for x in rest if x not in over]
    if len(rest) == 1:
        return rest[0]
    if not rest:
        return mk("inf")
    return mk("min", *sorted(rest, key=lambda x: x.h))


# ---------------------------------------------------------------- scalars (polynomials)
def _mono_mul(a, b):
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda z: z[0].h))


def _poly(t):
    if t.op == "poly":
        d = {}
        a = t.args
        for i in range(0, len(a), 2):
            m = a[i + 1].args
            d[tuple((m[j], m[j + 1]) for j in range(0, len(m), 2))] = a[i]
        return d
    return {((t, 1),): 1}


def _mkpoly(d):
    d = {m: c for m, c in d.items() if c}
    if len(d) == 1:
        (m, c), = d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = []
    for m, c in d.items():
        flat = []
        for x, e in m:
            flat += [x, e]
        items.append((mk("mono", *flat), c))
    items.sort(key=lambda z: z[0].h)
    out = []
    for m, c in items:
        out += [c, m]
    return mk("poly", *out)


SZERO = mk("poly")
SONE = mk("poly", 1, mk("mono"))
NEG_ONE = mk("poly", -1, mk("mono"))


def _reduce(d):
    """Eliminate products Q * inv(Q) and negative powers of inverses."""
    work = dict(d)
    out = {}
    steps = 0
    while work:
        steps += 1
        if steps > 5000:
            for m, c in work.items():
                out[m] = out.get(m, 0) + c
            break
        m, c = work.popitem()
        if c == 0:
            continue
        done = True
        for x, e in m:
            if x.op == "inv":
                q = _poly(x.args[0])
                rest = tuple(z for z in m if z[0] is not x)
                if e < 0:
                    # inv(Q)^-1 = Q
                    base = {rest if e == -1 else _mono_mul(rest, ((x, e + 1),)): c}
                    for m2, c2 in _pmul(base, q).items():
                        work[m2] = work.get(m2, 0) + c2
                    done = False
                    break
                lt_m = max(q, key=lambda mm: tuple(z[0].h + bytes([z[1] % 256]) for z in mm))
                lc = q[lt_m]
                if lc in (1, -1):
                    dd = dict(m)
                    if lt_m and all(dd.get(y, 0) >= f for y, f in lt_m):
                        # LT * inv(Q) = lc * (1 - (Q - LT) * inv(Q))
                        for y, f in lt_m:
                            dd[y] -= f
                        dd[x] -= 1
                        r0 = tuple(
                            sorted(((y, f) for y, f in dd.items() if f), key=lambda z: z[0].h)
                        )
                        work[r0] = work.get(r0, 0) + c * lc
                        for m2, c2 in q.items():
                            if m2 == lt_m:
                                continue
                            r1 = _mono_mul(_mono_mul(r0, ((x, 1),)), m2)
                            work[r1] = work.get(r1, 0) - c * lc * c2
                        done = False
                        break
        if done:
            out[m] = out.get(m, 0) + c
    return {m: c for m, c in out.items() if c}


def _pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = _mono_mul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return r


def _has_inv(d):
    return any(x.op == "inv" for m in d for x, _ in m)


def s_mul(a, b):
    def f(x, y):
        d = _pmul(_poly(x), _poly(y))
        if _has_inv(d):
            d = _reduce(d)
        return _mkpoly(d)

    return ap(f, a, b)


def s_add(a, b, sign=1):
    def f(x, y):
        d = dict(_poly(x))
        for m, c in _poly(y).items():
            d[m] = d.get(m, 0) + sign * c
        if _has_inv(d):
            d = _reduce({m: c for m, c in d.items() if c})
        return _mkpoly(d)

    return ap(f, a, b)


def s_sub(a, b):
    return s_add(a, b, -1)


def s_inv(a):
    def f(x):
        d = _poly(x)
        if len(d) == 1:
            (m, c), = d.items()
            if c in (1, -1):
                dd = {tuple((y, -e) for y, e in m): c}
                if _has_inv(dd):
                    dd = _reduce(dd)
                return _mkpoly(dd)
        return mk("inv", x)

    return ap(f, a)


# ---------------------------------------------------------------- group elements
def _el(t):
    if t.op == "el":
        d = {}
        a = t.args
        for i in range(0, len(a), 2):
            d[a[i]] = a[i + 1]
        return d
    return {t: SONE}


def _mkel(d):
    d = {e: p for e, p in d.items() if p is not SZERO}
    if len(d) == 1:
        (e, p), = d.items()
        if p is SONE:
            return e
    out = []
    for e in sorted(d, key=lambda x: x.h):
        out += [e, d[e]]
    return mk("el", *out)


IDENT = mk("el")
GEN = mk("gen")


def e_add(a, b):
    def f(x, y):
        d = dict(_el(x))
        for e, p in _el(y).items():
            d[e] = s_add(d[e], p) if e in d else p
        return _mkel(d)

    return ap(f, a, b)


def e_neg(a):
    return e_mul(a, mk("poly", -1, mk("mono")))


def e_mul(a, s):
    def f(x, y):
        return _mkel({e: s_mul(p, y) for e, p in _el(x).items()})

    return ap(f, a, s)


def is_ident(e):
    def f(x):
        if x is IDENT:
            return TRUE
        if x is GEN:
            return FALSE
        d = _el(x)
        if len(d) == 1 and GEN in d:
            # the group has prime order: the generator times k is the identity iff k is zero
            return is_zero(d[GEN])
        if len(d) == 2:
            # a difference is the identity iff its two sides are the same
            (p, i), (q, j) = d.items()
            if p is not GEN and q is not GEN and {i, j} == {SONE, NEG_ONE}:
                return eq_term(p, q)
        return bvar(mk("isid", x))

    return ap(f, e)


def is_zero(s):
    def f(x):
        if x is SZERO:
            return TRUE
        if x is SONE:
            return FALSE
        if x.op == "poly":
            d = _poly(x)
            pos = {m: c for m, c in d.items() if c > 0}
            neg = {m: -c for m, c in d.items() if c < 0}
            if pos and neg:
                return _teq(_mkpoly(pos), _mkpoly(neg))
            if neg:
                return bvar(mk("isz", _mkpoly(neg)))
        return bvar(mk("isz", x))

    return ap(f, s)


def _teq(x, y):
    p, q = sorted((x, y), key=lambda z: z.h)
    return bvar(mk("teq", p, q))


def eq_term(a, b):
    """Equality of two opaque values of the same type."""

    def f(x, y):
        if x is y:
            return TRUE
        if x is IDENT:
            return is_ident(y)
        if y is IDENT:
            return is_ident(x)
        if x is SZERO:
            return is_zero(y)
        if y is SZERO:
            return is_zero(x)
        if x.op == "bytes" and y.op == "bytes":
            return FALSE
        if x.op == "unit" and y.op == "unit":
            return TRUE
        if x.op == "poly" or y.op == "poly":
            return is_zero(s_sub(x, y))
        return _teq(x, y)

    return ap(f, a, b)


# ---------------------------------------------------------------- byte strings
EMPTY = mk("bytes", b"")


def blen(t):
    """Length of an (ite-free) byte string term."""
    o = t.op
    if o == "bytes":
        return num(len(t.args[0]))
    if o in ("be", "leb"):
        return num(t.args[0])
    if o == "byte":
        return ONE
    if o == "cat":
        return add(*[blen(x) for x in t.args])
    if o == "sl":
        return t.args[2]
    if o == "zeros":
        return t.args[0]
    if o == "ser_e":
        return mk("cst", "ElemLen")
    if o == "ser_s":
        return mk("cst", "ScalarLen")
    if o == "H":
        return mk("cst", "HashLen")
    if o == "rndb":
        return t.args[0]
    if o == "arr":
        return num(len(t.args))
    if o == "seq":
        return st_len(t.args[0])
    if o == "upd":
        return blen(t.args[0])
    if o in ("ph", "bv") and len(t.args) > 1 and isinstance(t.args[1], T):
        return t.args[1]
    if o == "id":
        return mk("cst", "IDLen")
    if t in KNOWN_LEN:
        return num(KNOWN_LEN[t])
    return mk("len", t)


KNOWN_LEN = {}  # results of unknown functions whose type is an array


def as_bytes(t):
    """View an array of single bytes as a byte string."""
    if t.op == "arr":
        return cat(*[byte(x) for x in t.args])
    return t


def low(n, x):
    """A simpler term with the same low n bytes."""
    while True:
        if x.op == "trunc" and x.args[0] >= 8 * n:
            x = x.args[1]
        elif x.op == "wrap" and x.args[0] >= 8 * n:
            x = x.args[1]
        elif x.op == "iop" and x.args[0] == "BitAnd" and any(y.op == "n" and (y.args[0] & ((1 << 8 * n) - 1)) == (1 << 8 * n) - 1 for y in x.args[1:]):
            x = x.args[1] if x.args[2].op == "n" else x.args[2]
        elif x.op == "iop" and x.args[0] == "Rem" and x.args[2].op == "n" and x.args[2].args[0] > 0 and x.args[2].args[0] % (1 << 8 * n) == 0:
            x = x.args[1]
        elif x.op == "iop" and x.args[0] == "Div" and x.args[2].op == "n" and is_nat(x.args[1]) and x.args[2].args[0] in (1 << 8, 1 << 16, 1 << 24, 1 << 32, 1 << 40, 1 << 48, 1 << 56):
            x = mk("iop", "Shr", x.args[1], num(x.args[2].args[0].bit_length() - 1))
        elif x.op == "iop" and x.args[0] == "Shr" and x.args[2].op == "n":
            k, y = x.args[2].args[0], x.args[1]
            if k == 0:
                x = y
            elif y.op in ("trunc", "wrap") and y.args[0] >= k + 8 * n:
                x = mk("iop", "Shr", y.args[1], num(k))
            elif y.op == "iop" and y.args[0] == "Shr" and y.args[2].op == "n":
                x = mk("iop", "Shr", y.args[1], num(k + y.args[2].args[0]))
            elif max_const(y) is not None and is_nat(y) and max_const(y) < 1 << k:
                return ZERO
            else:
                return x
        else:
            return x


def _shr(x):
    if x.op == "iop" and x.args[0] == "Shr" and x.args[2].op == "n":
        return x.args[1], x.args[2].args[0]
    return x, 0


def byte(t):
    def f(x):
        x = low(1, x)
        if x.op == "n":
            return mk("bytes", bytes([x.args[0] & 255]))
        if x.op == "byteat":
            return mk("sl", x.args[0], x.args[1], ONE)
        if x.op == "u" and x.args[0] == 8 and x.args[1].op in ("sel", "byteat"):
            x = x.args[1]
        if x.op in ("sel", "byteat") and x.args[0].op not in ("arr", "seq", "iter"):
            return mk("sl", x.args[0], x.args[1], ONE)
        return mk("be", 1, x)

    return ap(f, t)


def be(n, t):
    def f(x):
        x = low(n, x)
        if x.op == "n":
            return mk("bytes", (x.args[0] % (1 << (8 * n))).to_bytes(n, "big"))
        return mk("be", n, x)

    return ap(f, t)


def le_bytes(n, t):
    def f(x):
        x = low(n, x)
        if x.op == "n":
            return mk("bytes", (x.args[0] % (1 << (8 * n))).to_bytes(n, "little"))
        if n == 1:
            return mk("be", 1, x)
        return mk("leb", n, x)

    return ap(f, t)


def cat(*ts):
    def f(*ls):
        segs = []
        for l in ls:
            l = as_bytes(l)
            parts = l.args if l.op == "cat" else (l,)
            for p in parts:
                if p.op == "bytes":
                    if not p.args[0]:
                        continue
                    if segs and segs[-1].op == "bytes":
                        segs[-1] = mk("bytes", segs[-1].args[0] + p.args[0])
                        continue
                if p.op == "sl" and segs and segs[-1].op == "sl" and segs[-1].args[0] is p.args[0]:
                    q = segs[-1]
                    if add(q.args[1], q.args[2]) is p.args[1]:
                        segs.pop()
                        segs.append(slice_(q.args[0], q.args[1], add(q.args[2], p.args[2])))
                        continue
                if p.op == "be" and segs and segs[-1].op == "be":
                    q = segs[-1]
                    (x, i), (y, j) = _shr(q.args[1]), _shr(p.args[1])
                    if x is y and i == j + 8 * p.args[0]:
                        segs[-1] = be(q.args[0] + p.args[0], p.args[1])
                        continue
                segs.append(p)
        if not segs:
            return EMPTY
        if len(segs) == 1:
            return segs[0]
        return mk("cat", *segs)

    return ap(f, *ts) if ts else EMPTY


def slice_(b, off, ln):
    """b[off .. off+ln], no bounds check."""

    def f(b, off, ln):
        b = as_bytes(b)
        if ln is ZERO:
            return EMPTY
        if off is ZERO and ln is blen(b):
            return b
        if b.op == "bytes" and off.op == "n" and ln.op == "n":
            o, n = off.args[0], ln.args[0]
            if o + n <= len(b.args[0]):
                return mk("bytes", b.args[0][o : o + n])
        if b.op == "sl":
            return slice_(b.args[0], add(b.args[1], off), ln)
        if b.op == "zeros":
            return mk("zeros", ln)
        if b.op == "be" and off.op == "n" and ln.op == "n" and 0 <= off.args[0] and off.args[0] + ln.args[0] <= b.args[0]:
            k = 8 * (b.args[0] - off.args[0] - ln.args[0])
            return be(ln.args[0], mk("iop", "Shr", b.args[1], num(k)) if k else b.args[1])
        if b.op == "cat":
            segs = b.args
            pos = ZERO
            for i, s in enumerate(segs):
                if pos is off:
                    n = ZERO
                    out = []
                    for s2 in segs[i:]:
                        if n is ln:
                            return cat(*out)
                        l2 = blen(s2)
                        rem = sub(ln, n)
                        if s2.op == "bytes" and rem.op == "n" and rem.args[0] < len(s2.args[0]):
                            out.append(mk("bytes", s2.args[0][: rem.args[0]]))
                            return cat(*out)
                        out.append(s2)
                        n = add(n, l2)
                    if n is ln:
                        return cat(*out)
                    break
                l = blen(s)
                d = sub(off, pos)
                if d.op == "n" and l.op == "n" and 0 < d.args[0] < l.args[0] and s.op in ("bytes", "be"):
                    rest = cat(slice_(s, d, sub(l, d)), *segs[i + 1 :])
                    return slice_(rest, ZERO, ln)
                pos = add(pos, l)
        return mk("sl", b, off, ln)

    return ap(f, b, off, ln)


def splice(b, off, ln, new):
    """b with b[off..off+ln] replaced by new (same length)."""

    def f(b, off, ln, new):
        b = as_bytes(b)
        if off is ZERO and ln is blen(b):
            return as_bytes(new)
        if b.op in ("zeros", "bytes", "cat", "sl"):
            end = add(off, ln)
            return cat(
                slice_(b, ZERO, off), new, slice_(b, end, sub(blen(b), end))
            )
        return mk("splice", b, off, ln, new)

    return ap(f, b, off, ln, new)


# ---------------------------------------------------------------- lambdas and streams
_phn = itertools.count(1)


def fresh(kind=None):
    return mk("ph", next(_phn), kind) if kind else mk("ph", next(_phn))


def lam(ph, body):
    h = body.lamh + 1
    kind = ph.args[1] if len(ph.args) > 1 else None
    bv = mk("bv", h, kind) if kind else mk("bv", h)
    return mk("lam", h, bv, subst(body, {ph: bv}))


def inst(l, arg):
    return subst(l.args[2], {l.args[1]: arg})


def lam_free(l):
    return l.fv


def subst(t, m):
    memo = {}

    def go(t):
        if t in m:
            return m[t]
        if not isinstance(t, T):
            if isinstance(t, tuple):
                return tuple(go(x) for x in t)
            return t
        if not t.args:
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == "lam" and any(k is t.args[1] for k in m):
            # shadowed (only when instantiating an enclosing binder of equal height)
            memo[t] = t
            return t
        if t.op == "ite":
            r = ite(go(t.args[0]) if True else None, go(t.args[1]), go(t.args[2]))
        elif t.op == "poly":
            r = SZERO
            for i in range(0, len(t.args), 2):
                c = t.args[i]
                term = mk("poly", c, mk("mono")) if c != 1 else SONE
                ms = t.args[i + 1].args
                for j in range(0, len(ms), 2):
                    b = go(ms[j])
                    e = ms[j + 1]
                    if e < 0:
                        b = s_inv(b)
                    for _ in range(abs(e)):
                        term = s_mul(term, b)
                r = s_add(r, term)
        elif t.op == "el":
            r = IDENT
            for i in range(0, len(t.args), 2):
                r = e_add(r, e_mul(go(t.args[i]), go(t.args[i + 1])))
        elif t.op == "lin":
            r = num(t.args[0])
            for i in range(1, len(t.args), 2):
                r = add(r, scale(t.args[i], go(t.args[i + 1])))
        else:
            na = tuple(go(a) for a in t.args)
            if all(x is y for x, y in zip(na, t.args)):
                # atoms in condition position become boolean values
                r = bvar(t) if t.op in ATOM_OPS else t
            else:
                r = rebuild(t.op, na)
        memo[t] = r
        return r

    r = go(t)
    return r


ATOM_OPS = {
    "le0", "eq", "isid", "isz", "teq", "ok", "any", "isvar", "cond", "bt",
}


def rebuild(op, args):
    """Re-normalise a term whose arguments changed."""
    ts = [i for i, a in enumerate(args) if isinstance(a, T)]
    if op == "lam":
        body = args[2]
        bv = args[1]
        return mk("lam", args[0], bv, body) if body.lamh + 1 == args[0] else _relam(bv, body)
    if any(args[i].op == "ite" for i in ts) :
        def f(*ls):
            aa = list(args)
            for i, l in zip(ts, ls):
                aa[i] = l
            return rebuild1(op, tuple(aa))

        return ap(f, *[args[i] for i in ts])
    if any(args[i] is BOT for i in ts):
        return BOT
    return rebuild1(op, args)


def _relam(bv, body):
    ph = fresh(bv.args[1] if len(bv.args) > 1 else None)
    return lam(ph, subst(body, {bv: ph}))


def rebuild1(op, a):
    if op == "le0":
        return le0(a[0])
    if op == "eq":
        return eq0(a[0])
    if op == "isid":
        return is_ident(a[0])
    if op == "isz":
        return is_zero(a[0])
    if op == "teq":
        return eq_term(a[0], a[1])
    if op == "cat":
        return cat(*a)
    if op == "be":
        return be(a[0], a[1])
    if op == "sl":
        return slice_(a[0], a[1], a[2])
    if op == "inv":
        return s_inv(a[0])
    if op == "len":
        return blen(a[0])
    if op == "min":
        return min_of(a)
    if op == "imul":
        return imul(a[0], a[1])
    if op == "sel":
        return select(a[0], a[1])
    if op == "st":
        return st(a[:-1], a[-1])
    if op == "sumE":
        return sum_e(a[:-1], a[-1])
    if op == "sumS":
        return sum_s(a[:-1], a[-1])
    if op == "catmap":
        return cat_map(a[:-1], a[-1])
    if op == "fld":
        return fld(*a)
    if op == "any":
        return any_(a[:-1], a[-1])
    if op == "firstk":
        return first_k(a[:-1], a[-1])
    if op == "bt" and a[0].op == "b":
        return a[0]
    if op == "isvar" and a[0].op == "adt":
        return TRUE if a[0].args[1] == a[1] else FALSE
    if op == "discr" and a[0].op == "adt":
        return num(a[0].args[1] - 1 if a[0].args[0] == "core::cmp::Ordering" else a[0].args[1])
    if op in ATOM_OPS:
        return bvar(mk(op, *a))
    if op in REB:
        return REB[op](*a)
    return mk(op, *a)


REB = {}


def st(lens, l):
    """Stream: its length is the minimum of `lens` (none: infinite), its k-th
    item is l(k)."""
    lens = canon_lens(lens)
    return mk("st", *lens, lam_under(lens, l))


def lam_under(lens, l):
    """The body of l is only ever used at indices below all lens."""
    body = l.args[2]
    if body.op != "ite":
        return l
    k = l.args[1]
    c = TRUE
    for n in lens:
        c = and_(c, lt(k, n))
    r = restrict(c, body)
    if r is body:
        return l
    return _relam(k, mk("never") if r is BOT else r)


def canon_lens(lens):
    lens = list(dict.fromkeys(lens))
    consts = [x for x in lens if x.op == "n"]
    rest = [x for x in lens if x.op != "n"]
    if consts:
        rest.append(min(consts, key=lambda x: x.args[0]))
    rest.sort(key=lambda x: x.h)
    return rest


def st_lens(s):
    return s.args[:-1]


def st_len(s):
    return min_of(s.args[:-1])


def st_at(s, i):
    return inst(s.args[-1], i)


def st_make(lens, f):
    k = fresh("nat")
    return st(lens, lam(k, f(k)))


def const_len(s):
    """Constant length of a stream, or None."""
    ls = s.args[:-1]
    if len(ls) == 1 and ls[0].op == "n":
        return ls[0].args[0]
    return None


def select(arr, i):
    def f(arr, i):
        if arr.op == "arr" and i.op == "n" and i.args[0] < len(arr.args):
            return arr.args[i.args[0]]
        if arr.op == "seq":
            return st_at(arr.args[0], i)
        if arr.op == "iter":
            return st_at(arr.args[0], add(arr.args[1], i))
        if arr.op == "bytes" and i.op == "n" and i.args[0] < len(arr.args[0]):
            return num(arr.args[0][i.args[0]])
        if arr.op == "be" and i.op == "n" and i.args[0] < arr.args[0]:
            k = 8 * (arr.args[0] - 1 - i.args[0])
            x = arr.args[1]
            return mk("trunc", 8, mk("iop", "Shr", x, num(k)) if k else x)
        if arr.op == "cat" and i.op == "n":
            j = i.args[0]
            for x in arr.args:
                n = blen(x)
                if n.op != "n":
                    break
                if j < n.args[0]:
                    return select(x, num(j))
                j -= n.args[0]
        return mk("sel", arr, i)

    return ap(f, arr, i)


def fld(base, variant, i):
    if base is BOT:
        return BOT
    if base.op == "adt" and isinstance(variant, int) and base.args[1] != variant:
        return BOT  # not reachable: the field of another variant
    if base.op in ("tup", "adt", "clos"):
        return base.args[i + (2 if base.op == "adt" else 0)] if base.op != "clos" else base.args[2 + i]
    return mk("fld", base, variant, i)


def depends(t, phs):
    return bool(t.fv & phs)


UNROLL = 16


def sum_e(lens, l):
    """Sum over k < min(lens) of group elements l(k), split by linearity."""
    lens = canon_lens(lens)
    l = lam_under(lens, l)
    n = min_of(lens)
    if n.op == "n" and n.args[0] <= UNROLL:
        r = IDENT
        for i in range(n.args[0]):
            r = e_add(r, inst(l, num(i)))
        return r
    k = fresh("nat")
    body = inst(l, k)
    if body.op == "ite":
        # conditional body: keep as one sum
        return mk("sumE", *lens, l)
    ks = frozenset([k])
    r = IDENT
    for e, p in _el(body).items():
        if not depends(e, ks):
            dep = {}
            r = e_add(r, e_mul(e, sum_s(lens, lam(k, p))))
            continue
        groups = {}
        for m, c in _poly(p).items():
            dm = tuple(z for z in m if depends(z[0], ks))
            im = tuple(z for z in m if not depends(z[0], ks))
            groups.setdefault(dm, {})
            groups[dm][im] = groups[dm].get(im, 0) + c
        for dm, co in groups.items():
            inner = _mkel({e: _mkpoly({dm: 1})}) if dm else e
            r = e_add(r, e_mul(mk("sumE", *lens, lam(k, inner)), _mkpoly(co)))
    return r


def sum_s(lens, l):
    lens = canon_lens(lens)
    l = lam_under(lens, l)
    n = min_of(lens)
    if n.op == "n" and n.args[0] <= UNROLL:
        r = SZERO
        for i in range(n.args[0]):
            r = s_add(r, inst(l, num(i)))
        return r
    k = fresh("nat")
    body = inst(l, k)
    if body.op == "ite":
        return mk("sumS", *lens, l)
    ks = frozenset([k])
    r = SZERO
    groups = {}
    for m, c in _poly(body).items():
        dm = tuple(z for z in m if depends(z[0], ks))
        im = tuple(z for z in m if not depends(z[0], ks))
        groups.setdefault(dm, {})
        groups[dm][im] = groups[dm].get(im, 0) + c
    for dm, co in groups.items():
        base = mk("sumS", *lens, lam(k, _mkpoly({dm: 1} if dm else {(): 1})))
        r = s_add(r, s_mul(base, _mkpoly(co)))
    return r


def cat_map(lens, l):
    lens = canon_lens(lens)
    l = lam_under(lens, l)
    n = min_of(lens)
    if n.op == "n" and n.args[0] <= UNROLL:
        return cat(*[inst(l, num(i)) for i in range(n.args[0])])
    return mk("catmap", *lens, l)


def any_(lens, l):
    """Boolean: does l(k) hold for some k below all lens?"""
    lens = canon_lens(lens)
    l = lam_under(lens, l)
    body = l.args[2]
    if body is FALSE:
        return FALSE
    if body is TRUE:
        r = TRUE
        for n in lens:
            r = and_(r, lt(ZERO, n))
        return r
    n = min_of(lens) if lens else None
    if n is not None and n.op == "n" and last_index(n, l) is not None:
        return TRUE
    if n is not None and n.op == "n" and n.args[0] <= UNROLL:
        r = FALSE
        for i in range(n.args[0]):
            r = or_(r, inst(l, num(i)))
        return r
    return bvar(mk("any", *lens, l))


def last_index(n, l):
    """The body without its disjunct `k is the last index`, if it has one."""
    k, body = l.args[1], l.args[2]
    if n.args[0] < 1:
        return None
    a = eq0(sub(k, num(n.args[0] - 1)))
    if a.op == "ite" and a.args[0] in atoms(body):
        x = a.args[0]
        if cof_deep(body, x, 1) is TRUE:
            return cof_deep(body, x, 0)
    return None


def first_k(lens, l):
    lens = canon_lens(lens)
    l = lam_under(lens, l)
    body = l.args[2]
    if body is TRUE:
        return ZERO
    n = min_of(lens) if lens else None
    if n is not None and n.op == "n":
        p = last_index(n, l)
        if p is not None:
            q = lam(l.args[1], p)
            return ite(any_(lens, q), first_k(lens, q), num(n.args[0] - 1))
    if n is not None and n.op == "n" and n.args[0] <= UNROLL:
        r = n
        for i in reversed(range(n.args[0])):
            r = ite(inst(l, num(i)), num(i), r)
        return r
    return mk("firstk", *lens, l)


# ---------------------------------------------------------------- equal lengths
def normalize(v, depth=0):
    """Rewrite below every length equality that holds: keeps one representative."""
    memo = {}

    def go(v, d):
        if v.op != "ite" or d > 40:
            return v
        r = memo.get(v)
        if r is not None:
            return r
        a, t, e = v.args
        if a.op == "eq":
            c, dd = _lin(a.args[0])
            if c == 0 and len(dd) == 2 and sorted(dd.values()) == [-1, 1]:
                x, y = sorted(dd, key=lambda z: z.h)
                t = subst(t, {y: x})
            elif len(dd) == 1:
                (x, k), = dd.items()
                if k == 1:
                    t = subst(t, {x: num(-c)})
        r = ite(bvar(a), go(t, d + 1), go(e, d + 1))
        memo[v] = r
        return r

    return go(v, depth)


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, depth + 1) for x in t) + ")"
        return repr(t)
    if depth > 60:
        return "..."
    o, a = t.op, t.args
    s = lambda x: show(x, depth + 1)
    if o == "b":
        return "true" if a[0] else "false"
    if o == "n":
        return str(a[0])
    if o == "bytes":
        return repr(a[0])[1:]
    if o == "bot":
        return "unreachable"
    if o == "ite":
        return f"[{s(a[0])} ? {s(a[1])} : {s(a[2])}]"
    if o == "lin":
        out = [str(a[0])] if a[0] else []
        for i in range(1, len(a), 2):
            out.append((f"{a[i]}*" if a[i] != 1 else "") + s(a[i + 1]))
        return "(" + " + ".join(out) + ")"
    if o == "poly":
        if not a:
            return "0s"
        out = []
        for i in range(0, len(a), 2):
            m = a[i + 1].args
            f = []
            for j in range(0, len(m), 2):
                f.append(s(m[j]) + (f"^{m[j+1]}" if m[j + 1] != 1 else ""))
            c = a[i]
            out.append((f"{c}*" if c != 1 else "") + ("*".join(f) or "1"))
        return "(" + " + ".join(out) + ")"
    if o == "el":
        if not a:
            return "Identity"
        return "(" + " ++ ".join(f"{s(a[i])}.{s(a[i+1])}" for i in range(0, len(a), 2)) + ")"
    if o == "cat":
        return "<" + " | ".join(s(x) for x in a) + ">"
    if o == "be":
        return f"be{a[0]}({s(a[1])})"
    if o == "le0":
        return f"{s(a[0])} <= 0"
    if o == "eq":
        return f"{s(a[0])} == 0"
    if o == "teq":
        return f"{s(a[0])} == {s(a[1])}"
    if o == "var":
        return str(a[0])
    if o == "cst":
        return str(a[0])
    if o == "adt":
        n = a[0].split("::")[-1]
        return f"{n}#{a[1]}" + ("{" + ", ".join(s(x) for x in a[2:]) + "}" if len(a) > 2 else "")
    if o == "tup":
        return "(" + ", ".join(s(x) for x in a) + ")"
    if o == "arr":
        return "[" + ", ".join(s(x) for x in a) + "]"
    if o == "fld":
        return f"{s(a[0])}.{a[2] if not isinstance(a[2], T) else s(a[2])}" + (f"#{a[1]}" if a[1] else "")
    if o == "ph":
        return f"?{a[0]}"
    if o == "bv":
        return f"k{a[0]}"
    if o == "lam":
        return f"\\{s(a[1])}. {s(a[2])}"
    if o == "st":
        return f"stream<{', '.join(s(x) for x in a[:-1])}>({s(a[-1])})"
    if o == "sl":
        return f"{s(a[0])}[{s(a[1])}..+{s(a[2])}]"
    return f"{o}(" + ", ".join(s(x) for x in a) + ")"


def walk(t, f, seen=None):
    """Call f on every subterm."""
    seen = set() if seen is None else seen
    st_ = [t]
    while st_:
        x = st_.pop()
        if isinstance(x, tuple):
            st_.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        f(x)
        st_.extend(x.args)


def contains(t, pred):
    hit = []

    def f(x):
        if not hit and pred(x):
            hit.append(x)

    walk(t, f)
    return hit[0] if hit else None


def subterms(t, pred):
    r = []
    walk(t, lambda x: r.append(x) if pred(x) else None)
    return r
