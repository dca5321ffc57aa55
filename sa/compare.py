"""Comparison of two value graphs under a path condition, modulo the linear
facts collected along the decision diagram."""
import itertools

import terms
from terms import *
from terms import _lin


class Facts:
    __slots__ = ("fs", "lits")

    def __init__(self, fs=(), lits=()):
        self.fs = fs
        self.lits = lits

    def with_(self, a, v):
        fs = self.fs
        if a.op == "le0":
            l = a.args[0]
            fs = fs + (l if v else add(scale(-1, l), ONE),)
        elif a.op == "eq":
            l = a.args[0]
            if v:
                fs = fs + (l, scale(-1, l))
            elif is_nat(l):
                fs = fs + (sub(ONE, l),)
        r = Facts(fs, self.lits + ((a, v),))
        if a.op in ("le0", "eq"):
            # t != 0 and t <= 0 give t <= -1
            for b, w in r.lits:
                if b.op == "eq" and not w:
                    l = b.args[0]
                    for x in (l, scale(-1, l)):
                        if not r.implies(add(x, ONE)) and r.implies(x):
                            r.fs = r.fs + (add(x, ONE),)
        return r

    def implies(self, l):
        """l <= 0 follows from at most three of the facts."""
        if l.op == "ite":
            return False

        def okc(g):
            n = min_const(scale(-1, g))
            return n is not None and n >= 0

        if okc(l):
            return True
        for m in (1, 2, 3):
            for combo in itertools.combinations(self.fs, m):
                g = l
                for f in combo:
                    g = sub(g, f)
                if okc(g):
                    return True
        return False

    def decide(self, a):
        if a.op == "le0":
            l = a.args[0]
            if self.implies(l):
                return 1
            if self.implies(sub(ONE, l)):
                return 0
        elif a.op == "eq":
            l = a.args[0]
            if self.implies(add(l, ONE)) or self.implies(sub(ONE, l)):
                return 0
            if self.implies(l) and self.implies(scale(-1, l)):
                return 1
        return None


def eq_subst(a):
    """Substitution that an equality atom allows."""
    if a.op != "eq":
        return None
    c, dd = _lin(a.args[0])
    if c == 0 and len(dd) == 2 and sorted(dd.values()) == [-1, 1]:
        x, y = sorted(dd, key=lambda z: z.h)
        return {y: x}
    if len(dd) == 1:
        (x, k), = dd.items()
        if k == 1:
            return {x: num(-c)}
    return None


def empties(a, ts):
    """The byte string of length zero that an equality atom speaks of."""
    if a.op != "eq":
        return {}
    c, dd = _lin(a.args[0])
    if c != 0 or len(dd) != 1:
        return {}
    (x, k), = dd.items()
    if x.op != "len" or not isinstance(x.args[0], T):
        return {}
    x = x.args[0]
    seen, work = set(), list(ts)
    while work:
        t = work.pop()
        if isinstance(t, tuple):
            work.extend(t)
            continue
        if not isinstance(t, T) or t in seen:
            continue
        seen.add(t)
        if t.op == "cat" and x in t.args:
            return {x: terms.EMPTY}
        work.extend(t.args)
    return {}


def contrary(lits, s):
    """Under the substitution the literals contradict each other."""
    vals = {}
    for b, w in lits:
        g = subst(bvar(b), s)
        if g is (FALSE if w else TRUE):
            return True
        if vals.setdefault(g, w) != w:
            return True
    return False


def unify(p, t, k, env):
    """t is p with k replaced by one term, which is put into env."""
    if p is k:
        if k in env:
            return env[k] is t
        env[k] = t
        return True
    if k not in p.fv:
        return p is t
    if p.op != t.op or len(p.args) != len(t.args):
        return False
    if p.op in ("le0", "eq", "lin"):
        return False
    for x, y in zip(p.args, t.args):
        if isinstance(x, T) != isinstance(y, T):
            return False
        if isinstance(x, T):
            if not unify(x, y, k, env):
                return False
        elif x != y:
            return False
    return True


def quantified(fx):
    """Whether the literals contradict an existential one: P fails at all
    indices but was seen to hold at one, or fails at its own first witness."""
    for b, w in fx.lits:
        if b.op != "any":
            continue
        lens, l = b.args[:-1], b.args[-1]
        k, body = l.args[1], l.args[2]
        ats = [x for x in atoms(body) if k in x.fv]
        idx = set()
        if w:
            fk = mk("firstk", *b.args)
            idx.add(fk)
            for a, v in fx.lits:
                if v and fk in a.fv or v and a.op == "eq":
                    m = eq_subst(a) or {}
                    if fk in m:
                        idx.add(m[fk])
        else:
            idx |= {ZERO} | {num(n.args[0] - 1) for n in lens if n.op == "n"}
            for a, v in fx.lits:
                for x in ats:
                    env = {}
                    if a is not b and unify(x, a, k, env) and k in env:
                        idx.add(env[k])
        for i in idx:
            if not w and not all(fx.implies(add(sub(i, n), ONE)) and is_nat(i) for n in lens):
                continue
            c = inst(l, i)
            for a, v in fx.lits:
                if c.op == "ite":
                    c = cof(c, a, v) if a in atoms(c) else c
            if c is (FALSE if w else TRUE):
                return True
    return False


class Diff:
    def __init__(self, lits, a, b):
        self.lits, self.a, self.b = lits, a, b

    def when(self):
        return " and ".join(("" if v else "not ") + show(a) for a, v in self.lits) or "always"


LENS_OPS = ("sumE", "sumS", "catmap", "any", "firstk", "st")


def bounded(*ts):
    """Bounded constructs over several lengths, one of them a constant."""
    out, seen, work = {}, set(), list(ts)
    while work:
        x = work.pop()
        if isinstance(x, tuple):
            work.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        work.extend(x.args)
        if x.op in LENS_OPS or x.op == "min":
            lens = x.args if x.op == "min" else x.args[:-1]
            if len(lens) > 1 and any(y.op == "n" for y in lens):
                out[x] = lens
    return out


def tighten(fx, vs):
    """Drops a constant length that the facts put above another one."""
    while True:
        m = {}
        for x, lens in bounded(*vs).items():
            c = next(y for y in lens if y.op == "n")
            rest = tuple(y for y in lens if y is not c)
            if any(y.op != "n" and fx.implies(sub(y, c)) for y in rest):
                m[x] = terms.rebuild1(x.op, rest + (() if x.op == "min" else x.args[-1:]))
        if not m:
            return vs
        vs = tuple(subst(v, m) for v in vs)


def diff(pc, a, b, facts=None, leafeq=None):
    """A feasible branch of pc on which a and b differ, or None."""
    seen = set()
    loose = bool(bounded(pc, a, b))

    def go(pc, a, b, fx):
        if pc is FALSE or pc is BOT or a is b:
            return None
        key = (pc, a, b, fx.fs)
        if key in seen:
            return None
        seen.add(key)
        top = None
        for v in (pc, a, b):
            if v.op == "ite" and (top is None or okey(v.args[0]) < okey(top)):
                top = v.args[0]
        if top is None:
            if leafeq is not None and leafeq(a, b) or quantified(fx):
                return None
            return Diff(fx.lits, a, b)
        d = fx.decide(top)
        for v in (1, 0):
            if d is not None and d != v:
                continue
            p2, a2, b2 = (cof(x, top, v) for x in (pc, a, b))
            if v:
                s = eq_subst(top)
                if s:
                    s = {**s, **empties(top, (pc, a, b))}
                    p2, a2, b2 = (subst(x, s) for x in (p2, a2, b2))
                    if contrary(fx.lits, s):
                        continue
            f2 = fx.with_(top, v) if d is None else fx
            if top.op == "le0":
                # x <= 0 and x >= 0: an equation
                l = top.args[0] if v else sub(top.args[0], ONE)
                e = eq0(l)
                e = e.args[0] if e.op == "ite" else None
                s = eq_subst(e) if e is not None else None
                if s and f2.implies(l) and f2.implies(scale(-1, l)):
                    p2, a2, b2 = (subst(x, s) for x in (p2, a2, b2))
                    if contrary(fx.lits, s):
                        continue
            if loose and f2 is not fx and top.op in ("le0", "eq"):
                p2, a2, b2 = tighten(f2, (p2, a2, b2))
            r = go(p2, a2, b2, f2)
            if r is not None:
                return r
        return None

    return go(pc, a, b, facts or Facts())


def feasible(c):
    """A feasible branch on which condition c holds, or None."""
    return diff(c, TRUE, FALSE)
