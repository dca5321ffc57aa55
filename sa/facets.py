"""Splits the difference between a function's value graph and its specification
into facets, each naming the construct and the condition."""
from compare import *
from core import *
from spec import Adt, Exp, Iter
import terms


class Miss:
    """One mismatch: facet, human-readable detail."""

    def __init__(self, facet, detail, comp=""):
        self.facet, self.comp, self.detail = facet, comp, detail

    def __repr__(self):
        return "%s%s: %s" % (self.facet, "(" + self.comp + ")" if self.comp else "", self.detail)


def short(t, n=400):
    s = show(t)
    return s if len(s) <= n else s[: n // 2] + " ... " + s[-n // 2:]


def build(spec, d):
    """The value graph a description stands for."""
    if isinstance(d, T):
        return d
    if isinstance(d, Adt):
        n = spec.cfg.nfields(d.path)
        fs = [None] * n
        for k, v in d.f.items():
            fs[spec.cfg.role(d.path, k)] = build(spec, v)
        return adt(d.path, 0, *fs)
    if isinstance(d, Iter):
        k = fresh("nat")
        return mk("iter", st(d.lens, lam(k, build(spec, d.at(k)))), ZERO)
    if isinstance(d, Exp):
        bad = or_(*[c for _, c in d.errs]) if d.errs else FALSE
        # which error is reported when several apply is not prescribed: take the first
        e = terms.BOT
        for kind, c in reversed(d.errs):
            e = ite(c, err(error(spec, kind)), e)
        return ite(bad, e, ok(build(spec, d.ok)))
    raise TypeError(d)


def error(spec, kind):
    a = spec.cfg.adts["voprf::error::Error"]
    for i, v in enumerate(a["variants"]):
        if v["n"] == kind:
            return mk("adt", "voprf::error::Error", i)
    raise Stop("no error kind " + kind)


def kind_of(spec, leaf):
    a = spec.cfg.adts["voprf::error::Error"]
    if leaf.op == "adt" and leaf.args[0] == "voprf::error::Error":
        return a["variants"][leaf.args[1]]["n"]
    return None


def as_stream(y):
    if y.op == "iter" and y.args[1] is ZERO:
        return y.args[0]
    if y.op == "seq":
        return y.args[0]
    if y.op == "arr":
        return terms.st_make([num(len(y.args))], lambda k: terms.select(y, k))
    return mk("notastream", y)


def compare_fn(spec, root, fn):
    out = []
    if root.fail:
        return [Miss("stop", "not analysable: %s at %s" % (root.fail, root.where))]
    x = diff(not_(root.pc), TRUE, FALSE)
    if x is not None:
        out.append(Miss("panics", "does not return when %s" % short_when(x)))
    for cond, d in fn.cases:
        pc = and_(root.pc, cond)
        compare(spec, pc, restrict(cond, root.v), d, "", out)
    return out


def is_ok(x):
    return x.op == "adt" and x.args[0] == RES and x.args[1] == 0


def is_err(x):
    return x.op == "adt" and x.args[0] == RES and x.args[1] == 1


def compare(spec, pc, v, d, comp="", out=None, facts=None, cut=True):
    """Appends the facets in which v (under pc) differs from description d."""
    out = [] if out is None else out
    if isinstance(d, T):
        x = diff(pc, v, d, facts)
        if x is not None:
            out.append(Miss("val", "when %s: found %s, specified %s" % (short_when(x), short(x.a), short(x.b)), comp))
        return out
    if isinstance(d, Adt):
        for name, sub_ in d.f.items():
            i = spec.cfg.role(d.path, name)

            def proj(x):
                if x.op == "adt":
                    if x.args[0] != d.path:
                        return mk("notadt", x)
                    return x.args[2 + i]
                return mk("fld", x, 0, i)

            compare(spec, pc, ap(proj, v), sub_, comp + "." + name if comp else name, out, facts)
        return out
    if isinstance(d, Iter):
        v = ap(as_stream, v)
        if diff(pc, v, build(spec, d).args[0], facts) is None:
            return out
        x = diff(pc, ap(lambda y: min_of(list(y.args[:-1])) if y.op == "st" else y, v), min_of(canon(d.lens)), facts)
        if x is not None:
            out.append(Miss("count", "when %s: %s items, specified %s" % (short_when(x), short(x.a), short(x.b)), comp))
            return out
        k = fresh("nat")
        item = ap(lambda y: terms.st_at(y, k), v)
        pc2 = and_(pc, *[lt(k, n) for n in d.lens])
        n0 = len(out)
        compare(spec, pc2, item, d.at(k), comp + "[]", out, facts)
        if len(out) == n0:
            out.append(Miss("val", "items differ", comp + "[]"))
        return out
    if isinstance(d, Exp):
        badv = [x for x in leaves(v) if x is not terms.BOT and not is_ok(x) and not is_err(x)]
        if badv:
            out.append(Miss("val", "not a Result: " + short(badv[0]), comp))
            return out
        okr = and_(pc, cond_of(v, is_ok))
        bad = or_(*[c for _, c in d.errs]) if d.errs else FALSE
        # accepted although it must be refused
        for kind, c in d.errs:
            x = diff(and_(okr, c), TRUE, FALSE, facts)
            if x is not None:
                out.append(Miss("accepts:" + kind, "succeeds although it must be refused with Error::%s; when %s" % (kind, short_when(x)), comp))
        ekinds = {}
        for x in set(leaves(v)):
            if is_err(x):
                for y in set(leaves(x.args[2])):
                    ekinds.setdefault(y, []).append(x)
        for y, xs in sorted(ekinds.items(), key=lambda z: z[0].h):
            kind = kind_of(spec, y)
            reg = and_(pc, cond_of(v, lambda z: is_err(z) and z.args[2] is y))
            if kind is None:
                x = diff(reg, TRUE, FALSE, facts)
                if x is not None:
                    out.append(Miss("kind:?", "unknown error value %s when %s" % (short(y), short_when(x)), comp))
                continue
            allowed = or_(*([c for k_, c in d.errs if k_ == kind] or [FALSE]))
            x = diff(and_(reg, not_(allowed)), TRUE, FALSE, facts)
            if x is not None:
                z = diff(and_(reg, not_(bad)), TRUE, FALSE, facts)
                if z is not None:
                    out.append(Miss("refuses:" + kind, "fails with Error::%s for no specified cause; when %s" % (kind, short_when(z)), comp))
                z = diff(and_(reg, bad, not_(allowed)), TRUE, FALSE, facts)
                if z is not None:
                    w = [k_ for k_, c in d.errs if feasible(and_(reg, not_(allowed), c)) is not None]
                    out.append(Miss("kind:" + "/".join(w + [kind]), "fails with Error::%s instead of %s; when %s" % (kind, " or ".join("Error::" + q for q in w), short_when(z)), comp))
        payload = ap(lambda x: x.args[2] if is_ok(x) else terms.BOT, v)
        region = and_(okr, not_(bad))
        if region is not terms.FALSE:
            compare(spec, region, restrict(okr, payload), d.ok, comp, out, facts)
        return out
    raise TypeError(d)


def canon(lens):
    return terms.canon_lens(lens)


def short_when(x):
    s = x.when()
    return s if len(s) < 500 else s[:250] + " ... " + s[-250:]
