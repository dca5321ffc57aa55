"""The two group backends against the contract their trait documents.

Calls into the curve libraries are first rewritten to a small vocabulary in
which calls that the libraries document to be equal are the same term (this is
the table of trusted leaf contracts); the rewritten value graph of each trait
method is then compared with the contract."""
import re

import terms
from compare import *
from core import *
from facets import *
from spec import *

GROUP = "voprf::group::Group"
METHODS = ("hash_to_curve", "hash_to_scalar", "base_elem", "identity_elem", "serialize_elem", "deserialize_elem",
           "random_scalar", "invert_scalar", "is_zero_scalar", "serialize_scalar", "deserialize_scalar")
E_OK, E_ERR = 0, 1
N32 = num(32)


def last(p):
    return p.rsplit("::", 1)[-1]


def A(n, *args):
    return mk("app", n, *args)


def norm(t, memo=None):
    """Library calls -> vocabulary; the rest is rebuilt."""
    memo = {} if memo is None else memo
    if not isinstance(t, T):
        return tuple(norm(x, memo) for x in t) if isinstance(t, tuple) else t
    if t in memo:
        return memo[t]
    if not t.args:
        r = t
    elif t.op == "kst":
        r = const(t)
    elif t.op == "app":
        args = [norm(a, memo) for a in t.args[2:]]
        r = ap(lambda *xs: call(t.args[0], t.args[1], list(xs)), *args) if args else call(t.args[0], t.args[1], [])
    elif t.op == "ite":
        r = ite(norm(t.args[0], memo), norm(t.args[1], memo), norm(t.args[2], memo))
    elif t.op == "isvar":
        r = ap(lambda x: isvar(x, t.args[1]), norm(t.args[0], memo))
    elif t.op == "bt":
        r = ap(isbt, norm(t.args[0], memo))
    elif t.op in ("lin", "poly", "el"):
        r = terms.subst(t, {a: norm(a, memo) for a in _atoms_of(t)})
    elif t.op == "lam":
        r = terms._relam(t.args[1], norm(t.args[2], memo))
    else:
        na = tuple(norm(a, memo) for a in t.args)
        r = t if all(x is y for x, y in zip(na, t.args)) and t.op not in terms.ATOM_OPS else terms.rebuild(t.op, na)
        if isinstance(r, T):
            r = ap(post, r)
    memo[t] = r
    return r


def _atoms_of(t):
    out = []
    for x in t.args[1:] if t.op == "lin" else t.args:
        if isinstance(x, T):
            if x.op == "mono":
                out += [y for y in x.args if isinstance(y, T)]
            else:
                out.append(x)
    return out


def const(t):
    n = last(t.args[0])
    p = t.args[0]
    if n == "RISTRETTO_BASEPOINT_POINT" or (n == "GENERATOR" and ("point" in p.lower() or "projective" in str(t.args[1:]).lower() or "CurveAffine" in p or "Group" in p)):
        return GEN
    if n == "ZERO" and ("scalar" in p.lower() or "Field" in p or "scalar" in str(t.args[1:]).lower()):
        return SZERO
    if n == "ONE" and ("scalar" in p.lower() or "Field" in p):
        return SONE
    if n == "IDENTITY":
        return IDENT
    return t


POINT = ("ProjectivePoint", "RistrettoPoint", "AffinePoint")


def call(f, targs, a):
    n = last(f)
    lib = f.split("::")[0]
    if n == "generator" and lib in ("group", "elliptic_curve") and not a:
        return GEN
    if n == "identity" and not a and any(p in targs for p in POINT):
        return IDENT
    if n == "default" and not a:
        if any(p in targs for p in POINT):
            return IDENT
        if "Scalar" in targs:
            return SZERO
    # views that keep the value
    if n in ("deref", "to_nonzero_scalar", "as_scalar_primitive", "to_projective", "as_affine", "to_affine", "as_ref", "borrow", "clone", "conditional_select") and len(a) == 1:
        return a[0]
    if n in ("into", "from") and len(a) == 1:
        if any(p in targs for p in POINT):
            return a[0]
        if lib == "core" and "GenericArray" in targs and "Scalar" in targs:
            return A("scalar_bytes", a[0])
        if "NonZeroScalar" in targs or targs.count("Scalar") >= 2:
            return a[0]
    # encodings
    if n in ("to_repr", "to_bytes", "as_bytes") and len(a) == 1:
        if lib == "curve25519_dalek" and "ristretto" in f and a[0].op == "app" and a[0].args[0] == "compressed":
            return A("enc_e", a[0].args[1])
        if lib == "curve25519_dalek" and "scalar" in f or n == "to_repr" or "SecretKey" in f or "secret_key" in f:
            return A("scalar_bytes", a[0])
        if lib == "group" and n == "to_bytes":
            return A("enc_e", a[0])
        if lib == "sec1":
            return A("sec1_bytes", a[0])
    if n == "compress" and lib == "curve25519_dalek":
        return A("compressed", a[0])
    if n == "to_encoded_point" and len(a) == 2:
        return A("sec1_point", a[0], a[1])
    if n == "to_compressed_point" and len(a) == 1:
        return A("enc_e", a[0])
    # decoding
    if n == "from_slice" and lib == "curve25519_dalek" and len(a) == 1:
        return A("try_compressed", a[0])
    if n == "decompress" and lib == "curve25519_dalek":
        return A("decompress", a[0])
    if n == "from_canonical_bytes" and lib == "curve25519_dalek":
        return A("canonical_scalar", a[0])
    if n == "from_bytes" and lib == "sec1":
        return A("sec1_parse", a[0])
    if n == "is_compressed" and lib == "sec1":
        return A("is_compressed", a[0])
    if n == "from_encoded_point":
        return A("point_of", ident_free(targs), a[0])
    if lib == "elliptic_curve" and "secret_key" in f and n in ("from_slice", "from_bytes"):
        return A("secret_" + n, a[0])
    if lib == "elliptic_curve" and "nonzero" in f and n == "from_repr":
        return A("secret_from_bytes", a[0])
    # randomness
    if n == "random" and len(a) == 1:
        if lib == "curve25519_dalek" and "scalar" in f:
            return A("random", a[0])
        if lib == "ff":
            return A("random", a[0])
        if lib == "elliptic_curve" and ("secret_key" in f or "nonzero" in f or "NonZeroScalar" in targs):
            return A("random_nonzero", a[0])
    # hashing
    if n in ("hash_from_bytes", "hash_to_scalar") and lib == "elliptic_curve" and len(a) == 2:
        return A("digest_" + n, xmd(targs), *a)
    if n == "expand_message" and lib == "elliptic_curve" and len(a) == 3:
        return A("expand", xmd(targs), *a)
    if n == "fill_bytes" and lib == "elliptic_curve" and len(a) == 2:
        return A("fill", a[0], blen(a[1]))
    if n == "from_uniform_bytes" and lib == "curve25519_dalek":
        return A("uniform_point", a[0])
    if n == "from_bytes_mod_order_wide" and lib == "curve25519_dalek":
        return A("uniform_scalar", a[0])
    # arithmetic
    if n == "invert" and len(a) == 1:
        return A("invert" if lib == "curve25519_dalek" else "try_invert", a[0])
    if n == "is_zero" and lib == "ff" or n == "is_zero" and "Scalar" in targs:
        return A("is_zero", a[0])
    if n == "is_identity":
        return A("is_identity", a[0])
    return A("lib:" + f, targs, *a)


def ident_free(targs):
    """Whether decoding to the requested type refuses the identity by itself."""
    return "public" if "PublicKey" in targs else "point"


def xmd(targs):
    m = re.search(r"ExpandMsgXmd<([^<>]*)>", targs)
    return "xmd" if m and m.group(1) not in ("C", "Self") and "::" not in m.group(1) else "not xmd: " + targs


def isvar(x, i):
    if x.op == "app":
        if x.args[0] == "try_compressed":
            ok_ = ieq(blen(x.args[1]), N32)
            return ok_ if i == 0 else not_(ok_)
    if x.op == "adt":
        return TRUE if x.args[1] == i else FALSE
    return bvar(mk("isvar", x, i))


def isbt(x):
    if x.op == "b":
        return x
    if x.op == "app" and x.args[0] == "is_zero":
        return is_zero(x.args[1])
    if x.op == "app" and x.args[0] == "is_identity":
        return is_ident(x.args[1])
    return bvar(mk("bt", x))


def post(x):
    """Canonical forms built from several calls."""
    if x.op == "fld" and x.args[0].op == "app":
        y = x.args[0]
        if y.args[0] == "try_compressed" and x.args[1:] == (0, 0):
            return A("wrap_compressed", y.args[1])
        if y.args[0] == "compressed" and x.args[1:] == (0, 0):
            return A("enc_e", y.args[1])
    if x.op == "adt" and last(x.args[0]) == "CompressedRistretto" and len(x.args) == 3:
        return A("wrap_compressed", x.args[2])
    if x.op == "after" and x.args[0] == 1 and x.args[1].op == "app" and x.args[1].args[0] == "fill":
        return A("filled", *x.args[1].args[1:])
    if x.op == "min" and len(x.args) == 2:
        # a compressed SEC1 encoding is at most CompressedPointSize bytes long
        for l, n in (x.args, x.args[::-1]):
            if l.op == "len" and l.args[0].op == "app" and l.args[0].args[0] == "sec1_bytes" and n.op == "cst" and n.args[0].endswith("::CompressedPointSize"):
                p = l.args[0].args[1]
                if p.op == "app" and p.args[0] == "sec1_point" and p.args[2] is TRUE:
                    return l
    if x.op == "cat" and len(x.args) == 2 and isinstance(x.args[0], T) and x.args[0].op == "app" and x.args[0].args[0] == "sec1_bytes":
        b = x.args[0]
        p = b.args[1]
        if p.op == "app" and p.args[0] == "sec1_point" and p.args[2] is TRUE and x.args[1].op == "zeros":
            n = terms.add(x.args[1].args[0], blen(b))
            if n.op == "cst" and n.args[0].endswith("::CompressedPointSize"):
                return A("enc_e", p.args[1])
    return x


P0, P1 = mk("var", "p0"), mk("var", "p1")


class Case:
    """Result contract: accepted exactly under `cond` with value `val`; or, when
    cond is None, a plain value."""

    def __init__(self, cond, val):
        self.cond, self.val = cond, val


def contracts(kind, m, clen):
    """Accepted contracts of a method (any one suffices)."""
    V = []
    if m == "base_elem":
        V = [Case(None, GEN)]
    elif m == "identity_elem":
        V = [Case(None, IDENT)]
    elif m == "is_zero_scalar":
        V = [Case(None, is_zero(P0))]
    elif m == "is_identity_elem":
        V = [Case(None, is_ident(P0))]
    elif m == "serialize_elem":
        V = [Case(None, A("enc_e", P0))]
    elif m == "serialize_scalar":
        V = [Case(None, A("scalar_bytes", P0))]
    elif kind == "ec":
        if m in ("hash_to_curve", "hash_to_scalar"):
            c = A("digest_hash_from_bytes" if m == "hash_to_curve" else "digest_hash_to_scalar", "xmd", P0, P1)
            V = [Case(bvar(mk("isvar", c, 0)), mk("fld", c, 0, 0))]
        elif m == "invert_scalar":
            V = [Case(None, mk("fld", A("try_invert", P0), 1, 0))]
        elif m == "deserialize_elem":
            p = A("sec1_parse", P0)
            pt = mk("fld", p, 0, 0)
            comp = and_(bvar(mk("isvar", p, 0)), bvar(mk("bt", A("is_compressed", pt))))
            for k in ("public", "point"):
                d = A("point_of", k, pt)
                v = mk("fld", d, 1, 0)
                c = and_(comp, bvar(mk("isvar", d, 1)))
                # a compressed encoding is never the identity's: a further check is redundant
                V += [Case(c, v), Case(and_(c, not_(is_ident(v))), v)]
        elif m == "deserialize_scalar":
            n = clen["ScalarLen"]
            for f in ("secret_from_slice", "secret_from_bytes"):
                d = A(f, P0)
                v = mk("fld", d, 0, 0)
                for i in (0, 1):
                    v = mk("fld", d, i, 0)
                    c = and_(ieq(blen(P0), n), bvar(mk("isvar", d, i)))
                    V += [Case(c, v), Case(and_(c, not_(is_zero(v))), v)]
    elif kind == "ristretto":
        if m in ("hash_to_curve", "hash_to_scalar"):
            x = A("expand", "xmd", P0, P1, num(64))
            u = A("filled", mk("fld", x, 0, 0), num(64))
            V = [Case(bvar(mk("isvar", x, 0)), A("uniform_point" if m == "hash_to_curve" else "uniform_scalar", u))]
        elif m == "invert_scalar":
            V = [Case(None, A("invert", P0))]
        elif m == "deserialize_elem":
            d = A("decompress", A("wrap_compressed", P0))
            v = mk("fld", d, 1, 0)
            V = [Case(and_(ieq(blen(P0), N32), bvar(mk("isvar", d, 1)), not_(is_ident(v))), v)]
        elif m == "deserialize_scalar":
            d = A("canonical_scalar", P0)
            v = mk("fld", d, 1, 0)
            V = [Case(and_(ieq(blen(P0), N32), bvar(mk("isvar", d, 1)), not_(is_zero(v))), v)]
    return V


def check_random(cx, v):
    """Every value returned is a fresh full-range scalar drawn from the argument
    and known not to be zero; None or what is wrong."""
    for x in set(leaves(v)):
        if x is terms.BOT:
            continue
        bad = random_leaf(x)
        if bad:
            return bad
    return None


def rng_ok(g, accs=()):
    """The generator argument, possibly after earlier draws."""
    if g is P0 or g in accs:
        return True
    if g.op == "after" and isinstance(g.args[1], T) and g.args[1].op == "app":
        return rng_ok(g.args[1].args[1], accs)
    if g.op == "nextrng":
        return rng_ok(g.args[-1], accs)
    if g.op == "lv":
        return rng_lv(g)
    return False


def loop_parts(L):
    body, exit_, n, inits = L.args[0], L.args[1], L.args[2], L.args[3:]
    upd = body.args[2].args if body.args[2].op == "tup" else (body.args[2],)
    return upd, or_(*[c.args[2] for c in exit_]), n, inits


def rng_lv(g):
    j, L = g.args
    if not (isinstance(L, T) and L.op == "loopid"):
        return False
    upd, ex, n, inits = loop_parts(L)
    acc = mk("acc", j)
    return j < len(inits) and rng_ok(inits[j]) and all(rng_ok(u, (acc,)) for u in leaves(upd[j]))


def drawn(x, accs):
    """x is a draw (app random) from the generator, or an accumulator holding one."""
    if x.op == "app" and x.args[0] in ("random", "random_nonzero"):
        return rng_ok(x.args[1], accs)
    if x.op == "app" and x.args[0] == "uniform_scalar":
        # 64 fresh bytes reduced modulo the group order, as `Scalar::random` does
        b = x.args[1]
        return b.op == "rndb" and b.args[0] is num(64) and rng_ok(b.args[1], accs)
    return False


def random_leaf(x):
    if x.op == "app" and x.args[0] == "random_nonzero":
        return None if rng_ok(x.args[1]) else "drawn from %s" % short(x.args[1])
    lvs = terms.subterms(x, lambda y: y.op == "lv")
    Ls = {y.args[1] for y in lvs}
    if len(Ls) != 1 or not all(isinstance(y.args[0], int) for y in lvs):
        return "%s is not known to be a non-zero draw from the generator" % short(x)
    L = Ls.pop()
    upd, ex, n, inits = loop_parts(L)
    accs = [mk("acc", j) for j in range(len(inits))]
    for y in lvs:
        j = y.args[0]
        if rng_lv(y):
            continue
        # an accumulator holding a draw
        gens = [a for k, a in enumerate(accs) if rng_lv(mk("lv", k, L))]
        never = terms.subst(ex, {accs[j]: inits[j]}) is FALSE  # the initial value is not returned
        if not (never or all(drawn(u, gens) for u in leaves(inits[j]) if u is not terms.BOT)) or not all(drawn(u, gens) or u is accs[j] for u in leaves(upd[j])):
            return "%s does not hold a draw from the generator" % short(y)
    at = terms.subst(x, {y: accs[y.args[0]] for y in lvs})
    if not (at.op == "acc" or drawn(at, accs)):
        return "%s is not a draw from the generator" % short(x)
    if n.op != "inf":
        return "the number of draws is bounded by %s, after which zero is possible" % short(n)
    if feasible(and_(ex, is_zero(at))) is not None:
        return "zero is not excluded"
    return None


def is_result(x):
    return x.op == "adt" and x.args[0] == RES


def method_misses(cx, kind, m, root, clen):
    out = []
    if root.fail:
        return [Miss("stop", root.fail)]
    v = norm(root.v)
    if m == "random_scalar":
        bad = check_random(cx, v)
        return [Miss("val", bad)] if bad else []
    pc = norm(root.pc)
    if kind == "ec" and m == "deserialize_elem":
        # SEC1: what parses as a compressed point has exactly the compressed length
        p = A("sec1_parse", P0)
        comp = and_(bvar(mk("isvar", p, 0)), bvar(mk("bt", A("is_compressed", mk("fld", p, 0, 0)))))
        pc = and_(pc, or_(not_(comp), ieq(blen(P0), clen["ElemLen"])))
    if kind == "ec" and m == "serialize_elem":
        # a compressed SEC1 encoding is at most CompressedPointSize bytes long
        pc = and_(pc, le(blen(A("sec1_bytes", A("sec1_point", P0, TRUE))), clen["ElemLen"]))
    best = None
    for c in contracts(kind, m, clen):
        out = []
        if c.cond is None:
            x = diff(pc, v, c.val)
            if x is not None:
                out.append(Miss("val", "when %s: found %s, the contract is %s" % (short_when(x), short(x.a), short(x.b))))
        else:
            if any(not is_result(x) for x in leaves(v) if x is not terms.BOT):
                out.append(Miss("val", "not a Result: " + short(v)))
            else:
                okr = and_(pc, cond_of(v, is_ok))
                x = diff(and_(okr, not_(c.cond)), TRUE, FALSE)
                if x is not None:
                    out.append(Miss("accepts", "accepts what the contract refuses; when " + short_when(x)))
                x = diff(and_(pc, c.cond, cond_of(v, is_err)), TRUE, FALSE)
                if x is not None:
                    out.append(Miss("refuses", "refuses what the contract accepts; when " + short_when(x)))
                pay = restrict(okr, ap(lambda y: y.args[2] if is_ok(y) else terms.BOT, v))
                x = diff(and_(okr, c.cond), pay, c.val)
                if x is not None:
                    out.append(Miss("val", "when %s: found %s, the contract is %s" % (short_when(x), short(x.a), short(x.b))))
                if m.startswith("deserialize"):
                    for lf in set(leaves(v)):
                        if is_err(lf) and lf.args[2] is not error(cx.spec, "Deserialization"):
                            out.append(Miss("kind", "fails with " + short(lf.args[2])))
        if best is None or len(out) < len(best):
            best = out
        if not out:
            return []
    return best if best is not None else [Miss("stop", "no contract for " + m)]


def heads(cx):
    """Backends: {head: (kind, impl)}."""
    out = {}
    for i in cx.cfg.D["impls"]:
        if i.get("tr") == GROUP:
            h = cx.cfg.head(i["self"])
            if h is not None and h.endswith("::Ristretto255"):
                out[h] = ("ristretto", i)
            elif cx.cfg.T[i["self"]]["k"] == "param":
                out[h] = ("ec", i)
            else:
                out[h] = ("unknown", i)
    return out


def method_root(cx, h, m):
    rs = cx.cfg.tr.get((GROUP, h, m))
    if not rs:
        return None
    return cx.cfg.run(rs[0], ["p0", "p1"][: len(rs[0]["params"])])


def clens(cx, imp):
    """Length constants of a backend as terms."""
    import checks
    out = {}
    for k in ("ElemLen", "ScalarLen"):
        t = cx.cfg.T[imp["types"][k]]
        out[k] = mk("cst", show_proj(cx, imp["types"][k]))
    return out


def show_proj(cx, i):
    import checks
    return checks.show_ty(cx.cfg, i)


def ec_scalar_len(root):
    """The constant the code itself compares with (the backend's ScalarLen)."""
    return None


def each(cx, methods):
    """(kind, head, method, root or None, misses)."""
    memo = cx.__dict__.setdefault("_backend", {})
    for h, (kind, imp) in sorted(heads(cx).items(), key=str):
        cl = clens(cx, imp)
        for m in methods:
            if (h, m) not in memo:
                r = method_root(cx, h, m)
                if r is None:
                    memo[h, m] = (r, [Miss("stop", "not implemented")])
                elif kind == "unknown":
                    memo[h, m] = (r, [Miss("stop", "a backend with no known contract")])
                else:
                    memo[h, m] = (r, method_misses(cx, kind, m, r, cl))
            r, ms = memo[h, m]
            yield kind, h, m, r, ms


def backend_count(cx):
    return 2 if cx.has("ristretto255") else 1


def bname(kind, m):
    return "Group::%s for %s" % (m, {"ec": "NIST curves", "ristretto": "Ristretto255"}.get(kind, kind))


def check_methods(cx, rep, methods, kindname, rel=lambda m: True):
    for kind, h, m, r, ms in each(cx, methods):
        bad = [x for x in ms if rel(x)]
        if r:
            rep.fn(r.name)
        rep.ob(kindname, bname(kind, m), None if not bad else "; ".join(map(repr, bad[:3])), r and cx.where(r))
    rep.floor(kindname, len(methods) * backend_count(cx))
    # further provided methods of the trait: callers are analysed with the provided body,
    # so a backend that overrides it must compute the same
    for (t, h, m), rs in sorted(cx.cfg.tr.items(), key=str):
        if t != GROUP or h not in heads(cx) or m in METHODS or m == "is_identity_elem" or m not in cx.cfg.free:
            continue
        r = method_root(cx, h, m)
        d = cx.cfg.run(cx.cfg.free[m][0], ["p0", "p1"][: len(rs[0]["params"])])
        bad = r.fail or d.fail
        if bad is None and (norm(r.v) is not norm(d.v) or norm(r.pc) is not norm(d.pc)):
            bad = "overrides the provided method, which computes %s, with %s" % (short(norm(d.v)), short(norm(r.v)))
        rep.fn(r.name)
        rep.ob("overrides of provided group methods", bname(heads(cx)[h][0], m), bad, cx.where(r))


def check_types(cx, rep):
    want = {
        "ec": {"Elem": r"<C>::ProjectivePoint", "ElemLen": r"<<C>::FieldBytesSize>::CompressedPointSize", "Scalar": "<C>::Scalar", "ScalarLen": "<C>::FieldBytesSize"},
        "ristretto": {"Elem": "curve25519_dalek::ristretto::RistrettoPoint", "ElemLen": 32, "Scalar": "curve25519_dalek::scalar::Scalar", "ScalarLen": 32},
    }
    import checks
    for h, (kind, imp) in sorted(heads(cx).items(), key=str):
        for k, w in want.get(kind, {}).items():
            got = checks.show_ty(cx.cfg, imp["types"][k])
            if isinstance(w, int):
                bits = re.findall(r"bit::B([01])", got)
                ok_ = bits and int("".join(bits), 2) == w
            else:
                ok_ = re.sub(r"<%s>" % re.escape(str(h)), "<C>", got) == w
            rep.ob("types and encoding lengths", "%s of %s" % (k, kind), None if ok_ else "is " + got, imp["span"])
    rep.floor("types and encoding lengths", 4 * backend_count(cx))


def check_identity_default(cx, rep):
    """Group::is_identity_elem: the provided method and any override."""
    n = 0
    for r in cx.cfg.free.get("is_identity_elem", []):
        x = cx.cfg.run(r, ["p0"])
        rep.fn(x.name)
        y = None if x.fail else diff(x.pc, x.v, is_ident(P0))
        rep.ob("identity test", "Group::is_identity_elem", x.fail or (None if y is None else "is %s" % short(x.v)), cx.where(x))
        n += 1
    for h, (kind, imp) in heads(cx).items():
        r = method_root(cx, h, "is_identity_elem")
        if r is not None:
            ms = method_misses(cx, kind, "is_identity_elem", r, {})
            rep.fn(r.name)
            rep.ob("identity test", bname(kind, "is_identity_elem"), None if not ms else repr(ms[0]), cx.where(r))
    rep.floor("identity test", 1)


def check_decoding(cx, rep):
    check_methods(cx, rep, ("deserialize_elem", "deserialize_scalar", "serialize_elem", "serialize_scalar"), "canonical encodings of the backends")


def check(cx, rep):
    check_methods(cx, rep, METHODS, "backend contract")
    check_types(cx, rep)
    check_identity_default(cx, rep)
