"""Serde implementations: what each type writes, what each type reads, and
whether every field read is validated (C15; decoding half of C13)."""
import re

import terms
from compare import *
from core import *
from facets import *
from spec import *

SER, DE, VIS = "serde_core::ser::Serialize", "serde_core::de::Deserialize", "serde_core::de::Visitor"
EXPECTED = [p.split("::")[-1] for p in WIRE] + ["PreparedEvaluationElement", "PoprfPreparedTweak"]


class Bad(Exception):
    pass


def need(c, msg):
    if not c:
        raise Bad(msg)


def tr_any(cfg, tr, head, m):
    for t in (tr, tr.replace("serde_core", "serde")):
        if (t, head, m) in cfg.tr:
            return cfg.tr[t, head, m]
    return []


def enabled(cx):
    return cx.has("serde")


def last(p):
    return p.rsplit("::", 1)[-1]


def is_app(x, n):
    return isinstance(x, T) and x.op == "app" and last(x.args[0]) == n


def targ(x, i=1):
    """i-th top-level type argument of a call, generics stripped."""
    out, d, cur = [], 0, ""
    for c in x.args[1]:
        if c in "<([":
            d += 1
        if c in ">)]":
            d -= 1
        if c == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    out.append(cur)
    return out[i] if i < len(out) else ""


def head_of(t):
    return re.sub(r"<[^{}]*>$", "", t)


def ok_leaves(v):
    return [x for x in set(leaves(v)) if x is not terms.BOT and is_ok(x)]


def result_only(root, v):
    need(not root.fail, "not analysable: %s" % root.fail)
    need(root.pc is TRUE or diff(not_(root.pc), TRUE, FALSE) is None, "may panic")
    for x in leaves(v):
        need(x is terms.BOT or is_ok(x) or is_err(x), "not a Result: " + short(x))


def passthrough(root, v):
    """v is `r` or `match r {Ok(x) => Ok(x), Err(e) => Err(e)}` for one call r."""
    if v.op == "app":
        return v
    result_only(root, v)
    oks = ok_leaves(v)
    need(len(oks) == 1, "more than one successful result: " + short(v))
    p = oks[0].args[2]
    need(p.op == "fld" and p.args[1:] == (0, 0) and p.args[0].op == "app", "the result is changed after the call: " + short(p))
    c = p.args[0]
    x = diff(TRUE, cond_of(v, is_ok), bvar(mk("isvar", c, 0)))
    need(x is None, "success does not depend on the call alone: " + short(v))
    for e in leaves(v):
        if is_err(e):
            need(e.args[2] is mk("fld", c, 1, 0), "the error is replaced: " + short(e))
    return c


# ---------------------------------------------------------------- writing
def written(cx, path, memo):
    """[(name, encoding term over `self`, element type)] of a type's Serialize."""
    if path in memo:
        return memo[path]
    rs = tr_any(cx.cfg, SER, path, "serialize")
    need(rs, "no Serialize implementation")
    r = cx.cfg.run(rs[0], ["self", "ser"])
    v = r.v
    ser = mk("var", "ser")
    need(not r.fail, "not analysable: %s" % r.fail)
    result_only(r, v) if v.op != "app" else None
    if v.op == "app":
        c = v
    else:
        oks = ok_leaves(v)
        need(len(oks) == 1, "more than one successful result")
        c = oks[0].args[2]
        need(c.op == "fld" and c.args[1:] == (0, 0), "the result is changed: " + short(c))
        c = c.args[0]
    out = []
    if is_app(c, "serialize_newtype_struct"):
        need(c.args[2] is ser, "does not write to the given serializer")
        out = [(None, *value_written(cx, c.args[4], targ(c), memo))]
    elif is_app(c, "end"):
        x = c.args[2]
        while True:
            x = unwrap_ok(x)
            if x.op == "after" and x.args[0] == 0 and is_app(x.args[1], "serialize_field"):
                y = x.args[1]
                if len(y.args) == 5:
                    nm = y.args[3]
                    need(nm.op == "bytes", "field name is not a constant")
                    out.append((nm.args[0].decode(), *value_written(cx, y.args[4], targ(y), memo)))
                else:
                    out.append((None, *value_written(cx, y.args[3], targ(y), memo)))
                x = y.args[2]
            elif is_app(x, "serialize_struct") or is_app(x, "serialize_tuple_struct"):
                need(x.args[2] is ser, "does not write to the given serializer")
                n = x.args[4]
                need(n.op == "n" or n is num(len(out)), "number of fields is not constant")
                need(n is num(len(out)), "announces %s fields but writes %d" % (show(n), len(out)))
                break
            else:
                raise Bad("cannot follow how the value is written: " + short(x))
        out.reverse()
    elif is_app(c, "serialize"):
        need(c.args[3] is ser, "does not write to the given serializer")
        out = [(None, *value_written(cx, c.args[2], targ(c, 0), memo))]
    else:
        raise Bad("cannot follow how the value is written: " + short(c))
    memo[path] = out
    return out


def unwrap_ok(x):
    while x.op == "fld" and x.args[1:] == (0, 0) and x.args[0].op == "app":
        x = x.args[0]
    return x


def value_written(cx, val, ty, memo):
    """(encoding term, transported type) of one written value."""
    h = head_of(ty)
    if val.op in ("ser_s", "ser_e"):
        return val, ty
    if h in cx.cfg.adts and (("__SerializeWith" in h) or "::serialize::" in h):
        need(val.op == "adt" or "__SerializeWith" not in h, "unknown value written: " + short(val))
        rs = tr_any(cx.cfg, SER, h, "serialize")
        need(rs, "no way to write " + h)
        r = cx.cfg.run(rs[0], ["self", "ser"])
        c = passthrough(r, r.v)
        need(is_app(c, "serialize") and c.args[3] is mk("var", "ser"), "cannot follow how a field is written: " + short(c))
        v = terms.subst(c.args[2], {mk("var", "self"): val})
        need(v.op in ("ser_s", "ser_e"), "a field is written as %s, not as its canonical encoding" % short(v))
        return v, targ(c, 0)
    if h in cx.cfg.adts:
        return mk("whole", h, val), h
    if h.startswith("&"):
        return value_written(cx, val, ty[1:], memo)
    raise Bad("a field is written as %s of type %s, not as its canonical encoding" % (short(val), ty))


# ---------------------------------------------------------------- reading
def value_read(cx, path, kind):
    """Checks that a reader type (derived wrapper or crate type) yields a
    validated scalar/element; returns the transported type."""
    if "__DeserializeWith" not in path:
        return path
    rs = tr_any(cx.cfg, DE, path, "deserialize")
    need(rs, "no reader for " + path)
    r = cx.cfg.run(rs[0], ["de"])
    result_only(r, r.v)
    oks = ok_leaves(r.v)
    need(len(oks) == 1, "%d different values are read" % len(oks))
    w = oks[0].args[2]
    need(w.op == "adt", "unknown value read: " + short(w))
    d = w.args[2]
    need(d.op in ("dec_s", "dec_e"), "the value read is %s, not a validated decoding" % short(d))
    a = d.args[0]
    need(a.op == "fld" and a.args[1:] == (0, 0) and is_app(a.args[0], "deserialize") and a.args[0].args[2] is mk("var", "de"),
         "the value is decoded from %s" % short(a))
    need(kind == d.op[-1], "a %s is read where a %s is written" % (d.op, kind))
    n = ELEM if kind == "e" else SCAL
    cond = and_(bvar(mk("isvar", a.args[0], 0)), ieq(blen(a), n), bvar(mk("ok", kind, a)))
    x = diff(TRUE, cond_of(r.v, is_ok), cond)
    need(x is None, "is accepted or refused for another reason than its decoding; when " + (short_when(x) if x else ""))
    return targ(a.args[0], 0)


def fields_of(cx, path, w):
    """Fields of a structure value (a one-field structure rebuilt from a field of
    another one-field structure is the same term as that structure)."""
    return [terms.fld(w, 0, i) for i in range(cx.cfg.nfields(path))]


def read_by_seq(cx, path, names, root):
    """Order and wrappers of visit_seq: [reader path] by field."""
    v = root.v
    result_only(root, v)
    oks = ok_leaves(v)
    need(len(oks) == 1, "visit_seq: more than one successful result")
    w = oks[0].args[2]
    need(w.op != "adt" or w.args[0] == path, "visit_seq builds " + short(w))
    okr = cond_of(v, is_ok)
    want = []
    nxt = mk("var", "acc")
    conds = TRUE
    out = {}
    order = []
    for i, x in enumerate(fields_of(cx, path, w)):
        y = x
        if y.op == "fld" and y.args[1:] == (0, 0) and y.args[0].op == "fld" and y.args[0].args[1:] == (1, 0):
            y = y.args[0]
        need(y.op == "fld" and y.args[1:] == (1, 0) and y.args[0].op == "fld" and y.args[0].args[1:] == (0, 0) and is_app(y.args[0].args[0], "next_element"),
             "visit_seq: field %s is %s, not an element of the sequence" % (names[i], short(x)))
        c = y.args[0].args[0]
        h = head_of(targ(c))
        wrapped = y is not x
        need(wrapped == ("__DeserializeWith" in h), "visit_seq: field %s is %s" % (names[i], short(x)))
        k, g = 0, c.args[2]
        while g.op == "after" and g.args[0] == 0 and is_app(g.args[1], "next_element"):
            k, g = k + 1, g.args[1].args[2]
        need(g is nxt, "visit_seq: reads from " + short(g))
        out[i] = h
        order.append(k)
        conds = and_(conds, bvar(mk("isvar", c, 0)), bvar(mk("isvar", mk("fld", c, 0, 0), 1)))
    need(order == list(range(len(order))), "visit_seq: fields are taken from positions %s" % order)
    x = diff(TRUE, okr, conds)
    need(x is None, "visit_seq: succeeds or fails for another reason than its elements; when " + (short_when(x) if x else ""))
    return out


def read_by_map(cx, path, names, root):
    v = root.v
    result_only(root, v)
    oks = ok_leaves(v)
    need(len(oks) == 1, "visit_map: more than one successful result")
    w = oks[0].args[2]
    need(w.op != "adt" or w.args[0] == path, "visit_map builds " + short(w))
    okr = cond_of(v, is_ok)
    out = {}
    for i, x in enumerate(fields_of(cx, path, w)):
        need(x.op == "fld" and x.args[1:] == (1, 0) and x.args[0].op == "lv" and isinstance(x.args[0].args[0], int),
             "visit_map: field %s is %s, not a value of the map" % (names[i], short(x)))
        j, L = x.args[0].args
        y = diff(okr, bvar(mk("isvar", x.args[0], 1)), TRUE)
        need(y is None, "visit_map: succeeds without field %s" % names[i])
        body, inits = L.args[0].args[2], L.args[3:]
        need(inits[j].op == "adt" and inits[j].args[1] == 0, "visit_map: field %s starts as %s" % (names[i], short(inits[j])))
        upd = ap(lambda t: t.args[j], body)
        acc = mk("acc", j)
        some = [u for u in set(leaves(upd)) if u is not acc and u is not terms.BOT]
        need(some, "visit_map: field %s is never read" % names[i])
        for u in some:
            need(u.op == "adt" and u.args[1] == 1, "visit_map: field %s is set to %s" % (names[i], short(u)))
            p = u.args[2]
            q = p
            if q.op == "fld" and q.args[1:] == (0, 0) and q.args[0].op == "fld" and q.args[0].args[1:] == (0, 0):
                q = q.args[0]
            need(q.op == "fld" and q.args[1:] == (0, 0) and is_app(q.args[0], "next_value"), "visit_map: field %s is set to %s" % (names[i], short(p)))
            c = q.args[0]
            h = head_of(targ(c))
            need((q is not p) == ("__DeserializeWith" in h), "visit_map: field %s is set to %s" % (names[i], short(p)))
            need(out.get(i, h) == h, "visit_map: field %s is read in two ways" % names[i])
            out[i] = h
            g = c.args[2]
            need(g.op == "after" and is_app(g.args[1], "next_key"), "visit_map: value without its key")
            key = mk("fld", mk("fld", g.args[1], 0, 0), 1, 0)
            reg = cond_of(upd, lambda z: z is u)
            # not an iteration that leaves the loop (with an error, or at the end)
            reg = and_(reg, *[not_(c.args[2]) for c in L.args[1]])
            y = None
            for k in range(len(names) + 1):
                if k != i and y is None:
                    y = diff(and_(reg, bvar(mk("isvar", key, k)), not_(bvar(mk("isvar", key, i)))), TRUE, FALSE)
            need(y is None, "visit_map: field %s is set for another key; when %s" % (names[i], short_when(y) if y else ""))
    return out


def field_names(cx, visitor_prefix, names):
    """The key visitor maps exactly the field names to the field indices."""
    heads = sorted({h for (tr, h, m) in cx.cfg.tr if m == "visit_str" and isinstance(h, str) and h.startswith(visitor_prefix) and "__FieldVisitor" in h})
    need(len(heads) == 1, "%d key visitors" % len(heads))
    h = heads[0]
    for m in ("visit_str", "visit_bytes", "visit_u64"):
        r = cx.cfg.run(tr_any(cx.cfg, VIS, h, m)[0], ["self", "v"])
        result_only(r, r.v)
        v = r.v
        for k in range(len(names)):
            reg = cond_of(v, lambda z: is_ok(z) and z.args[2].op == "adt" and z.args[2].args[1] == k)
            V = mk("var", "v")
            if m == "visit_u64":
                want = ieq(mk("u", 64, V), num(k))
            elif m == "visit_str":
                b = B(names[k])
                want = and_(ieq(blen(V), num(len(names[k]))), terms.eq_term(b, V))
            else:
                b = names[k].encode()
                want = and_(ieq(blen(V), num(len(b))), *[ieq(mk("u", 8, mk("sel", V, num(i))), num(c)) for i, c in enumerate(b)])
            x = diff(TRUE, reg, want)
            if x is not None and m == "visit_str":
                # two different constants cannot both equal the key
                excl = and_(*[not_(terms.eq_term(B(nm), V)) for j, nm in enumerate(names) if j != k])
                x = diff(excl, reg, want)
            need(x is None, "%s: key %r is not mapped to field %d; when %s" % (m, names[k], k, short_when(x) if x else ""))


def readers(cx, path):
    """Reader wrappers by field for one type; checks both access styles."""
    rs = tr_any(cx.cfg, DE, path, "deserialize")
    need(rs, "no Deserialize implementation")
    r = cx.cfg.run(rs[0], ["de"])
    c = passthrough(r, r.v)
    de = mk("var", "de")
    n = cx.cfg.nfields(path)
    names = [cx.cfg.fname(path, i) for i in range(n)]
    pre = rs[0]["p"]
    got = []
    wire_names = None
    visitors = [h for (tr, h, m) in cx.cfg.tr if m == "expecting" and isinstance(h, str) and h.startswith(pre) and h.endswith("__Visitor")]
    need(len(visitors) == 1, "cannot find the visitor")
    vis = visitors[0]
    need(len(c.args) > 2 and c.args[2] is de, "does not read from the given deserializer")
    need(vis in c.args[1], "reads with another visitor: " + short(c))
    seq = cx.cfg.run(tr_any(cx.cfg, VIS, vis, "visit_seq")[0], ["self", "acc"])
    if is_app(c, "deserialize_newtype_struct"):
        nt = cx.cfg.run(tr_any(cx.cfg, VIS, vis, "visit_newtype_struct")[0], ["self", "de"])
        got.append(newtype(cx, path, nt))
        got.append(read_by_seq(cx, path, names, seq))
        wire_names = [None]
    elif is_app(c, "deserialize_struct") or is_app(c, "deserialize_tuple_struct"):
        got.append(read_by_seq(cx, path, names, seq))
        if is_app(c, "deserialize_struct"):
            fs = c.args[4]
            need(fs.op == "arr", "field list is not constant")
            wire_names = [x.args[0].decode() for x in fs.args]
            mp = cx.cfg.run(tr_any(cx.cfg, VIS, vis, "visit_map")[0], ["self", "acc"])
            got.append(read_by_map(cx, path, names, mp))
            field_names(cx, pre, wire_names)
        else:
            wire_names = [None] * n
    else:
        raise Bad("cannot follow how the value is read: " + short(c))
    return got, wire_names, names


def newtype(cx, path, root):
    """visit_newtype_struct: {0: ...} with the inlined decoding checked."""
    v = root.v
    need(not root.fail, "not analysable: %s" % root.fail)
    result_only(root, v)
    oks = ok_leaves(v)
    need(len(oks) == 1, "visit_newtype_struct: more than one successful result")
    w = oks[0].args[2]
    okr = cond_of(v, is_ok)
    de = mk("var", "de")
    if w.op == "adt" and w.args[0] == path and w.args[2].op in ("dec_s", "dec_e"):
        d = w.args[2]
        kind = d.op[-1]
        a = d.args[0]
        need(a.op == "fld" and a.args[1:] == (0, 0) and is_app(a.args[0], "deserialize") and a.args[0].args[2] is de, "decoded from " + short(a))
        n = ELEM if kind == "e" else SCAL
        x = diff(TRUE, okr, and_(bvar(mk("isvar", a.args[0], 0)), ieq(blen(a), n), bvar(mk("ok", kind, a))))
        need(x is None, "visit_newtype_struct: accepted or refused for another reason than its decoding")
        return {0: ("direct", kind, targ(a.args[0], 0))}
    # a newtype around another serializable type of the crate: its own reader, unchanged
    calls = [x for x in terms.subterms(w, lambda y: y.op == "app")]
    need(w.op != "adt" or w.args[0] == path, "visit_newtype_struct builds " + short(w))
    inner = w.args[2] if w.op == "adt" else w
    base = inner.args[0] if inner.op == "fld" else inner
    need(base.op == "app" and base.args[2] is de and len(calls) == 1, "visit_newtype_struct yields " + short(w))
    x = diff(TRUE, okr, bvar(mk("isvar", base, 0)))
    need(x is None, "visit_newtype_struct: accepted or refused for another reason")
    m = re.search(r"(voprf::[\w:{}#]*?_[#\d]*::\{impl#\d+\}::deserialize)::__Visitor", base.args[1])
    h = None
    for (tr, hd, mm), rs in cx.cfg.tr.items():
        if mm == "deserialize" and m and rs[0]["p"] == m.group(1):
            h = hd
    need(h is not None, "visit_newtype_struct reads " + short(base))
    return {0: h}


def type_check(cx, path, rep, memo):
    """None or what is wrong with one type."""
    try:
        w = written(cx, path, memo)
        got, wnames, names = readers(cx, path)
        n = cx.cfg.nfields(path)
        need(len(w) == n, "writes %d of %d fields" % (len(w), n))
        need(len(wnames) == n, "reads %d of %d fields" % (len(wnames), n))
        for i in range(n):
            nm, enc, ty = w[i]
            need(nm == wnames[i], "writes field %d as %r and reads it as %r" % (i, nm, wnames[i]))
            self_i = mk("fld", mk("var", "self"), 0, i)
            need(enc.args[-1] is self_i, "position %d holds %s instead of field %s" % (i, short(enc), names[i]))
            for g in got:
                need(i in g, "field %s is never read" % names[i])
                h = g[i]
                if isinstance(h, tuple):
                    need(enc.op == "ser_" + h[1], "reads a %s where a %s is written" % (h[1], enc.op))
                    need(h[2].split("<")[0] == ty.split("<")[0] and h[2] == ty, "reads %s where %s is written" % (h[2], ty))
                elif enc.op == "whole":
                    need(h == enc.args[0], "reads %s where %s is written" % (h, enc.args[0]))
                else:
                    t = value_read(cx, h, enc.op[-1])
                    need(t == ty, "reads %s where %s is written" % (t, ty))
    except Bad as e:
        return str(e)
    except (Stop, IndexError, KeyError, AttributeError, TypeError) as e:
        return "cannot follow the implementation: %s: %s" % (type(e).__name__, e)
    return None


def types(cx):
    return sorted({h for (tr, h, m) in cx.cfg.tr if m in ("serialize", "deserialize") and last(tr) in ("Serialize", "Deserialize")
                   and h in cx.cfg.adts and "__" not in last(h)})


def check(cx, rep):
    if not enabled(cx):
        return
    memo = {}
    ts = types(cx)
    for p in ts:
        if cx.cfg.adts[p]["kind"] != "struct" or last(p) not in EXPECTED:
            # field-less enumerations and the like carry no protocol values
            if not holds_values(cx, p):
                continue
        rs = tr_any(cx.cfg, SER, p, "serialize") + tr_any(cx.cfg, DE, p, "deserialize")
        for r in rs:
            rep.fn(r["pretty"])
        rep.ob("serde writes and reads every field validated", last(p), type_check(cx, p, rep, memo), rs[0]["span"] if rs else "")
    for nme in EXPECTED:
        if not any(last(p) == nme for p in ts):
            rep.ob("serde writes and reads every field validated", nme, "has no serde implementation")
    rep.floor("serde writes and reads every field validated", 11)


def holds_values(cx, p, seen=()):
    for v in cx.cfg.adts[p]["variants"]:
        for f in v["f"]:
            s = str(cx.cfg.T[f["t"]])
            if cx.cfg.T[f["t"]]["k"] == "proj" and cx.cfg.T[f["t"]]["n"] in ("Scalar", "Elem"):
                return True
    return last(p) in EXPECTED


def check_decoding(cx, rep):
    """Every scalar or element read through serde is a validated decoding."""
    if not enabled(cx):
        return
    n = 0
    for (tr, h, m), rs in sorted(cx.cfg.tr.items(), key=str):
        if m != "deserialize" or last(tr) != "Deserialize" or not isinstance(h, str) or h not in cx.cfg.adts:
            continue
        if "__DeserializeWith" in h:
            r = cx.cfg.run(rs[0], ["de"])
            try:
                oks = ok_leaves(r.v)
                need(len(oks) == 1 and oks[0].args[2].op == "adt", "cannot follow what is read: " + short(r.v))
                d = oks[0].args[2].args[2]
                value_read(cx, h, d.op[-1] if d.op.startswith("dec_") else "?")
                bad = None
            except Bad as e:
                bad = str(e)
            n += 1
            rep.ob("serde fields are validated", rs[0]["p"], bad, rs[0]["span"])
    rep.floor("serde fields are validated", 20)
