"""Loop summaries from one template iteration.

The state at the loop header is abstracted to a template in which every
variable the body changes is a symbol; the template iteration then classifies
each of them: loop-invariant, induction variable (start + step * k), closed
accumulator (group or scalar sum, byte concatenation, vector push, running
disjunction), overwritten value, or an opaque fold.  The continuation condition
gives the trip count, other exits become "first k such that" conditions.
"""
from terms import *
import terms as tm
from interp import Stop, State, merge, ok, adt

UNROLL_MAX = 20


def snapshot(I):
    return (len(I.oblig), len(I.switches), len(I.unk), len(I.events), I.nsites, len(I.loops))


def rollback(I, s):
    del I.oblig[s[0]:]
    del I.switches[s[1]:]
    del I.unk[s[2]:]
    del I.events[s[3]:]
    I.nsites = s[4]
    del I.loops[s[5]:]


def run(I, s, body_fn, where, depth=0):
    if depth > 12:
        raise Stop("loop case split")
    snap = snapshot(I)
    # ------------------------------------------------ concrete unrolling
    exits = {}
    cur = s
    n = 0
    limit = None
    while True:
        ex, back = body_fn(cur.copy())
        n += 1
        add_exits(exits, ex)
        if back is None or back.pc is FALSE:
            I.loops.append(("unrolled", n, where))
            return {l: merge(x) for l, x in exits.items()}
        if limit is None:
            limit = unroll_bound(cur, back)
        if limit is None or n > limit:
            break
        cur = back
    rollback(I, snap)
    return template(I, s, body_fn, where, depth)


def add_exits(exits, ex):
    for l, x in ex.items():
        if x is not None and x.pc is not FALSE:
            exits.setdefault(l, []).append(x)


def bodies_iters(v, acc):
    if v.op == "ite":
        bodies_iters(v.args[1], acc)
        bodies_iters(v.args[2], acc)
    elif v.op == "iter":
        acc.append(v)
    elif v.op in ("adt", "tup", "mapm"):
        for x in v.args:
            if isinstance(x, T):
                bodies_iters(x, acc)


def unroll_bound(s0, s1):
    """Iterations after which an iterator of constant length is exhausted (or a
    loop decided by constants ends)."""
    best = None
    for k, v0 in s0.store.items():
        v1 = s1.store.get(k)
        if v1 is None or v1 is v0:
            continue
        a = []
        bodies_iters(v0, a)
        for it in a:
            c = const_len(it.args[0])
            if c is not None and it.args[1].op == "n":
                m = max(0, c - it.args[1].args[0])
                if m <= UNROLL and (best is None or m + 1 < best):
                    best = m + 1
        if v0.op == "arr" and v1.op == "arr" and len(v1.args) < len(v0.args) <= UNROLL:
            best = len(v0.args) + 1 if best is None else min(best, len(v0.args) + 1)
    if best is None and s1.pc is s0.pc:
        # decided so far by constants: a counting loop
        for k, v0 in s0.store.items():
            v1 = s1.store.get(k)
            if v1 is not None and v1 is not v0 and v0.op == "n" and v1.op == "n":
                return UNROLL_MAX
    return best


# ---------------------------------------------------------------- template
AGG = {"adt": 2, "tup": 0, "clos": 2, "arr": 0}  # fields start at
FIXED = ("bytes", "zeros", "cat", "sl", "H", "ser_e", "ser_s", "be", "rndb", "arr", "seq")


class Slot:
    __slots__ = ("key", "path", "v0", "ph", "kind", "step")

    def __init__(self, key, v0, ph):
        self.key, self.v0, self.ph = key, v0, ph
        self.kind, self.step = "phi", None


def split_state(s, a, val):
    pc = and_(s.pc, bvar(a) if val else not_(bvar(a)))
    st = {k: cof_deep(v, a, val) for k, v in s.store.items()}
    return State(pc, st)


def restrict_all(s, a, val):
    return split_state(s, a, val)


def case_split(I, s, a, body_fn, where, depth):
    res = {}
    for val in (1, 0):
        s2 = split_state(s, a, val)
        if s2.pc is FALSE:
            continue
        add_exits(res, run(I, s2, body_fn, where, depth + 1))
    return {l: merge(x) for l, x in res.items()}


def template(I, s, body_fn, where, depth):
    # which variables change? (grow until stable)
    changed = []
    snap = snapshot(I)
    k = fresh("nat")
    plan = {}  # key -> template builder
    ind = {}   # (key, path) -> step constant
    inv = set()
    hyps = set()    # conditional induction variables, verified once the bounds are known
    refuted = set()
    ex, back = body_fn(s.copy())
    rollback(I, snap)
    if back is None:
        return {l: x for l, x in ex.items() if x is not None}
    first = back
    varlen = set()

    def once(kk):
        """Value after one pass."""
        v = first.store.get(kk[0])
        return None if v is None else at_path(v, kk[1])

    def same_array(kk, v0):
        x = once(kk)
        return 0 < len(v0.args) <= 8 and x is not None and x.op == "arr" and len(x.args) == len(v0.args) and v0.args[0].op != "n"

    def fixed_len(kk, v0):
        """Length of an array that keeps it (verified once the update is known)."""
        if v0.op not in FIXED or kk in varlen:
            return None
        x, n = once(kk), blen(v0)
        if x is None or n.fv or any(blen(y) is not n for y in leaves(x) if y is not BOT):
            return None
        return n

    peel, notpeel = {}, set()

    def peeled(kk, v0):
        """Whether a pass takes the first element off a slice (and its kind)."""
        x = once(kk)
        if x is None or x is v0 or v0.op in ("ite", "b", "n", "lin", "mref", "adt", "tup", "clos", "iter", "mapm", "hst") or x.op in ("ite", "b", "n", "lin", "mref"):
            return None
        n = blen(v0)
        if k in n.fv or n is ONE:
            return None
        for isb in (False, True):
            if x is I.gslice(v0, ONE, sub(n, ONE), isb):
                return isb
        return None

    for key in s.store:
        if back.store.get(key) is not s.store[key]:
            changed.append(key)
    # unswitch conditions in the initial values
    for key in changed:
        v0 = s.store[key]
        if v0.op == "ite":
            v0 = restrict(s.pc, v0)
            if v0.op == "ite":
                for a in atoms(v0):
                    return case_split(I, s, a, body_fn, where, depth)
            s = State(s.pc, dict(s.store))
            s.store[key] = v0
    for key in changed:
        # a range that the body steps through: view it as the iterator it is
        v0 = s.store[key]
        if v0.op == "adt" and "Range" in v0.args[0] and any(x.op == "iter" for x in leaves(back.store[key])):
            from models import as_iter
            s = State(s.pc, dict(s.store))
            s.store[key] = as_iter(I, None, v0)
    facts = TRUE
    for attempt in range(16):
        phs = {}
        slots = []
        tstate = State(TRUE, dict(s.store))

        def build(key, path, v0):
            """Template of one leaf value."""
            kk = (key, path)
            if kk in inv:
                return v0
            if kk not in notpeel and kk not in peel:
                b = peeled(kk, v0)
                if b is not None:
                    peel[kk] = (v0, b)
            if kk in peel:
                return I.gslice(v0, k, sub(blen(v0), k), peel[kk][1])
            if v0.op == "iter":
                if ("iter", kk) not in ind:
                    # position advances; anything else is a fold
                    return mk("iter", v0.args[0], build_int(key, path + ("pos",), v0.args[1]))
            if v0.op in AGG and not ("phi", kk) in ind and (v0.op != "arr" or same_array(kk, v0)):
                o = AGG[v0.op]
                fs = [build(key, path + (i,), x) for i, x in enumerate(v0.args[o:])]
                return mk(v0.op, *v0.args[:o], *fs)
            if v0.op == "mapm" and not ("phi", kk) in ind:
                return mk("mapm", build(key, path + (0,), v0.args[0]), build(key, path + (1,), v0.args[1]), v0.args[2])
            if v0.op == "hst":
                return mk("hst", *v0.args[:-1], build(key, path + ("h",), v0.args[-1]))
            if v0.op in ("n", "lin", "len", "u", "cst", "min") and kk not in ind.get("nonint", ()):
                return build_int(key, path, v0)
            if v0.op == "mref":
                return v0
            if v0.op == "ite":
                raise Stop("conditional loop variable")
            n = fixed_len(kk, v0)
            ph = fresh(n) if n is not None else fresh()
            sl = Slot(kk, v0, ph)
            slots.append(sl)
            phs[kk] = sl
            if v0.op == "b":
                return bvar(mk("bt", ph))
            return ph

        def build_int(key, path, v0):
            kk = (key, path)
            if kk in inv:
                return v0
            if kk in ind:
                return add(v0, scale(ind[kk], k))
            ph = fresh("num")
            sl = Slot(kk, v0, ph)
            sl.kind = "int"
            slots.append(sl)
            phs[kk] = sl
            return ph

        tmpl = {}
        for key in changed:
            tmpl[key] = build(key, (), s.store[key])
            tstate.store[key] = tmpl[key]
        tstate.pc = and_(s.pc, facts)
        ex, back = body_fn(tstate)
        if back is None:
            # never iterates twice
            raise Stop("loop shape")
        # more changed keys?
        new = [key for key in s.store if key not in changed and back.store.get(key) is not tstate.store.get(key)]
        new = [key for key in new if not same_under(back.pc, back.store.get(key), tstate.store.get(key))]
        if new:
            changed += new
            rollback(I, snap)
            for key in new:
                v0 = s.store[key]
                if v0.op == "ite":
                    return case_split(I, s, atoms(v0)[0], body_fn, where, depth)
            continue
        ex, back = thread(I, tmpl, changed, ex, back, body_fn)
        # loop-invariant conditions: unswitch
        mine = frozenset([k] + [sl.ph for sl in slots])
        cand = []
        # iteration-local atoms never mention only outer symbols, unless invariant
        for a in atoms_of([back.pc] + [x.pc for x in ex.values() if x is not None]):
            if not (a.fv & mine) and not decided(s.pc, a):
                cand.append(a)
        if not cand:
            for key in changed:
                nv = back.store.get(key)
                if nv is not None:
                    for a in atoms(restrict(back.pc, nv)):
                        if not (a.fv & mine) and not decided(s.pc, a):
                            cand.append(a)
        if cand:
            rollback(I, snap)
            return case_split(I, s, cand[0], body_fn, where, depth)
        # classify
        again = False
        updates = {}
        for key in changed:
            nv = restrict(back.pc, back.store[key])
            if not compare(tmpl[key], nv, (key, ()), updates):
                # shape changed: use an opaque symbol for the whole value
                if ("phi", (key, ())) in ind:
                    raise Stop("loop variable shape")
                ind[("phi", (key, ()))] = 1
                again = True
        if again:
            rollback(I, snap)
            continue
        for kk, (v0, isb) in list(peel.items()):
            u = updates.get(kk)
            if u is None or not same_under(back.pc, u, I.gslice(v0, add(k, ONE), sub(sub(blen(v0), k), ONE), isb)):
                del peel[kk]
                notpeel.add(kk)
                again = True
        if again:
            rollback(I, snap)
            continue
        for sl in slots:
            u = updates.get(sl.key)
            if u is None:
                raise Stop("loop variable lost")
            if len(sl.ph.args) > 1 and isinstance(sl.ph.args[1], T) and any(blen(y) is not sl.ph.args[1] for y in leaves(u) if y is not BOT):
                varlen.add(sl.key)
                again = True
                continue
            if u is sl.ph or (u.op == "ite" and sl.v0.op == "b" and u is bvar(mk("bt", sl.ph))):
                inv.add(sl.key)
                again = True
            elif sl.kind == "int":
                d = sub(u, sl.ph) if u.op != "ite" else None
                if d is not None and d.op == "n":
                    ind[sl.key] = d.args[0]
                    again = True
                elif u.op == "ite" and sl.key not in refuted:
                    ds = {x.args[0] for x in (sub(l, sl.ph) for l in leaves(u) if l is not BOT and l.op != "b")
                          if x.op == "n" and x.args[0]}
                    if len(ds) == 1:
                        ind[sl.key] = ds.pop()
                        hyps.add(sl.key)
                        again = True
        if again:
            rollback(I, snap)
            continue
        # trip count
        lens, last = bounds(I, back.pc, k, facts, s.pc, mine - {k})
        for nn in lens:
            # a bound below zero ends the loop at once, like a bound of zero
            c = I.simp(s.pc, le(ZERO, nn))
            cand = [a for a in atoms(c) if not decided(s.pc, a)]
            if cand:
                rollback(I, snap)
                return case_split(I, s, cand[0], body_fn, where, depth)
        if lens and facts is TRUE:
            # now known inside the body
            fs = TRUE
            for nn in lens:
                if max_const(nn) is not None and max_const(nn) <= (1 << 32):
                    fs = and_(fs, le(k, nn if last is None else nn))
            if fs is not TRUE:
                facts = fs
                rollback(I, snap)
                continue
        bad = []
        care = and_(back.pc, facts, s.pc, *[lt(k, n) for n in lens])
        for kk in hyps:
            v0 = s.store[kk[0]]
            old, new = at_path(tmpl[kk[0]], kk[1]), updates.get(kk)
            if old is None or new is None or not same_under(care, new, add(old, num(ind[kk]))):
                bad.append(kk)
        if bad:
            for kk in bad:
                del ind[kk]
                hyps.discard(kk)
                refuted.add(kk)
            rollback(I, snap)
            facts = TRUE
            continue
        return finish(I, s, k, lens, last, slots, updates, changed, tmpl, ex, back, where, ind, facts)
    raise Stop("loop template did not stabilise")


def at_path(v, path):
    for q in path:
        if v.op in AGG and isinstance(q, int):
            v = v.args[AGG[v.op] + q]
        elif v.op == "mapm" and isinstance(q, int):
            v = v.args[q]
        elif v.op == "iter" and q == "pos":
            v = v.args[1]
        elif v.op == "hst" and q == "h":
            v = v.args[-1]
        else:
            return None
    return v


def shaped(t, x):
    if t.op in AGG:
        o = AGG[t.op]
        return x.op == t.op and len(x.args) == len(t.args) and x.args[:o] == t.args[:o] and \
            all(shaped(p, l) for p, q in zip(t.args[o:], x.args[o:]) for l in leaves(q) if l is not BOT)
    if t.op == "mapm":
        return x.op == "mapm" and x.args[2] == t.args[2]
    return True


def thread(I, tmpl, changed, ex, back, body_fn):
    """A loop variable whose new value changes shape (the `None` that ends the
    loop) is run on to the exit it leads to."""
    for key in changed:
        nv = restrict(back.pc, back.store[key])
        if nv.op != "ite" or tmpl[key].op not in ("adt",):
            continue
        same = cond_of(nv, lambda x: shaped(tmpl[key], x))
        if same is TRUE or same is FALSE:
            continue
        rest = and_(back.pc, not_(same))
        if rest is FALSE:
            continue
        snap = snapshot(I)
        exo, backo = body_fn(State(rest, {q: restrict(rest, v) if v.op == "ite" else v
                                          for q, v in back.store.items()}))
        if backo is not None and backo.pc is not FALSE:
            rollback(I, snap)
            continue
        ex = dict(ex)
        for l, x in exo.items():
            if x is not None and x.pc is not FALSE:
                y = ex.get(l)
                ex[l] = x if y is None or y.pc is FALSE else merge([y, x])
        back = State(and_(back.pc, same), dict(back.store))
    return ex, back


def same_under(pc, a, b):
    if a is None or b is None:
        return a is b
    return ite(pc, a, DEAD) is ite(pc, b, DEAD)


def decided(pc, a):
    return cof_deep(pc, a, 0) is FALSE or cof_deep(pc, a, 1) is FALSE


def atoms_of(vs):
    r = []
    for v in vs:
        for a in atoms(v):
            if a not in r:
                r.append(a)
    return r


def compare(t, n, kk, updates):
    """Decompose the new value along the template; False if shapes differ."""
    key, path = kk
    if t.op == "ph":
        updates[kk] = n
        return True
    if t is n:
        collect_same(t, kk, updates)
        return True
    if t.op == "ite" and t.args[0].op == "bt" and t.args[0].args[0].op == "ph":
        updates[kk] = n
        return True
    if n.op == "ite":
        # conditional update of a structured value
        ls = [x for x in leaves(n) if x is not BOT]
        if t.op in (*AGG, "hst", "iter") and all(
            x.op == t.op and len(x.args) == len(t.args) for x in ls
        ):
            o = dict(AGG, hst=len(t.args) - 1, iter=1)[t.op]
            if not all(x.args[:o] == t.args[:o] for x in ls):
                return False
            for i in range(o, len(t.args)):
                sub_n = ap(lambda x: x.args[i], n)
                name = {"hst": "h", "iter": "pos"}.get(t.op, i - o)
                if not compare(t.args[i], sub_n, (key, path + (name,)), updates):
                    return False
            return True
        updates[kk] = n
        return t.op in ("n", "lin")
    if t.op in AGG:
        o = AGG[t.op]
        if n.op != t.op or len(n.args) != len(t.args) or n.args[:o] != t.args[:o]:
            return False
        return all(
            compare(t.args[i], n.args[i], (key, path + (i - o,)), updates) for i in range(o, len(t.args))
        )
    if t.op == "mapm":
        if n.op != "mapm" or n.args[2] != t.args[2]:
            return False
        return all(compare(t.args[i], n.args[i], (key, path + (i,)), updates) for i in (0, 1))
    if t.op == "iter":
        if n.op != "iter" or n.args[0] is not t.args[0]:
            return False
        return compare(t.args[1], n.args[1], (key, path + ("pos",)), updates)
    if t.op == "hst":
        if n.op != "hst" or n.args[:-1] != t.args[:-1]:
            return False
        return compare(t.args[-1], n.args[-1], (key, path + ("h",)), updates)
    # induction variables that were instantiated, invariants
    updates[kk] = n
    return True


def collect_same(t, kk, updates):
    key, path = kk
    if t.op in AGG:
        o = AGG[t.op]
        for i in range(o, len(t.args)):
            compare(t.args[i], t.args[i], (key, path + (i - o,)), updates)
    elif t.op == "mapm":
        for i in (0, 1):
            compare(t.args[i], t.args[i], (key, path + (i,)), updates)
    elif t.op == "iter":
        compare(t.args[1], t.args[1], (key, path + ("pos",)), updates)
    elif t.op == "hst":
        compare(t.args[-1], t.args[-1], (key, path + ("h",)), updates)


def bounds(I, pc, k, facts, pc0, phs):
    """Iteration continues only while k < n for the returned n (last: the body
    prefix still runs for k == last)."""
    lens = []
    last = None
    for a, v in forced(pc):
        if k not in a.fv or decided(pc0, a):
            continue
        if facts is not TRUE and decided(facts, a):
            pass
        if a.op == "le0":
            l = a.args[0] if v else add(scale(-1, a.args[0]), ONE)
            c, d = tm._lin(l)
            co = d.get(k, 0)
            rest = tm._mklin(c, {x: y for x, y in d.items() if x is not k})
            if k in rest.fv or phs & rest.fv:
                continue  # moves with the state: no bound on the passes
            if co == 1:
                # k + rest <= 0  ==>  k < 1 - rest
                lens.append(sub(ONE, rest))
            elif co > 1 and rest.op == "n":
                lens.append(num((-rest.args[0]) // co + 1))
        elif a.op == "eq" and not v:
            c, d = tm._lin(a.args[0])
            co = d.get(k, 0)
            rest = tm._mklin(c, {x: y for x, y in d.items() if x is not k})
            if k in rest.fv or phs & rest.fv:
                continue
            if co in (1, -1):
                n = scale(-co, rest)
                if n.op == "n" and n.args[0] >= 0 or is_nat(n):
                    lens.append(n)
    return tm.canon_lens(lens), last


def closed(sl, upd, k, lens, allph, memo):
    """Value of an accumulator after the first min(lens) iterations."""
    others = frozenset(p for p in allph if p is not sl.ph)
    ph = sl.ph
    v0 = sl.v0
    if not (upd.fv & (others | {ph})):
        # overwritten in every iteration
        n = min_of(lens)
        lastv = subst(upd, {k: sub(n, ONE)})
        none = FALSE
        for l in lens:
            none = or_(none, le(l, ZERO))
        return ite(none, v0, lastv)
    if upd.fv & others:
        return None
    if upd.op == "ite" and v0.op == "b":
        # running disjunction / conjunction
        g1 = cof_deep(upd, mk("bt", ph), 1)
        g0 = cof_deep(upd, mk("bt", ph), 0)
        if not (g0.fv & {ph}) and not (g1.fv & {ph}):
            if g1 is TRUE:
                return or_(v0, any_(lens, lam(k, g0)))
            if g0 is FALSE:
                return and_(v0, not_(any_(lens, lam(k, not_(g1)))))
        return None
    if upd.op == "ite":
        return closed_ite(sl, upd, k, lens, allph)
    return closed_leaf(sl, upd, k, lens)


BYTES = ("bytes", "zeros", "cat", "sl", "H", "ser_e", "ser_s", "be", "rndb")


def closed_leaf(sl, upd, k, lens):
    ph, v0 = sl.ph, sl.v0
    if upd.op == "el":
        d = tm._el(upd)
        if d.get(ph) is SONE:
            rest = {e: p for e, p in d.items() if e is not ph}
            g = tm._mkel(rest)
            if ph not in g.fv:
                return e_add(v0, sum_e(lens, lam(k, g)))
        return None
    if upd.op == "poly":
        d = tm._poly(upd)
        m = ((ph, 1),)
        if d.get(m) == 1:
            rest = {x: c for x, c in d.items() if x != m}
            g = tm._mkpoly(rest)
            if ph not in g.fv:
                return s_add(v0, sum_s(lens, lam(k, g)))
        return None
    if upd.op == "cat" and upd.args[0] is ph:
        g = cat(*upd.args[1:])
        if ph not in g.fv:
            return cat(v0, cat_map(lens, lam(k, g)))
        return None
    if upd.op == "push" and upd.args[0] is ph:
        g = upd.args[1]
        if ph not in g.fv:
            new = mk("seq", st(lens, lam(k, g)))
            return seq_cat(v0, new)
        return None
    if upd.op == "upd" and upd.args[0] is ph and v0.op in BYTES:
        # one element per iteration, at consecutive places
        off, x = sub(upd.args[1], k), byte(upd.args[2])
        if x.op == "sl" and not ({ph, k} & (off.fv | x.args[0].fv)) and ph not in x.fv:
            src = sub(x.args[1], k)
            n = st_len(st(lens, lam(k, ZERO)))
            if k not in src.fv:
                return ap(lambda n: splice(v0, off, n, slice_(x.args[0], src, n)), n)
        return None
    if upd.op == "upd" and upd.args[0] is ph and upd.args[1] is k and ph not in upd.args[2].fv:
        # every element replaced
        if lens and all(l is blen(v0) for l in lens):
            return mk("seq", st(lens, lam(k, upd.args[2])))
        return None
    if upd.op in ("lin",):
        # integer sum of non-constant steps
        return None
    return None


def closed_ite(sl, upd, k, lens, allph):
    """Conditional accumulation: the condition must not involve the accumulator."""
    ph = sl.ph
    for a in atoms(upd):
        if ph in a.fv:
            return None
    ls = leaves(upd)
    # group sums with conditional terms
    diffs = {}
    for l in ls:
        if l is BOT:
            continue
        d = tm._el(l)
        if d.get(ph) is SONE:
            g = tm._mkel({e: p for e, p in d.items() if e is not ph})
            if ph in g.fv:
                return None
            diffs[l] = g
        else:
            return None
    body = ap(lambda l: diffs[l], upd)
    return e_add(sl.v0, sum_e(lens, lam(k, body)))


def seq_cat(a, b):
    if a.op == "seq" and const_len(a.args[0]) == 0:
        return b
    if a.op == "arr" and not a.args:
        return b
    return mk("seqcat", a, b)


def finish(I, s, k, lens, last, slots, updates, changed, tmpl, ex, back, where, ind, facts):
    allph = frozenset(sl.ph for sl in slots)
    for sl in slots:
        I.phs[sl.ph] = (sl.v0, updates.get(sl.key))
    # conditions of the exits
    nat = {}
    normal, early = [], []
    dlits = []
    D = TRUE
    for n in lens:
        D = and_(D, lt(k, n))
    for l, x in ex.items():
        if x is None or x.pc is FALSE:
            continue
        # part of the exit reached with the bounds violated / satisfied
        pn = and_(x.pc, not_(D)) if lens else FALSE
        pe = and_(x.pc, D) if lens else x.pc
        if pn is not FALSE:
            normal.append((l, x, pn))
        if pe is not FALSE:
            early.append((l, x, pe))
    cont = and_(back.pc, D) if lens else back.pc

    def closed_map(ls):
        m = {}
        memo = {}
        pend = []
        for sl in slots:
            u = updates[sl.key]
            c = closed(sl, u, k, ls, allph, memo)
            if c is None:
                pend.append(sl)
            else:
                m[sl.ph] = c
        if pend:
            # opaque fold over all remaining accumulators together
            step = tup_(*[updates[sl.key] for sl in slots])
            body = step
            names = []
            for i, sl in enumerate(slots):
                body = subst_ph(body, sl.ph, i)
            f = lam(k, body)
            init = [sl.v0 for sl in slots]
            I.loops.append(("fold", len(pend), where))
            for sl in pend:
                i = slots.index(sl)
                m[sl.ph] = mk("fold", i, min_of(ls), f, *init)
        return m

    res = {}
    X = FALSE
    inside = and_(D, facts)
    for l, x, pe in early:
        X = or_(X, pe)
    if X is not FALSE:
        X = restrict(and_(inside, s.pc), X)
        if X is BOT:
            X = FALSE
    dep = X.fv & allph if X is not FALSE else frozenset()
    if dep:
        # early exit depends on an accumulator
        return opaque_loop(I, s, k, lens, slots, updates, changed, tmpl, ex, back, where)
    if not lens and not early:
        # diverges unless it panics
        I.loops.append(("endless", None, where))
        return {}
    # strip facts that always hold for executed iterations
    late = False
    if lens and X is not FALSE:
        xa = set(atoms(X))
        for l, x, pn in normal:
            if xa & set(atoms(pn)) or any(
                v.op == "ite" and xa & set(atoms(restrict(pn, v))) for v in x.store.values()
            ):
                late = True
    if late:
        # the body's exit tests run once more at the bound: count that iteration
        inside1 = and_(s.pc, *[le(k, n) for n in lens])
        early = [(l, x, and_(x.pc, X)) for l, x in ex.items() if x is not None and x.pc is not FALSE]
        early = [e for e in early if e[2] is not FALSE]
        normal = [(l, x, and_(pn, not_(X))) for l, x, pn in normal]
        body_lens, lens1 = lens, [add(n, ONE) for n in lens]
        inside = inside1
    else:
        lens1 = lens
    cl = closed_map(lens) if lens else {}

    def make_state(x, pcc, sm, extra):
        st_ = {}
        for key, v in x.store.items():
            st_[key] = subst(v, sm) if (v.fv & (allph | {k})) else v
        return State(and_(s.pc, extra, subst(pcc, sm) if pcc.fv & (allph | {k}) else pcc), st_)

    anyX = any_(lens1, hoisted_lam(k, X)) if X is not FALSE else FALSE
    # normal exits
    if lens:
        N = min_of(lens)
        sm = {k: N}
        sm.update(cl)
        for l, x, pn in normal:
            # bounds violated at k == N
            pcx = pn
            pcx = drop_bounds(pcx, lens, k)
            st_ = make_state(x, pcx, sm, not_(anyX))
            if st_.pc is not FALSE:
                res.setdefault(l, []).append(st_)
    if X is not FALSE:
        K = first_k(lens1, hoisted_lam(k, X))
        m = {k: K}
        if slots:
            m.update(closed_map([K]))
        for l, x, pe in early:
            # on this exit X holds at K by definition of K
            care = and_(inside, s.pc)
            pe = restrict(and_(care, X), pe)
            x = State(x.pc, {key: restrict(and_(care, pe), v) if v.op == "ite" else v
                             for key, v in x.store.items()})
            st_ = make_state(x, pe, m, anyX)
            if st_.pc is not FALSE:
                res.setdefault(l, []).append(st_)
    I.loops.append(("summarised", lens, where) if lens else ("sampling" if redrawn(X, k) else "unbounded", X, where))
    out = {}
    for l, xs in res.items():
        mm = merge(xs)
        if mm is not None:
            out[l] = mm
    return out


def redrawn(X, k):
    """Does the exit condition test a value drawn anew in iteration k?"""
    return any(k in d.fv for a in atoms(X) for d in tm.subterms(a, lambda y: y.op.startswith("rnd")))


def tup_(*xs):
    return ap(lambda *l: mk("tup", *l), *xs)


def subst_ph(body, ph, i):
    return subst(body, {ph: mk("acc", i)})


def hoisted_lam(k, body):
    return lam(k, body)


def drop_bounds(pc, lens, k):
    """At the natural exit k == min(lens): decides every bound literal of k
    (k < m there exactly when some length is below m)."""
    def below(m):
        r = FALSE
        for n in lens:
            r = or_(r, lt(n, m))
        return r

    for a in atoms(pc):
        if k not in a.fv or a.op not in ("le0", "eq"):
            continue
        t, e = cof_deep(pc, a, 1), cof_deep(pc, a, 0)
        c, d = tm._lin(a.args[0])
        co = d.get(k, 0)
        rest = tm._mklin(c, {x: y for x, y in d.items() if x is not k})
        m = None
        if co in (1, -1) and k not in rest.fv:
            if a.op == "le0":
                m = sub(ONE, rest) if co == 1 else rest
                v = below(m) if co == 1 else not_(below(m))
            elif len(lens) > 1 and scale(-co, rest) in lens:
                m = scale(-co, rest)
                v = not_(below(m))
        if m is None:
            pc = or_(t, e)
        else:
            pc = or_(and_(v, t), and_(not_(v), e))
    return pc


def drop_true_bounds(pc, lens, k):
    for n in lens:
        c = lt(k, n)
        if c.op == "ite":
            a = c.args[0]
            val = 1 if c.args[1] is TRUE else 0
            pc = cof_deep(pc, a, val) if cof_deep(pc, a, 1 - val) is FALSE else pc
    return pc


def opaque_loop(I, s, k, lens, slots, updates, changed, tmpl, ex, back, where):
    I.unk.append(("loop whose exit depends on an accumulator", where))
    # sources the body draws from: a generator, or an opaque reader the caller supplies
    srcs = {sl.ph for sl in slots if all(x.op in ("nextrng", "after") for x in leaves(updates[sl.key]) if x is not BOT)}
    isdraw = lambda y: y.op.startswith("rnd") or y.op == "app"
    held = {sl.ph for sl in slots if sl.ph not in srcs and all(
        x is not BOT and tm.subterms(x, lambda y: isdraw(y) and y.fv & srcs) for x in leaves(updates[sl.key]))}
    drawn = any(a.fv & held or any(d.fv & srcs for d in tm.subterms(a, isdraw))
                for x in ex.values() if x is not None for a in atoms(x.pc))
    I.loops.append(("summarised", lens, where) if lens else ("sampling" if drawn else "unbounded", None, where))
    body = tup_(*[updates[sl.key] for sl in slots]) if slots else mk("tup")
    conds = []
    labels = [l for l in ex if ex[l] is not None]
    pieces = [ap(lambda x: x, body)]
    f = body
    for i, sl in enumerate(slots):
        f = subst_ph(f, sl.ph, i)
    cs = []
    for l in labels:
        c = ex[l].pc
        for i, sl in enumerate(slots):
            c = subst(c, {sl.ph: mk("acc", i)})
        cs.append(lam(k, c))
    L = lam(k, f)
    init = [sl.v0 for sl in slots]
    idn = mk("loopid", L, tuple(cs), min_of(lens) if lens else mk("inf"), *init)
    res = {}
    rest = TRUE
    for j, l in enumerate(labels):
        c = rest if j == len(labels) - 1 else and_(rest, bvar(mk("cond", "exit", j, idn)))
        rest = and_(rest, not_(c))
        sm = {k: mk("lk", idn)}
        for i, sl in enumerate(slots):
            sm[sl.ph] = mk("lv", i, idn) if sl.v0.op != "b" else mk("lv", i, idn)
        x = ex[l]
        st_ = {key: subst(v, sm) for key, v in x.store.items()}
        res[l] = State(and_(s.pc, c), st_)
    return res
