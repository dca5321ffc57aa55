"""Relations between the library's own functions, by composing their value
graphs (substitution), with no reference to RFC 9497."""
from compare import *
from core import *
from facets import as_stream, is_err, is_ok, kind_of, short, short_when
import terms
from terms import *
from interp import some, NONE

PRE = {"oprf": "voprf::oprf::Oprf", "voprf": "voprf::voprf::Voprf", "poprf": "voprf::poprf::Poprf"}
C = "voprf::common::"


def V(n):
    return mk("var", n)


class Missing(Exception):
    pass


class Rel:
    """Composition of functions of one configuration."""

    def __init__(self, cfg, spec, info=None):
        self.cfg, self.spec = cfg, spec
        self.infov = info

    def call(self, path, fn, names, /, **args):
        r = self.cfg.run_inh(path, fn, names)
        if r is None:
            raise Missing("%s::%s" % (path, fn))
        if r.fail:
            raise Stop("%s: %s" % (r.name, r.fail))
        m = {V(n): a for n, a in args.items()}
        v, pc = r.v, r.pc
        if self.infov is not None and "info" in names:
            v, pc = with_info(v, self.infov), with_info(pc, self.infov)
        # parameters not given stay symbolic
        return subst(v, m), subst(pc, m)

    def okv(self, v):
        return cond_of(v, is_ok), ap(lambda x: x.args[2] if is_ok(x) else BOT, v)

    def get(self, x, path, name):
        i = [f["n"] for f in self.cfg.adts[path]["variants"][0]["f"]].index(name)

        def g(y):
            if y is BOT:
                return BOT
            return y.args[2 + i] if y.op == "adt" else fld(y, 0, i)

        return ap(g, x)

    # -- pieces of an honest run; each returns (condition, value)
    def blind(self, m, x, rng):
        v, pc = self.call(PRE[m] + "Client", "blind", ["input", "rng"], input=x, rng=rng)
        c, r = self.okv(v)
        return and_(pc, c), restrict(and_(pc, c), r)

    def server(self, m, how):
        S = PRE[m] + "Server"
        if how == "new":
            v, pc = self.call(S, "new", ["krng"])
        elif how == "new_from_seed":
            v, pc = self.call(S, "new_from_seed", ["seed", "kinfo"])
        else:
            v, pc = self.call(S, "new_with_key", ["key"])
        c, r = self.okv(v)
        return and_(pc, c), restrict(and_(pc, c), r)

    def pk(self, m, sv):
        v, pc = self.call(PRE[m] + "Server", "get_public_key", ["self"], self=sv)
        return v

    def info(self, m):
        return ["info"] if m == "poprf" else []

    def maybe(self, m, v):
        """Result in the partially oblivious mode, plain otherwise."""
        if any(is_ok(x) or is_err(x) for x in leaves(v)):
            return self.okv(v)
        return TRUE, v

    def ev1(self, m, sv, be):
        S = PRE[m] + "Server"
        if m == "oprf":
            v, pc = self.call(S, "blind_evaluate", ["self", "be"], self=sv, be=be)
            return pc, v, None
        v, pc = self.call(S, "blind_evaluate", ["self", "rng2", "be"] + self.info(m), self=sv, be=be)
        c, r = self.maybe(m, v)
        r = restrict(and_(pc, c), r)
        R = PRE[m] + "ServerEvaluateResult"
        return and_(pc, c), self.get(r, R, "message"), self.get(r, R, "proof")

    def seq(self, v):
        return ap(lambda y: y if y is BOT else mk("seq", as_stream(y)), v)

    def evn(self, m, sv, bes, how):
        S = PRE[m] + "Server"
        if how == "batch":
            v, pc = self.call(S, "batch_blind_evaluate", ["self", "rng2", "bes"] + self.info(m), self=sv, bes=bes)
            c, r = self.maybe(m, v)
            pc = and_(pc, c)
            r = restrict(pc, r)
            R = PRE[m] + "ServerBatchEvaluateResult"
            return pc, self.seq(self.get(r, R, "messages")), self.get(r, R, "proof")
        v, pc = self.call(S, "batch_blind_evaluate_prepare", ["self", "bes"] + self.info(m), self=sv, bes=bes)
        if m == "voprf":
            prep = self.seq(restrict(pc, v))
            v, pc2 = self.call(S, "batch_blind_evaluate_finish", ["self", "rng2", "bes", "prep"], self=sv, bes=bes, prep=prep)
        else:
            c, r = self.maybe(m, v)
            pc = and_(pc, c)
            r = restrict(pc, r)
            R = PRE[m] + "ServerBatchEvaluatePrepareResult"
            prep = self.seq(self.get(r, R, "prepared_evaluation_elements"))
            tw = self.get(r, R, "prepared_tweak")
            v, pc2 = self.call(S, "batch_blind_evaluate_finish", ["rng2", "bes", "prep", "tw"], bes=bes, prep=prep, tw=tw)
        c, r = self.maybe(m, v)
        pc = and_(pc, pc2, c)
        r = restrict(pc, r)
        R = PRE[m] + "ServerBatchEvaluateFinishResult"
        return pc, self.seq(self.get(r, R, "messages")), self.get(r, R, "proof")

    def fin1(self, m, state, x, e, proof, pk):
        names = ["self", "input", "ev"] + ([] if m == "oprf" else ["proof", "pk"]) + self.info(m)
        v, pc = self.call(PRE[m] + "Client", "finalize", names, self=state, input=x, ev=e,
                          **({} if m == "oprf" else {"proof": proof, "pk": pk}))
        return pc, v

    def finn(self, m, states, xs, es, proof, pk):
        v, pc = self.call(PRE[m] + "Client", "batch_finalize", ["inputs", "clients", "messages", "proof", "pk"] + self.info(m),
                          inputs=xs, clients=states, messages=es, proof=proof, pk=pk)
        return pc, v

    def direct(self, m, sv, x):
        v, pc = self.call(PRE[m] + "Server", "evaluate", ["self", "input"] + self.info(m), self=sv, input=x)
        return pc, v

    # -- honest runs: (condition, client's result, [server, ...])
    def single(self, m, how):
        k, sv = self.server(m, how)
        b, br = self.blind(m, V("input"), V("rng"))
        R = PRE[m] + "ClientBlindResult"
        e, msg, proof = self.ev1(m, sv, self.get(br, R, "message"))
        pk = None if m == "oprf" else self.pk(m, sv)
        fpc, v = self.fin1(m, self.get(br, R, "state"), V("input"), msg, proof, pk)
        return and_(k, b, e), fpc, v, sv

    def batch(self, m, how, api, n):
        k, sv = self.server(m, how)
        R = PRE[m] + "ClientBlindResult"

        def per(i, name):
            c, br = self.blind(m, select(V("inputs"), i), select(V("rngs"), i))
            return c, self.get(br, R, name)

        i = fresh("nat")
        good, msg = per(i, "message")
        _, state = per(i, "state")
        alln = not_(any_([n], lam(i, not_(good))))
        msgs = mk("seq", st([n], lam(i, msg)))
        states = mk("seq", st([n], lam(i, state)))
        inputs = mk("seq", st([n], lam(i, select(V("inputs"), i))))
        e, es, proof = self.evn(m, sv, msgs, api)
        fpc, v = self.finn(m, states, inputs, es, proof, self.pk(m, sv))
        return and_(k, alln, e), fpc, v, sv, good, i


HOWS = ("new", "new_from_seed", "new_with_key")


def with_info(t, inf):
    """t with the given Option for `info`."""
    t = subst(t, {mk("isvar", V("info"), 1): FALSE if inf is NONE else TRUE})
    return subst(t, {V("info"): inf})


def infos(m):
    """The two shapes of the public info argument."""
    if m != "poprf":
        return [("", None)]
    return [("/info", some(V("i"))), ("/no info", NONE)]


def honest(rel, need_proof=True):
    """Every combination of mode, key creation, info and server interface."""
    out = []
    for m, lab, inf in [(m, l, i) for m in PRE for l, i in infos(m)]:
        r = Rel(rel.cfg, rel.spec, inf)
        for how in HOWS:
            if m != "oprf" or not need_proof:
                out.append((m, how + lab, "single", lambda m=m, how=how, r=r: r.single(m, how), r))
            if m != "oprf":
                for api in ("batch", "prepare/finish"):
                    out.append((m, how + lab, api, lambda m=m, how=how, api=api, r=r: r.batch(m, how, api, V_n()), r))
    return out


def V_n():
    return mk("len", V("inputs"))


def proof_accepted(rel, only_alloc):
    """C03: on every honest run the client does not report a bad proof."""
    res = []
    for m, how, api, run, rel in honest(rel):
        try:
            t = run()
        except Missing as e:
            if "batch_" in str(e) and not only_alloc:
                continue
            res.append(("%s/%s/%s" % (m, how, api), "missing " + str(e)))
            continue
        c, fpc, v = t[0], t[1], t[2]
        lab = "%s/%s/%s" % (m, how, api)
        if feasible(c) is None:
            res.append((lab, "no honest run succeeds"))
            continue
        bad = cond_of(v, lambda x: is_err(x) and kind_of(rel.spec, x.args[2]) in (None, "ProofVerification"))
        x = diff(and_(c, fpc), bad, FALSE)
        res.append((lab, None if x is None else "the client rejects when " + short_when(x)))
    return res


def same_output(rel, only_alloc):
    """C06: finalizing an honest run gives the direct evaluation."""
    res = []
    for m, how, api, run, rel in honest(rel, False):
        lab = "%s/%s/%s" % (m, how, api)
        try:
            t = run()
        except Missing as e:
            if "batch_" in str(e) and not only_alloc:
                continue
            res.append((lab, "missing " + str(e)))
            continue
        c, fpc, v, sv = t[:4]
        if feasible(c) is None:
            res.append((lab, "no honest run succeeds"))
            continue
        if api == "single":
            dpc, d = rel.direct(m, sv, V("input"))
            x = diff(c, fpc, TRUE) or diff(c, dpc, TRUE) or diff(c, v, d)
            res.append((lab, None if x is None else "when %s: %s, direct evaluation gives %s" % (short_when(x), short(x.a), short(x.b))))
            continue
        good, i = t[4], t[5]
        n = V_n()
        okc, payload = rel.okv(v)
        x = diff(and_(c, fpc, le(n, num(65535))), okc, TRUE)
        # an error of the whole batch also occurs for each entry alone
        dpc, d = rel.direct(m, sv, select(V("inputs"), i))
        if x is not None:
            # errors shared with the direct evaluation (of any entry) are equal outcomes
            pc = and_(c, fpc, le(n, num(65535)), lt(i, n), good)
            x = diff(pc, ap(lambda y: y if is_err(y) else UNIT_, v), ap(lambda y: y if is_err(y) else UNIT_, d))
        if x is not None:
            res.append((lab, "batch and direct evaluation fail differently when %s" % short_when(x)))
            continue
        pc = and_(c, fpc, okc, lt(i, n), good)
        st_ = ap(lambda y: BOT if y is BOT else as_stream(y), restrict(okc, payload))
        x = diff(and_(c, fpc, okc), ap(lambda y: min_of(list(y.args[:-1])) if y.op == "st" else y, st_), n)
        if x is not None:
            res.append((lab, "a batch of n inputs gives %s outputs" % short(x.a)))
            continue
        item = ap(lambda y: st_at(y, i) if y.op == "st" else y, st_)
        x = diff(pc, item, d)
        res.append((lab, None if x is None else "output i, when %s: %s, direct evaluation gives %s" % (short_when(x), short(x.a), short(x.b))))
    return res


UNIT_ = mk("tup")


def absent_is_empty(rel):
    """C06: absent public info behaves exactly as empty info."""
    res = []
    for (path, fn), f in rel.spec.fns.items():
        if not path.startswith(PRE["poprf"]) or "info" not in f.params or fn == "new_from_seed":
            continue
        r = rel.cfg.run_inh(path, fn, f.params)
        if r is None:
            continue
        lab = path.split("::")[-1] + "::" + fn
        if r.fail:
            res.append((lab, r.fail))
            continue
        a = with_info(r.v, NONE)
        b = with_info(r.v, some(EMPTY))
        x = diff(TRUE, a, b)
        res.append((lab, None if x is None else "absent info gives %s, empty info %s" % (short(x.a), short(x.b))))
    return res


def same_elements(rel, only_alloc):
    """C07: single, batch and prepare/finish give the same evaluated elements."""
    res = []
    el = lambda x: x
    for m, ilab, inf in [(m, l, i) for m in ("voprf", "poprf") for l, i in infos(m)]:
        rel = Rel(rel.cfg, rel.spec, inf)
        sv = V("self")
        i = fresh("nat")
        bes = V("bes")
        e1, m1, _ = rel.ev1(m, sv, select(bes, i))
        for api in ("batch", "prepare/finish"):
            lab = "%s%s/%s" % (m, ilab, api)
            try:
                e, es, _ = rel.evn(m, sv, bes, api)
            except Missing as ex:
                if api == "batch" and not only_alloc:
                    continue
                res.append((lab, "missing " + str(ex)))
                continue
            n = mk("len", bes)
            pc = and_(e, e1, lt(i, n))
            x = diff(pc, select(restrict(e, es), i), m1)
            y = diff(e, ap(lambda z: blen(z), restrict(e, es)), n)
            z = diff(and_(le(n, num(65535)), lt(i, n)), e, e1)
            d = None
            if x is not None:
                d = "entry i: %s, alone: %s when %s" % (short(x.a), short(x.b), short_when(x))
            elif y is not None:
                d = "%s entries returned for n" % short(y.a)
            elif z is not None:
                d = "succeeds and fails differently when " + short_when(z)
            res.append((lab, d))
    return res


# -- C30: one operation, several interfaces
def outcome(v, f):
    """v with the payload of a success (or a plain value) mapped by f."""
    def g(x):
        if x is BOT or is_err(x):
            return x
        if is_ok(x):
            y = f(x.args[2])
            return BOT if y is BOT else mk("tup", y)
        return mk("tup", f(x))

    return ap(g, v)


def disagree(pc1, v1, pc2, v2):
    """How two outcomes differ, or None."""
    x = diff(TRUE, pc1, pc2)
    if x is not None:
        return "one returns and the other does not when " + short_when(x)
    x = diff(and_(pc1, pc2), v1, v2)
    return None if x is None else "%s and %s when %s" % (short(x.a), short(x.b), short_when(x))


def parts(rel, path, *names):
    """(field of path | first entry of it, ...) of a value."""
    def f(x):
        return mk("tup", *[g(rel.get(x, path, n)) for n, g in names])

    return f


def interfaces(rel0, only_alloc):
    """C30: (label, disagreement or None)."""
    res = []
    one = lambda x: mk("arr", x)
    first = lambda y: y if y is BOT else select(mk("seq", as_stream(y)), ZERO)
    same = lambda y: y

    def add_(lab, run):
        try:
            res.append((lab, run()))
        except Missing as e:
            if "batch_blind_evaluate" in str(e) and not only_alloc or "deterministic" in str(e):
                return
            res.append((lab, "missing " + str(e)))

    def stream(y):
        return ap(lambda z: z if z is BOT else as_stream(z), y)

    for m, ilab, inf in [(m, l, i) for m in ("voprf", "poprf") for l, i in infos(m)]:
        rel = Rel(rel0.cfg, rel0.spec, inf)
        S, K = PRE[m] + "Server", PRE[m] + "Client"

        def ev1(rel=rel, m=m, S=S):
            v, pc = rel.call(S, "blind_evaluate", ["self", "rng2", "be"] + rel.info(m))
            return pc, outcome(v, parts(rel, PRE[m] + "ServerEvaluateResult", ("message", same), ("proof", same)))

        def prep(bes, rel=rel, m=m, S=S):
            """The prepared elements and what the preparation's failure is."""
            v, pc = rel.call(S, "batch_blind_evaluate_prepare", ["self", "bes"] + rel.info(m), bes=bes)
            if m == "voprf":
                p = rel.seq(restrict(pc, v))
                w, pc2 = rel.call(S, "batch_blind_evaluate_finish", ["self", "rng2", "bes", "prep"], bes=bes, prep=p)
                return and_(pc, pc2), w
            R = PRE[m] + "ServerBatchEvaluatePrepareResult"
            c, r = rel.okv(v)
            r = restrict(and_(pc, c), r)
            p = rel.seq(rel.get(r, R, "prepared_evaluation_elements"))
            w, pc2 = rel.call(S, "batch_blind_evaluate_finish", ["rng2", "bes", "prep", "tw"], bes=bes, prep=p, tw=rel.get(r, R, "prepared_tweak"))
            return and_(pc, ite(c, pc2, TRUE)), ite(c, w, v)

        def batch(bes, rel=rel, m=m, S=S):
            return reversed(rel.call(S, "batch_blind_evaluate", ["self", "rng2", "bes"] + rel.info(m), bes=bes))

        def single_batch(run, res_, rel=rel, m=m, ev1=ev1):
            pc, v = run(one(V("be")))
            return disagree(*ev1(), pc, outcome(v, parts(rel, PRE[m] + res_, ("messages", first), ("proof", same))))

        def length(y):
            return y if y is BOT else min_of(list(y.args[:-1])) if y.op == "st" else y

        def batch_split(rel=rel, m=m, batch=batch, prep=prep):
            i = fresh("nat")
            p1, v1 = batch(V("bes"))
            p2, v2 = prep(V("bes"))
            n = mk("len", V("bes"))
            item = lambda y: ap(lambda z: z if z is BOT else st_at(z, i) if z.op == "st" else z, stream(y))
            sz = lambda y: ap(length, stream(y))
            a, b = "ServerBatchEvaluateResult", "ServerBatchEvaluateFinishResult"
            d = disagree(p1, outcome(v1, parts(rel, PRE[m] + a, ("messages", sz), ("proof", same))),
                         p2, outcome(v2, parts(rel, PRE[m] + b, ("messages", sz), ("proof", same))))
            if d:
                return d
            pc = lt(i, n)
            return disagree(and_(pc, p1), outcome(v1, parts(rel, PRE[m] + a, ("messages", item))),
                            and_(pc, p2), outcome(v2, parts(rel, PRE[m] + b, ("messages", item))))

        add_("%s%s: blind_evaluate and batch_blind_evaluate" % (m, ilab), lambda: single_batch(batch, "ServerBatchEvaluateResult"))
        add_("%s%s: blind_evaluate and prepare, finish" % (m, ilab), lambda: single_batch(prep, "ServerBatchEvaluateFinishResult"))
        add_("%s%s: batch_blind_evaluate and prepare, finish" % (m, ilab), batch_split)

        def final(rel=rel, m=m, K=K):
            v1, p1 = rel.call(K, "finalize", ["self", "input", "ev", "proof", "pk"] + rel.info(m))
            v2, p2 = rel.call(K, "batch_finalize", ["inputs", "clients", "messages", "proof", "pk"] + rel.info(m),
                              inputs=one(V("input")), clients=one(V("self")), messages=one(V("ev")))
            r = lambda x: x.args[2] if is_ok(x) else x
            return disagree(p1, v1, p2, ap(lambda x: first(r(x)) if is_ok(x) else x, v2))

        add_("%s%s: finalize and batch_finalize" % (m, ilab), final)

    for m in PRE:
        rel = Rel(rel0.cfg, rel0.spec, None)

        def blinds(rel=rel, m=m):
            v2, p2 = rel.call(PRE[m] + "Client", "deterministic_blind_unchecked", ["input", "blind"], blind=mk("rnd", V("rng")))
            v1, p1 = rel.call(PRE[m] + "Client", "blind", ["input", "rng"])
            return disagree(p1, v1, p2, v2)

        def seeds(rel=rel, m=m):
            v1, p1 = rel.call(PRE[m] + "Server", "new", ["rng"])
            v2, p2 = rel.call(PRE[m] + "Server", "new_from_seed", ["seed", "kinfo"], kinfo=EMPTY)
            ds = {x for x in terms.subterms(v1, lambda y: y.op == "rndb" and y.args[1] is V("rng"))}
            if len(ds) != 1:
                return "new does not draw one seed"
            d = ds.pop()
            v2, p2 = subst(v2, {V("seed"): d}), subst(p2, {V("seed"): d})
            return disagree(p1, v1, p2, v2)

        add_("%s: blind and deterministic_blind_unchecked" % m, blinds)
        add_("%s: new and new_from_seed" % m, seeds)

        def keys(rel=rel, m=m):
            cfg = rel.cfg
            r = cfg.run(cfg.free["derive_key"][0], ["seed", "kinfo", "mode"])
            if r.fail:
                raise Stop(r.fail)
            path = next(p for p, a in cfg.adts.items() if p.split("::")[-1] == "Mode")
            names = [v["n"] for v in cfg.adts[path]["variants"]]
            mode = {V("mode"): mk("adt", path, names.index(m.capitalize()))}
            v, pc = rel.call(PRE[m] + "Server", "new_from_seed", ["seed", "kinfo"])
            sk = cfg.role(PRE[m] + "Server", "scalar")
            return disagree(pc, outcome(v, lambda x: x.args[2 + sk]), subst(r.pc, mode), outcome(subst(r.v, mode), same))

        if rel0.cfg.free.get("derive_key"):
            add_("%s: derive_key and new_from_seed" % m, keys)
    return res
