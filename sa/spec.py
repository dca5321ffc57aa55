"""What RFC 9497 and the documented contract of this library prescribe, as value
graphs.  Nothing here is derived from /repo: only the field numbers of its
structures (by role) come from the dump."""
from interp import OPT, RES, adt, some, NONE, ok as r_ok, err as r_err, UNIT
from terms import *

OPRF, VOPRF, POPRF = 0, 1, 2
HASH = "Hash"
ELEM = mk("cst", "ElemLen")
SCAL = mk("cst", "ScalarLen")
HLEN = mk("cst", "HashLen")
MAX16 = num(65535)
ERROR = "voprf::error::Error"


def B(s):
    return mk("bytes", s if isinstance(s, bytes) else s.encode())


def context(mode):
    return cat(B(b"OPRFV1-" + bytes([mode]) + b"-"), mk("id"))


def fr_e(e):
    """Element, framed by its two-byte length."""
    return cat(be(2, ELEM), mk("ser_e", e))


def fr_b(b):
    return cat(be(2, blen(b)), b)


def H(*parts):
    return ap(lambda x: mk("H", x, HASH), cat(*parts))


def H2S(msg, dst):
    return ap(lambda m: mk("H2S", m, dst, HASH), msg)


def H2G(x, mode):
    return ap(lambda m: mk("H2G", m, cat(B("HashToGroup-"), context(mode)), HASH), x)


def h2s(msg, mode):
    return H2S(msg, cat(B("HashToScalar-"), context(mode)))


def too_long(b):
    return not_(le(blen(b), MAX16))


def weights(pk, mode, cs, ds):
    """d_i of ComputeComposites."""
    dst = cat(B("Seed-"), context(mode))
    seed = H(fr_e(pk), be(2, blen(dst)), dst)

    def d(i):
        return h2s(cat(be(2, HLEN), seed, be(2, i), fr_e(cs(i)), fr_e(ds(i)), B("Composite")), mode)

    return d


def sum_over(n, f):
    k = fresh("nat")
    return sum_e(n if isinstance(n, list) else [n], lam(k, f(k)))


def challenge(pk, m, z, t2, t3, mode):
    return h2s(cat(fr_e(pk), fr_e(m), fr_e(z), fr_e(t2), fr_e(t3), B("Challenge")), mode)


def composites(pk, mode, n, cs, ds):
    w = weights(pk, mode, cs, ds)
    return (sum_over(n, lambda i: e_mul(cs(i), w(i))), sum_over(n, lambda i: e_mul(ds(i), w(i))))


def prove(k, pk, mode, n, cs, ds, r):
    """GenerateProof with nonce r: (c, s)."""
    w = weights(pk, mode, cs, ds)
    m = sum_over(n, lambda i: e_mul(cs(i), w(i)))
    z = e_mul(m, k)
    c = challenge(pk, m, z, e_mul(GEN, r), e_mul(m, r), mode)
    return c, s_sub(r, s_mul(c, k))


def verifies(pk, mode, n, cs, ds, c, s):
    """VerifyProof's acceptance condition."""
    m, z = composites(pk, mode, n, cs, ds)
    t2 = e_add(e_mul(GEN, s), e_mul(pk, c))
    t3 = e_add(e_mul(m, s), e_mul(z, c))
    return eq_term(c, challenge(pk, m, z, t2, t3, mode))


def framed_info(info):
    return cat(B("Info"), fr_b(info))


def tweak(info):
    return h2s(framed_info(info), POPRF)


def output(x, n, info=None):
    parts = [fr_b(x)]
    if info is not None:
        parts.append(fr_b(info))
    return H(*parts, fr_e(n), B("Finalize"))


# ---------------------------------------------------------------- descriptions
class Exp:
    """A Result: refused exactly when one of `errs` holds, with an error of a
    kind whose condition holds."""

    def __init__(self, errs, ok):
        self.errs, self.ok = errs, ok


class Adt:
    def __init__(self, path, **f):
        self.path, self.f = path, f


class Iter:
    def __init__(self, lens, at):
        self.lens, self.at = lens, at


class Fn:
    """Expectation for one function: parameter names (by position), result by
    case (condition on the arguments, description), and generator draws."""

    def __init__(self, params, cases, draws=None):
        self.params, self.cases, self.draws = params, cases, draws


class Spec:
    def __init__(self, cfg):
        self.cfg = cfg
        self.fns = {}
        self.build()

    # -- roles
    def ix(self, path, role):
        return self.cfg.role(path, role)

    def f(self, x, path, role):
        i = self.ix(path, role)
        return ap(lambda y: fld(y, 0, i), x)

    def mkadt(self, path, **roles):
        n = self.cfg.nfields(path)
        fs = [None] * n
        for r, v in roles.items():
            fs[self.ix(path, r)] = v
        return adt(path, 0, *fs)

    def add(self, key, params, res, draws=None):
        if key in self.fns and self.fns[key].cases[0][0] is not TRUE:
            self.fns[key].cases.append((self.case, res))
        elif "info" in params and self.case is not TRUE and key[1] != "new_from_seed":
            self.fns[key] = Fn(params, [(self.case, res)], draws)
        else:
            self.fns[key] = Fn(params, [(TRUE, res)], draws)

    def build(self):
        mods = {OPRF: "voprf::oprf::Oprf", VOPRF: "voprf::voprf::Voprf", POPRF: "voprf::poprf::Poprf"}
        for mode, pre in mods.items():
            if mode != POPRF:
                self.case = TRUE
                self.build_mode(mode, pre, None)
                continue
            infov = mk("var", "info")
            present = bvar(mk("isvar", infov, 1))
            for self.case, info in ((present, mk("fld", infov, 1, 0)), (not_(present), EMPTY)):
                # absent info means empty info
                self.build_mode(mode, pre, info)

    def build_mode(self, mode, pre, info):
        f = self.f
        V = lambda n: mk("var", n)
        C = "voprf::common::"
        BE, EE, PE, PR = C + "BlindedElement", C + "EvaluationElement", C + "PreparedEvaluationElement", C + "Proof"
        rng = V("rng")
        el = lambda x, p: f(x, p, "elem")

        def mkel(p, e):
            return self.mkadt(p, elem=e)

        if True:
            CL, SV = pre + "Client", pre + "Server"
            sk = f(V("self"), SV, "scalar")
            x = V("input")
            P = H2G(x, mode)
            input_bad = or_(too_long(x), is_ident(P))

            # ---- blinding
            def blind_result(r, mode=mode, CL=CL, pre=pre, P=P):
                m = e_mul(P, r)
                st_ = {"scalar": r}
                if mode != OPRF:
                    st_["elem"] = mkel(BE, m) if self.cfg.holds(CL, BE) else m
                return Adt(pre + "ClientBlindResult", state=self.mkadt(CL, **st_), message=mkel(BE, m))

            r = mk("rnd", rng)
            self.add((CL, "blind"), ["input", "rng"], Exp([("Input", input_bad)], blind_result(r)), [("rnd", rng)])
            for n in ("deterministic_blind_unchecked", "deterministic_blind_unchecked_inner"):
                self.add((CL, n), ["input", "blind"], Exp([("Input", input_bad)], blind_result(V("blind"))), [])

            # ---- keys
            def keypair(k, SV=SV, mode=mode):
                st_ = {"scalar": k}
                if mode != OPRF:
                    st_["elem"] = e_mul(GEN, k)
                return self.mkadt(SV, **st_)

            derived = lambda s, i: self.derived(s, i, mode)
            seed = mk("rndb", SCAL, rng)
            good, k = derived(seed, EMPTY)
            self.add((SV, "new"), ["rng"], Exp([("Protocol", not_(good))], keypair(k)), [("rndb", rng)])
            good, k = derived(V("seed"), V("info"))
            dk = [("DeriveKeyPair", too_long(V("info"))), ("Protocol", not_(good))]
            self.add((SV, "new_from_seed"), ["seed", "info"], Exp(dk, keypair(k)), [])
            key = V("key")
            bad = not_(and_(ieq(blen(key), SCAL), bvar(mk("ok", "s", key))))
            self.add((SV, "new_with_key"), ["key"], Exp([("Deserialization", bad)], keypair(mk("dec_s", key))), [])
            if mode != OPRF:
                self.add((SV, "get_public_key"), ["self"], f(V("self"), SV, "elem"), [])

            # ---- batches
            msgs, ins, cls = V("messages"), V("inputs"), V("clients")
            blm, prep = V("blinded_elements"), V("prepared")
            n = mk("len", msgs)
            item = lambda a, i: mk("sel", a, i)
            cl_b = lambda c, CL=CL: f(c, CL, "scalar")

            def cl_e(c, CL=CL):
                e = f(c, CL, "elem")
                return el(e, BE) if self.cfg.holds(CL, BE) else e

            proof = V("proof")
            pc_, ps = f(proof, PR, "c"), f(proof, PR, "s")
            asref = lambda a: a
            differ = lambda *ls: or_(*[not_(ieq(ls[0], l)) for l in ls[1:]])

            if mode == OPRF:
                e = el(V("evaluation_element"), EE)
                N = e_mul(e, s_inv(f(V("self"), CL, "scalar")))
                self.add((CL, "finalize"), ["self", "input", "evaluation_element"],
                         Exp([("Input", too_long(x))], output(x, N)), [])
                self.add((SV, "blind_evaluate"), ["self", "blinded_element"],
                         mkel(EE, e_mul(el(V("blinded_element"), BE), sk)), [])
                self.add((SV, "evaluate"), ["self", "input"],
                         Exp([("Input", input_bad)], output(x, e_mul(P, sk))), [])
                return

            if mode == VOPRF:
                k, pk, cpk = sk, f(V("self"), SV, "elem"), V("pk")
                inv_errs, cli_errs, pinf, ev = [], [], None, k
                srole = lambda b, e: (b, e)
            else:
                k = s_add(sk, tweak(info))
                pk = e_mul(GEN, k)
                cpk = e_add(e_mul(GEN, tweak(info)), V("pk"))
                inv_errs = [("Info", too_long(info)), ("Protocol", is_zero(k))]
                cli_errs = [("Info", too_long(info)), ("Protocol", is_ident(cpk))]
                pinf, ev = info, s_inv(k)
                srole = lambda b, e: (e, b)

            # ---- client: single
            me = el(V("evaluation_element"), EE)
            b1 = cl_e(V("self"))
            cs, ds = srole(lambda i: b1, lambda i: me)
            good = verifies(cpk, mode, num(1), cs, ds, pc_, ps)
            N = e_mul(me, s_inv(cl_b(V("self"))))
            self.add((CL, "finalize"),
                     ["self", "input", "evaluation_element", "proof", "pk"] + (["info"] if pinf is not None else []),
                     Exp(cli_errs + [("ProofVerification", not_(good)), ("Input", too_long(x))], output(x, N, pinf)), [])

            # ---- client: batch
            bi = lambda i: cl_e(item(cls, i))
            ei = lambda i: el(item(msgs, i), EE)
            cs, ds = srole(bi, ei)
            good = verifies(cpk, mode, n, cs, ds, pc_, ps)
            batch_bad = or_(differ(n, mk("len", ins), mk("len", cls)), not_(le(n, MAX16)))

            def out_i(i):
                xi = asref(item(ins, i))
                N = e_mul(ei(i), s_inv(cl_b(item(cls, i))))
                return Exp([("Input", too_long(xi))], output(xi, N, pinf))

            self.add((CL, "batch_finalize"),
                     ["inputs", "clients", "messages", "proof", "pk"] + (["info"] if pinf is not None else []),
                     Exp(cli_errs + [("Batch", batch_bad), ("ProofVerification", not_(good))], Iter([n], out_i)), [])

            # ---- server: single
            r = mk("rnd", rng)

            def mkproof(k, pk, n, cs, ds, r=r, mode=mode):
                c, s = prove(k, pk, mode, n, cs, ds, r)
                return Adt(PR, **{self.cfg.rname(PR, "c"): c, self.cfg.rname(PR, "s"): s})

            be1 = el(V("blinded_element"), BE)
            e1 = e_mul(be1, ev)
            cs, ds = srole(lambda i: be1, lambda i: e1)
            res = Adt(pre + "ServerEvaluateResult", message=mkel(EE, e1), proof=mkproof(k, pk, num(1), cs, ds))
            self.add((SV, "blind_evaluate"),
                     ["self", "rng", "blinded_element"] + (["info"] if pinf is not None else []),
                     Exp(inv_errs, res) if inv_errs else res, [("rnd", rng)])

            # ---- server: batch
            nb = mk("len", blm)
            bj = lambda i: el(item(blm, i), BE)
            ej = lambda i, ev=ev: e_mul(bj(i), ev)
            cs, ds = srole(bj, ej)
            res = Adt(pre + "ServerBatchEvaluateResult", messages=Iter([nb], lambda i, ej=ej: mkel(EE, ej(i))),
                      proof=mkproof(k, pk, nb, cs, ds))
            self.add((SV, "batch_blind_evaluate"),
                     ["self", "rng", "blinded_elements"] + (["info"] if pinf is not None else []),
                     Exp(inv_errs + [("Batch", not_(le(nb, MAX16)))], res), [("rnd", rng)])

            # ---- server: two steps
            prepd = Iter([nb], lambda i, ej=ej: mkel(PE, mkel(EE, ej(i))))
            np_ = mk("len", prep)
            pj = lambda i: el(el(item(prep, i), PE), EE)
            fin_bad = or_(differ(nb, np_), not_(le(np_, MAX16)))
            if mode == VOPRF:
                self.add((SV, "batch_blind_evaluate_prepare"), ["self", "blinded_elements"], prepd, [])
                fk, fpk = k, pk
                fp = ["self", "rng", "blinded_elements", "prepared"]
            else:
                PT = "voprf::poprf::PoprfPreparedTweak"
                self.add((SV, "batch_blind_evaluate_prepare"), ["self", "blinded_elements", "info"],
                         Exp(inv_errs, Adt(pre + "ServerBatchEvaluatePrepareResult",
                                           prepared_evaluation_elements=prepd,
                                           prepared_tweak=self.mkadt(PT, scalar=k))), [])
                fk = f(V("prepared_tweak"), PT, "scalar")
                fpk = e_mul(GEN, fk)
                fp = ["rng", "blinded_elements", "prepared", "prepared_tweak"]
            cs, ds = srole(bj, pj)
            self.add((SV, "batch_blind_evaluate_finish"), fp,
                     Exp([("Batch", fin_bad)],
                         Adt(pre + "ServerBatchEvaluateFinishResult",
                             messages=Iter([np_], lambda i: mkel(EE, pj(i))),
                             proof=mkproof(fk, fpk, np_, cs, ds))), [("rnd", rng)])

            # ---- server: direct
            if mode == VOPRF:
                self.add((SV, "evaluate"), ["self", "input"], Exp([("Input", input_bad)], output(x, e_mul(P, sk))), [])
            else:
                self.add((SV, "evaluate"), ["self", "input", "info"],
                         Exp(inv_errs + [("Input", input_bad)], output(x, e_mul(P, ev), info)), [])

    def derived(self, seed, inf, mode):
        """DeriveKeyPair: (whether a counter works, the key)."""
        dst = cat(B("DeriveKeyPair"), context(mode))

        def cand(i):
            return H2S(cat(seed, fr_b(inf), be(1, i)), dst)

        k1, k2 = fresh("nat"), fresh("nat")
        n = num(256)
        some_ok = any_([n], lam(k1, not_(is_zero(cand(k1)))))
        first = first_k([n], lam(k2, not_(is_zero(cand(k2)))))
        return some_ok, cand(first)

    def derive_key(self):
        """derive_key(seed, info, mode), by mode."""
        modev = mk("var", "mode")
        res = None
        V = lambda n: mk("var", n)
        outs = []
        for m in (0, 1, 2):
            good, k = self.derived(V("seed"), V("info"), m)
            outs.append((good, k))
        isv = lambda i: bvar(mk("isvar", modev, i))
        good = ite(isv(0), outs[0][0], ite(isv(1), outs[1][0], outs[2][0]))
        k = ite(isv(0), outs[0][1], ite(isv(1), outs[1][1], outs[2][1]))
        return Exp([("DeriveKeyPair", too_long(V("info"))), ("Protocol", not_(good))], k)

WIRE = ["voprf::oprf::OprfClient", "voprf::voprf::VoprfClient", "voprf::poprf::PoprfClient",
        "voprf::oprf::OprfServer", "voprf::voprf::VoprfServer", "voprf::poprf::PoprfServer",
        "voprf::common::Proof", "voprf::common::BlindedElement", "voprf::common::EvaluationElement"]


def layout(v):
    """[(kind, value)] of a concatenation of fixed-length encodings, or None."""
    out = []
    for x in (v.args if v.op == "cat" else (v,)):
        if x.op not in ("ser_s", "ser_e"):
            return None
        out.append((x.op[-1], x.args[0]))
    return out


def decoder(cfg, path, lay):
    """The decoder that belongs to a layout of `self`."""
    V = mk("var", "input")
    off, good, m = ZERO, TRUE, {}
    for kind, val in lay:
        n = ELEM if kind == "e" else SCAL
        part = slice_(V, off, n)
        good = and_(good, bvar(mk("ok", kind, part)))
        m[val] = mk("dec_" + kind, part)
        off = add(off, n)
    good = and_(le(off, blen(V)), good)
    return good, m


def rebuild_fields(cfg, path, base, m):
    """The structure whose fields are given, by access path, in m."""
    fs = []
    for i in range(cfg.nfields(path)):
        x = fld(base, 0, i)
        if x in m:
            fs.append(m[x])
        else:
            k = cfg.fkind(path, i)
            if k in cfg.adts:
                fs.append(rebuild_fields(cfg, k, x, m))
            else:
                fs.append(mk("missing", x))
    return adt(path, 0, *fs)
