"""Analysed configurations: one dump, its functions, and their value graphs."""
import dump as dumper
from interp import *
import terms
from compare import *

COMMON = "voprf::common::"


class Root:
    """One analysed function."""

    def __init__(self, cfg, r, names):
        self.cfg, self.r = cfg, r
        self.fail = None
        self.I = Interp(cfg.D, r)
        try:
            v = self.I.run_root(names)
            self.pc = self.I.final.pc if self.I.final else terms.FALSE
            self.v = restrict(self.pc, v) if self.I.final else terms.BOT
        except (Stop, RecursionError, KeyError, IndexError, TypeError, AttributeError, AssertionError, ValueError) as e:
            self.fail = "%s: %s" % (type(e).__name__, e)
            self.where = self.I.stack[-1] if self.I.stack else (r["p"], r["span"])
            self.v, self.pc = terms.BOT, terms.FALSE

    @property
    def name(self):
        return self.r["pretty"]

    def after(self, i):
        """Final value of the i-th argument, a mutable reference."""
        return self.I.final.store.get(("root", i))


class Cfg:
    def __init__(self, name, D=None):
        self.name = name
        self.D = D or dumper.dump(name)
        self.T = self.D["types"]
        self.adts = {a["p"]: a for a in self.D["adts"]}
        self.memo = {}
        self.inh, self.tr, self.free = {}, {}, {}
        for r in self.D["roots"]:
            if "::tests" in r["p"] or "::tests" in r.get("pretty", ""):
                continue
            s = r.get("implself")
            if "tr" in r:
                self.tr.setdefault((r["tr"], self.head(s), r["n"]), []).append(r)
            elif s is not None:
                self.inh.setdefault((self.head(s), r["n"]), []).append(r)
            else:
                self.free.setdefault(r["n"], []).append(r)

    def head(self, i):
        if i is None:
            return None
        t = self.T[i]
        if t["k"] == "adt":
            return t["p"]
        n = t.get("n", t["k"])
        return n if isinstance(n, str) else t["k"]

    # -- structures
    def nfields(self, path):
        return len(self.adts[path]["variants"][0]["f"])

    def ftype(self, path, i):
        return self.adts[path]["variants"][0]["f"][i]["t"]

    def fname(self, path, i):
        return self.adts[path]["variants"][0]["f"][i]["n"]

    def fkind(self, path, i):
        """'scalar', 'elem' or the structure's path."""
        t = self.T[self.ftype(path, i)]
        while t["k"] in ("ref",):
            t = self.T[t["e"]]
        if t["k"] == "proj":
            return {"Scalar": "scalar", "Elem": "elem"}.get(t["n"], t["n"])
        if t["k"] == "adt":
            return t["p"]
        return t["k"]

    def holds(self, path, other):
        return any(self.fkind(path, i) == other for i in range(self.nfields(path)))

    def role(self, path, role):
        n = self.nfields(path)
        names = [self.fname(path, i) for i in range(n)]
        if path == COMMON + "Proof" and role in ("c", "s"):
            order = self.proof_order()
            return order[0 if role == "c" else 1]
        for i in range(n):
            k = self.fkind(path, i)
            if k == role or (role == "elem" and k.startswith("voprf::common::") and k.endswith("Element")):
                return i
        if role in names:
            return names.index(role)
        raise Stop("no field of role %s in %s" % (role, path))

    def rname(self, path, role):
        return self.fname(path, self.role(path, role))

    def proof_order(self):
        """Fields of Proof in the order in which they are serialized."""
        if not hasattr(self, "_po"):
            r = self.run_inh(COMMON + "Proof", "serialize", ["self"])
            idx = []
            for x in terms.subterms(r.v, lambda y: y.op == "ser_s"):
                pass
            v = r.v
            parts = v.args if v.op == "cat" else ()
            for x in parts:
                if x.op == "ser_s" and x.args[0].op == "fld":
                    idx.append(x.args[0].args[2])
            self._po = idx if sorted(idx) == [0, 1] else [0, 1]
        return self._po

    # -- functions
    def run(self, r, names=None):
        k = (r["p"], tuple(names or ()))
        if k not in self.memo:
            self.memo[k] = Root(self, r, names)
        return self.memo[k]

    def run_inh(self, path, fn, names):
        rs = self.inh.get((path, fn), [])
        return self.run(rs[0], names) if rs else None
