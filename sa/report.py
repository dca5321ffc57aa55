"""Obligations and violations of one check."""


class Rep:
    def __init__(self, prop, config):
        self.prop, self.config = prop, config
        self.obligations = 0
        self.discharged = 0
        self.kinds = {}
        self.samples = []
        self.functions = set()
        self.viol = []      # (key, construct, where, detail)
        self.notes = []
        self.data = None    # for checks across configurations

    def fn(self, name):
        self.functions.add(name)

    def ob(self, kind, construct, bad, where=None):
        """One obligation about a construct; `bad` is None or says what is wrong."""
        self.obligations += 1
        k = self.kinds.setdefault(kind, [0, 0])
        k[0] += 1
        if bad is None:
            self.discharged += 1
            k[1] += 1
            if len(self.samples) < 400 and k[0] <= 4:
                self.samples.append("%s: %s" % (kind, construct))
            return True
        self.viol.append(("%s | %s" % (construct, kind), construct, where or "", bad))
        return False

    def floor(self, kind, n):
        """Fail closed: at least n obligations of this kind must have been found."""
        got = self.kinds.get(kind, [0, 0])[0]
        if got < n:
            self.viol.append(("anchor | " + kind, "anchors of '%s'" % kind, "",
                              "only %d constructs found where at least %d are known to exist: the rule no longer sees the code" % (got, n)))

    def dump(self):
        return {"config": self.config, "obligations": self.obligations, "discharged": self.discharged,
                "kinds": self.kinds, "samples": self.samples, "functions": sorted(self.functions),
                "viol": self.viol, "notes": self.notes, "data": self.data}
