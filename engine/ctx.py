"""Obligations of one rule over one crate configuration."""
import re


def short(x, n=260):
    s = x if isinstance(x, str) else repr(x)
    s = re.sub(r"\(\(+None.*?\)\)+", "(..)", s)
    return s if len(s) <= n else s[:n] + "…"


class Ctx:
    def __init__(self, an, prop):
        self.an, self.prop = an, prop
        self.p = an.p
        self.n = 0
        self.discharged = 0
        self.viol = []
        self.counts = {}
        self.samples = []
        self.seen = set()
        self.notes = []
        self.how = {}

    def ob(self, rule, ok, where, what, how=None, key=None):
        """One proof obligation; `where` is file:line or a function name."""
        self.n += 1
        self.counts[rule] = self.counts.get(rule, 0) + 1
        if ok:
            self.discharged += 1
            if how:
                h = short(str(how), 60)
                self.how[h] = self.how.get(h, 0) + 1
            if len(self.samples) < 6 and not any(s["rule"] == rule for s in self.samples):
                self.samples.append({"rule": rule, "where": where, "obligation": short(what), "by": short(str(how or ""))})
            return True
        k = key or (rule, where, what[:120])
        if k not in self.seen:
            self.seen.add(k)
            self.viol.append({"rule": rule, "where": where, "what": short(what, 600), "config": self.an.config})
        return False

    def floor(self, rule, n, least, what):
        """The rule must have seen the constructs it decides about."""
        self.ob(rule + ":anchor", n >= least, "crate", "%s: found %d, at least %d expected" % (what, n, least), how="counted")

    def missing(self, what):
        self.ob("anchor", False, "crate", "cannot find " + what)
