"""Analysed roots of one crate configuration."""
import time

import engine as eng
import lexphase
import models
from engine import Engine, Program, Abort
from terms import *
from terms import mk

FROMSTR = "std::str::FromStr"
DISPLAY = "std::fmt::Display"


class Missing(Exception):
    """An anchor the rules need is gone."""


class Run:
    """The result of analysing one root."""

    def __init__(self, an, fn, E, rets, wall):
        self.an, self.fn, self.E, self.rets, self.wall = an, fn, E, rets, wall
        self.events = E.events

    def of(self, kind):
        return [e for e in self.events if e.kind == kind]


class An:
    def __init__(self, prog, config):
        self.p = prog
        self.config = config
        self.runs = {}
        self.stats = {}

    # ---- finding anchors
    def fns(self, name=None, pred=None):
        r = []
        for f in self.p.fns.values():
            if not f["local"]:
                continue
            if name is not None and f["name"] != name:
                continue
            if pred is not None and not pred(f):
                continue
            r.append(f)
        return r

    def fn(self, name):
        r = self.fns(name)
        if not r:
            raise Missing("function %s" % name)
        return r[0]

    def trait_impls(self, trait, m, local_pub=True):
        """adt -> function for `trait::m` of public local types."""
        r = {}
        for f in self.p.fns.values():
            if f["local"] and f.get("impl_trait") == trait and f["name"].endswith("::" + m) and not f.get("closure"):
                ad = self.selfadt(f)
                if ad and (not local_pub or ad in self.p.pubadts):
                    r[ad] = f
        return r

    def selfadt(self, f):
        i = f.get("impl_self")
        if isinstance(i, int):
            t = self.p.types[self.p.strip(i)]
            if t["k"] == "adt":
                return t["adt"]
        return None

    def adt(self, name):
        if name not in self.p.adts:
            raise Missing("type %s" % name)
        return self.p.adts[name]

    # ---- running
    def opaque_std(self, desc, fn):
        tr = fn.get("impl_trait")
        if tr in (FROMSTR, DISPLAY):
            return self.selfadt(fn) in self.p.pubadts
        return False

    def opaque_fromstr(self, desc, fn):
        return fn.get("impl_trait") == FROMSTR and self.selfadt(fn) in self.p.pubadts

    def run(self, fn, mode="std", watch=None, args=None, tag="", setup=None):
        k = (fn["key"], mode, tag)
        r = self.runs.get(k)
        if r is not None:
            return r
        op = {"std": self.opaque_std, "fromstr": self.opaque_fromstr, "none": None}[mode]
        E = Engine(self.p, op, watch=watch)
        lexphase.tokens(E)
        if setup:
            setup(E)
        t = time.time()
        rets = E.run_root(fn["key"], E.args if args == "setup" else args)
        r = self.runs[k] = Run(self, fn, E, rets, time.time() - t)
        return r
