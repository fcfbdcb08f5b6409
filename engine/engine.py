"""Partitioned abstract interpretation of the extracted MIR.

The interpreter is a forward dataflow analysis: values are interned terms,
states are joined at control-flow merges (trace partitioning by the variant
and boolean tags of the live locals) and loops are iterated to a fixpoint.
No path is enumerated through a loop and no solver is used.
"""
import heapq
import json
import sys

from cfg import Cfg
from terms import *
from terms import mk, T

sys.setrecursionlimit(20000)

TRANSPARENT = {
    "std::borrow::Cow", "std::boxed::Box", "std::mem::MaybeUninit",
    "std::mem::ManuallyDrop", "std::ptr::Unique", "std::ptr::NonNull",
    "core::mem::maybe_dangling::MaybeDangling", "std::mem::MaybeDangling",
}
PARTCAP = 40
DEBUG = False


def transparent(adt):
    return adt in TRANSPARENT or (adt or "").endswith("::MaybeDangling")


class Ev:
    __slots__ = ("kind", "fn", "span", "fid", "bb", "d", "facts", "iv", "must", "may", "st")

    def __init__(self, kind, fn, span, fid, bb, d, st):
        self.kind = kind
        self.fn = fn
        self.span = span
        self.fid = fid
        self.bb = bb
        self.d = d
        self.facts, self.iv = st.snap()
        self.must = st.must
        self.may = st.may

    def __repr__(self):
        return "<%s %s %s %s>" % (self.kind, self.fn, self.span, {k: v for k, v in self.d.items()})

    def state(self):
        s = State()
        s.facts, s.iv, s.must, s.may = self.facts, self.iv, self.must, self.may
        s.shared = True
        return s


class Frame:
    __slots__ = ("fn", "fid", "cfg", "key", "parent")

    def __init__(self, fn, fid, cfg, key, parent):
        self.fn, self.fid, self.cfg, self.key, self.parent = fn, fid, cfg, key, parent

    def stack(self):
        r = []
        f = self
        while f:
            r.append(f.fn["name"])
            f = f.parent
        return r[::-1]


CHARITS = ("chars", "bytes", "graphemes", "char_indices", "grapheme_indices")


def grows(t, acc):
    """Is the text the old one with something added?"""
    xs = t.a if t.op == "cat" else (t,)
    return xs[0] is acc and not any(y is acc or y.op == "sym" and isinstance(y.a[0], tuple) and y.a[0][0] == "acc" for x in xs[1:] for y in subterms(x))


def shift(st, d):
    """Move the iteration labels one loop level in or out."""
    def f(s):
        return frozenset(("iter", l[1], max(l[2] + d, 0)) if l[0] == "iter" else l for l in s)
    if any(l[0] == "iter" for l in st.may):
        st.must, st.may = f(st.must), f(st.may)


class Abort(Exception):
    pass


class Program:
    """The facts of one crate configuration."""

    def __init__(self, path):
        self.d = json.load(open(path))
        self.types = self.d["types"]
        self.adts = self.d["adts"]
        self.fns = self.d["fns"]
        self.consts = {c["name"]: c for c in self.d["consts"]}
        self.impls = self.d["impls"]
        self._cfg = {}
        self.byname = {}
        for k, f in self.fns.items():
            f["key"] = k
            self.byname.setdefault(f["name"], []).append(f)
        self.pubadts = {n for n, a in self.adts.items() if a["local"] and a["pub"]}

    def cfg(self, key):
        c = self._cfg.get(key)
        if c is None:
            c = self._cfg[key] = Cfg(self.fns[key])
        return c

    def ty(self, i):
        return self.types[i]

    def strip(self, i):
        t = self.types[i]
        while t["k"] in ("ref", "ptr") or (t["k"] == "adt" and t["adt"] in ("std::boxed::Box", "std::borrow::Cow") and t["args"]):
            i = t["t"] if t["k"] in ("ref", "ptr") else t["args"][0]
            t = self.types[i]
        return i

    def tname(self, i):
        return self.types[self.strip(i)]["s"]

    def isstr(self, i):
        return self.tname(i) in ("str", "std::string::String")

    def short(self, adt):
        return (adt or "").split("::")[-1]

    def field_names(self, adt, vi=0):
        return [f["name"] for f in self.adts[adt]["variants"][vi]["fields"]]

    def adt_by_short(self, s):
        r = [n for n, a in self.adts.items() if a["local"] and n.split("::")[-1] == s]
        return r[0] if len(r) == 1 else None

    def local_fns(self):
        return [f for f in self.fns.values() if f["local"] and not f.get("identity")]


class Engine:
    def __init__(self, prog, opaque=None, watch=None, keep_agg=True):
        import models
        self.p = prog
        self.models = models
        self.opaque = opaque or (lambda desc, fn: False)
        self.eval_hooks = {}
        self.set_hooks = ()
        self.events = []
        self.types = {}
        self.phisrc = {}
        self.nblocks = 0
        self.visited_fns = set()
        self.nstates = 0
        self.maxblocks = 4000000
        self.loops_run = 0
        self._memo = {}
        self.progconst = set()
        self._rel = {}
        self.externals = {}
        self.lost = []
        import lexrules
        self.tokadt = lexrules.token_adt(prog)
        self.watch = watch
        self.fidcfg = {}
        self.phi_hooks = ()
        self.share = None
        self.agg_hooks = ()
        self.paired = None
        self.elem_hooks = ()
        self.head_hooks = ()
        self.fact_hooks = ()
        self.deltas = {}
        self.indelta = False
        self.patterns = {}
        self.complete = {}
        # are lists of different lengths that an iterator yields kept apart?
        self.prefixes = False
        self.ret_hooks = ()
        self._inloop = {}

    # ------------------------------------------------------------ memory
    def nf(self, adt, vi):
        a = self.p.adts.get(adt)
        if not a or vi >= len(a["variants"]):
            return None
        return a["variants"][vi]["fields"]

    def getstep(self, st, v, step):
        while True:
            if v.op == "ref":
                v = self.read(st, v.a[0], v.a[1])
                continue
            break
        if step[0] == "e":
            return self.models.index_elem(self, st, v, step[1])
        if step[0] == "ss":
            return mk("subslice", v, *step[1:])
        adt, vi, i, name = step
        o = v.op
        if o == "agg":
            if v.a[1] == vi and 2 + i < len(v.a):
                return v.a[2 + i]
            if v.a[1] != vi:
                return mk("bot")
            return mk("undef")
        if o == "upd":
            if v.a[1] == step:
                return v.a[2]
            if v.a[1][0] != "e" and (v.a[1][0], v.a[1][1]) == (adt, vi):
                return self.getstep(st, v.a[0], step)
        if o in ("bot", "undef"):
            return v
        return mk("fld", v, vi, i, name, adt)

    def read(self, st, root, path):
        v = st.mem.get(root)
        if v is None:
            v = mk("undef")
        for s in path:
            v = self.getstep(st, v, s)
        return v

    def setpath(self, st, v, path, val):
        if not path:
            return val
        s = path[0]
        if v.op == "ref":
            # writing through a stored pointer
            self.write(st, v.a[0], v.a[1] + path, val)
            return v
        if s[0] in ("e", "ss"):
            if s[0] == "e" and v.op in ("agg", "seq") and s[1].op == "c":
                k = s[1].a[1]
                off = 2 if v.op == "agg" else 0
                its = list(v.a)
                if 0 <= k < len(its) - off and not any(x.op in ("star", "spread") for x in its[off:off + k + 1]):
                    its[off + k] = self.setpath(st, its[off + k], path[1:], val)
                    return mk(v.op, *its)
            old = self.getstep(st, v, s)
            return mk("setelem", v, s[1], self.setpath(st, old, path[1:], val))
        adt, vi, i, name = s
        if v.op == "agg" and v.a[1] == vi and 2 + i < len(v.a):
            l = list(v.a)
            l[2 + i] = self.setpath(st, l[2 + i], path[1:], val)
            return mk("agg", *l)
        fl = self.nf(adt, vi)
        if fl is not None:
            l = []
            for j, f in enumerate(fl):
                l.append(self.getstep(st, v, (adt, vi, j, f["name"])) if v.op != "agg" else mk("undef"))
            l[i] = self.setpath(st, l[i], path[1:], val)
            return agg(adt, vi, *l)
        old = self.getstep(st, v, s)
        return mk("upd", v, s, self.setpath(st, old, path[1:], val))

    def write(self, st, root, path, val):
        st.mem[root] = self.setpath(st, st.mem.get(root, mk("undef")), tuple(path), val)

    def resolve(self, st, fr, place):
        root = ("L", fr.fid, place[0])
        path = ()
        vi = 0
        for e in place[1]:
            k = e[0]
            if k == "*":
                v = self.read(st, root, path)
                if v.op == "ref":
                    root, path = v.a[0], v.a[1]
                vi = 0
            elif k == "v":
                vi = e[1]
            elif k == "f":
                adt = e[3] if len(e) > 3 else None
                if not transparent(adt):
                    path = path + ((adt, vi, e[1], e[2]),)
                vi = 0
            elif k == "i":
                path = path + (("e", self.read(st, ("L", fr.fid, e[1]), ())),)
            elif k == "ci":
                path = path + (("e", I(e[1]) if not e[2] else mk("fromend", I(e[1]))),)
            elif k == "ss":
                path = path + (("ss", e[1], e[2], e[3]),)
        return root, path

    def place(self, st, fr, place):
        root, path = self.resolve(st, fr, place)
        return self.read(st, root, path)

    def deref(self, st, v):
        n = 0
        while v.op == "ref" and n < 8:
            v = self.read(st, v.a[0], v.a[1])
            n += 1
        return v

    # ------------------------------------------------------------ constants
    def const(self, c, ty=None):
        k = c["k"]
        if k == "bool":
            return I(1 if c["v"] else 0)
        if k == "int":
            return I(int(c["v"]))
        if k == "str":
            r = S(c["v"])
            self.progconst.add(r)
            return r
        if k == "char":
            v = c["v"]
            return C("char", v if isinstance(v, str) else chr(v))
        if k == "ref":
            return self.const(c["v"])
        if k == "agg":
            n = c.get("adt")
            fs = [self.const(x) for x in c.get("fs", [])]
            if transparent(n):
                return fs[0] if fs else UNIT
            if n in ("array", "slice") or n is None and c.get("array"):
                return agg("array", 0, *fs)
            return agg(n or "tuple", c.get("vi", 0) or 0, *fs)
        if k == "bytes":
            return C("bytes", json.dumps(c["v"]))
        if k == "float":
            return C("float", str(c["v"]))
        if k == "zst":
            return UNIT
        return C("opaque", json.dumps(c, sort_keys=True))

    def operand(self, st, fr, o):
        if o[0] in ("cp", "mv"):
            v = self.place(st, fr, o[1])
            if v.op == "lexer" and o[0] == "mv" and not o[1][1]:
                st.mem.pop(("L", fr.fid, o[1][0]), None)
            return v
        if o[0] == "k":
            d = o[1]
            if "fn" in d:
                f = d["fn"]
                n = "ctor:%s" % f["ctor"] if f.get("ctor") else (f.get("key") or f.get("res") or f["decl"])
                self.models.FNITEMS[n] = f
                return mk("fn", n)
            if "c" in d:
                return self.const(d["c"], d["ty"])
            t = self.p.types[d["ty"]]
            if t["k"] == "def":
                return mk("fn", t["s"])
            return C("opaque", d.get("item") or t["s"])
        return mk("top")

    # ------------------------------------------------------------ facts
    def discr(self, v, adt=None):
        if v.op == "agg":
            a = self.p.adts.get(v.a[0])
            if a:
                return I(int(a["variants"][v.a[1]]["discr"]))
            return I(v.a[1])
        if adt is None and v in self.models.DISCR_OF:
            return self.models.DISCR_OF[v]
        return mk("discr", v, adt)

    def fact(self, st, t):
        """('in'|'not', set) or None."""
        if t.op == "c":
            return ("in", frozenset([t.a[1]]))
        f = st.facts.get(t)
        return f

    def known(self, st, t):
        """Concrete python value of a scalar term or None."""
        if t.op == "c":
            return t.a[1]
        f = st.facts.get(t)
        if f and f[0] == "in" and len(f[1]) == 1:
            return next(iter(f[1]))
        v = self.evalf(st, t)
        if v is not None:
            return v
        return None

    def evalf(self, st, t):
        """Evaluate a formula under the facts: 1/0 or None."""
        o = t.op
        if o == "c":
            return t.a[1]
        f = st.facts.get(t)
        if f and f[0] == "in" and len(f[1]) == 1:
            return next(iter(f[1]))
        if f and f[0] == "not" and len(f[1]) == 1 and o in BOOLOPS:
            return 1 - next(iter(f[1]))
        if o == "not":
            v = self.evalf(st, t.a[0])
            return None if v is None else 1 - v
        h = self.eval_hooks.get(o)
        if h:
            v = h(self, st, t)
            if v is not None:
                return v
        if o == "inset":
            x, vals = t.a
            fx = self.fact(st, x)
            if fx:
                if fx[0] == "in":
                    if fx[1] <= vals:
                        return 1
                    if not (fx[1] & vals):
                        return 0
                else:
                    if vals <= fx[1]:
                        return 0
            if all(isinstance(v, int) for v in vals):
                lo, hi = self.interval(st, x)
                if all(v < lo or v > hi for v in vals):
                    return 0
            return None
        if o == "and":
            v = [self.evalf(st, x) for x in t.a]
            if 0 in v:
                return 0
            if all(x == 1 for x in v):
                return 1
            return None
        if o == "or":
            v = [self.evalf(st, x) for x in t.a]
            if 1 in v:
                return 1
            if all(x == 0 for x in v):
                return 0
            return None
        if o == "lt":
            a, b = t.a
            if a is b:
                return 0
            la, ha = self.interval(st, a)
            lb, hb = self.interval(st, b)
            if ha < lb:
                return 1
            if la >= hb:
                return 0
            return None
        if o == "eq":
            a, b = t.a
            if a is b:
                return 1
            return None
        if o == "empty":
            e = self.models.emptiness(self, st, t.a[0])
            if e is not None:
                return e
            lo, hi = st.iv.get(mk("len", t.a[0]), (0, INF))
            if lo > 0:
                return 0
            return None
        if o == "starts":
            f = st.facts.get(t.a[0])
            if f and f[0] == "in" and t.a[1].op == "c" and all(isinstance(x, str) for x in f[1]):
                r = {x.startswith(t.a[1].a[1]) for x in f[1]}
                if len(r) == 1:
                    return int(r.pop())
            if t.a[1].op == "c" and t.a[0].op == "ci":
                pass
            return None
        return None

    def interval(self, st, t):
        if t.op == "c":
            v = t.a[1]
            return (v, v) if isinstance(v, int) else (-INF, INF)
        lo, hi = st.iv.get(t, (-INF, INF))
        f = st.facts.get(t)
        if f and f[0] == "in" and f[1] and all(isinstance(x, int) for x in f[1]):
            lo, hi = max(lo, min(f[1])), min(hi, max(f[1]))
        if t.op == "len":
            lo = max(lo, 0)
            e = st.facts.get(mk("empty", t.a[0]))
            if e == ("in", frozenset([0])):
                lo = max(lo, 1)
            if e == ("in", frozenset([1])):
                hi = 0
        ty = self.types.get(t)
        if ty is not None:
            s = self.p.types[ty]["s"]
            if s in INTR:
                l2, h2 = INTR[s]
                lo, hi = max(lo, l2), min(hi, h2)
        if f and f[0] == "not" and isinstance(lo, int):
            while lo in f[1]:
                lo += 1
            while isinstance(hi, int) and hi in f[1]:
                hi -= 1
        if t.op == "bin" and t.a[0] in ("Add", "Sub"):
            la, ha = self.interval(st, t.a[1])
            lb, hb = self.interval(st, t.a[2])
            if t.a[0] == "Add":
                lo, hi = max(lo, la + lb), min(hi, ha + hb)
            else:
                lo, hi = max(lo, la - hb), min(hi, ha - lb)
        return lo, hi

    def setfact(self, st, t, nf):
        """Conjoin a fact; False when contradictory."""
        st.own()
        if t.op == "c":
            ok_ = (t.a[1] in nf[1]) == (nf[0] == "in")
            return ok_
        old = st.facts.get(t)
        if old is None:
            r = nf
        elif old[0] == "in" and nf[0] == "in":
            r = ("in", old[1] & nf[1])
        elif old[0] == "in":
            r = ("in", old[1] - nf[1])
        elif nf[0] == "in":
            r = ("in", nf[1] - old[1])
        else:
            r = ("not", old[1] | nf[1])
        if r[0] == "in" and not r[1]:
            return False
        if r[0] == "not" and t.op == "discr" and t.a[1]:
            a = self.p.adts.get(t.a[1])
            if a and a["kind"] == "enum":
                allv = {int(v["discr"]) for v in a["variants"]}
                r2 = allv - r[1]
                if not r2:
                    return False
                r = ("in", frozenset(r2))
        if r[0] == "not" and t.op in BOOLOPS and len(r[1]) == 1:
            r = ("in", frozenset([1 - next(iter(r[1]))]))
        st.facts[t] = r
        if r[0] == "in" and len(r[1]) == 1:
            self.models.on_fact(self, st, t, next(iter(r[1])))
        if self.set_hooks and r[0] == "in" and t.op in ("ci", "discr"):
            for h in self.set_hooks:
                h(self, st, t, r[1])
        return True

    def narrow(self, st, t, lo, hi):
        if t.op == "c":
            return lo <= t.a[1] <= hi
        st.own()
        l, h = self.interval(st, t)
        l, h = max(l, lo), min(h, hi)
        if l > h:
            return False
        f = st.facts.get(t)
        if f and f[0] == "in" and all(isinstance(x, int) for x in f[1]):
            s = frozenset(x for x in f[1] if l <= x <= h)
            if not s:
                return False
            st.facts[t] = ("in", s)
        st.iv[t] = (l, h)
        return True

    def assume(self, st, t, val):
        """Assume boolean term t == val (0/1). False when contradictory."""
        o = t.op
        if o == "c":
            return t.a[1] == val
        v = self.evalf(st, t)
        if v is not None:
            return v == val
        if o == "not":
            return self.assume(st, t.a[0], 1 - val)
        if o == "inset":
            x, vals = t.a
            if not self.setfact(st, x, ("in" if val else "not", vals)):
                return False
            st.own()
            st.facts[t] = ("in", frozenset([val]))
            return True
        if o == "and":
            if val:
                return all(self.assume(st, x, 1) for x in t.a)
            un = [x for x in t.a if self.evalf(st, x) != 1]
            if len(un) == 1:
                return self.assume(st, un[0], 0)
        if o == "or":
            if not val:
                return all(self.assume(st, x, 0) for x in t.a)
            un = [x for x in t.a if self.evalf(st, x) != 0]
            if len(un) == 1:
                return self.assume(st, un[0], 1)
        if o == "lt":
            a, b = t.a
            if val:
                la, ha = self.interval(st, a)
                lb, hb = self.interval(st, b)
                if hb != INF and not self.narrow(st, a, -INF, hb - 1):
                    return False
                if la != -INF and not self.narrow(st, b, la + 1, INF):
                    return False
            else:
                la, ha = self.interval(st, a)
                lb, hb = self.interval(st, b)
                if lb != -INF and not self.narrow(st, a, lb, INF):
                    return False
                if ha != INF and not self.narrow(st, b, -INF, ha):
                    return False
        return self.setfact(st, t, ("in", frozenset([val])))

    # ------------------------------------------------------------ rvalues
    def eqterm(self, st, a, b):
        """Equality formula."""
        if a is b:
            return TRUE
        if a.op == "c" and b.op == "c":
            return I(1 if a.a == b.a else 0)
        if a.op == "c":
            a, b = b, a
        if b.op == "c":
            return self.models.eqconst(self, st, a, b)
        if b.n < a.n:
            a, b = b, a
        return mk("eq", a, b)

    def notf(self, t):
        if t.op == "c":
            return I(1 - t.a[1])
        if t.op == "not":
            return t.a[0]
        return mk("not", t)

    def binop(self, st, op, a, b):
        if op in ("Eq", "Ne"):
            r = self.eqterm(st, a, b)
            return r if op == "Eq" else self.notf(r)
        if op in ("Lt", "Le", "Gt", "Ge"):
            if op == "Gt":
                a, b, op = b, a, "Lt"
            elif op == "Ge":
                a, b, op = b, a, "Le"
            if a.op == "c" and b.op == "c":
                x, y = a.a[1], b.a[1]
                return I(int(x < y if op == "Lt" else x <= y))
            # canonical emptiness tests
            if op == "Lt" and a.op == "c" and a.a[1] == 0 and b.op == "len":
                return self.notf(mk("empty", b.a[0]))
            if op == "Le" and a.op == "c" and a.a[1] == 1 and b.op == "len":
                return self.notf(mk("empty", b.a[0]))
            if op == "Lt" and b.op == "c" and b.a[1] == 1 and a.op == "len":
                return mk("empty", a.a[0])
            if op == "Le" and b.op == "c" and b.a[1] == 0 and a.op == "len":
                return mk("empty", a.a[0])
            if op == "Lt":
                return mk("lt", a, b)
            return self.notf(mk("lt", b, a))
        w = op.endswith("WithOverflow")
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        r = None
        if a.op == "c" and b.op == "c" and isinstance(a.a[1], int) and isinstance(b.a[1], int):
            x, y = a.a[1], b.a[1]
            try:
                r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y,
                     "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                     "Shl": lambda: x << y, "Shr": lambda: x >> y,
                     "Div": lambda: x // y, "Rem": lambda: x % y}[base]()
                r = I(r)
            except Exception:
                r = None
        if r is None:
            if base == "BitAnd" and (a.op in BOOLOPS or b.op in BOOLOPS):
                r = mk("and", a, b)
            elif base == "BitOr" and (a.op in BOOLOPS or b.op in BOOLOPS):
                r = mk("or", a, b)
            else:
                r = self.models.arith(self, st, base, a, b)
        if w:
            o = FALSE if r.op == "c" and r.a[1] >= 0 else mk("ovf", base, a, b)
            return agg("tuple", 0, r, o)
        return r

    def rvalue(self, st, fr, bb, r, span, dty):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k in ("ref", "rawptr"):
            root, path = self.resolve(st, fr, r[1])
            if k == "rawptr" or r[2]:
                return mk("ref", root, path)
            v = self.read(st, root, path)
            if v.op == "ref":
                return mk("ref", root, path)
            return v
        if k == "copyderef":
            return self.place(st, fr, r[1])
        if k == "cast":
            v = self.operand(st, fr, r[2])
            return self.models.cast(self, st, r[1], v, r[3], r[4] if len(r) > 4 else None)
        if k == "bin":
            return self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]))
        if k == "un":
            v = self.operand(st, fr, r[2])
            if r[1] == "Not":
                t = self.p.types[dty]["s"] if dty is not None else "bool"
                if t == "bool":
                    return self.notf(v)
            if r[1] == "PtrMetadata":
                return self.models.length(self, st, v)
            if v.op == "c" and r[1] == "Neg":
                return I(-v.a[1])
            return mk("un", r[1], v)
        if k == "discr":
            v = self.place(st, fr, r[1])
            t = self.p.types[r[2]] if len(r) > 2 else {}
            adt = t.get("adt") if t.get("k") == "adt" else None
            if transparent(adt):
                return mk("discr", v, "Cow")
            return self.discr(self.deref(st, v), adt)
        if k == "agg":
            name, vi, ops = r[1], r[2], r[3]
            vals = [self.operand(st, fr, o) for o in ops]
            if transparent(name):
                return vals[0] if vals else UNIT
            v = agg(name, vi, *vals)
            a = self.p.adts.get(name)
            if a and a["local"]:
                self.ev("agg", fr, bb, span, st, adt=name, vi=vi, value=v)
            return v
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            return mk("repeat", v, str(r[2]))
        return mk("top")

    # ------------------------------------------------------------ events
    def ev(self, kind, fr, bb, span, st, **d):
        e = Ev(kind, fr.fn["name"], span, fr.fid, bb, d, st)
        self.events.append(e)
        return e

    # ------------------------------------------------------------ partition tags
    def tag(self, st, v, depth, ints=True):
        o = v.op
        if o == "c":
            if not ints and v.a[0] == "int" and v.a[1] not in (0, 1):
                return None
            if v.a[0] == "str" and v not in self.progconst:
                return None
            if v.a[0] in ("int", "str", "char"):
                return ("c", v.a[1])
            return None
        if o == "agg":
            if depth <= 0:
                return None
            a = self.p.adts.get(v.a[0])
            if a and a["kind"] == "enum":
                sub = tuple(self.tag(st, x, depth - 1, ints) for x in v.a[2:])
                return ("v", v.a[1], sub)
            if v.a[0] == "tuple" or (a and len(v.a) <= 6 and not v.a[0].startswith("std::ops::Range")):
                sub = tuple(self.tag(st, x, depth - (0 if v.a[0] == "tuple" else 1), ints) for x in v.a[2:])
                return ("s", sub) if any(x is not None for x in sub) else None
            return None
        if o == "ref":
            return None
        if o == "it":
            if self.models.it_const(v):
                return ("it", v.a[2])
            return ("its", v.a[0], v.a[2] == 0)
        if o == "cat":
            return ("cat", len(v.a) == 0)
        if o in BOOLOPS:
            k = self.evalf(st, v)
            return ("b", k) if k is not None else None
        f = st.facts.get(v)
        if f and f[0] == "in" and len(f[1]) == 1 and next(iter(f[1])) in (0, 1):
            return ("b", next(iter(f[1])))
        dt = self.models.DISCR_OF.get(v)
        if dt is not None:
            f = st.facts.get(dt)
            if f and f[0] == "in" and len(f[1]) == 1:
                return ("d", next(iter(f[1])))
        return None

    def live_roots(self, fr, bb):
        return fr.cfg.live[bb] | fr.cfg.addr

    def parts_of(self, st):
        return tuple(sorted(l for l in st.must if isinstance(l, tuple) and l[0] == "part"))

    def key(self, st, fr, bb, depth=2, ints=True):
        r = []
        live = fr.cfg.live[bb]
        for l in sorted(live | fr.cfg.addr):
            if l in fr.cfg.dropflags:
                continue
            v = st.mem.get(("L", fr.fid, l))
            if v is None:
                continue
            if v.op == "c" and v.a[0] == "str" and self.p.types[fr.fn["locals"][l][0]]["k"] == "adt":
                continue
            t = self.tag(st, v, 3 if l == 0 else depth, ints)
            if t is not None:
                r.append((l, t))
        g = self.parts_of(st)
        if self.watch and ints:
            g = g + (self.watch(self, st),)
        return tuple(r) + g

    # ------------------------------------------------------------ joins
    def trivial(self, t, f):
        """A fact that excludes nothing."""
        if f[0] == "in":
            if t.op in BOOLOPS:
                return len(f[1]) == 2
            if t.op == "discr" and t.a[1]:
                a = self.p.adts.get(t.a[1])
                return bool(a) and a["kind"] == "enum" and len(f[1]) == len(a["variants"])
        return False

    def note_phi(self, phi, a, b):
        s = self.phisrc.setdefault(phi, set())
        for x in (a, b):
            if x is not phi:
                if x.op == "phi" and x.a[0] == phi.a[0] and x in self.phisrc and False:
                    s |= self.phisrc[x]
                else:
                    s.add(x)

    def discr_set(self, st, v):
        if v.op == "agg":
            a = self.p.adts.get(v.a[0])
            if a and a["kind"] == "enum":
                return ("in", frozenset([int(a["variants"][v.a[1]]["discr"])])), v.a[0]
            return None, None
        dt = self.models.DISCR_OF.get(v)
        if dt is not None:
            f = st.facts.get(dt)
            if f:
                return f, dt.a[1]
            return None, dt.a[1]
        return None, None

    def joinval(self, sa, sb, a, b, node, root, path, out, loop):
        if a is b:
            return a
        if a.op == "undef" or b.op == "undef":
            return mk("undef")
        if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a) == len(b.a):
            l = [self.joinval(sa, sb, x, y, node, root, path + (i,), out, loop)
                 for i, (x, y) in enumerate(zip(a.a[2:], b.a[2:]))]
            r = agg(a.a[0], a.a[1], *l)
            for h in self.agg_hooks:
                h(self, sa, a, sb, b, r, out)
            return r
        if a.op == b.op and a.op in ("cat", "seq") or root[0] == "OUT":
            r = self.models.joinlist(a, b, root[0] == "OUT")
            if r is not None:
                ea = self.evalf(sa, mk("empty", a))
                if ea is not None and ea == self.evalf(sb, mk("empty", b)):
                    out.append(("f", mk("empty", r), ("in", frozenset([ea]))))
                return r
        if a.op == "it" and b.op == "it" and a.a[0] == b.a[0] and a.a[1] is b.a[1]:
            return mk("it", a.a[0], a.a[1], "*")
        if a.op == "lexer" and b.op == "lexer" and a.a[0] is b.a[0]:
            c = self.joinval(sa, sb, a.a[1], b.a[1], node, root, path + ("cur",), out, loop)
            return mk("lexer", a.a[0], c)
        if self.paired and a.op == b.op and a.op in self.paired:
            # the span of a token stays the span of one token
            return mk(a.op, self.joinval(sa, sb, a.a[0], b.a[0], node, root, path + ("tok",), out, loop))
        share = self.share and self.share(a) and self.share(b)
        if share:
            known = self._pairs.get((a, b))
            if known is not None:
                # equal in both states: still equal after the join
                return known
        phi = mk("phi", node, root, path)
        if share:
            self._pairs[(a, b)] = phi
        self.note_phi(phi, a, b)
        # unary facts survive on the phi
        if a is not phi or True:
            fa, ta = self.discr_set(sa, a)
            fb, tb = self.discr_set(sb, b)
            adt = ta or tb
            if adt:
                dphi = mk("discr", phi, adt)
                self.models.DISCR_OF[phi] = dphi
                if fa and fb:
                    j = fact_join(fa, fb)
                    if j:
                        out.append(("f", dphi, j))
            for h in self.phi_hooks:
                h(self, sa, a, sb, b, phi, out)
            fa, fb = self.fact(sa, a), self.fact(sb, b)
            if fa and fb:
                j = fact_join(fa, fb)
                if j and loop and j != fa and len(j[1]) > 6:
                    j = None
                if j and a is not phi and loop and j[0] == "in" and any(isinstance(x, str) and len(x) > 3 for x in j[1]) and len(j[1]) > 3:
                    j = None
                if j:
                    out.append(("f", phi, j))
            ia, ib = self.interval(sa, a), self.interval(sb, b)
            lo, hi = min(ia[0], ib[0]), max(ia[1], ib[1])
            if loop and a is phi and a not in sa.iv:
                pass
            elif not loop and (lo != -INF or hi != INF):
                out.append(("i", phi, (lo, hi)))
            elif loop and lo != -INF and ia[0] <= ib[0]:
                out.append(("i", phi, (ia[0], INF)))
            ea = self.evalf(sa, mk("empty", a))
            eb = self.evalf(sb, mk("empty", b))
            if ea is not None and ea == eb:
                out.append(("f", mk("empty", phi), ("in", frozenset([ea]))))
            if a in self.types:
                self.types.setdefault(phi, self.types[a])
        return phi

    def vacuous(self, st, t):
        """The term looks into a variant which the value does not have in this state."""
        if t.op != "discr" or t.a[0].op != "fld":
            return False
        x, vi, adt = t.a[0].a[0], t.a[0].a[1], t.a[0].a[4]
        d = self.models.DISCR_OF.get(x)
        f = st.facts.get(d) if d is not None else None
        if not f:
            return False
        if adt in (RESULT, OPTION):
            k = vi
        else:
            a = self.p.adts.get(adt)
            if not a or a["kind"] != "enum":
                return False
            k = int(a["variants"][vi]["discr"])
        return (k not in f[1]) if f[0] == "in" else k in f[1]

    def join(self, a, b, node, loop=False):
        """a is the accumulated state, b the incoming one."""
        r = State()
        out = []
        self._pairs = {}
        for root, va in a.mem.items():
            vb = b.mem.get(root)
            if vb is None:
                if root[0] == "GHOST":
                    vb = mk("nowhere")
                elif root[0] == "OUT":
                    vb = mk("cat")
                else:
                    continue
            r.mem[root] = va if va is vb else self.joinval(a, b, va, vb, node, root, (), out, loop)
        for root, vb in b.mem.items():
            if root[0] in ("OUT", "GHOST") and root not in a.mem:
                r.mem[root] = self.joinval(a, b, mk("cat") if root[0] == "OUT" else mk("nowhere"), vb, node, root, (), out, loop)
        fa, fb = a.facts, b.facts
        if fa is fb:
            r.facts = dict(fa)
        else:
            for t, x in fa.items():
                y = fb.get(t)
                if y is None:
                    v = self.evalf(b, t)
                    if v is not None:
                        y = ("in", frozenset([v]))
                    elif self.vacuous(b, t):
                        y = x
                    else:
                        continue
                if x == y:
                    r.facts[t] = x
                elif t.op == "discr" and self.vacuous(b, t):
                    r.facts[t] = x
                elif t.op == "discr" and self.vacuous(a, t):
                    r.facts[t] = y
                else:
                    j = fact_join(x, y)
                    if j and loop and j != x and t.op == "phi" and t.a[0] == node and len(j[1]) > 6:
                        j = None
                    if j and not (loop and j != x and len(j[1]) > 64):
                        r.facts[t] = j
            for t, y in fb.items():
                if t in fa:
                    continue
                if loop:
                    # finite, so that the head still becomes stable
                    if t.op == "discr" and self.vacuous(a, t):
                        r.facts[t] = y
                else:
                    v = self.evalf(a, t)
                    if v is not None:
                        x = ("in", frozenset([v]))
                        j = fact_join(x, y)
                        if j:
                            r.facts[t] = j
                    elif self.vacuous(a, t):
                        r.facts[t] = y
        for t, x in a.iv.items():
            y = b.iv.get(t)
            if y is None:
                continue
            if x == y:
                r.iv[t] = x
            else:
                lo, hi = min(x[0], y[0]), max(x[1], y[1])
                if loop:
                    lo = lo if lo == x[0] else -INF
                    hi = hi if hi == x[1] else INF
                if (lo, hi) != (-INF, INF):
                    r.iv[t] = (lo, hi)
        for kind, t, v in out:
            if kind == "f":
                r.facts[t] = v
            else:
                r.iv[t] = v
        for t in [t for t, f in r.facts.items() if self.trivial(t, f)]:
            del r.facts[t]
        r.must = a.must & b.must
        r.may = a.may | b.may
        return r

    # ------------------------------------------------------------ regions
    def prune(self, st, fr, bb):
        live = fr.cfg.live[bb]
        addr = fr.cfg.addr
        dead = [r for r in st.mem if r[0] == "L" and r[1] is fr.fid and r[2] not in live and r[2] not in addr]
        for r in dead:
            del st.mem[r]

    def add_pending(self, fr, pend, heap, bb, st, multi):
        self.prune(st, fr, bb)
        d = pend.get(bb)
        if d is None:
            d = pend[bb] = {}
            heapq.heappush(heap, (fr.cfg.rpo[bb], bb))
        if multi:
            k = self.key(st, fr, bb)
            if k not in d and len(d) >= PARTCAP:
                k = ("coarse",) + self.key(st, fr, bb, depth=1, ints=False)
                if k not in d and len(d) >= 2 * PARTCAP:
                    v0 = st.mem.get(("L", fr.fid, 0))
                    k = ("coarser", self.tag(st, v0, 2) if v0 is not None else None, self.parts_of(st))
        else:
            k = ("u", len(d))
        o = d.get(k)
        if o is None:
            d[k] = st
        else:
            d[k] = self.join(o, st, (fr.fid, bb, ()))

    def run_region(self, fr, blocks, entry, head):
        """Run a loop body (or a whole function when blocks is None)."""
        pend, heap = {}, []
        cfg = fr.cfg
        exits, backs, rets = [], [], []

        def goto(bb, st):
            if head is not None and bb == head:
                backs.append(st)
            elif blocks is not None and bb not in blocks:
                exits.append((bb, st))
            else:
                self.add_pending(fr, pend, heap, bb, st, len(cfg.pred[bb]) > 1)

        first = True
        for bb, sts in entry.items():
            pend[bb] = {("e", i): s for i, s in enumerate(sts)}
            heapq.heappush(heap, (cfg.rpo[bb], bb))
        while heap:
            _, bb = heapq.heappop(heap)
            sts = pend.pop(bb, None)
            if not sts:
                continue
            if bb in cfg.loops and bb != head:
                ex, rt = self.run_loop(fr, bb, list(sts.values()))
                rets.extend(rt)
                for b2, s2 in ex:
                    goto(b2, s2)
                continue
            for st in sts.values():
                for nb, ns in self.run_block(fr, bb, st):
                    if nb == "ret":
                        rets.append(ns)
                    else:
                        goto(nb, ns)
        return exits, backs, rets

    def run_loop(self, fr, head, states):
        body = fr.cfg.loops[head]
        self.loops_run += 1
        node = (fr.fid, head, ("H",))
        parts, order, res, cnt = {}, [], {}, {}

        def add(st, back):
            self.prune(st, fr, head)
            for h in self.head_hooks:
                h(self, st)
            k = self.key(st, fr, head, ints=False)
            if k not in parts and len(parts) >= PARTCAP:
                k = ("coarse", self.parts_of(st))
            o = parts.get(k)
            if o is None:
                parts[k] = st
                if k not in order:
                    order.append(k)
                return k
            j = self.join(o, st, node, loop=True)
            if cnt.get(k, 0) >= 4:
                self.widen_lists(j)
            if not j.same(o):
                cnt[k] = cnt.get(k, 0) + 1
                if cnt[k] > 36 and DEBUG:
                    self.dumpdiff(o, j)
                if cnt[k] > 40:
                    raise Abort("loop does not converge: %s bb%d" % (fr.fn["name"], head))
                parts[k] = j
                if k not in order:
                    order.append(k)
            return k

        for s in states:
            shift(s, 1)
            add(s, False)
        while order:
            k = order.pop(0)
            st = parts[k].copy()
            saved, self.events = self.events, []
            ex, bk, rt = self.run_region(fr, body, {head: [st]}, head)
            evs, self.events = self.events, saved
            res[k] = (ex, rt, evs, bk, [add(self.age(fr, head, body, b.copy(), node), True) for b in bk])
        scanned = None
        if not self.indelta:
            scanned = self.loop_deltas(fr, head, body, node, states, parts, [b for v in res.values() for b in v[3]])
        exits, rets = [], []
        for k, (ex, rt, evs, bk, to) in res.items():
            for s in [x[1] for x in ex] + rt:
                shift(s, -1)
            if scanned:
                for bb, s in ex:
                    for r, v in (scanned["terms"] or {}).items():
                        if r in s.mem:
                            s.mem[r] = v
                ex = [(bb, s) for bb, s in ex if bb not in scanned["facts"] or self.assume(s, *scanned["facts"][bb])]
            exits.extend(ex)
            rets.extend(rt)
            self.events.extend(evs)
            for b, t in zip(bk, to):
                self.ev("back", fr, head, fr.fn["blocks"][head].get("span", fr.fn["span"]), b, head=head, mem=dict(b.mem), key=k, to=t,
                        run=self.loops_run)
        return exits, rets

    def loop_deltas(self, fr, head, body, node, entry, parts, backs):
        """What one iteration of a loop over the characters of a text does, for any iteration: the integers that change and the
        texts that grow are symbols at its start. None if the loop is not of that kind."""
        start = {}
        for r, v in entry[0].mem.items():
            its = [x for x in subterms(v) if x.op == "it" and x.a[0] in CHARITS]
            if len(its) == 1 and its[0].a[2] == 0 and all(s.mem.get(r) is v for s in entry):
                start[r] = its[0]
        start = {r: x for r, x in start.items() if any(b.mem.get(r) is not entry[0].mem[r] for b in backs)}
        if len(start) != 1 or not backs:
            return None
        (root, it), = start.items()
        changed = {r for r in entry[0].mem if r != root and any(b.mem.get(r) is not entry[0].mem[r] for b in backs)}
        g = None
        for s in parts.values():
            g = s.copy() if g is None else self.join(g, s, node + ("delta",), loop=True)
        g.own()
        live, addr = fr.cfg.live[head], fr.cfg.addr
        accs, ints, other = {}, {}, []
        for r in sorted(changed, key=repr):
            if r not in g.mem or r[0] == "L" and r[1] is fr.fid and r[2] not in live and r[2] not in addr:
                continue
            v = entry[0].mem[r]
            if any(s.mem.get(r) is not v for s in entry):
                other.append(r)
            elif is_c(v, "str") or v.op == "cat":
                accs[r] = v
                g.mem[r] = mk("sym", ("acc", len(accs) - 1))
            elif is_c(v, "int"):
                ints[r] = v
                old, new = g.mem[r], mk("sym", ("int", len(ints) - 1))
                g.mem[r] = new
                if old in g.facts:
                    g.facts[new] = g.facts[old]
                g.iv[new] = self.interval(g, old)
            elif r[0] != "GHOST":
                other.append(r)
        one = mk("it", it.a[0], it.a[1], -1000)
        g.mem[root] = replaced(entry[0].mem[root], it, one)
        saved, hooks, elems, self.events, self.indelta = self.events, self.fact_hooks, self.elem_hooks, [], True
        ids = {}

        def hook(E, st, t, v):
            st.label(("part", "delta", ids.setdefault(t, len(ids)), repr(v)))

        def took(E, st, x):
            n = sum(1 for l in st.must if l[0] == "took")
            st.label(("took", n, x))
            st.label(("part", "took", n, x is None))
        self.fact_hooks, self.elem_hooks = tuple(hooks) + (hook,), tuple(elems) + (took,)
        try:
            ex, bk, rt = self.run_region(fr, body, {head: [g.copy()]}, head)
        except Abort:
            return None
        finally:
            self.events, self.fact_hooks, self.elem_hooks, self.indelta = saved, hooks, elems, False

        def item(x):
            return x.a[3] if x is not None and x.op == "agg" else x

        def taken(s):
            return [item(x) for _, x in sorted(((l[1], l[2]) for l in s.must if l[0] == "took"), key=lambda y: y[0])]
        d = {"fn": fr.fn["name"], "kind": it.a[0], "src": it.a[1], "accs": accs, "ints": ints, "other": other, "start": g, "cases": bk, "taken": taken,
             "ends": not rt and all(taken(s) == [None] for _, s in ex)}
        self.deltas[(fr.fid, head, it.a[1])] = d
        if it.a[0] == "bytes":
            return None
        d["facts"] = self.scan_facts(d, ex, rt) if it.a[0] in ("chars", "char_indices") else {}
        d["terms"] = self.scan_terms(d) if d["ends"] and accs else None
        return d

    def scan_facts(self, d, ex, rt):
        """What is known about the text where the loop is left: {block: (formula, value)}"""
        def ch(s):
            t = d["taken"](s)
            return s.facts.get(t[0]) if len(t) == 1 and t[0] is not None else None
        fs = [ch(s) for s in d["cases"]]
        if rt or not fs or any(f is None or f[0] != "not" for f in fs):
            return {}
        cs = sorted(set.intersection(*[set(f[1]) for f in fs]), key=repr)
        if not cs or not all(isinstance(c, str) and len(c) == 1 for c in cs):
            return {}
        t = mk("contains", d["src"].a[0], C("char", cs[0]) if len(cs) == 1 else agg("array", 0, *[C("char", c) for c in cs]))
        out = {}
        for bb in {b for b, _ in ex}:
            ss = [s for b, s in ex if b == bb]
            if all(d["taken"](s) == [None] for s in ss):
                out[bb] = (t, 0)
            else:
                es = [ch(s) for s in ss]
                if all(f is not None and f[0] == "in" and set(f[1]) <= set(cs) for f in es):
                    out[bb] = (t, 1)
        return out

    def scan_terms(self, d):
        """The texts and integers after the loop as terms over the text it reads: {root: term}"""
        cases = []
        for s in d["cases"]:
            els = d["taken"](s)
            if any(x is None for x in els[:-1]):
                return None
            ren = {x: mk("sym", ("ch", i)) for i, x in enumerate(els) if x is not None}

            def norm(t):
                for x, y in ren.items():
                    t = replaced(t, x, y)
                return t
            facts = tuple(sorted(((norm(t), f) for t, f in s.facts.items() if d["start"].facts.get(t) != f and not norm(t).uids), key=lambda x: (x[0].n, repr(x[1]))))
            ivs = tuple(sorted(((norm(t), f) for t, f in s.iv.items() if d["start"].iv.get(t) != f and not norm(t).uids), key=lambda x: (x[0].n, x[1])))
            accs = tuple(norm(s.mem[r]) for r in d["accs"])
            ints = tuple(norm(s.mem[r]) for r in d["ints"])
            if any(t.uids - d["src"].uids or any(x.op in ("it", "top") for x in subterms(t)) for t in accs + ints):
                return None
            cases.append((len(ren), els[-1:] == [None], facts, ivs, accs, ints))
        if not cases or len(cases) > 24:
            return None
        start, out = [], {}
        grow = [all(grows(c[4][i], mk("sym", ("acc", i))) for c in cases) for i in range(len(d["accs"]))]
        sc = mk("scan", d["src"], tuple(d["ints"].values()), tuple(S("") if g else v for g, v in zip(grow, d["accs"].values())),
                tuple(sorted(set(cases), key=repr)))
        for i, (r, v) in enumerate(d["accs"].items()):
            x = mk("scanned", sc, i)
            out[r] = self.models.mkcat([v, x]) if grow[i] else x
        return out

    def widen_lists(self, st):
        """Merge the unbounded parts of growing lists so that loops converge."""
        for root in list(st.mem):
            v = st.mem[root]
            w = self.models.collapse(v)
            if w is v:
                continue
            st.own()

            def carry(a, b):
                if a is b:
                    return
                if a.op in ("seq", "cat"):
                    e = self.evalf(st, mk("empty", a))
                    if e is not None:
                        st.facts[mk("empty", b)] = ("in", frozenset([e]))
                if a.op == "agg":
                    for n in ("cardok",):
                        f = st.facts.get(mk(n, a))
                        if f:
                            st.facts[mk(n, b)] = f
                    for x, y in zip(a.a[2:], b.a[2:]):
                        carry(x, y)
            carry(v, w)
            st.mem[root] = w

    def dumpdiff(self, o, j):
        print("---- loop state changed")
        for r in set(o.mem) | set(j.mem):
            if o.mem.get(r) is not j.mem.get(r):
                print("  mem", r[0], r[2] if len(r) > 2 else r, "\n     ", show(o.mem.get(r), 9)[:900], "\n     ", show(j.mem.get(r), 9)[:900])
        for n in ("facts", "iv"):
            x, y = getattr(o, n), getattr(j, n)
            for t in set(x) | set(y):
                if x.get(t) != y.get(t):
                    print("  ", n, show(t, 9)[:600], x.get(t), y.get(t))
        if o.must != j.must or o.may != j.may:
            print("  labels", o.must ^ j.must, o.may ^ j.may)

    def born(self, u, fr, head, body, mark):
        f, b, tags = u
        if mark in tags:
            return False
        if f is fr.fid or f == fr.fid:
            if tags and tags[0] == "H" and b == head:
                return False
            return b in body
        while f:
            if f[0] is fr.fid or f[0] == fr.fid:
                return f[1] in body
            f = f[0]
        return False

    def age(self, fr, head, body, st, node):
        mark = ("A", fr.fid[2], len(fr.stack()), head)
        alluids = set()
        for v in st.mem.values():
            alluids |= v.uids
        born = {u for u in alluids if self.born(u, fr, head, body, mark)}
        aged = {u: (u[0], u[1], u[2] + (mark,)) for u in born}
        conflict = {u for u in born if aged[u] in alluids}
        # head phis whose location changed
        Hphis = set()
        if node in alluids:
            for v in st.mem.values():
                if node in v.uids:
                    for x in subterms(v, into_star=False):
                        if x.op == "phi" and x.a[0] == node:
                            Hphis.add(x)

        def cur(phi):
            v = st.mem.get(phi.a[1])
            for i in phi.a[2]:
                if v is None:
                    return None
                if v.op == "agg" and isinstance(i, int) and 2 + i < len(v.a):
                    v = v.a[2 + i]
                elif v.op == "lexer" and i == "cur":
                    v = v.a[1]
                elif i == "tok" and self.paired and v.op in self.paired:
                    v = v.a[0]
                else:
                    return None
            return v
        changed = {x for x in Hphis if cur(x) is not x}
        for t in list(st.facts) + list(st.iv):
            if node in t.uids:
                for x in subterms(t, into_star=False):
                    if x.op == "phi" and x.a[0] == node and x not in changed and cur(x) is not x:
                        changed.add(x)
        cache = {}
        pre = st.copy()

        def bad(t):
            if t.uids & conflict:
                return True
            if changed and node in t.uids:
                for x in subterms(t, into_star=False):
                    if x in changed:
                        return True
            return False

        out = []

        renamed = {}

        def repl(v, root, path):
            if not v.uids:
                return v
            if v.op == "agg":
                return agg(v.a[0], v.a[1], *[repl(x, root, path + (i,)) for i, x in enumerate(v.a[2:])])
            if bad(v):
                if v.op == "lexer":
                    return mk("lexer", v.a[0], repl(v.a[1], root, path + ("cur",)))
                if self.paired and v.op in self.paired:
                    return mk(v.op, repl(v.a[0], root, path + ("tok",)))
                if v.op == "cat" or v.op == "seq":
                    # keep the shape, hide the elements
                    r = self.models.hide(self, v, bad)
                    return subst_uids(r, lambda u: aged.get(u, u), cache)
                if v.op == "it" and not bad(v.a[1]):
                    return v
                if v in renamed:
                    return renamed[v]
                phi = mk("phi", node, root, path)
                if self.share and self.share(v):
                    renamed[v] = phi
                self.note_phi(phi, v, v)
                fa, ta = self.discr_set(pre, v)
                if ta:
                    dphi = mk("discr", phi, ta)
                    self.models.DISCR_OF[phi] = dphi
                    if fa:
                        out.append((dphi, fa))
                f2 = self.fact(pre, v)
                if f2:
                    out.append((phi, f2))
                o2 = []
                for h in self.phi_hooks:
                    h(self, pre, v, pre, v, phi, o2)
                out.extend((t, f) for k, t, f in o2 if k == "f")
                if v in self.types:
                    self.types.setdefault(phi, self.types[v])
                return phi
            return self.subst(v, aged, cache)

        for root in list(st.mem):
            v = st.mem[root]
            if v.uids:
                st.mem[root] = repl(v, root, ())
        memuids = set()
        for v in st.mem.values():
            memuids |= v.uids
        agedset = set(aged.values())

        def keep(t):
            if not t.uids:
                return t
            if bad(t):
                return None
            t2 = self.subst(t, aged, cache)
            for u in t2.uids:
                if u not in memuids and (mark in u[2] or self.born(u, fr, head, body, mark)):
                    return None
            return t2
        nf = {}
        for t, f in st.facts.items():
            t2 = keep(t)
            if t2 is not None:
                nf[t2] = f
        for t, f in out:
            nf[t] = f
        ni = {}
        for t, f in st.iv.items():
            t2 = keep(t)
            if t2 is not None:
                ni[t2] = f
        st.facts, st.iv, st.shared = nf, ni, False
        def lkeep(l):
            return not (isinstance(l, tuple) and l[0] == "iter" and l[2] == 0)
        st.must = frozenset(l for l in st.must if lkeep(l))
        st.may = frozenset(l for l in st.may if lkeep(l))
        return st

    def subst(self, v, aged, cache):
        def f(u):
            return aged.get(u, u)
        r = subst_uids(v, f, cache)
        if r is not v:
            if v in self.types:
                self.types.setdefault(r, self.types[v])
            for x in subterms(v, into_star=False):
                d = self.models.DISCR_OF.get(x)
                if d is not None and x.uids:
                    x2 = subst_uids(x, f, cache)
                    if x2 is not x:
                        self.models.DISCR_OF.setdefault(x2, mk("discr", x2, d.a[1]))
                        if x in self.types:
                            self.types.setdefault(x2, self.types[x])
                if x.op == "phi" and x in self.phisrc:
                    x2 = subst_uids(x, f, cache)
                    if x2 is not x:
                        self.phisrc.setdefault(x2, set()).update(self.phisrc[x])
        return r

    # ------------------------------------------------------------ blocks
    def assign(self, st, fr, bb, place, v, span):
        if not place[1]:
            root = ("L", fr.fid, place[0])
            st.mem[root] = v
            self.killiter(st, root, ())
            self.note_type(v, fr.fn["locals"][place[0]][0])
            return
        root, path = self.resolve(st, fr, place)
        last = path[-1] if path else None
        if last and last[0] not in ("e", "ss") and last[0] in self.p.adts and self.p.adts[last[0]]["local"]:
            old = self.read(st, root, path)
            self.ev("store", fr, bb, span, st, adt=last[0], field=last[3], vi=last[1], value=v, old=old,
                    root=root, path=path)
        self.write(st, root, path, v)
        self.killiter(st, root, path)

    def killiter(self, st, root, path):
        """An overwritten iterator has not made progress."""
        for l in st.must:
            if l[0] == "iter" and l[1][0] == root and l[1][1][:len(path)] == path:
                st.unlabel(lambda x: x[0] == "iter" and x[1][0] == root and x[1][1][:len(path)] == path)
                return

    def note_type(self, v, ty):
        if v.op in ("sym", "fld", "call", "icall", "elem", "phi", "tok", "slice", "find", "len", "bin"):
            if v not in self.types:
                self.types[v] = self.p.strip(ty)
            if v not in self.models.DISCR_OF:
                t = self.p.types[self.types[v]]
                if t["k"] == "adt" and not transparent(t["adt"]):
                    a = self.p.adts.get(t["adt"])
                    if a and a["kind"] == "enum":
                        self.models.DISCR_OF[v] = mk("discr", v, t["adt"])

    def run_block(self, fr, bb, st):
        self.nblocks += 1
        if self.nblocks > self.maxblocks:
            raise Abort("too many blocks")
        fn = fr.fn
        blk = fn["blocks"][bb]
        for s in blk["s"]:
            if s[0] == "=":
                dty = fn["locals"][s[1][0]][0] if not s[1][1] else None
                v = self.rvalue(st, fr, bb, s[2], s[3], dty)
                self.assign(st, fr, bb, s[1], v, s[3])
            elif s[0] == "dead":
                v = st.mem.pop(("L", fr.fid, s[1]), None)
                if v is not None and v.op == "lexer":
                    st.mem[("L", fr.fid, s[1])] = v
                    for h in self.ret_hooks:
                        h(self, st)
                    del st.mem[("L", fr.fid, s[1])]
            elif s[0] == "sd":
                root, path = self.resolve(st, fr, s[1])
                v = self.read(st, root, path)
                if v.op != "agg":
                    self.write(st, root, path, mk("setdiscr", v, s[2]))
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "drop":
            return [(t[2], st)]
        if k == "return":
            return [("ret", st)]
        if k == "unreachable":
            return []
        if k == "switch":
            return self.switch(st, fr, bb, t)
        if k == "call":
            return self.call(st, fr, bb, t)
        if k == "assert":
            return self.assertion(st, fr, bb, t)
        return []

    def switch(self, st, fr, bb, t):
        v = self.operand(st, fr, t[1])
        v = self.deref(st, v)
        kn = self.known(st, v)
        if kn is not None:
            if isinstance(kn, str):
                kn = ord(kn)
            for val, b in t[2]:
                if int(val) == kn:
                    return [(b, st)]
            return [(t[3], st)]
        r = []
        vals = [int(x) for x, _ in t[2]]
        isbool = v.op in BOOLOPS or (len(vals) == 1 and vals == [0] and len(t) > 4 and self.p.types[t[4]]["s"] == "bool")
        if isbool:
            for val, b in t[2]:
                s2 = st.copy()
                if self.assume(s2, v, int(val)):
                    r.append((b, s2))
            s2 = st
            if all(self.assume(s2, v, 1 - x) for x in vals):
                r.append((t[3], s2))
            return r
        ischar = len(t) > 4 and self.p.types[t[4]]["s"] == "char"
        conv = (lambda x: chr(x)) if ischar else (lambda x: x)
        groups = {}
        for val, b in t[2]:
            groups.setdefault(b, []).append(int(val))
        for b, vs in groups.items():
            s2 = st.copy()
            if self.setfact(s2, v, ("in", frozenset(conv(x) for x in vs))):
                lo, hi = self.interval(s2, v)
                if lo <= hi:
                    r.append((b, s2))
        if fr.fn["blocks"][t[3]]["t"][0] != "unreachable":
            s2 = st
            if self.setfact(s2, v, ("not", frozenset(conv(x) for x in vals))):
                r.append((t[3], s2))
        return r

    def assertion(self, st, fr, bb, t):
        _, cond, expected, kind, ops, target, span = t[:7]
        v = self.operand(st, fr, cond)
        exp = 1 if expected else 0
        kn = self.evalf(st, v)
        if kn == exp:
            return [(target, st)]
        vals = [self.operand(st, fr, o) for o in ops]
        proof = self.models.prove_assert(self, st, fr, kind, v, exp, vals)
        self.ev("panic", fr, bb, span, st, what="assert:" + kind, args=tuple(vals), proof=proof, stack=tuple(fr.stack()))
        if kn is not None:
            return []
        if v.op == "ovf":
            st.own()
            st.facts[v] = ("in", frozenset([exp]))
        elif not self.assume(st, v, exp):
            return []
        return [(target, st)]

    # ------------------------------------------------------------ calls
    def call(self, st, fr, bb, t):
        _, f, ops, dst, target, span = t[:6]
        argtys = t[6] if len(t) > 6 else None
        args = [self.operand(st, fr, o) for o in ops]
        if f[0] == "k" and "fn" in f[1]:
            desc = f[1]["fn"]
        else:
            fv = self.operand(st, fr, f)
            desc = {"decl": "fnptr", "value": fv}
        fty = fr.fn["locals"][dst[0]][0] if not dst[1] else None
        n0 = len(self.events)
        out = self.invoke(st, fr, bb, desc, args, argtys, span, fty)
        r = []
        if target is None and out and not any(e.kind == "panic" for e in self.events[n0:]):
            self.ev("panic", fr, bb, span, out[0][0], what="diverges:" + str(desc.get("res") or desc.get("decl")), args=tuple(args),
                    proof=None, stack=tuple(fr.stack()))
        for s2, v in out:
            if target is None:
                continue
            self.assign(s2, fr, bb, dst, v, span)
            r.append((target, s2))
        return r

    def invoke(self, st, fr, bb, desc, args, argtys, span, retty=None):
        """Apply a callee to argument values: list of (state, value)."""
        m = self.models.dispatch(self, st, fr, bb, desc, args, argtys, span, retty)
        if m is not None:
            return m
        key = desc.get("key")
        if key and key in self.p.fns:
            fn = self.p.fns[key]
            if not (fn["local"] and self.opaque(desc, fn)):
                if key in [x for x in self.keystack(fr)]:
                    self.ev("recursion", fr, bb, span, st, callee=fn["name"], stack=tuple(fr.stack()))
                else:
                    return self.inline_memo(st, fr, bb, key, args, desc)
        return self.models.external(self, st, fr, bb, desc, args, argtys, span, retty)

    def inline_memo(self, st, fr, bb, key, args, desc):
        """Inline a call; a call whose arguments hold no pointer is analysed
        once per call site and argument tuple with the facts about them."""
        subs = set()
        for a in args:
            if a.op in ("fn",):
                continue
            for x in subterms(a, into_star=False):
                if x.op in ("ref", "lexer", "it") or x.op == "seq" and any(y.op == "tok" for y in subterms(x)):
                    return self.inline(st, fr, bb, key, args, desc)
                if x.op != "c" and x.op != "uidt":
                    subs.add(x)
        if not subs:
            return self.inline(st, fr, bb, key, args, desc)
        argset = {a for a in args if a.op != "c"}

        def rel(t):
            if t in subs:
                return True
            for x in subterms(t, into_star=False):
                if x in argset:
                    return True
                if x.op in ("discr", "empty", "len", "ci", "inset", "fld", "apfx", "asfx", "contains", "starts", "ends") and x.a[0] in subs:
                    return True
            return False
        rf = {}
        for t, f in st.facts.items():
            r = self._rel.get((t, tuple(args)))
            if r is None:
                r = self._rel[(t, tuple(args))] = rel(t)
            if r:
                rf[t] = f
        ri = {}
        for t, f in st.iv.items():
            r = self._rel.get((t, tuple(args)))
            if r is None:
                r = self._rel[(t, tuple(args))] = rel(t)
            if r:
                ri[t] = f
        ck = (fr.fid, bb, key, tuple(args), frozenset(rf.items()), frozenset(ri.items()))
        c = self._memo.get(ck)
        if c is None:
            s0 = State()
            s0.facts, s0.iv = rf, ri
            saved, self.events = self.events, []
            rets = self.inline(s0, fr, bb, key, args, desc)
            for s, v in rets:
                for r in list(s.mem):
                    if r[0] == "GHOST":
                        del s.mem[r]
                        continue
                    raise Abort("unexpected memory effect of %s: %r" % (key, r))
            c = self._memo[ck] = (rets, self.events)
            self.events = saved
        self.events.extend(c[1])
        out = []
        for s, v in c[0]:
            s2 = st.copy()
            okk = True
            for t, f in s.facts.items():
                if s2.facts.get(t) == f:
                    continue
                if not self.setfact(s2, t, f):
                    okk = False
                    break
            if not okk:
                continue
            for t, (lo, hi) in s.iv.items():
                if s2.iv.get(t) != (lo, hi) and not self.narrow(s2, t, lo, hi):
                    okk = False
                    break
            if not okk:
                continue
            s2.must = s2.must | s.must
            s2.may = s2.may | s.may
            out.append((s2, v))
        return out

    def keystack(self, fr):
        while fr:
            yield fr.key
            fr = fr.parent

    def inline(self, st, fr, bb, key, args, desc=None):
        fn = self.p.fns[key]
        self.visited_fns.add(key)
        if desc is not None and (desc.get("closure") or desc.get("shim") == "ClosureOnce"):
            clo = args[0]
            tup = args[1] if len(args) > 1 else UNIT
            tup = self.deref(st, tup)
            n = fn["argc"] - 1
            if tup.op == "agg" and tup.a[0] == "tuple":
                args = [clo] + list(tup.a[2:])
            else:
                args = [clo] + [mk("fld", tup, 0, i, str(i), "tuple") for i in range(n)]
        elif fn.get("spread"):
            pass
        self._fidn = getattr(self, "_fidn", 0)
        fid = self.mkfid(fr.fid if fr else None, bb, fn["name"])
        nfr = Frame(fn, fid, self.p.cfg(key), key, fr)
        self.fidcfg[fid] = nfr.cfg
        if nfr.cfg.irreducible:
            raise Abort("irreducible control flow in %s" % fn["name"])
        for i, a in enumerate(args):
            st.mem[("L", fid, i + 1)] = a
            self.note_type(a, fn["locals"][i + 1][0])
        # a closure or value passed by value where a reference is expected is transparent
        _, _, rets = self.run_region(nfr, None, {0: [st]}, None)
        return self.merge_returns(nfr, rets)

    FIDS = {}

    def inloop(self, u):
        """Is the program point of a uid inside any loop of the root?"""
        r = self._inloop.get(u[:2])
        if r is None:
            f, b = u[0], u[1]
            r = False
            while f:
                c = self.fidcfg.get(f)
                if c is None or any(b in body for body in c.loops.values()):
                    r = True
                    break
                f, b = f[0], f[1]
            self._inloop[u[:2]] = r
        return r

    def mkfid(self, parent, bb, name):
        k = (parent, bb, name)
        f = Engine.FIDS.get(k)
        if f is None:
            f = Engine.FIDS[k] = k
        return f

    def merge_returns(self, fr, rets):
        groups = {}
        for s in rets:
            for h in self.ret_hooks:
                h(self, s)
            v = s.mem.get(("L", fr.fid, 0), UNIT)
            dead = [r for r in s.mem if r[0] == "L" and self.within(r[1], fr.fid)]
            for r in dead:
                del s.mem[r]
            if any(l[0] == "iter" and l[1][0][0] in "LH" and self.within(l[1][0][1], fr.fid) for l in s.must | s.may):
                s.unlabel(lambda l: l[0] == "iter" and l[1][0][0] in "LH" and self.within(l[1][0][1], fr.fid))
            s.mem[("R",)] = v
            k = (self.tag(s, v, 3), self.parts_of(s),
                 self.watch(self, s) if self.watch else None)
            if k not in groups and len(groups) >= PARTCAP:
                k = ("coarse", self.tag(s, v, 2), self.parts_of(s))
                if k not in groups and len(groups) >= 2 * PARTCAP:
                    k = ("coarser", self.tag(s, v, 1), self.parts_of(s))
            o = groups.get(k)
            if o is None:
                groups[k] = s
            else:
                groups[k] = self.join(o, s, (fr.fid, -2, ()))
        out = []
        for s in groups.values():
            v = s.mem.pop(("R",))
            out.append((s, v))
        return out

    def within(self, f, fid):
        while f:
            if f is fid or f == fid:
                return True
            f = f[0]
        return False

    # ------------------------------------------------------------ roots
    def sym_arg(self, st, name, ty, p=None):
        t = self.p.types[ty]
        if t["k"] == "ref" and t["mut"]:
            s = mk("sym", name)
            self.note_type(s, t["t"])
            inner = self.p.types[t["t"]]
            if inner["k"] == "adt" and inner["adt"] == "logos::Lexer":
                s = mk("lexer", mk("sym", name + ".source"), mk("sym", name + ".cur"))
            st.mem[("O", name)] = s
            return mk("ref", ("O", name), ())
        s = mk("sym", name)
        self.note_type(s, ty)
        return s

    def run_root(self, key, args=None, st=None):
        """Analyse a function as an entry point. Returns [(state, ret)]."""
        fn = self.p.fns[key]
        self.visited_fns.add(key)
        st = st or State()
        cfg = self.p.cfg(key)
        fid = self.mkfid(None, -1, fn["name"])
        fr = Frame(fn, fid, cfg, key, None)
        self.fidcfg[fid] = cfg
        if args is None:
            args = [None] * fn["argc"]
        for i in range(fn["argc"]):
            ty, nm = fn["locals"][i + 1]
            a = args[i] if i < len(args) else None
            if a is None:
                a = self.sym_arg(st, nm or "arg%d" % (i + 1), ty)
            st.mem[("L", fid, i + 1)] = a
            self.note_type(a, ty)
        self.root_frame = fr
        _, _, rets = self.run_region(fr, None, {0: [st]}, None)
        out = []
        for s in rets:
            out.append((s, s.mem.get(("L", fid, 0), UNIT)))
        return out


BOOLOPS = {"inset", "eq", "not", "and", "or", "lt", "empty", "starts", "ends", "contains", "ovf", "memb", "pred"}
INTR = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1),
        "i8": (-128, 127), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1)}
