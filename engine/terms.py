"""Interned value terms, facts and abstract states."""

_INTERN = {}


class T:
    __slots__ = ("op", "a", "uids", "n", "_s")

    def __repr__(self):
        return show(self)


def mk(op, *a):
    k = (op, a)
    t = _INTERN.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.n = len(_INTERN)
        t._s = None
        u = frozenset()
        if op == "uidt":
            u = frozenset([a[0]])
        elif op in ("star",):
            u = frozenset()
        else:
            for x in a:
                if isinstance(x, T):
                    u = u | x.uids if x.uids else u
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, T) and y.uids:
                            u = u | y.uids
        if op == "phi":
            u = u | frozenset([a[0]])
        t.uids = u
        _INTERN[k] = t
    return t


def C(kind, v):
    return mk("c", kind, v)


def I(v):
    return mk("c", "int", int(v))


def S(v):
    return mk("c", "str", v)


TRUE = I(1)
FALSE = I(0)
UNIT = mk("agg", "tuple", 0)
TOP = mk("top")
EMPTYSTR = None


def agg(name, vi, *f):
    return mk("agg", name, vi, *f)


def is_c(t, kind=None):
    return t.op == "c" and (kind is None or t.a[0] == kind)


def cval(t):
    return t.a[1]


OPTION = "std::option::Option"
RESULT = "std::result::Result"


def some(x):
    return agg(OPTION, 1, x)


NONE = agg(OPTION, 0)


def ok(x):
    return agg(RESULT, 0, x)


def err(x):
    return agg(RESULT, 1, x)


def call(name, *a):
    return mk("call", name, *a)


def uid(fid, bb, tags=()):
    return (fid, bb, tags)


def uidt(u):
    return mk("uidt", u)


# ---------------------------------------------------------------- display
def show(t, depth=6):
    if not isinstance(t, T):
        return repr(t)
    if depth <= 0:
        return "…"
    d = depth - 1

    def sh(x):
        if isinstance(x, T):
            return show(x, d)
        if isinstance(x, tuple):
            return "(" + ",".join(sh(y) for y in x) + ")"
        return str(x)

    o, a = t.op, t.a
    if o == "c":
        return repr(a[1]) if a[0] in ("str", "char") else str(a[1])
    if o == "agg":
        return "%s#%d{%s}" % (a[0].split("::")[-1], a[1], ", ".join(map(sh, a[2:])))
    if o == "fld":
        return "%s.%s" % (sh(a[0]), a[3] if a[3] else a[2])
    if o == "uidt":
        return "@%s" % uidshow(a[0])
    if o == "phi":
        return "phi<%s %s>" % (uidshow(a[0]), sh(a[1:]))
    if o == "call":
        return "%s(%s)" % (a[0], ", ".join(map(sh, a[1:])))
    return "%s[%s]" % (o, ", ".join(map(sh, a)))


def uidshow(u):
    fid, bb, tags = u
    n = 0
    f = fid
    while f:
        n += 1
        f = f[0]
    return "%s:%s%s" % (fid[2] if fid else "", bb, "'" * len(tags))


def subterms(t, into_star=True, seen=None):
    """All distinct subterms of t, pre-order."""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, (tuple, frozenset, list)):
            st.extend(reversed(list(x)))
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        if x.op == "star" and not into_star:
            continue
        st.extend(reversed(list(x.a)))


def subst_uids(t, f, cache, into_star=False):
    """Rename uids via f(uid)->uid."""
    if not t.uids and not (into_star and has_star(t)):
        return t
    r = cache.get(t)
    if r is not None:
        return r
    if t.op == "uidt":
        r = uidt(f(t.a[0]))
    elif t.op == "star" and not into_star:
        r = t
    else:
        def go(x):
            if isinstance(x, T):
                return subst_uids(x, f, cache, into_star)
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            if isinstance(x, frozenset):
                return frozenset(go(y) for y in x)
            return x
        if t.op == "phi":
            r = mk("phi", f(t.a[0]), *[go(x) for x in t.a[1:]])
        else:
            r = mk(t.op, *[go(x) for x in t.a])
    cache[t] = r
    return r


_HS = {}


def has_star(t):
    r = _HS.get(t)
    if r is None:
        r = any(x.op == "star" for x in subterms(t))
        _HS[t] = r
    return r


# ---------------------------------------------------------------- facts
INF = float("inf")


def fact_join(a, b):
    ka, sa = a
    kb, sb = b
    if ka == "in" and kb == "in":
        return ("in", sa | sb)
    if ka == "not" and kb == "not":
        s = sa & sb
        return ("not", s) if s else None
    if ka == "in":
        s = sb - sa
    else:
        s = sa - sb
    return ("not", s) if s else None


class State:
    __slots__ = ("mem", "facts", "iv", "must", "may", "shared")

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.iv = {}
        self.must = frozenset()
        self.may = frozenset()
        self.shared = False

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        self.shared = True
        s.facts = self.facts
        s.iv = self.iv
        s.must = self.must
        s.may = self.may
        s.shared = True
        return s

    def own(self):
        if self.shared:
            self.facts = dict(self.facts)
            self.iv = dict(self.iv)
            self.shared = False

    def snap(self):
        self.shared = True
        return self.facts, self.iv

    def label(self, l):
        self.must = self.must | {l}
        self.may = self.may | {l}

    def unlabel(self, pred):
        self.must = frozenset(l for l in self.must if not pred(l))
        self.may = frozenset(l for l in self.may if not pred(l))

    def same(self, o):
        return (self.mem == o.mem and self.facts == o.facts and self.iv == o.iv
                and self.must == o.must and self.may == o.may)


def replaced(v, a, b, seen=None):
    """A value with one part exchanged"""
    if v is a:
        return b
    seen = {} if seen is None else seen
    r = seen.get(v)
    if r is None:
        xs = tuple(replaced(x, a, b, seen) if isinstance(x, T) else x for x in v.a)
        r = seen[v] = v if xs == v.a else mk(v.op, *xs)
    return r
