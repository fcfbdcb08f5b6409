"""Models of the standard library and of the external crates."""
import json
import re

from terms import *
from terms import mk, T

FNITEMS = {}
DISCR_OF = {}

RANGE = "std::ops::Range"
STRINGY = ("str", "std::string::String")


# ------------------------------------------------------------------ strings
def mkcat(items):
    out = []
    for x in items:
        if x.op == "cat":
            sub = x.a
        else:
            sub = (x,)
        for y in sub:
            if y.op == "c" and y.a[0] == "char":
                y = S(y.a[1])
            if y.op == "c" and y.a[0] == "str":
                if y.a[1] == "":
                    continue
                if out and out[-1].op == "c" and out[-1].a[0] == "str":
                    out[-1] = S(out[-1].a[1] + y.a[1])
                    continue
            out.append(y)
    if not out:
        return S("")
    if len(out) == 1 and out[0].op not in ("disp", "star", "fmtspec"):
        return out[0]
    return mk("cat", *out)


def items_of(v):
    if v.op == "cat":
        return v.a
    if v.op == "c" and v.a[0] == "str":
        return (v,) if v.a[1] else ()
    return (v,)


def is_strterm(v):
    return v.op == "cat" or (v.op == "c" and v.a[0] == "str")


def mkstar(parts):
    s = set()
    for p in parts:
        if p.op == "star":
            s |= set(p.a[0])
        else:
            s.add(p)
    if len(s) > 60:
        s = {TOP}
    return mk("star", frozenset(s))


def joinlist(a, b, force=False):
    """Join two growing buffers; None when they are unrelated."""
    if a.op == "seq":
        la, lb = list(a.a), list(b.a)
    else:
        la, lb = list(items_of(a)), list(items_of(b))
    n = 0
    while n < len(la) and n < len(lb) and la[n] is lb[n]:
        n += 1
    pre, ra, rb = la[:n], la[n:], lb[n:]
    if a.op != "seq" and n == 0 and ra and rb and not force:
        # differing constant prefixes
        if ra[0].op == "c" and rb[0].op == "c":
            x, y = ra[0].a[1], rb[0].a[1]
            if x.startswith(y) or y.startswith(x):
                p = x if len(x) < len(y) else y
                pre = [S(p)]
                ra = ([S(x[len(p):])] if len(x) > len(p) else []) + ra[1:]
                rb = ([S(y[len(p):])] if len(y) > len(p) else []) + rb[1:]
            else:
                return None
        else:
            return None
    if a.op == "seq":
        parts = ra + rb
    else:
        parts = []
        for r in (ra, rb):
            if not r:
                continue
            if r[0].op == "star":
                parts.append(r[0])
                r = r[1:]
            if r:
                parts.append(mkcat(r))
    if pre and pre[-1].op == "star":
        parts = [pre[-1]] + parts
        pre = pre[:-1]
    if parts:
        pre = pre + [mkstar(parts)]
    return mk(a.op if a.op == "seq" else "cat", *pre)


ANY = mk("any")
_COLL = {}


def collapse(v):
    """Merge the elements of every star by shape."""
    r = _COLL.get(v)
    if r is not None:
        return r
    if v.op == "agg":
        fs = [collapse(x) for x in v.a[2:]]
        r = v if all(x is y for x, y in zip(fs, v.a[2:])) else agg(v.a[0], v.a[1], *fs)
    elif v.op in ("seq", "cat"):
        fs = [collapse_star(x) if x.op == "star" else x for x in v.a]
        r = v if all(x is y for x, y in zip(fs, v.a)) else mk(v.op, *fs)
    else:
        r = v
    _COLL[v] = r
    _COLL[r] = r
    return r


def generalise(a, b):
    if a is b:
        return a
    if a.op == "agg" and b.op == "agg" and a.a[:2] == b.a[:2] and len(a.a) == len(b.a):
        return agg(a.a[0], a.a[1], *[generalise(x, y) for x, y in zip(a.a[2:], b.a[2:])])
    return ANY


def collapse_star(s):
    groups, rest = {}, []
    for x in s.a[0]:
        if x.op == "agg":
            groups.setdefault(x.a[:2], []).append(x)
        elif x.op in ("cat", "seq", "c", "ref"):
            rest.append(x)
        else:
            groups.setdefault(x.op, []).append(x)
    out = list(rest)
    for k, xs in groups.items():
        r = xs[0]
        for y in xs[1:]:
            r = generalise(r, y)
        out.append(r)
    return mk("star", frozenset(out))


def hide(E, v, bad):
    out, run = [], []
    for x in v.a:
        if bad(x):
            run.append(x)
        else:
            if run:
                out.append(mkstar(run))
                run = []
            out.append(x)
    if run:
        out.append(mkstar(run))
    return mk(v.op, *out)


# ------------------------------------------------------------------ sequences
def definite(v):
    """Items when the list is fully known."""
    if v.op == "agg" and v.a[0] == "array":
        return list(v.a[2:])
    if v.op == "seq" and not any(x.op in ("star", "spread") for x in v.a):
        return list(v.a)
    return None


def it_const(v):
    return definite(v.a[1]) is not None and v.a[0] in ("iter", "into") and isinstance(v.a[2], int)


def instantiate(E, item, u):
    """One unknown element of a list filled by a loop: values computed in a
    loop are renamed, values computed once keep their identity."""
    cache = {}

    def f(x):
        if not E.inloop(x):
            return x
        return (x[0], x[1], x[2] + (("inst", u[1], u[0][2] if u[0] else ""),))
    return subst_uids(item, f, cache)


def index_elem(E, st, v, idx):
    l = definite(v)
    if l is not None and idx.op == "c" and 0 <= idx.a[1] < len(l):
        return l[idx.a[1]]
    if v.op == "setelem":
        if v.a[1] is idx:
            return v.a[2]
    if v.op == "spread":
        v = v.a[0]
    if v in E.complete and idx.op == "c":
        return complete_elem(E, v, idx)
    return mk("elem", v, idx)


def complete_elem(E, v, idx):
    """An element of a list that holds what an iterator handed out, all of it"""
    src, el, item = E.complete[v]
    return replaced(item, el, mk("elem", src, idx))


def length(E, st, v):
    v = E.deref(st, v)
    if v.op == "c" and v.a[0] == "str":
        return I(len(v.a[1].encode()))
    l = definite(v)
    if l is not None:
        return I(len(l))
    if v in E.complete:
        t = mk("count", E.complete[v][0])
        if t.a[0].op in FIRST_ALWAYS and t not in st.iv:
            st.own()
            st.iv[t] = (1, INF)
        return t
    return mk("len", v)


def emptiness(E, st, x):
    if x.op == "c":
        return int(x.a[1] == "") if x.a[0] == "str" else None
    l = definite(x)
    if l is not None:
        return int(len(l) == 0)
    if x.op == "seq":
        r = 1
        for y in x.a:
            if y.op == "spread":
                e = E.evalf(st, mk("empty", y.a[0]))
                if e == 0:
                    return 0
                if e is None:
                    r = None
            elif y.op == "star":
                r = None
            else:
                return 0
        return r
    if x.op == "cat":
        for y in x.a:
            if y.op == "c":
                return 0
            if y.op == "tslice":
                return 0
    if x.op == "tslice":
        return 0
    return None


# ------------------------------------------------------------------ formulas
def ci_of(x):
    if x.op == "call" and x.a[0] in ("upper", "lower"):
        return x.a[1], x.a[0]
    return None, None


def eqconst(E, st, x, c):
    v = c.a[1]
    if c.a[0] == "str":
        if x.op == "cat":
            return mk("eq", x, c)
        if v == "":
            return mk("empty", x)
        y, case = ci_of(x)
        if y is not None:
            if (v.upper() if case == "upper" else v.lower()) != v:
                return FALSE
            return mk("inset", mk("ci", y), frozenset([v.upper()]))
        return mk("inset", x, frozenset([v]))
    if c.a[0] == "int":
        from engine import BOOLOPS
        if x.op in BOOLOPS and v in (0, 1):
            return x if v else E.notf(x)
        if x.op == "len" and v == 0:
            return mk("empty", x.a[0])
        return mk("inset", x, frozenset([v]))
    if c.a[0] in ("char", "float", "bytes"):
        return mk("inset", x, frozenset([v]))
    return mk("eq", x, c)


def on_fact(E, st, t, v):
    if t.op == "starts" and v == 1 and t.a[1].op == "c" and isinstance(t.a[1].a[1], str):
        p = t.a[1].a[1]
        if p.isascii():
            k = mk("apfx", t.a[0])
            lo = st.iv.get(k, (0, INF))[0]
            if len(p) > lo:
                st.iv[k] = (len(p), INF)
            st.facts[mk("empty", t.a[0])] = ("in", frozenset([0]))
    if t.op == "ends" and v == 1 and t.a[1].op == "c":
        p = t.a[1].a[1]
        if p.isascii():
            k = mk("asfx", t.a[0])
            lo = st.iv.get(k, (0, INF))[0]
            if len(p) > lo:
                st.iv[k] = (len(p), INF)
            st.facts[mk("empty", t.a[0])] = ("in", frozenset([0]))
    for h in getattr(E, "fact_hooks", ()):
        h(E, st, t, v)


def arith(E, st, op, a, b):
    return mk("bin", op, a, b)


def cast(E, st, kind, v, to, frm=None):
    k = kind.split("(")[0]
    if k in ("PointerCoercion", "PtrToPtr", "Transmute", "BoxDerefTransmute", "Subtype", "FnPtrToPtr"):
        return v
    if v.op == "c" and v.a[0] == "int":
        from engine import INTR
        s = E.p.types[to]["s"]
        if s in INTR and INTR[s][0] <= v.a[1] <= INTR[s][1]:
            return v
    from engine import BOOLOPS
    if v.op in BOOLOPS:
        return v
    return mk("cast", E.p.types[to]["s"], v)


# ------------------------------------------------------------------ panics
def nonneg_len(E, st, x):
    lo, hi = E.interval(st, x)
    return lo


SIZES = ("usize", "u64", "u128")


def prove_assert(E, st, fr, kind, v, exp, vals):
    if v.op == "ovf":
        base, a, b = v.a
        la, ha = E.interval(st, a)
        lb, hb = E.interval(st, b)
        ty = None
        for x in (a, b):
            if x in E.types:
                ty = E.p.types[E.types[x]]["s"]
        if base == "Add":
            if ty in (None, "usize") and counterlike(E, st, a) and counterlike(E, st, b):
                return "sum of lengths and offsets of values in memory"
            if ty and ty in __import__("engine").INTR and ha + hb <= __import__("engine").INTR[ty][1] and ha != INF and hb != INF:
                return "interval"
        if base == "Sub":
            if la >= hb:
                return "interval"
            if a.op == "len" and b.op == "c":
                k = max(st.iv.get(mk("apfx", a.a[0]), (0, 0))[0], st.iv.get(mk("asfx", a.a[0]), (0, 0))[0])
                if k >= b.a[1]:
                    return "length bounded by a known prefix"
            if a is b:
                return "equal"
            if E.evalf(st, mk("lt", a, b)) == 0:
                return "guard"
    if kind == "bounds":
        return None
    return None


def counterlike(E, st, x, depth=0, seen=None):
    """usize quantities bounded by the size of values in memory."""
    if depth > 12:
        return False
    o = x.op
    if o == "c":
        return isinstance(x.a[1], int) and abs(x.a[1]) < 2**32
    if o in ("len", "find", "tstart", "tend", "cidx", "rfind"):
        return True
    if o == "bin" and x.a[0] in ("Add", "Sub"):
        return counterlike(E, st, x.a[1], depth + 1, seen) and counterlike(E, st, x.a[2], depth + 1, seen)
    if o == "bin" and x.a[0] in ("Rem", "Div", "BitAnd"):
        return counterlike(E, st, x.a[1], depth + 1, seen)
    if o == "phi":
        seen = seen or set()
        if x in seen:
            return True
        seen.add(x)
        src = E.phisrc.get(x)
        if not src:
            return False
        for y in src:
            # increments by program constants or lengths per iteration
            if not counterlike(E, st, y, depth + 1, seen):
                return False
        return True
    if o == "fld":
        # a field that only ever holds offsets (checked where it is stored)
        return x.a[3] in ("offset", "count", "start", "end") and x.a[0].op in ("sym", "fld", "call", "phi", "icall")
    if o in ("sym",):
        return False
    if o == "call":
        return x.a[0] in ("span.end", "span.start", "len_utf8", "count")
    return False


def strip_const_add(p):
    k = 0
    while p.op == "bin" and p.a[0] == "Add" and p.a[2].op == "c":
        k += p.a[2].a[1]
        p = p.a[1]
    return p, k


def is_str(t):
    return t.op == "c" and isinstance(t.a[1], str) and t.a[1] != ""


def patlen(p):
    """Byte length of a constant pattern when every alternative is ASCII."""
    if p.op == "c" and isinstance(p.a[1], str):
        return len(p.a[1].encode()) if p.a[1] else None
    if p.op == "agg" and p.a[0] == "array":
        ls = {patlen(x) for x in p.a[2:]}
        return ls.pop() if len(ls) == 1 else None
    return None


def src_positions(E, x, depth=0):
    """Flatten phis of positions into their sources."""
    out, work, seen = set(), [x], set()
    while work:
        y = work.pop()
        if y in seen:
            continue
        seen.add(y)
        if y.op == "phi" and E.phisrc.get(y):
            work.extend(E.phisrc[y])
        elif y.op in ("tstart", "tend") and y.a[0].op == "phi" and E.phisrc.get(y.a[0]):
            work.extend(mk(y.op, z) for z in E.phisrc[y.a[0]])
        else:
            out.add(y)
    return out


def boundary(E, st, s, p):
    """p is a char boundary of s and p <= len(s). Returns a reason or None."""
    if p.op == "c" and p.a[1] == 0:
        return "start"
    if p.op == "len" and p.a[0] is s:
        return "end"
    if p.op == "call" and p.a[0] == "len_prefix" and p.a[1] is s:
        return "prefix"
    if p.op == "len" and p.a[0].op == "slice" and p.a[0].a[0] is s and p.a[0].a[1] is None:
        return "prefix slice"
    if p.op in ("find", "rfind", "cidx") and p.a[0] is s:
        return "match position"
    if p.op == "c" and isinstance(p.a[1], int):
        k = st.iv.get(mk("apfx", s), (0, 0))[0]
        if 0 <= p.a[1] <= k:
            return "inside a known ASCII prefix"
        if s.op == "c":
            b = s.a[1].encode()
            if p.a[1] <= len(b) and (p.a[1] == len(b) or (b[p.a[1]] & 0xC0) != 0x80):
                return "constant"
        if E.evalf(st, mk("pred", "ascii", s)) == 1 and E.interval(st, mk("len", s))[0] >= p.a[1]:
            return "ASCII text of known length"
        # digits position inside a parsed ASCII literal is not known
    base, k = strip_const_add(p)
    if k and base.op in ("find", "rfind") and base.a[0] is s:
        pl = patlen(base.a[1])
        if pl is not None and (k == pl or (k < pl and base.a[1].op == "c" and base.a[1].a[1].isascii())):
            return "after a match of a known pattern"
    if p.op == "bin" and p.a[0] == "Add" and p.a[1].op in ("find",) and p.a[1].a[0] is s and p.a[2].op == "len":
        if p.a[2].a[0] is p.a[1].a[1]:
            return "after a match"
    if p.op == "bin" and p.a[0] == "Add" and p.a[1].op == "cidx" and p.a[1].a[0] is s and p.a[2].op == "call" and p.a[2].a[0] == "len_utf8":
        return "after a character"
    if p.op == "bin" and p.a[0] == "Sub" and p.a[1].op == "len" and p.a[1].a[0] is s and p.a[2].op == "c":
        if st.iv.get(mk("asfx", s), (0, 0))[0] >= p.a[2].a[1]:
            return "before a known ASCII suffix"
    # token offsets
    if s.op == "lexsrc" or s.op in ("sym", "call", "fld", "phi", "c", "slice", "cat"):
        srcs = src_positions(E, p)
        if srcs and all(token_offset(E, st, s, q) for q in srcs):
            return "token offset"
    if p.op == "phi":
        srcs = src_positions(E, p)
        if srcs and all(boundary(E, st, s, q) for q in srcs if q is not p):
            return "all sources are boundaries"
    return None


def tok_of(p):
    return p.a[0] if p.op in ("tstart", "tend") else None


def token_offset(E, st, s, q):
    base, k = strip_const_add(q)
    t = tok_of(base)
    if t is None or not same_source(t, s):
        return False
    if k == 0:
        return True
    if base.op == "tstart" and k == 1:
        # one past the start of a token that is one ASCII character long
        d = token_kinds(E, st, t)
        if d and d <= ONEBYTE(E):
            return True
    return False


def same_source(t, s):
    if t.op in ("tok", "eof", "bumped"):
        return t.a[0] is s
    return t.op == "phi"


def ONEBYTE(E):
    """Discriminants of token variants that always match one byte."""
    r = getattr(E, "_onebyte", None)
    if r is None:
        import lexrules
        r = E._onebyte = lexrules.one_byte_tokens(E.p)
    return r


def lexrules_adt(E):
    import lexrules
    r = getattr(E, "_tokadt", None)
    if r is None:
        r = E._tokadt = lexrules.token_adt(E.p)
    return r


def token_kinds(E, st, tok):
    f = st.facts.get(mk("discr", mk("fld", tok, 0, 0, "0", RESULT), lexrules_adt(E)))
    if f and f[0] == "in":
        return f[1]
    return None


def order_le(E, st, a, b):
    """a <= b for positions in the same string."""
    if a is b:
        return "equal"
    la, ha = E.interval(st, a)
    lb, hb = E.interval(st, b)
    if ha <= lb:
        return "interval"
    if E.evalf(st, mk("lt", b, a)) == 0:
        return "guard"
    ba, ka = strip_const_add(a)
    bb, kb = strip_const_add(b)
    if ba is bb and ka <= kb:
        return "same base"
    if tok_of(ba) is not None and tok_of(ba) is tok_of(bb) and tok_le(E, st, ba, ka, bb, kb, a, b):
        return "same token"
    ta = [strip_const_add(x) for x in src_positions(E, a)]
    tb = [strip_const_add(x) for x in src_positions(E, b)]
    if ta and tb and all(tok_of(x) is not None for x, _ in ta) and all(tok_of(x) is not None for x, _ in tb):
        okall = True
        for (x, k) in ta:
            for (y, k2) in tb:
                if not tok_le(E, st, x, k, y, k2, a, b):
                    okall = False
        if okall:
            return "token order"
    # find(s, ..) - related
    if a.op == "c" and a.a[1] == 0:
        return "zero"
    return None


def cur_tokens(st):
    r = set()
    for v in st.mem.values():
        if v.op == "lexer":
            r.add(v.a[1])
    return r


def tok_le(E, st, x, k, y, k2, a, b):
    tx, ty = tok_of(x), tok_of(y)
    if tx is ty:
        if x.op == "tstart" and y.op == "tend":
            return k <= k2 + 1 if k <= 1 else False
        return x.op == y.op and k <= k2
    # y belongs to the current token: everything stored before it was read
    # is an offset of an earlier token
    cur = cur_tokens(st)
    if ty in cur and tx not in cur:
        if k == 0:
            return True
        if x.op == "tstart" and k == 1:
            return True     # tokens are not empty: start + 1 <= end <= next start
    if ty.op in ("phi",) or tx.op == "phi":
        return False
    # both aged: order of the token reads
    return False


def prove_slice(E, st, s, a, b):
    """Obligations of s[a..b]; returns (ok, text)."""
    ra = rb = ro = "n/a"
    if a is not None:
        ra = boundary(E, st, s, a)
        if not ra:
            return None, "start %s is not a known char boundary" % show(a)
    if b is not None:
        rb = boundary(E, st, s, b)
        if not rb:
            return None, "end %s is not a known char boundary" % show(b)
    if a is not None and b is not None:
        ro = order_le(E, st, a, b)
        if not ro:
            return None, "%s <= %s is not known" % (show(a), show(b))
    return "%s; %s; %s" % (ra, rb, ro), None


def mkslice(E, s, a, b):
    if a is not None and a.op == "c" and a.a[1] == 0:
        a = None
    if b is not None and b.op == "len" and b.a[0] is s:
        b = None
    if a is None and b is None:
        return s
    if s.op == "c" and s.a[0] == "str" and (a is None or a.op == "c") and (b is None or b.op == "c"):
        by = s.a[1].encode()
        try:
            return S(by[(a.a[1] if a is not None else 0):(b.a[1] if b is not None else len(by))].decode())
        except Exception:
            pass
    if a is not None and b is not None and a.op == "tstart" and b.op == "tend" and a.a[0] is b.a[0]:
        return mk("tslice", a.a[0])
    return mk("slice", s, a if a is not None else mk("open"), b if b is not None else mk("open"))


# ------------------------------------------------------------------ format
def parse_template(bs):
    """Decode the compact format template: literals and placeholders."""
    i, out, n = 0, [], 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(("lit", bytes(bs[i:i + b]).decode()))
            i += b
        elif b == 0x80:
            l = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(("lit", bytes(bs[i:i + l]).decode()))
            i += l
        else:
            idx, spec, flags, width = n, False, 0x60000020, 0
            if b & 1:
                flags = int.from_bytes(bytes(bs[i:i + 4]), "little")
                i += 4
                spec = True
            if b & 2:
                width = bs[i] | bs[i + 1] << 8
                i += 2
                spec = True
            if b & 4:
                i += 2
                spec = True
            if spec:
                # padded with zeros, or anything else
                spec = ("+" if flags & 1 << 21 else "") + "0%d" % width if flags & ~(1 << 21) == 0x69000020 and not b & 0x34 else "?"
            if b & 8:
                idx = bs[i] | bs[i + 1] << 8
                i += 2
            n = idx + 1
            out.append(("arg", idx, spec))
    return out


def render(E, st, fr, bb, aux, x, span, argty=None):
    """Items printed by Display::fmt of x: list of (state, items|None)."""
    x = E.deref(st, x)
    res = aux.get("res") or aux.get("decl") or ""
    key = aux.get("key")
    m = re.match(r"^<(.*) as std::fmt::(\w+)>::fmt$", res)
    selfty = m.group(1) if m else res
    trait = m.group(2) if m else "Display"
    if trait == "Display":
        if selfty in ("str", "std::string::String", "std::borrow::Cow<'_, B>", "std::borrow::Cow<'_, str>", "char"):
            return [(st, [S(x.a[1]) if x.op == "c" else x])]
        if x.op == "c" and x.a[0] == "str":
            return [(st, [x])]
        if selfty in ("std::fmt::Arguments<'_>", "std::fmt::Arguments<'a>") and x.op == "fmtargs":
            return [(st, list(x.a))]
        fn = E.p.fns.get(key) if key else None
        if fn is not None and not (fn["local"] and E.opaque(aux, fn)) and key not in list(E.keystack(fr)):
            root = ("F", fr.fid, bb, key)
            st.mem[("OUT", root)] = mk("cat")
            outs = []
            for s2, v in E.inline(st, fr, bb, key, [x, mk("ref", root, ())]):
                o = s2.mem.pop(("OUT", root), mk("cat"))
                outs.append((s2, list(items_of(o)) if v.op == "agg" and v.a[1] == 0 else None))
            return outs
        if selfty in ("i64", "u64", "u8", "f64", "usize", "bool", "i32", "u32", "u16"):
            return [(st, [S(str(x.a[1])) if x.op == "c" and x.a[0] == "int" and selfty != "bool" else mk("disp", selfty, x)])]
        ad = aux.get("impl_self") or selfty
        if fn is not None:
            ad = adt_of_self(E, fn) or ad
        return [(st, [mk("disp", ad, x)])]
    return [(st, [mk("dbg", selfty, x)])]


def adt_of_self(E, fn):
    i = fn.get("impl_self")
    if isinstance(i, int):
        t = E.p.types[E.p.strip(i)]
        if t["k"] == "adt":
            return t["adt"]
        return t["s"]
    return None


# ------------------------------------------------------------------ dispatch
IDENT = {
    "<std::string::String as std::clone::Clone>::clone", "std::string::String::as_str",
    "<std::string::String as std::ops::Deref>::deref", "<std::string::String as std::ops::DerefMut>::deref_mut",
    "<std::vec::Vec<T, A> as std::ops::Deref>::deref", "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut",
    "<std::vec::Vec<T, A> as std::clone::Clone>::clone",
    "<std::string::String as std::convert::AsRef<str>>::as_ref",
    "<std::string::String as std::convert::From<&str>>::from",
    "std::str::<impl std::borrow::Borrow<str> for std::string::String>::borrow",
    "std::str::<impl std::borrow::ToOwned for str>::to_owned",
    "std::slice::<impl [T]>::to_vec", "std::hint::must_use", "std::convert::identity",
    "std::borrow::Cow::<'_, B>::into_owned", "std::borrow::Cow::<'a, B>::into_owned",
    "<std::borrow::Cow<'_, B> as std::ops::Deref>::deref", "<std::borrow::Cow<'_, T> as std::convert::AsRef<T>>::as_ref",
    "std::boxed::Box::<T>::new", "std::string::String::into_boxed_str", "std::vec::Vec::<T, A>::as_slice",
    "std::vec::Vec::<T, A>::as_mut_slice", "std::vec::Vec::<T>::into_boxed_slice",
    "uriparse::URI::<'uri>::into_owned", "<uriparse::URI<'uri> as std::clone::Clone>::clone",
    "core::str::<impl str>::as_bytes", "std::string::String::as_bytes", "std::string::String::into_bytes",
    "std::slice::<impl [T]>::into_vec", "std::str::<impl str>::into_string",
    "<std::string::String as std::convert::AsRef<[u8]>>::as_ref", "language_tags::LanguageTag::as_str",
    "<mime::Mime as std::convert::AsRef<str>>::as_ref", "language_tags::LanguageTag::into_string",
    "std::str::<impl str>::to_string", "core::str::<impl str>::as_str",
}
IDENT_TM = {("std::clone::Clone", "clone"), ("std::borrow::ToOwned", "to_owned"), ("std::ops::Deref", "deref"),
            ("std::ops::DerefMut", "deref_mut"), ("std::borrow::Borrow", "borrow"), ("std::borrow::BorrowMut", "borrow_mut")}

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def S1(n):
    return "core::str::<impl str>::" + n


class Ctx:
    __slots__ = ("E", "st", "fr", "bb", "desc", "args", "tys", "span", "retty", "_oldcur", "_oldph")

    def __init__(self, E, st, fr, bb, desc, args, tys, span, retty):
        self.E, self.st, self.fr, self.bb, self.desc = E, st, fr, bb, desc
        self.args, self.tys, self.span, self.retty = args, tys, span, retty

    def v(self, i):
        return self.E.deref(self.st, self.args[i])

    def uid(self):
        return uid(self.fr.fid, self.bb)

    def ret(self, v):
        return [(self.st, v)]

    def panic(self, what, proof, **d):
        self.E.ev("panic", self.fr, self.bb, self.span, self.st, what=what, proof=proof,
                  args=tuple(self.args), stack=tuple(self.fr.stack()), **d)

    def loc(self, i):
        a = self.args[i]
        if a.op == "ref":
            # reborrows of references
            while True:
                v = self.E.read(self.st, a.a[0], a.a[1])
                if v.op == "ref":
                    a = v
                else:
                    return a.a[0], a.a[1]
        return None

    def readloc(self, i):
        l = self.loc(i)
        if l is None:
            return self.args[i]
        return self.E.read(self.st, *l)

    def writeloc(self, i, v, kind="mutate", **d):
        l = self.loc(i)
        if l is None:
            self.E.lost.append((self.fr.fn["name"], self.desc.get("res"), self.span))
            return
        root, path = l
        last = path[-1] if path else None
        if last and last[0] not in ("e", "ss") and last[0] in self.E.p.adts and self.E.p.adts[last[0]]["local"]:
            self.E.ev("store", self.fr, self.bb, self.span, self.st, adt=last[0], field=last[3], vi=last[1],
                      value=v, old=self.E.read(self.st, root, path), root=root, path=path, how=kind, **d)
        else:
            for x in reversed(path):
                if x[0] not in ("e", "ss") and x[0] in self.E.p.adts and self.E.p.adts[x[0]]["local"]:
                    self.E.ev("touch", self.fr, self.bb, self.span, self.st, adt=x[0], field=x[3], vi=x[1], root=root, path=path, how=kind, **d)
                    break
        self.E.write(self.st, root, path, v)


def dispatch(E, st, fr, bb, desc, args, tys, span, retty):
    name = desc.get("res") or desc.get("decl")
    if desc.get("ctor"):
        vi = desc.get("vi", 0)
        ad = desc["ctor"]
        return [(st, agg(ad, vi, *args))]
    if desc.get("fnitem"):
        inner = desc["fnitem"]
        if isinstance(inner, dict):
            # Fn* call of a function item: (item, tuple)
            tup = E.deref(st, args[1]) if len(args) > 1 else UNIT
            if tup.op == "agg" and tup.a[0] == "tuple":
                a2 = list(tup.a[2:])
            else:
                a2 = [mk("fld", tup, 0, 0, "0", "tuple")]
            if inner.get("ctor"):
                v = agg(inner["ctor"], inner.get("vi", 0), *a2)
                from engine import transparent
                if transparent(inner["ctor"]):
                    v = a2[0]
                else:
                    a = E.p.adts.get(inner["ctor"])
                    if a and a["local"]:
                        E.ev("agg", fr, bb, span, st, adt=inner["ctor"], vi=inner.get("vi", 0), value=v)
                return [(st, v)]
            return E.invoke(st, fr, bb, inner, a2, None, span, retty)
    c = Ctx(E, st, fr, bb, desc, args, tys, span, retty)
    f = MODELS.get(name)
    if f is None and name and "::__private" in name:
        f = MODELS.get(re.sub(r"::__private\d+", "::__private", name))
    if f is not None:
        r = f(c)
        if r is not None:
            return r
    if name in IDENT:
        return [(st, ident(c))]
    tm = (desc.get("trait"), desc.get("m"))
    if tm in IDENT_TM:
        key = desc.get("key")
        fn = E.p.fns.get(key) if key else None
        if fn is None or tm[1] in ("clone",) and not fn["local"] or (fn["local"] and tm[1] == "clone"):
            return [(st, ident(c))]
    f = TMODELS.get(tm)
    if f is not None:
        r = f(c)
        if r is not None:
            return r
    # numeric parsing of opaque local types through FromStr / Display
    key = desc.get("key")
    fn = E.p.fns.get(key) if key else None
    if fn is not None and fn["local"] and E.opaque(desc, fn):
        return opaque_call(c, fn)
    # an overridden method of an iterator that is modelled: the trait's own definition of it
    key = desc.get("dflt")
    if key in E.p.fns and args and E.deref(st, args[0]).op == "it" and (desc.get("key") not in E.p.fns) and key not in list(E.keystack(fr)):
        return E.inline(st, fr, bb, key, args, desc)
    return None


def ident(c):
    a = c.args[0]
    if a.op == "ref":
        t = None
        # keep the pointer when a &mut is expected back
        if c.desc.get("m") in ("deref_mut", "borrow_mut", "as_mut", "as_mut_slice") or "mut" in (c.desc.get("res") or ""):
            return a
        return c.v(0)
    return a


def opaque_call(c, fn):
    E, st = c.E, c.st
    tm = (c.desc.get("trait"), c.desc.get("m"))
    ad = adt_of_self(E, fn)
    if tm == ("std::str::FromStr", "from_str"):
        t = call("parse:" + (ad or "?"), c.v(0))
        DISCR_OF.setdefault(t, mk("discr", t, RESULT))
        E.ev("opaque", c.fr, c.bb, c.span, st, callee=fn["name"], args=tuple(c.args), value=t)
        return [(st, t)]
    if tm[0] == "std::fmt::Display":
        out_append(c, 1, [mk("disp", ad, c.v(0))])
        return [(st, ok(UNIT))]
    vals = tuple(c.E.deref(st, a) for a in c.args)
    # mutable arguments are havocked
    mut = [i for i, a in enumerate(c.args) if is_mutref(c, i)]
    E.ev("opaque", c.fr, c.bb, c.span, st, callee=fn["name"], args=tuple(c.args), vals=vals)
    if mut:
        for i in mut:
            l = c.loc(i)
            if l:
                E.write(st, l[0], l[1], mk("icall", fn["name"], uidt(c.uid()), I(i)))
        t = mk("icall", fn["name"], uidt(c.uid()), *vals)
    else:
        t = call("fn:" + fn["name"], *vals)
    return [(st, t)]


def is_mutref(c, i):
    if c.args[i].op != "ref":
        return False
    if c.tys and i < len(c.tys):
        t = c.E.p.types[c.tys[i]]
        if t["k"] == "ref" and not t["mut"]:
            return False
    return True


def external(E, st, fr, bb, desc, args, tys, span, retty):
    name = desc.get("res") or desc.get("decl")
    c = Ctx(E, st, fr, bb, desc, args, tys, span, retty)
    E.externals[name] = E.externals.get(name, 0) + 1
    vals = tuple(E.deref(st, a) for a in args)
    E.ev("ext", fr, bb, span, st, callee=name, args=vals)
    if name.startswith(DIVERGE) or desc.get("tc") or PANICKY.search(name):
        if name not in NOPANIC:
            c.panic("call:" + name, None)
    mut = [i for i, a in enumerate(args) if is_mutref(c, i)]
    u = uidt(c.uid())
    if mut or name in IMPURE:
        for i in mut:
            l = c.loc(i)
            if l:
                E.write(st, l[0], l[1], mk("icall", name, u, I(i)))
        return [(st, mk("icall", name, u, *vals))]
    t = call(name, *vals)
    return [(st, t)]


DIVERGE = ("core::panicking", "std::rt::begin_panic", "std::option::unwrap_failed", "std::option::expect_failed",
           "std::result::unwrap_failed", "core::panic", "std::process::abort", "std::panicking")
PANICKY = re.compile(r"(split_at$|split_at_mut$|::remove$|::swap_remove$|::swap$|::drain$|copy_from_slice$|"
                     r"::expect$|::unwrap$|::insert_str$|split_off$|replace_range$|::truncate$|windows$|chunks$|chunks_exact$|"
                     r"::rem_euclid$|::div_euclid$|::pow$|from_digit$|step_by$|RefCell|copy_within$|rotate_left$|rotate_right$)")
NOPANIC = {"std::vec::Vec::<T, A>::truncate"}
IMPURE = {"time::OffsetDateTime::now_utc", "time::OffsetDateTime::now_local", "std::time::SystemTime::now",
          "std::time::Instant::now"}

TMODELS = {}


def tmodel(tr, m):
    def d(f):
        TMODELS[(tr, m)] = f
        return f
    return d


# ------------------------------------------------------------------ strings
@model("std::string::String::new", "<std::string::String as std::default::Default>::default")
def m_string_new(c):
    return c.ret(S(""))


@model("std::string::String::with_capacity")
def m_string_cap(c):
    return c.ret(S(""))


@model("std::vec::Vec::<T>::new", "<std::vec::Vec<T> as std::default::Default>::default", "std::vec::Vec::<T>::with_capacity")
def m_vec_new(c):
    return c.ret(mk("seq"))


@model("std::string::String::push_str", "std::string::String::push", "<std::string::String as std::ops::AddAssign<&str>>::add_assign")
def m_push_str(c):
    old = c.readloc(0)
    x = c.v(1)
    l = c.loc(0)
    c.E.ev("strpush", c.fr, c.bb, c.span, c.st, item=x, root=l[0] if l else None, path=l[1] if l else None, old=old)
    c.writeloc(0, mkcat([old, x]), "push_str")
    return c.ret(UNIT)


@model("<std::string::String as std::ops::Add<&str>>::add")
def m_string_add(c):
    return c.ret(mkcat([c.v(0), c.v(1)]))


for _t in ("usize", "u8", "u16", "u32", "u64"):
    def _mks(n):
        @model("core::num::<impl %s>::saturating_sub" % n)
        def f(c):
            a, b = c.v(0), c.v(1)
            E = c.E
            f = E.binop(c.st, "Lt", a, b)
            s1 = c.st.copy()
            out = []
            if E.assume(s1, f, 1):
                out.append((s1, I(0)))
            if E.assume(c.st, f, 0):
                out.append((c.st, E.binop(c.st, "Sub", a, b)))
            return out
    _mks(_t)


@model("std::string::String::clear", "std::vec::Vec::<T, A>::clear")
def m_clear(c):
    c.writeloc(0, S("") if "String" in c.desc["res"] else mk("seq"), "clear")
    return c.ret(UNIT)


def seqitems(v):
    if v.op == "seq":
        return v.a
    if v.op == "agg" and v.a[0] == "array":
        return v.a[2:]
    return (mk("spread", v),)


@model("std::vec::Vec::<T, A>::push")
def m_vec_push(c):
    old = c.readloc(0)
    x = c.args[1]
    root = c.loc(0)
    new = mk("seq", *(seqitems(old) + (x,)))
    c.E.ev("push", c.fr, c.bb, c.span, c.st, item=x, root=root[0] if root else None, path=root[1] if root else None)
    c.writeloc(0, new, "push", item=x)
    return c.ret(UNIT)


@model("std::vec::Vec::<T, A>::append")
def m_vec_append(c):
    old, other = c.readloc(0), c.readloc(1)
    c.writeloc(0, mk("seq", *(seqitems(old) + seqitems(other))), "append", item=other)
    l = c.loc(1)
    if l:
        c.E.write(c.st, l[0], l[1], mk("seq"))
    return c.ret(UNIT)


@model("std::vec::Vec::<T, A>::extend_from_slice")
def m_vec_efs(c):
    old, other = c.readloc(0), c.v(1)
    c.writeloc(0, mk("seq", *(seqitems(old) + seqitems(other))), "append", item=other)
    return c.ret(UNIT)


@model("std::vec::Vec::<T, A>::insert")
def m_vec_insert(c):
    old = c.readloc(0)
    x = c.args[2]
    i = c.args[1]
    pr = "index 0" if i.op == "c" and i.a[1] == 0 else None
    c.panic("Vec::insert", pr)
    if pr:
        new = mk("seq", *((x,) + seqitems(old)))
    else:
        new = mk("seq", mkstar(list(seqitems(old)) + [x]))
    c.writeloc(0, new, "push", item=x)
    return c.ret(UNIT)


@model("std::vec::Vec::<T, A>::pop")
def m_vec_pop(c):
    old = c.readloc(0)
    l = definite(old)
    if l is not None and old.op == "seq":
        if not l:
            return c.ret(NONE)
        c.writeloc(0, mk("seq", *l[:-1]), "pop")
        progress(c)
        return c.ret(some(l[-1]))
    out = []
    s1 = c.st.copy()
    e = mk("empty", old)
    if c.E.assume(s1, e, 1):
        out.append((s1, NONE))
    if c.E.assume(c.st, e, 0):
        c.writeloc(0, mk("icall", "pop-rest", uidt(c.uid()), old), "pop")
        progress(c)
        out.append((c.st, some(mk("elem", old, uidt(c.uid())))))
    return out


@model("core::str::<impl str>::len", "std::string::String::len", "std::vec::Vec::<T, A>::len", "core::slice::<impl [T]>::len")
def m_len(c):
    return c.ret(length(c.E, c.st, c.v(0)))


@model("core::str::<impl str>::is_empty", "std::string::String::is_empty", "std::vec::Vec::<T, A>::is_empty",
       "core::slice::<impl [T]>::is_empty")
def m_is_empty(c):
    t = mk("empty", c.v(0))
    v = c.E.evalf(c.st, t)
    return c.ret(I(v) if v is not None else t)


def caseview(x):
    y, case = ci_of(x)
    return x


@model(S1("starts_with"))
def m_starts(c):
    s, p = c.v(0), c.v(1)
    if s.op == "c" and p.op == "c" and isinstance(p.a[1], str):
        return c.ret(I(int(s.a[1].startswith(p.a[1]))))
    return c.ret(mk("starts", s, p))


@model(S1("ends_with"))
def m_ends(c):
    s, p = c.v(0), c.v(1)
    if s.op == "c" and p.op == "c" and isinstance(p.a[1], str):
        return c.ret(I(int(s.a[1].endswith(p.a[1]))))
    return c.ret(mk("ends", s, p))


@model(S1("contains"))
def m_contains(c):
    s, p = c.v(0), pattern(c, c.v(1))
    if s.op == "c" and p.op == "c" and isinstance(p.a[1], str):
        return c.ret(I(int(p.a[1] in s.a[1])))
    return c.ret(mk("contains", s, p))


def split_opt(c, formula, payload, some_val=1):
    """Option result guarded by a boolean formula."""
    E = c.E
    out = []
    v = E.evalf(c.st, formula)
    if v is not None:
        return c.ret(some(payload) if v == some_val else NONE)
    s1 = c.st.copy()
    if E.assume(s1, formula, 1 - some_val):
        out.append((s1, NONE))
    if E.assume(c.st, formula, some_val):
        out.append((c.st, some(payload)))
    return out


@model(S1("find"), S1("rfind"))
def m_find(c):
    s, p = c.v(0), pattern(c, c.v(1))
    op = "rfind" if c.desc["res"].endswith("rfind") else "find"
    if is_str(s) and is_str(p):
        k = getattr(s.a[1].encode(), op)(p.a[1].encode())
        return c.ret(some(I(k)) if k >= 0 else NONE)
    return split_opt(c, mk("contains", s, p), mk(op, s, p))


@model(S1("strip_prefix"))
def m_strip_prefix(c):
    s, p = c.v(0), c.v(1)
    pl = patlen(p)
    k = I(pl) if pl is not None else mk("len", p)
    if is_str(s) and is_str(p):
        return c.ret(some(S(s.a[1][len(p.a[1]):])) if s.a[1].startswith(p.a[1]) else NONE)
    return split_opt(c, mk("starts", s, p), mkslice(c.E, s, k, None))


@model(S1("strip_suffix"))
def m_strip_suffix(c):
    s, p = c.v(0), c.v(1)
    pl = patlen(p)
    k = I(pl) if pl is not None else mk("len", p)
    if is_str(s) and is_str(p):
        return c.ret(some(S(s.a[1][:len(s.a[1]) - len(p.a[1])])) if s.a[1].endswith(p.a[1]) else NONE)
    return split_opt(c, mk("ends", s, p), mkslice(c.E, s, None, mk("bin", "Sub", mk("len", s), k)))


@model(S1("split_once"))
def m_split_once(c):
    s, p = c.v(0), pattern(c, c.v(1))
    pos = mk("find", s, p)
    pl = patlen(p)
    k = I(pl) if pl is not None else mk("len", p)
    if is_str(s) and is_str(p):
        x = s.a[1].split(p.a[1], 1)
        return c.ret(some(agg("tuple", 0, S(x[0]), S(x[1]))) if len(x) == 2 else NONE)
    # the same pieces splitn(2, p) yields
    sp = mk("splitn", s, I(2), p)
    return split_opt(c, mk("contains", s, p), agg("tuple", 0, mk("elem", sp, I(0)), mk("elem", sp, I(1))))


@model("std::str::<impl str>::to_uppercase", "std::str::<impl str>::to_ascii_uppercase", "core::str::<impl str>::to_ascii_uppercase")
def m_upper(c):
    s = c.v(0)
    return c.ret(S(s.a[1].upper()) if s.op == "c" else call("upper", s))


@model("std::str::<impl str>::to_lowercase", "std::str::<impl str>::to_ascii_lowercase", "core::str::<impl str>::to_ascii_lowercase")
def m_lower(c):
    s = c.v(0)
    return c.ret(S(s.a[1].lower()) if s.op == "c" else call("lower", s))


@model(S1("eq_ignore_ascii_case"))
def m_eqic(c):
    a, b = c.v(0), c.v(1)
    if a.op == "c":
        a, b = b, a
    if b.op == "c":
        if a.op == "c":
            return c.ret(I(int(a.a[1].lower() == b.a[1].lower())))
        y, case = ci_of(a)
        return c.ret(mk("inset", mk("ci", y if y is not None else a), frozenset([b.a[1].upper()])))
    return c.ret(mk("eq", call("lower", a), call("lower", b)))


@model("std::str::<impl str>::replace")
def m_replace(c):
    a, b, d = c.v(0), c.v(1), c.v(2)
    if is_str(b) and a.op == "c" and d.op == "c" and isinstance(d.a[1], str):
        return c.ret(S(a.a[1].replace(b.a[1], d.a[1])))
    return c.ret(call("replace", a, b, d))


@model(S1("trim"), S1("trim_start"), S1("trim_end"), S1("trim_matches"), S1("trim_start_matches"), S1("trim_end_matches"))
def m_trim(c):
    return c.ret(call(c.desc["res"].split("::")[-1], *[c.v(i) for i in range(len(c.args))]))


def streq(c, neg=False):
    a, b = c.v(0), c.v(1)
    r = c.E.eqterm(c.st, a, b)
    return c.ret(c.E.notf(r) if neg else r)


@tmodel("std::cmp::PartialEq", "eq")
def m_eq(c):
    n = c.desc.get("res") or ""
    if c.desc.get("key") and c.desc["key"] in c.E.p.fns:
        return None
    return streq(c)


@tmodel("std::cmp::PartialEq", "ne")
def m_ne(c):
    if c.desc.get("key") and c.desc["key"] in c.E.p.fns:
        return None
    return streq(c, True)


@model("core::slice::<impl [T]>::contains")
def m_slice_contains(c):
    l, x = definite(c.v(0)), c.v(1)
    if l is None:
        return c.ret(mk("memb", c.v(0), x))
    if all(y.op == "c" for y in l):
        fs = [c.E.eqterm(c.st, x, y) for y in l]
        fs = [f for f in fs if f is not FALSE]
        if any(f is TRUE for f in fs):
            return c.ret(TRUE)
        if not fs:
            return c.ret(FALSE)
        if all(f.op == "inset" and f.a[0] is fs[0].a[0] for f in fs):
            s = frozenset()
            for f in fs:
                s |= f.a[1]
            return c.ret(mk("inset", fs[0].a[0], s))
        return c.ret(mk("or", *fs))
    if all(y.op == "agg" and len(y.a) == 2 and y.a[0] == l[0].a[0] for y in l):
        ad = l[0].a[0]
        if x.op == "agg":
            return c.ret(I(int(any(x is y for y in l))))
        ds = frozenset(c.E.discr(y).a[1] for y in l)
        return c.ret(mk("inset", c.E.discr(x, ad), ds))
    return c.ret(mk("memb", c.v(0), x))


@model(S1("parse"))
def m_parse(c):
    aux = c.desc.get("aux") or {}
    key = aux.get("key")
    fn = c.E.p.fns.get(key) if key else None
    s = c.v(0)
    if fn is not None:
        if not (fn["local"] and c.E.opaque(aux, fn)) and key not in list(c.E.keystack(c.fr)):
            return c.E.inline(c.st, c.fr, c.bb, key, [s])
        n = adt_of_self(c.E, fn)
        if not n:
            m2 = re.search(r"FromStr for ([\w:]+)", aux.get("res") or "")
            n = m2.group(1) if m2 else (aux.get("res") or "?")
        t = call("parse:" + n, s)
    else:
        m = re.match(r"^<(.*) as std::str::FromStr>::from_str$", aux.get("res") or "")
        n = m.group(1) if m else (aux.get("impl_self") or aux.get("res") or "?")
        m2 = re.match(r"^core::num::<impl std::str::FromStr for (\w+)>::from_str$", aux.get("res") or "")
        if m2:
            n = m2.group(1)
        m2 = re.search(r"FromStr for (\w+)>", aux.get("res") or "")
        if m2:
            n = m2.group(1)
        t = call("parse:" + n, s)
    DISCR_OF.setdefault(t, mk("discr", t, RESULT))
    return c.ret(t)


@tmodel("std::str::FromStr", "from_str")
def m_from_str(c):
    if c.desc.get("key") and c.desc["key"] in c.E.p.fns:
        return None
    n = c.desc.get("impl_self") or c.desc.get("res")
    m2 = re.search(r"FromStr for (\w+)>", c.desc.get("res") or "")
    if m2:
        n = m2.group(1)
    t = call("parse:" + str(n), c.v(0))
    DISCR_OF.setdefault(t, mk("discr", t, RESULT))
    return c.ret(t)


# splitting
PATTERNED = ("split", "splitn", "rsplit", "rsplitn", "split_terminator", "split_inclusive", "matches", "match_indices")


def pattern(c, p):
    """A closure as pattern: the characters it accepts, or its cases for a character and what it captured."""
    if p.op != "agg" or not p.a[0].startswith("closure:"):
        return p
    E = c.E
    key = p.a[0][len("closure:"):]
    fn = E.p.fns.get(key)
    caps = [E.deref(c.st, x) if x.op == "ref" else x for x in p.a[2:]]
    if fn is None or fn["argc"] != 2 or any(x.op == "ref" for y in caps for x in subterms(y)):
        return p
    k = (p.a[0],) + tuple(caps)
    if k not in E.patterns:
        E.patterns[k] = closure_cases(c, p, key, caps)
    t = E.patterns[k]
    if t is None:
        return p
    for x, y in zip(p.a[2:], caps):
        if x.op == "ref" and y.op == "c" and t.op == "cut" and any(z in t.a[0] for z in (y,)):
            # it may be changed by the closure later on
            E.write(c.st, x.a[0], x.a[1], mk("icall", "captured", uidt(c.uid())))
    return t


def closure_cases(c, p, key, caps):
    E, st = c.E, c.st.copy()
    ch = mk("sym", ("ch", 0))
    ints = [i for i, x in enumerate(caps) if is_c(x, "int")]
    root = ("H", c.fr.fid, c.bb, "cut")
    vals = list(caps)
    for j, i in enumerate(ints):
        vals[i] = mk("sym", ("int", j))
    args = []
    for i, x in enumerate(p.a[2:]):
        if x.op == "ref":
            st.mem[root + (i,)] = vals[i]
            args.append(mk("ref", root + (i,), ()))
        else:
            args.append(vals[i])
    st.mem[root] = agg(p.a[0], 0, *args)
    selfty = E.p.types[E.p.fns[key]["locals"][1][0]]
    me = mk("ref", root, ()) if selfty["k"] == "ref" else st.mem[root]
    ids = {}

    def hook(E, s, t, v):
        s.label(("part", "cut", ids.setdefault(t, len(ids)), repr(v)))
    saved, hooks, elems, ind = E.events, E.fact_hooks, E.elem_hooks, E.indelta
    facts0, iv0 = dict(st.facts), dict(st.iv)
    E.events, E.fact_hooks, E.elem_hooks, E.indelta = [], (hook,), (), True
    try:
        outs = E.inline(st, c.fr, c.bb, key, [me, agg("tuple", 0, ch)], {"closure": True})
    finally:
        E.events, E.fact_hooks, E.elem_hooks, E.indelta = saved, hooks, elems, ind
    cases, moved = set(), set()
    for s, v in outs:
        after = []
        for i, x in enumerate(p.a[2:]):
            y = s.mem.get(root + (i,)) if x.op == "ref" else E.read(s, root, ((p.a[0], 0, i, str(i)),))
            if i in ints:
                after.append(y)
                if y is not vals[i]:
                    moved.add(ints.index(i))
            elif y is not vals[i]:
                return None
        facts = tuple(sorted(((t, f) for t, f in s.facts.items() if facts0.get(t) != f), key=lambda x: (x[0].n, repr(x[1]))))
        ivs = tuple(sorted(((t, f) for t, f in s.iv.items() if iv0.get(t) != f), key=lambda x: (x[0].n, x[1])))
        if any(t.uids for t in after + [v] + [t for t, _ in facts + ivs]):
            return None
        cases.add((1, False, facts, ivs, (), (v,) + tuple(after)))
    if not moved:
        cs = accepted(cases, ch)
        if cs is not None:
            return cs
    return mk("cut", tuple(caps[i] for i in ints), tuple(sorted(cases, key=repr)))


def accepted(cases, ch):
    """The characters a closure without state accepts, if they are finitely many"""
    yes, no = set(), None
    for _, _, facts, ivs, _, (v, *_) in cases:
        if v.op == "inset" and v.a[0] is ch and len(cases) == 1 and not facts and not ivs:
            yes |= v.a[1]
            break
        if v.op != "c" or ivs or any(t is not ch for t, _ in facts):
            return None
        for _, f in facts:
            if v.a[1] == 1:
                if f[0] != "in":
                    return None
                yes |= f[1]
        if v.a[1] == 1 and not facts:
            return None
    if not yes:
        return None
    cs = sorted(yes)
    return C("char", cs[0]) if len(cs) == 1 else agg("array", 0, *[C("char", x) for x in cs])


def mkit(kind, src, pos=0):
    return mk("it", kind, src, pos)


def const_pieces(n, vs):
    """The pieces when the text and the pattern are constants."""
    s = vs[0]
    if s.op != "c" or not isinstance(s.a[1], str) or not all(x.op == "c" for x in vs[1:]):
        return None
    if n == "chars":
        return list(s.a[1])
    if n == "split" and is_str(vs[1]):
        return s.a[1].split(vs[1].a[1])
    if n == "splitn" and is_str(vs[2]) and vs[1].a[1] > 0:
        return s.a[1].split(vs[2].a[1], vs[1].a[1] - 1)
    return None


for _n in ("split", "splitn", "rsplit", "rsplitn", "split_terminator", "split_whitespace", "lines", "chars", "bytes",
           "char_indices", "split_inclusive", "split_ascii_whitespace", "matches", "match_indices"):
    def _mk(n):
        @model(S1(n))
        def f(c):
            vs = [c.v(i) for i in range(len(c.args))]
            ps = const_pieces(n, vs)
            if ps is not None:
                return c.ret(mkit("iter", mk("seq", *[S(x) for x in ps])))
            if n in PATTERNED:
                vs[-1] = pattern(c, vs[-1])
            return c.ret(mkit(n, mk(n, *vs)))
    _mk(_n)


@model("<str as unicode_segmentation::UnicodeSegmentation>::graphemes")
def m_graphemes(c):
    return c.ret(mkit("graphemes", mk("graphemes", c.v(0))))


@model("<str as unicode_segmentation::UnicodeSegmentation>::grapheme_indices")
def m_graphemes_idx(c):
    return c.ret(mkit("grapheme_indices", mk("graphemes", c.v(0))))


@model("core::slice::<impl [T]>::iter", "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
       "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter",
       "core::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter")
def m_iter(c):
    return c.ret(mkit("iter", c.v(0)))


@model("<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
       "core::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter", "std::array::<impl std::iter::IntoIterator for [T; N]>::into_iter",
       "std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter")
def m_into(c):
    return c.ret(mkit("into", c.v(0)))


@model("std::iter::once")
def m_once(c):
    return c.ret(mkit("into", mk("seq", c.args[0])))


@model("<std::vec::Vec<T> as std::convert::From<[T; N]>>::from", "<std::vec::Vec<T> as std::convert::From<&[T]>>::from",
       "<std::vec::Vec<T> as std::convert::From<&[T; N]>>::from")
def m_vec_from(c):
    d = definite(c.v(0))
    return c.ret(mk("seq", *d) if d is not None else c.v(0))


@model("core::slice::<impl [T]>::iter_mut", "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter")
def m_iter_mut(c):
    a = c.args[0]
    return c.ret(mkit("itermut", a))


FIRST_ALWAYS = ("split", "splitn", "rsplit", "rsplitn")


def progress(c):
    """The iterator in this location has moved towards its end."""
    l = c.loc(0)
    if l:
        c.st.label(("iter", l, 0))


RANGES = ("std::ops::Range", "std::ops::RangeInclusive", "std::ops::RangeFrom")


def over(E, st):
    """An iterator is exhausted."""
    for h in E.elem_hooks:
        h(E, st, None)


def got(E, st, x):
    """An iterator hands out an element."""
    for h in E.elem_hooks:
        h(E, st, x)
    return some(x)


def m_next(c):
    v = c.readloc(0)
    E, st = c.E, c.st
    if v.op == "agg" and v.a[0] in RANGES[:2]:
        # bounded integer ranges: the start moves towards the fixed end
        lo, hi = v.a[2], v.a[3]
        incl = v.a[0] == RANGES[1]
        E.ev("next", c.fr, c.bb, c.span, st, src=v, itkind="range", root=c.loc(0))
        cond = E.binop(st, "Le" if incl else "Lt", lo, hi)
        s1 = st.copy()
        out = []
        if E.assume(s1, cond, 0):
            out.append((s1, NONE))
        elif cond.op == "c" and not cond.a[1]:
            out.append((s1, NONE))
        if E.assume(st, cond, 1):
            if incl:
                # the last item ends the iteration
                s2 = st.copy()
                nx = agg(v.a[0], 0, E.binop(s2, "Add", lo, I(1)), hi, *v.a[4:])
            else:
                nx = agg(v.a[0], 0, E.binop(st, "Add", lo, I(1)), hi)
            c.writeloc(0, nx)
            progress(c)
            out.append((st, some(lo)))
        return out
    if v.op == "phi":
        # all sources are the same kind of iterator
        its = [x for x in E.phisrc.get(v, ()) if x.op == "it"]
        if its:
            v = mk("it", its[0].a[0], its[0].a[1] if all(x.a[1] is its[0].a[1] for x in its) else mk("elem", v, UNIT), "*")
    if v.op != "it":
        l = c.loc(0)
        if l:
            E.write(st, l[0], l[1], mk("icall", "next-state", uidt(c.uid())))
        t = mk("icall", "next", uidt(c.uid()), v)
        DISCR_OF[t] = mk("discr", t, OPTION)
        return c.ret(t)
    kind, src, pos = v.a
    E.ev("next", c.fr, c.bb, c.span, st, src=src, itkind=kind, root=c.loc(0))
    l = definite(src) if kind in ("iter", "into") else None
    if l is not None and isinstance(pos, int):
        if pos >= len(l):
            over(E, st)
            return c.ret(NONE)
        if len(l) <= 64:
            c.writeloc(0, mk("it", kind, src, pos + 1))
            progress(c)
            return c.ret(got(E, st, l[pos]))
    out = []
    if kind == "itermut":
        root, path = src.a[0], src.a[1]
        x = mk("ref", root, path + (("e", uidt(c.uid())),))
        s1 = st.copy()
        over(E, s1)
        out.append((s1, NONE))
        c.writeloc(0, mk("it", kind, src, "*"))
        progress(c)
        out.append((st, some(x)))
        return out
    if kind in ("iter", "into") and src in E.complete and isinstance(pos, int) and pos < 12:
        of = E.complete[src][0]
        out = []
        s1 = st.copy()
        if (pos or of.op not in FIRST_ALWAYS) and E.assume(s1, mk("more", of, I(pos)), 0):
            over(E, s1)
            out.append((s1, NONE))
        if (not pos and of.op in FIRST_ALWAYS) or E.assume(st, mk("more", of, I(pos)), 1):
            c.writeloc(0, mk("it", kind, src, pos + 1))
            progress(c)
            out.append((st, got(E, st, complete_elem(E, src, I(pos)))))
        return out
    base = src.a[0] if kind not in ("iter", "into") else src
    npos = pos + 1 if isinstance(pos, int) and pos < 12 else "*"
    limit = None
    if kind in ("splitn", "rsplitn") and src.a[1].op == "c":
        limit = src.a[1].a[1]
    has_none = True
    if pos == 0 and kind in FIRST_ALWAYS and limit != 0:
        has_none = False
    if limit is not None and isinstance(pos, int) and pos >= limit:
        over(E, st)
        return c.ret(NONE)
    if has_none:
        s1 = st.copy()
        okn = True
        if pos == 0 and kind in ("iter", "into", "chars", "bytes", "graphemes", "char_indices", "grapheme_indices"):
            okn = E.assume(s1, mk("empty", base), 1)
        if kind in ("split", "splitn") and pos == 1 and src.a[-1].op == "c":
            E.assume(s1, mk("contains", base, src.a[-1]), 0)
        elif kind in ("split", "splitn") and isinstance(pos, int) and pos:
            okn = E.assume(s1, mk("more", src, I(pos)), 0)
        if okn:
            over(E, s1)
            out.append((s1, NONE))
    if pos == 0 and kind in ("iter", "into", "chars", "bytes", "graphemes", "char_indices", "grapheme_indices"):
        if not E.assume(st, mk("empty", base), 0):
            return out
    if kind in ("split", "splitn") and pos == 1 and src.a[-1].op == "c":
        if not E.assume(st, mk("contains", base, src.a[-1]), 1):
            return out
    elif kind in ("split", "splitn") and isinstance(pos, int) and pos:
        if not E.assume(st, mk("more", src, I(pos)), 1):
            return out
    p = I(pos) if isinstance(pos, int) and pos < 12 else uidt(c.uid())
    if kind in ("chars", "bytes", "graphemes", "char_indices", "grapheme_indices", "lines"):
        p = uidt(c.uid())
    st.own()
    items = None
    if kind in ("iter", "into") and src.op == "seq":
        items = set()
        for y in src.a:
            if y.op == "star":
                items |= set(y.a[0])
            elif y.op == "spread":
                items.add(mk("elem", y.a[0], uidt(c.uid())))
            else:
                items.add(y)
        if len(items) > 8:
            items = None
    c.writeloc(0, mk("it", kind, src, npos))
    progress(c)
    if items:
        its = sorted(items, key=lambda t: t.n)
        for y in its[:-1]:
            s2 = st.copy()
            out.append((s2, got(E, s2, instantiate(E, y, c.uid()))))
        out.append((st, got(E, st, instantiate(E, its[-1], c.uid()))))
        return out
    x = mk("elem", src, p)
    if kind in ("char_indices", "grapheme_indices"):
        x = agg("tuple", 0, mk("cidx", base, p), mk("elem", mk("chars" if kind == "char_indices" else "graphemes", base), p))
    if kind == "graphemes":
        st.facts[mk("empty", x)] = ("in", frozenset([0]))
    out.append((st, got(E, st, x)))
    return out


@tmodel("std::iter::Iterator", "next")
def t_next(c):
    if c.desc.get("lexer") or "logos::Lexer" in (c.desc.get("res") or ""):
        return m_lex_next(c)
    if c.desc.get("key") and c.desc["key"] in c.E.p.fns and c.readloc(0).op != "it":
        return None
    return m_next(c)


@tmodel("std::iter::DoubleEndedIterator", "next_back")
def t_next_back(c):
    if c.desc.get("key") and c.desc["key"] in c.E.p.fns:
        return None
    v = c.readloc(0)
    if v.op == "agg" and v.a[0] == RANGES[0]:
        E, st = c.E, c.st
        cond = E.binop(st, "Lt", v.a[2], v.a[3])
        s1, out = st.copy(), []
        if E.assume(s1, cond, 0):
            out.append((s1, NONE))
        if E.assume(st, cond, 1):
            last = E.binop(st, "Sub", v.a[3], I(1))
            c.writeloc(0, agg(v.a[0], 0, v.a[2], last))
            progress(c)
            out.append((st, some(last)))
        return out
    if v.op == "it":
        l = definite(v.a[1]) if v.a[0] in ("iter", "into") else None
        if l is not None and not l:
            return c.ret(NONE)
        src = v.a[1]
        c.E.ev("next", c.fr, c.bb, c.span, c.st, src=src, itkind=v.a[0], root=c.loc(0))
        s1 = c.st.copy()
        c.writeloc(0, mk("it", v.a[0], src, "*"))
        progress(c)
        return [(s1, NONE), (c.st, some(mk("elem", src, mk("fromend", uidt(c.uid())))))]
    return None


@tmodel("std::iter::Iterator", "size_hint")
def t_size_hint(c):
    return c.ret(agg("tuple", 0, I(0), NONE))


@model("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::last")
def m_first(c):
    v = c.v(0)
    l = definite(v)
    last = c.desc["res"].endswith("last")
    if l is not None:
        return c.ret(some(l[-1 if last else 0]) if l else NONE)
    x = mk("elem", v, mk("fromend", I(1))) if last else index_elem(c.E, c.st, v, I(0))
    return split_opt(c, mk("empty", v), x, some_val=0)


@model("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut")
def m_get(c):
    mut = c.desc["res"].endswith("mut")
    i = c.v(1)
    v = c.v(0)
    if i.op == "agg":
        t = call("slice.get", v, i)
        DISCR_OF[t] = mk("discr", t, OPTION)
        return c.ret(t)
    f = c.E.binop(c.st, "Lt", i, length(c.E, c.st, v))
    if mut and c.args[0].op == "ref":
        a = c.args[0]
        while True:
            w = c.E.read(c.st, a.a[0], a.a[1])
            if w.op == "ref":
                a = w
            else:
                break
        x = mk("ref", a.a[0], a.a[1] + (("e", i),))
    else:
        x = index_elem(c.E, c.st, v, i)
    return split_opt(c, f, x)


@model("core::slice::<impl [T]>::split_first", "core::slice::<impl [T]>::split_last")
def m_split_first(c):
    v = c.v(0)
    return split_opt(c, mk("empty", v), agg("tuple", 0, index_elem(c.E, c.st, v, I(0)), mk("subslice", v, 1, 0, True)), some_val=0)


def range_parts(v):
    if v.op != "agg":
        return None
    n = v.a[0].split("::")[-1]
    if n == "Range":
        return v.a[2], v.a[3]
    if n == "RangeFrom":
        return v.a[2], None
    if n == "RangeTo":
        return None, v.a[2]
    if n == "RangeFull":
        return None, None
    if n == "RangeInclusive":
        return v.a[2], mk("bin", "Add", v.a[3], I(1))
    if n == "RangeToInclusive":
        return None, mk("bin", "Add", v.a[2], I(1))
    return None


@model("core::str::traits::<impl std::ops::Index<I> for str>::index", "<std::string::String as std::ops::Index<I>>::index")
def m_str_index(c):
    s, r = c.v(0), c.v(1)
    ab = range_parts(r)
    if ab is None:
        if r.op == "fld" or r.op in ("phi", "elem", "call", "icall"):
            ab = mk("fld", r, 0, 0, "start", RANGE), mk("fld", r, 0, 1, "end", RANGE)
        else:
            c.panic("slice", None, why="unknown range %s" % show(r))
            return c.ret(mk("slice", s, r, mk("open")))
    a, b = ab
    c.E.ev("slice", c.fr, c.bb, c.span, c.st, s=s, a=a, b=b)
    if a is not None or b is not None:
        proof, why = prove_slice(c.E, c.st, s, a, b)
        c.panic("slice", proof, why=why, s=s, a=a, b=b)
    return c.ret(mkslice(c.E, s, a, b))


@model(S1("get"))
def m_str_get(c):
    s, r = c.v(0), c.v(1)
    ab = range_parts(r)
    if ab is None:
        t = call("str.get", s, r)
        DISCR_OF[t] = mk("discr", t, OPTION)
        return c.ret(t)
    x = mkslice(c.E, s, *ab)
    c.E.ev("slice", c.fr, c.bb, c.span, c.st, s=s, a=ab[0], b=ab[1])
    proof, why = prove_slice(c.E, c.st, s, *ab)
    if proof:
        return c.ret(some(x))
    return split_opt(c, mk("pred", "sliceable", s, r), x)


@model("<std::vec::Vec<T, A> as std::ops::Index<I>>::index", "core::slice::index::<impl std::ops::Index<I> for [T]>::index",
       "<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut", "core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut")
def m_vec_index(c):
    v, i = c.v(0), c.v(1)
    mut = "IndexMut" in c.desc["res"]
    if i.op == "agg":
        ab = range_parts(i)
        c.panic("slice", "full" if ab == (None, None) else None, why="vector range")
        return c.ret(v if ab == (None, None) else mk("subslice", v, show(i), 0, False))
    f = c.E.binop(c.st, "Lt", i, length(c.E, c.st, v))
    k = c.E.evalf(c.st, f) if f.op != "c" else f.a[1]
    proof = "bounds" if k == 1 else None
    if not proof and i.op == "c" and i.a[1] == 0 and c.E.evalf(c.st, mk("empty", v)) == 0:
        proof = "not empty"
    c.panic("index", proof, why="index %s of %s" % (show(i), show(v)))
    if f.op != "c":
        c.E.assume(c.st, f, 1)
    if mut:
        l = c.loc(0)
        if l:
            return c.ret(mk("ref", l[0], l[1] + (("e", i),)))
    return c.ret(index_elem(c.E, c.st, v, i))


@model("std::slice::<impl [T]>::join", "std::slice::<impl [T]>::concat")
def m_join(c):
    v = c.v(0)
    sep = c.v(1) if len(c.args) > 1 else S("")
    l = definite(v)
    if l is not None and sep.op == "c":
        out = []
        for i, x in enumerate(l):
            if i:
                out.append(sep)
            out.append(x)
        return c.ret(mkcat(out))
    return c.ret(call("join", v, sep))


@model("core::char::methods::<impl char>::len_utf8", "std::char::methods::<impl char>::len_utf8")
def m_len_utf8(c):
    v = c.v(0)
    if v.op == "c":
        return c.ret(I(len(v.a[1].encode())))
    return c.ret(call("len_utf8", v))


# ------------------------------------------------------------------ collect / extend
@tmodel("std::iter::FromIterator", "from_iter")
def m_from_iter(c):
    aux = c.desc.get("aux")
    res = c.desc.get("res") or ""
    if c.desc.get("key") and c.desc["key"] in c.E.p.fns and "Vec" not in res and "String" not in res:
        return None
    string = "String as" in res
    if "Vec<" not in res and not string:
        return None
    outs = drain(c, c.args[0], aux, string)
    if outs is None:
        return c.ret(mk("icall", "collect", uidt(c.uid()), c.v(0)))
    r = []
    for st, items in outs:
        r.append((st, mkcat(items) if string else mk("seq", *items)))
    return r


@tmodel("std::iter::Extend", "extend")
def m_extend(c):
    aux = c.desc.get("aux")
    res = c.desc.get("res") or ""
    outs = None
    if "String as" in res or "Vec<" in res:
        outs = drain(c, c.args[1], aux, "String as" in res)
    old = c.readloc(0)
    if outs is None:
        c.writeloc(0, mk("icall", "extend", uidt(c.uid()), old, c.v(1)), "append", item=c.v(1))
        return c.ret(UNIT)
    r = []
    for st, items in outs:
        c2 = Ctx(c.E, st, c.fr, c.bb, c.desc, c.args, c.tys, c.span, c.retty)
        if "String as" in res:
            c2.writeloc(0, mkcat([old] + items), "push_str")
        else:
            c2.writeloc(0, mk("seq", *(seqitems(old) + tuple(items))), "append", item=mk("seq", *items))
        r.append((st, UNIT))
    return r


def drain(c, itv, aux, string=False):
    """All items an iterator yields: list of (state, items) or None."""
    E = c.E
    itv = E.deref(c.st, itv)
    if aux is None:
        return None
    if itv.op == "seq":
        return [(c.st, list(itv.a))]
    if aux.get("m") == "into_iter":
        # Extend: the aux is IntoIterator
        itv2 = itv
        if itv.op in ("agg",) and itv.a[0] == "array":
            return [(c.st, list(itv.a[2:]))]
        if itv.op == "it" and aux.get("key") is None:
            d = definite(itv.a[1])
            if d is not None and itv.a[2] == 0:
                return [(c.st, d)]
            return [(c.st, [mkstar([mk("elem", itv.a[1], uidt(c.uid()))])])]
        if itv.op not in ("it", "agg"):
            return [(c.st, [mk("spread", itv)])]
        return None
    if itv.op == "it" and itv.a[0] in ("iter", "into") and itv.a[2] == 0 and not aux.get("key"):
        return [(c.st, list(seqitems(itv.a[1])))]
    root = ("H", c.fr.fid, c.bb)
    c.st.mem[root] = itv
    ref = mk("ref", root, ())
    sure = wholly(c, itv, aux)
    if sure:
        # one generic part stands for all
        it, = {x for x in subterms(itv) if x.op == "it"}
        c.st.mem[root] = replaced(itv, it, mk("it", it.a[0], it.a[1], "*"))
    done = []
    cur = [(c.st, [])]
    node = (c.fr.fid, c.bb, ("drain",))
    rounds = 0
    acc = None          # accumulated (state, star items)
    while cur and rounds < 70:
        rounds += 1
        nxt = []
        for st, items in cur:
            for s2, v in E.invoke(st, c.fr, c.bb, aux, [ref], None, c.span):
                if v.op != "agg":
                    sN = s2.copy()
                    done.append((sN, items))
                    nxt.append((s2, items, mk("fld", v, 1, 0, "0", OPTION)))
                elif v.a[1] == 0:
                    done.append((s2, items))
                else:
                    nxt.append((s2, items, v.a[2]))
        for s2, _, x in nxt:
            E.ev("strpush" if string else "gather", c.fr, c.bb, c.span, s2, item=x, root=None, path=None, old=None)
        if not nxt:
            break
        constit = any(x.op == "it" and (it_const(x) or E.prefixes and isinstance(x.a[2], int) and x.a[2] < 6) for s, _, _ in nxt for x in subterms(s.mem[root]))
        if constit:
            cur = [(s, it + [x]) for s, it, x in nxt]
            if len(cur) > 40:
                constit = False
        if not constit:
            # merge into one state with a star and repeat until stable
            js, star = None, []
            for s, it, x in nxt:
                star += [y for y in it] + [x]
                js = s if js is None else E.join(js, s, node)
            st2 = mkstar(star)
            if acc is not None and acc[1] is st2 and rounds > 2:
                break
            if rounds > 6:
                break
            acc = (js, st2)
            cur = [(js.copy(), [st2])]
    # merge final states: those that read the list to its end apart from the others
    fin = {}
    for s, items in done:
        s.mem.pop(root, None)
        k = (("part", "iopen") in s.may, tuple(items), E.parts_of(s) if E.prefixes else None)
        fin[k] = s if k not in fin else E.join(fin[k], s, node)
    outs = []
    for part in (False, True):
        own = [(s, list(k[1])) for k, s in fin.items() if k[0] == part]
        if len(own) > 1 and not E.prefixes and any(x.op == "star" for _, it in own for x in it):
            # drop prefixes subsumed by the star version
            js, star = None, []
            for s, it in own:
                star += it
                js = s if js is None else E.join(js, s, node)
            own = [(js, [mkstar(star)] if star else [])]
        outs += own
    if sure and len(outs) == 1 and len(outs[0][1]) == 1 and outs[0][1][0].op == "star" and len(outs[0][1][0].a[0]) == 1:
        x, = outs[0][1][0].a[0]
        els = {y for y in subterms(x) if y.op == "elem" and y.a[0] is sure}
        if len(els) == 1:
            el, = els
            if x.uids <= el.uids:
                E.complete[mk("seq", outs[0][1][0])] = (sure, el, x)
    return outs


def wholly(c, itv, aux):
    """The split this iterator reads if it hands out one element for each part, else None."""
    its = {x for x in subterms(itv) if x.op == "it"}
    if len(its) != 1:
        return None
    it, = its
    if it.a[0] not in ("split", "splitn") or it.a[2] != 0:
        return None
    E, st = c.E, c.st.copy()
    root = ("H", c.fr.fid, c.bb, "once")
    st.mem[root] = replaced(itv, it, mk("it", it.a[0], it.a[1], "*"))

    def took(E, s, x):
        s.label(("took1" if not any(l[0] == "took1" for l in s.must) else "took2", x))
    saved, elems, ind = E.events, E.elem_hooks, E.indelta
    E.events, E.elem_hooks, E.indelta = [], (took,), True
    try:
        outs = E.invoke(st, c.fr, c.bb, aux, [mk("ref", root, ())], None, c.span)
    finally:
        E.events, E.elem_hooks, E.indelta = saved, elems, ind
    for s, v in outs:
        now = s.mem.get(root, UNIT)
        for x in subterms(now):
            if x.op == "it" and x.a[1] is it.a[1]:
                now = replaced(now, x, it)
        if now is not itv and v.op == "agg" and v.a[1]:
            # something else changes with every element
            return None
        t = [l for l in s.must if l[0] in ("took1", "took2")]
        if len(t) != 1 or t[0][0] != "took1" or v.op != "agg" or (v.a[1] == 0) != (t[0][1] is None) or any(l[0] == "took2" for l in s.may):
            return None
    return it.a[1]


# ------------------------------------------------------------------ option / result helpers kept in MIR; mem
@model("std::mem::take", "std::mem::replace", "std::option::Option::<T>::take", "std::option::Option::<T>::replace")
def m_take(c):
    n = c.desc["res"]
    old = c.readloc(0)
    if n.endswith("Option::<T>::take"):
        new = NONE
        old2 = old
    elif n.endswith("Option::<T>::replace"):
        new = some(c.args[1])
    elif n.endswith("replace"):
        new = c.args[1]
    else:
        l = c.loc(0)
        ty = c.E.p.types[c.retty]["s"] if c.retty is not None else ""
        if ty.startswith("std::vec::Vec"):
            new = mk("seq")
        elif ty == "std::string::String":
            new = S("")
        elif ty.startswith("std::option::Option"):
            new = NONE
        else:
            return None
    c.writeloc(0, new, "take")
    return c.ret(old)


@model("std::mem::swap")
def m_swap(c):
    a, b = c.readloc(0), c.readloc(1)
    c.writeloc(0, b)
    c.writeloc(1, a)
    return c.ret(UNIT)


@model("std::mem::drop", "std::mem::forget")
def m_drop(c):
    return c.ret(UNIT)


@model("std::option::Option::<T>::insert")
def m_opt_insert(c):
    c.writeloc(0, some(c.args[1]), "insert")
    l = c.loc(0)
    return c.ret(mk("ref", l[0], l[1] + ((OPTION, 1, 0, "0"),)) if l else c.args[1])


@tmodel("std::default::Default", "default")
def m_default(c):
    res = c.desc.get("res") or ""
    if c.desc.get("key") and c.desc["key"] in c.E.p.fns:
        return None
    if "Vec" in res:
        return c.ret(mk("seq"))
    if "String" in res or "&str" in res:
        return c.ret(S(""))
    if "Option" in res:
        return c.ret(NONE)
    if "bool" in res or re.search(r"for [ui]\w+>", res):
        return c.ret(I(0))
    return None


# vec![..]
@model("std::boxed::Box::<T>::new_uninit", "std::boxed::Box::<T>::new_uninit_slice")
def m_box_uninit(c):
    root = ("H", c.fr.fid, c.bb)
    c.st.mem[root] = mk("undef")
    return c.ret(mk("ref", root, ()))


@model("std::boxed::box_assume_init_into_vec_unsafe")
def m_box_vec(c):
    v = c.v(0)
    l = definite(v)
    if c.args[0].op == "ref":
        c.st.mem.pop(c.args[0].a[0], None)
    return c.ret(mk("seq", *l) if l is not None else v)


# ------------------------------------------------------------------ formatting
@model("core::fmt::rt::Argument::<'_>::new_display")
def m_new_display(c):
    outs = []
    for s, items in render(c.E, c.st, c.fr, c.bb, c.desc.get("aux") or {}, c.args[0], c.span):
        outs.append((s, mk("fmtarg", *items) if items is not None else mk("fmterr")))
    return outs


@model("core::fmt::rt::Argument::<'_>::new_debug", "core::fmt::rt::Argument::<'_>::new_lower_hex",
       "core::fmt::rt::Argument::<'_>::new_upper_hex")
def m_new_debug(c):
    return c.ret(mk("fmtarg", mk("dbg", "?", c.v(0))))


@model("std::fmt::Arguments::<'a>::new")
def m_args_new(c):
    t = c.v(0)
    a = c.v(1)
    if t.op != "c" or a.op != "agg":
        return c.ret(mk("fmtargs", mk("fmtunknown", t, a)))
    v = json.loads(t.a[1])
    bs = v if isinstance(v, list) else bytes.fromhex(v) if isinstance(v, str) else []
    items = []
    for p in parse_template(bytes(bs)):
        if p[0] == "lit":
            items.append(S(p[1]))
        else:
            x = a.a[2 + p[1]]
            if x.op == "fmterr":
                return c.ret(mk("fmterr"))
            if x.op == "fmtarg":
                if p[2]:
                    items.append(mk("fmtspec", S(p[2]), *x.a))
                else:
                    items.extend(x.a)
            else:
                items.append(mk("fmtunknown", x))
    return c.ret(mk("fmtargs", *items))


@model("std::fmt::Arguments::<'a>::from_str")
def m_args_from_str(c):
    return c.ret(mk("fmtargs", c.v(0)))


def out_append(c, i, items):
    """Append items to the output of formatter argument i."""
    l = c.loc(i)
    root = ("OUT", l[0] if l else "?")
    old = c.st.mem.get(root, mk("cat"))
    new = mkcat(list(items_of(old)) + list(items))
    if new.op != "cat":
        new = mk("cat", *items_of(new))
    c.st.mem[root] = new
    c.E.ev("out", c.fr, c.bb, c.span, c.st, items=tuple(items), root=root)


@model("std::fmt::Formatter::<'a>::write_fmt", "<std::fmt::Formatter<'_> as std::fmt::Write>::write_fmt")
def m_write_fmt(c):
    a = c.v(1)
    if a.op == "fmterr":
        return c.ret(err(agg("std::fmt::Error", 0)))
    out_append(c, 0, a.a if a.op == "fmtargs" else [a])
    return c.ret(ok(UNIT))


@model("std::fmt::Formatter::<'a>::write_str", "std::fmt::Formatter::<'a>::pad", "<std::fmt::Formatter<'_> as std::fmt::Write>::write_str")
def m_write_str(c):
    out_append(c, 0, [c.v(1)])
    return c.ret(ok(UNIT))


@model("<std::fmt::Formatter<'_> as std::fmt::Write>::write_char", "std::fmt::Formatter::<'a>::write_char")
def m_write_char(c):
    v = c.v(1)
    out_append(c, 0, [S(v.a[1]) if v.op == "c" else v])
    return c.ret(ok(UNIT))


@model("<str as std::fmt::Display>::fmt", "<std::string::String as std::fmt::Display>::fmt", "<char as std::fmt::Display>::fmt")
def m_str_fmt(c):
    out_append(c, 1, [c.v(0)])
    return c.ret(ok(UNIT))


@tmodel("std::fmt::Display", "fmt")
def m_disp_fmt(c):
    key = c.desc.get("key")
    if key and key in c.E.p.fns:
        return None
    r = []
    for s, items in render(c.E, c.st, c.fr, c.bb, c.desc, c.args[0], c.span):
        c2 = Ctx(c.E, s, c.fr, c.bb, c.desc, c.args, c.tys, c.span, c.retty)
        if items is None:
            r.append((s, err(agg("std::fmt::Error", 0))))
        else:
            out_append(c2, 1, items)
            r.append((s, ok(UNIT)))
    return r


# fmt::Write for String: write!(s, ..)
@model("<std::string::String as std::fmt::Write>::write_str")
def m_sw_str(c):
    c.writeloc(0, mkcat([c.readloc(0), c.v(1)]), "push_str")
    return c.ret(ok(UNIT))


@model("<std::string::String as std::fmt::Write>::write_char")
def m_sw_char(c):
    c.writeloc(0, mkcat([c.readloc(0), c.v(1)]), "push_str")
    return c.ret(ok(UNIT))


@model("std::fmt::Write::write_fmt", "<std::string::String as std::fmt::Write>::write_fmt", "<W as std::fmt::Write::write_fmt::SpecWriteFmt>::spec_write_fmt")
def m_sw_fmt(c):
    a = c.v(1)
    if a.op == "fmterr":
        return c.ret(err(agg("std::fmt::Error", 0)))
    l = c.loc(0)
    if l is not None:
        root = ("OUT", l[0])
        if root in c.st.mem or (l[0][0] in ("O", "F") and not is_strterm(c.readloc(0))):
            out_append(c, 0, a.a if a.op == "fmtargs" else [a])
            return c.ret(ok(UNIT))
    c.writeloc(0, mkcat([c.readloc(0)] + list(a.a if a.op == "fmtargs" else [a])), "push_str")
    return c.ret(ok(UNIT))


@model("std::fmt::format")
def m_format(c):
    a = c.v(0)
    if a.op == "fmterr":
        c.panic("format!: Display returned an error", None)
        return []
    return c.ret(mkcat(a.a if a.op == "fmtargs" else [a]))


@model("<T as std::string::ToString>::to_string")
def m_to_string(c):
    aux = c.desc.get("aux") or {}
    outs = []
    for s, items in render(c.E, c.st, c.fr, c.bb, aux, c.args[0], c.span):
        if items is None:
            c2 = Ctx(c.E, s, c.fr, c.bb, c.desc, c.args, c.tys, c.span, c.retty)
            c2.panic("to_string: Display returned an error", None)
            continue
        outs.append((s, mkcat(items)))
    return outs


# ------------------------------------------------------------------ logos
@model("logos::Logos::lexer")
def m_lexer(c):
    s = c.v(0)
    return c.ret(mk("lexer", s, mk("nocur")))


def lexval(c, i=0):
    v = c.readloc(i)
    return v


@model("<logos::Lexer<'source, Token> as std::iter::Iterator>::next")
def m_lex_next(c):
    v = lexval(c)
    src = v.a[0] if v.op == "lexer" else call("lexsrc", v)
    t = mk("tok", src, uidt(c.uid()))
    DISCR_OF[t] = mk("discr", t, RESULT)
    inner = mk("fld", t, 0, 0, "0", RESULT)
    DISCR_OF.setdefault(inner, mk("discr", inner, c.E.tokadt))
    c.E.ev("next", c.fr, c.bb, c.span, c.st, src=src, itkind="lexer", root=c.loc(0))
    l = c.loc(0)
    s1 = c.st.copy()
    if l:
        c.E.write(s1, l[0], l[1], mk("lexer", src, mk("eof", src, uidt(c.uid()))))
        c.E.write(c.st, l[0], l[1], mk("lexer", src, t))
        progress(c)
    c._oldcur = v.a[1] if v.op == "lexer" else None
    for h in getattr(c.E, "lex_hooks", ()):
        h(c, s1, None)
        if h(c, c.st, t) is False:
            # nothing follows the end of the text
            return [(s1, NONE)]
    return [(s1, NONE), (c.st, some(t))]


@model("logos::Lexer::<'source, Token>::span")
def m_span(c):
    v = lexval(c)
    cur = v.a[1] if v.op == "lexer" else call("lexcur", v)
    return c.ret(agg(RANGE, 0, mk("tstart", cur), mk("tend", cur)))


@model("logos::Lexer::<'source, Token>::slice")
def m_slice(c):
    v = lexval(c)
    cur = v.a[1] if v.op == "lexer" else call("lexcur", v)
    return c.ret(mk("tslice", cur))


@model("logos::Lexer::<'source, Token>::source")
def m_source(c):
    v = lexval(c)
    return c.ret(v.a[0] if v.op == "lexer" else call("lexsrc", v))


@model("logos::Lexer::<'source, Token>::remainder")
def m_remainder(c):
    v = lexval(c)
    if v.op == "lexer":
        return c.ret(mkslice(c.E, v.a[0], mk("tend", v.a[1]), None))
    return c.ret(call("lexrem", v))


@model("logos::Lexer::<'source, Token>::bump")
def m_bump(c):
    v = lexval(c)
    src = v.a[0] if v.op == "lexer" else call("lexsrc", v)
    cur = v.a[1] if v.op == "lexer" else call("lexcur", v)
    n = c.v(1)
    proof = None
    if cur.op == "nocur":
        if n.op == "c" and n.a[1] == 0:
            proof = "zero"
        elif n.op == "fld" and n.a[0].op == "sym":
            proof = "field:" + n.a[3]
    c.panic("bump", proof, why="lexer moved by %s" % show(n), n=n)
    c.E.ev("bump", c.fr, c.bb, c.span, c.st, n=n, src=src)
    c.writeloc(0, mk("lexer", src, mk("bumped", src, n, uidt(c.uid()))))
    return c.ret(UNIT)


# ------------------------------------------------------------------ aho-corasick
@model("aho_corasick::AhoCorasick::new")
def m_aho(c):
    p = c.v(0)
    l = definite(p)
    if l is not None and all(x.op == "c" for x in l):
        return c.ret(ok(mk("aho", p)))
    t = mk("call", "aho_corasick::AhoCorasick::new", p)
    DISCR_OF[t] = mk("discr", t, RESULT)
    return c.ret(t)


@model("aho_corasick::AhoCorasick::replace_all")
def m_replace_all(c):
    ac, s, r = c.v(0), c.v(1), c.v(2)
    rl = definite(r)
    proof = None
    if ac.op == "aho":
        pl = definite(ac.a[0])
        if rl is not None and pl is not None and len(pl) == len(rl):
            proof = "table lengths agree"
    if ac.op == "fld" and False:
        pass
    c.panic("replace_all", proof, why="pattern and replacement tables differ in length")
    return c.ret(call("replace_all", s, ac.a[0] if ac.op == "aho" else ac, r))


# ------------------------------------------------------------------ time
@model("time::format_description::parse", "time::format_description::parse_borrowed")
def m_fd(c):
    p = c.v(0)
    if p.op == "c" and fd_valid(p.a[1]):
        return c.ret(ok(mk("fd", p)))
    t = call("time::format_description::parse", p)
    DISCR_OF[t] = mk("discr", t, RESULT)
    return c.ret(t)


FD_COMP = {"year", "month", "day", "hour", "minute", "second", "offset_hour", "offset_minute", "offset_second", "ordinal",
           "week_number", "weekday", "period", "subsecond", "unix_timestamp"}


def fd_components(s):
    return [x.split()[0] if x.split() else "" for x in re.findall(r"\[([^\[\]]*)\]", s)]


def fd_valid(s):
    rest = re.sub(r"\[[^\[\]]*\]", "", s)
    if "[" in rest or "]" in rest or "\\" in s:
        return False
    return all(x in FD_COMP for x in fd_components(s))


@model("time::OffsetDateTime::now_utc")
def m_now(c):
    c.E.ev("clock", c.fr, c.bb, c.span, c.st, callee="now_utc")
    return c.ret(mk("icall", "now_utc", uidt(c.uid())))


@model("std::intrinsics::discriminant_value", "std::mem::discriminant")
def m_discr(c):
    v = c.v(0)
    ty = c.E.types.get(v)
    ad = None
    if ty is not None and c.E.p.types[ty]["k"] == "adt":
        ad = c.E.p.types[ty]["adt"]
    return c.ret(c.E.discr(v, ad))


@model("std::ops::RangeInclusive::<Idx>::new")
def m_ri(c):
    return c.ret(agg("std::ops::RangeInclusive", 0, c.args[0], c.args[1], FALSE))


@model("std::ops::RangeInclusive::<Idx>::contains", "std::ops::Range::<Idx>::contains", "std::ops::RangeFrom::<Idx>::contains",
       "std::ops::RangeToInclusive::<Idx>::contains", "std::ops::RangeTo::<Idx>::contains")
def m_rcontains(c):
    r, x = c.v(0), c.v(1)
    if r.op != "agg":
        return c.ret(mk("pred", "range.contains", r, x))
    n = r.a[0].split("::")[-1]
    fs = []
    E = c.E
    if n in ("RangeInclusive", "Range", "RangeFrom"):
        fs.append(E.binop(c.st, "Le", r.a[2], x))
    if n == "Range":
        fs.append(E.binop(c.st, "Lt", x, r.a[3]))
    if n == "RangeInclusive":
        fs.append(E.binop(c.st, "Le", x, r.a[3]))
    if n == "RangeToInclusive":
        fs.append(E.binop(c.st, "Le", x, r.a[2]))
    if n == "RangeTo":
        fs.append(E.binop(c.st, "Lt", x, r.a[2]))
    fs = [f for f in fs if f is not TRUE]
    if not fs:
        return c.ret(TRUE)
    if any(f is FALSE for f in fs):
        return c.ret(FALSE)
    return c.ret(mk("and", *fs) if len(fs) > 1 else fs[0])


@tmodel("zeroize::__internal::AssertZeroize", "zeroize_or_on_drop")
@tmodel("zeroize::Zeroize", "zeroize")
def m_zeroize(c):
    c.st.label(("wiped", c.v(0)))
    return c.ret(UNIT)
