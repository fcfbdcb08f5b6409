"""Texts as functions of other texts: terms are evaluated on words. Replacements and loops over the characters of a text are functions
that are known completely, so that evaluating them on all words over the characters they tell apart decides what they do."""
import cards
from terms import *
from terms import mk


class Unknown(Exception):
    pass


def replace_all(s, pats, reps):
    """leftmost match, first pattern first"""
    out, i = "", 0
    while i < len(s):
        for p, r in zip(pats, reps):
            if s.startswith(p, i):
                out, i = out + r, i + len(p)
                break
        else:
            out, i = out + s[i], i + 1
    return out


def strs(t):
    if t.op == "agg" and t.a[0] == "array" and all(x.op == "c" for x in t.a[2:]):
        return [x.a[1] for x in t.a[2:]]
    return None


def ev(t, env, shown=()):
    """The text a term stands for."""
    if t in env:
        return env[t]
    if t.op == "c":
        if isinstance(t.a[1], str):
            return t.a[1]
        return str(t.a[1])
    if t.op == "cat":
        return "".join(ev(x, env, shown) for x in t.a)
    if t.op == "disp":
        return ev(t.a[1], env, shown)
    if t.op == "call" and t.a[0] in ("replace", "replace_all"):
        s = ev(t.a[1], env, shown)
        ps, rs = strs(t.a[2]), strs(t.a[3])
        if t.a[0] == "replace":
            if t.a[3].op != "c" or t.a[2].op != "c" and ps is None:
                raise Unknown(t.a[0])
            for p in ps or [t.a[2].a[1]]:
                s = s.replace(p, chr(0xF8FF)) if ps else s.replace(p, t.a[3].a[1])
            return s.replace(chr(0xF8FF), t.a[3].a[1]) if ps else s
        if ps is None or rs is None or len(ps) != len(rs) or not all(ps):
            raise Unknown(t.a[0])
        return replace_all(s, ps, rs)
    if t.op == "scanned":
        return scan(t.a[0], env, shown)[t.a[1]]
    if t.op == "elem" and t.a[0].op in SPLITS and t.a[1].op == "c":
        ps = parts(t.a[0], env, shown)
        if t.a[1].a[1] >= len(ps):
            raise IndexError
        return ps[t.a[1].a[1]]
    if t.op == "fld" and t.a[0].op == "sym":
        return "x"
    if t.op == "agg" and t in shown:
        return ev(shown[t], env, shown)
    raise Unknown("%s %s" % (t.op, t.a[0] if t.op in ("call", "icall") else ""))


SPLITS = ("split", "splitn")


def parts(t, env, shown=()):
    """The parts a text is split into"""
    s, p = ev(t.a[0], env, shown), t.a[-1]
    limit = number(t.a[1], env, shown) if t.op == "splitn" else len(s) + 1
    if limit == 0:
        return []
    out = []
    cs = strs(p) or (p.op == "c" and isinstance(p.a[1], str) and [p.a[1]])
    if cs:
        if not all(cs) or len(cs) > 1 and any(len(c) != 1 for c in cs):
            raise Unknown(t.op)
        while len(out) < limit - 1:
            i = min((i for i in (s.find(c) for c in cs) if i >= 0), default=-1)
            if i < 0:
                break
            out.append(s[:i])
            s = s[i + len(cs[0]):]
        return out + [s]
    if p.op != "cut":
        raise Unknown(t.op)
    if not closed(p):
        return cut(p, s, limit, env, shown)
    if (p, s, limit) not in CUTS:
        CUTS[p, s, limit] = cut(p, s, limit, {}, ())
    return CUTS[p, s, limit]


CUTS, CLOSED = {}, {}


def closed(p):
    """Do the cases of the pattern depend on the character and what is remembered alone?"""
    if p not in CLOSED:
        ts = [x for c in p.a[1] for x in c[4] + c[5] + tuple(y for y, _ in c[2] + c[3])]
        CLOSED[p] = all(x.op not in ("fld", "phi", "elem", "icall") and (x.op != "sym" or isinstance(x.a[0], tuple)) for y in ts for x in subterms(y))
    return CLOSED[p]


def cut(p, s, limit, env, shown):
    ints, start, out = [cval(x) for x in p.a[0]], 0, []
    for i, c in enumerate(s):
        if len(out) == limit - 1:
            break
        r = step(p.a[1], [c], [], ints, env, shown)
        if r is None or r[2][0] not in (0, 1):
            raise Unknown("pattern")
        ints = list(r[2][1:])
        if r[2][0]:
            out.append(s[start:i])
            start = i + 1
    return out + [s[start:]]


def step(cases, items, accs, ints, env, shown):
    """What one iteration does: (characters taken, texts, integers) or None if it is not known."""
    res = set()
    for n, ends, facts, ivs, ax, ix in cases:
        if n > len(items) or ends and n != len(items):
            continue
        e = dict(env)
        for j in range(n):
            e[mk("sym", ("ch", j))] = items[j]
        for j, v in enumerate(ints):
            e[mk("sym", ("int", j))] = v
        for j, v in enumerate(accs):
            e[mk("sym", ("acc", j))] = v
        if met(facts, ivs, e, shown) is not False:
            res.add((n, tuple(ev(x, e, shown) for x in ax), tuple(number(x, e, shown) for x in ix)))
    return res.pop() if len(res) == 1 else None


def pieces(sc, env, shown):
    """The items a loop reads"""
    s = ev(sc.a[0].a[0], env, shown)
    if sc.a[0].op in ("chars", "char_indices"):
        return list(s)
    out = []
    for c in s:
        if c == "\n" and out and out[-1] == "\r":
            out[-1] += c
        else:
            out.append(c)
    return out


def scan(sc, env, shown=()):
    """Runs the cases of a loop over the characters of a text."""
    items = pieces(sc, env, shown)
    ints = [cval(x) for x in sc.a[1]]
    accs = [ev(x, env, shown) for x in sc.a[2]]
    i = 0
    while i < len(items):
        r = step(sc.a[3], items[i:], accs, ints, env, shown)
        if r is None or not r[0]:
            raise Unknown("loop over the characters of a text")
        i += r[0]
        accs, ints = list(r[1]), list(r[2])
    return accs


def met(facts, ivs, env, shown):
    """Do these facts hold? None if that is not known."""
    sure = True
    for t, f in facts:
        try:
            v = number(t, env, shown)
        except Unknown:
            sure = None
            continue
        if (v in f[1]) != (f[0] == "in"):
            return False
    for t, (lo, hi) in ivs:
        try:
            v = number(t, env, shown)
        except Unknown:
            sure = None
            continue
        if not isinstance(v, int):
            sure = None
        elif not lo <= v <= hi:
            return False
    return sure


CHAR_TESTS = {
    "is_ascii": str.isascii, "is_ascii_digit": lambda c: c.isascii() and c.isdigit(), "is_ascii_alphanumeric": lambda c: c.isascii() and c.isalnum(),
    "is_ascii_alphabetic": lambda c: c.isascii() and c.isalpha(), "is_ascii_uppercase": lambda c: c.isascii() and c.isupper(),
    "is_ascii_lowercase": lambda c: c.isascii() and c.islower(), "is_ascii_whitespace": lambda c: c in " \t\n\r\x0c",
    "is_ascii_control": lambda c: ord(c) < 32 or ord(c) == 127, "is_control": lambda c: ord(c) < 32 or 127 <= ord(c) < 160,
    "is_whitespace": lambda c: c.isspace(), "is_alphanumeric": str.isalnum, "is_alphabetic": str.isalpha, "is_numeric": str.isnumeric,
}


def number(t, env, shown):
    """The value of a formula, an integer or a character"""
    if t in env:
        return env[t]
    if t.op == "c":
        return t.a[1]
    if t.op == "not":
        return 1 - number(t.a[0], env, shown)
    if t.op in ("and", "or"):
        vs = [number(x, env, shown) for x in t.a]
        return int(all(vs) if t.op == "and" else any(vs))
    if t.op == "lt":
        a, b = number(t.a[0], env, shown), number(t.a[1], env, shown)
        if type(a) is not type(b):
            raise Unknown("lt")
        return int(a < b)
    if t.op == "eq":
        return int(number(t.a[0], env, shown) == number(t.a[1], env, shown))
    if t.op == "inset":
        return int(number(t.a[0], env, shown) in t.a[1])
    if t.op == "bin" and t.a[0] in ("Add", "Sub"):
        a, b = number(t.a[1], env, shown), number(t.a[2], env, shown)
        return a + b if t.a[0] == "Add" else a - b
    if t.op == "len" or t.op == "call" and t.a[0] == "len_utf8":
        return len(ev(t.a[-1], env, shown).encode())
    if t.op == "count":
        return len(parts(t.a[0], env, shown))
    if t.op == "call" and t.a[0] in CHAR_TESTS and len(t.a) == 2:
        return int(CHAR_TESTS[t.a[0]](ev(t.a[1], env, shown)))
    if t.op in ("contains", "empty", "starts", "ends", "more"):
        return int(formula(t, env, shown))
    return ev(t, env, shown)


def formula(t, env, shown):
    if t.op == "more":
        return len(parts(t.a[0], env, shown)) > t.a[1].a[1]
    s = ev(t.a[0], env, shown)
    if t.op == "empty":
        return s == ""
    y = t.a[1]
    ps = strs(y) or ([y.a[1]] if y.op == "c" else None)
    if ps is None or not all(isinstance(p, str) for p in ps):
        raise Unknown(t.op)
    return any({"contains": p in s, "starts": s.startswith(p), "ends": s.endswith(p)}[t.op] for p in ps)


FORMULAS = ("contains", "empty", "starts", "ends", "more", "lt", "eq", "inset", "count")


def holds(facts, env, shown=()):
    """May the path be taken with these texts?"""
    for t, f in facts.items():
        if t.op not in FORMULAS:
            continue
        try:
            v = number(t, env, shown)
        except (Unknown, IndexError):
            continue
        if (int(v) in f[1]) != (f[0] == "in"):
            return False
    return True


def leaf(t):
    """The text a chain of replacements and loops starts from"""
    while True:
        if t.op == "call" and t.a[0] in ("replace", "replace_all"):
            t = t.a[1]
        elif t.op == "scanned":
            t = t.a[0].a[0].a[0]
        else:
            return t


def table(t):
    """(function on strings, text it is applied to) for a chain of replacements that is known completely"""
    y = leaf(t)
    if y is t:
        return None
    cache = {}

    def f(s):
        if s not in cache:
            try:
                cache[s] = ev(t, {y: s})
            except Unknown:
                cache[s] = None
        return cache[s]
    return None if f("a") is None else (f, y)
