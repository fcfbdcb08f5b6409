"""Token language facts derived from the lexer attributes."""
import re


def token_adt(p):
    for n, a in p.adts.items():
        if a["local"] and a["kind"] == "enum" and any(
                at[0].split("::")[-1] in ("regex", "token") for v in a["variants"] for at in v["attrs"]):
            return n
    return None


def token_patterns(p):
    """variant name -> (discr, [(kind, text)])"""
    n = token_adt(p)
    out = {}
    for v in p.adts[n]["variants"]:
        out[v["name"]] = (int(v["discr"]), [(a[0].split("::")[-1], a[1]) for a in v["attrs"] if a[0].split("::")[-1] in ("regex", "token")])
    return out


def literal(arg):
    """First string literal of an attribute argument list."""
    m = re.match(r'\s*(r#*)?"((?:[^"\\]|\\.)*)"', arg, re.S)
    if not m:
        return None
    s = m.group(2)
    if m.group(1):
        return s
    def un(mm):
        x = mm.group(1)
        if x[0] == "u":
            return chr(int(x[2:-1], 16))
        if x[0] == "x":
            return chr(int(x[1:], 16))
        return {"n": "\n", "r": "\r", "t": "\t", "\\": "\\", '"': '"', "0": "\0", "'": "'"}.get(x[0], x)
    return re.sub(r"\\(u\{[0-9a-fA-F]+\}|x[0-9a-fA-F]{2}|.)", un, s, flags=re.S)


def one_byte_tokens(p):
    r = set()
    for name, (d, pats) in token_patterns(p).items():
        if pats and all(k == "token" and literal(t) is not None and len(literal(t).encode()) == 1 for k, t in pats):
            r.add(d)
    return frozenset(r)


def subset(a, b):
    return all(any(lo <= x and y <= hi for lo, hi in b) for x, y in a)


def split(w, cap=64):
    """A list of character sets as lists of sets that hold one character in its two cases."""
    out = [[]]
    for rs in w:
        cs = {}
        for a, b in rs:
            if b - a > 16:
                return [w]
            for c in range(a, b):
                cs.setdefault(chr(c).lower(), []).append((c, c + 1))
        out = [x + [tuple(sorted(c))] for x in out for c in cs.values()]
        if len(out) > cap:
            return [w]
    return out


def words(n, cap=400):
    """The words of a finite language as lists of character sets; None if there are too many."""
    k = n[0]
    if k == "set":
        return [[n[1]]]
    if k == "alt":
        out = []
        for x in n[1]:
            w = words(x, cap)
            if w is None:
                return None
            out += w
        return out if len(out) <= cap else None
    if k == "cat":
        out = [[]]
        for x in n[1]:
            w = words(x, cap)
            if w is None or len(out) * len(w) > cap:
                return None
            out = [a + b for a in out for b in w]
        return out
    if n[3] is None or n[3] > 4:
        return None
    out, cur = [], [[]]
    w = words(n[1], cap)
    if w is None:
        return None
    for i in range(n[3] + 1):
        if i >= n[2]:
            out += cur
        cur = [a + b for a in cur for b in w]
        if len(out) + len(cur) > cap:
            return None
    return out


class Lexicon:
    """What the lexer makes of a text: the longest match, then the highest priority."""

    def __init__(self, p):
        import rx
        langs, self.prio = {}, {}
        for n, (d, ps) in token_patterns(p).items():
            for i, (k, t) in enumerate(ps):
                a = rx.lit(literal(t), "ignore(case)" in t or "ignore(ascii_case)" in t) if k == "token" else rx.parse(literal(t))
                langs[(n, i)] = a
                m = re.search(r"priority\s*=\s*(\d+)", t[t.rindex('"'):])
                self.prio[(n, i)] = int(m.group(1)) if m else rx.priority(a)
        self.auto = rx.Auto(langs)
        self.langs = langs

    def winners(self, s):
        ts = self.auto.tags(s)
        if not ts:
            return frozenset()
        m = max(self.prio[t] for t in ts)
        return frozenset(t[0] for t in ts if self.prio[t] == m)

    def cls(self, ch):
        c = ord(ch)
        for i, (a, b) in enumerate(self.auto.classes):
            if a <= c < b:
                return i

    def lex(self, text):
        """(length of the longest match, kinds that win)"""
        s, best = self.auto.start, (0, frozenset())
        for i, ch in enumerate(text):
            s = self.auto.step(s, self.cls(ch))
            if not s:
                break
            w = self.winners(s)
            if w:
                best = (i + 1, w)
        return best

    def pure(self, name, texts):
        """Are all words of a kind among the texts (ignoring case)?"""
        import rx
        for t, a in self.langs.items():
            if t[0] != name:
                continue
            ws = words(a)
            if not ws:
                return False
            for w in (y for x in ws for y in split(x)):
                if not any(len(x) == len(w) and all(subset(r, rx.fold([(ord(c), ord(c) + 1)])) for r, c in zip(w, x)) for x in texts):
                    return False
        return True

    def role(self, *texts):
        """The kinds that stand for exactly these texts, in any case."""
        import itertools
        out = None
        for x in texts:
            for y in {x, x.upper(), x.lower(), x.swapcase(), x.title()}:
                n, w = self.lex(y)
                w = w if n == len(y) else frozenset()
                out = w if out is None else out & w
        return {k for k in out or () if self.pure(k, texts)}

    def dead(self, s):
        """No longer match is possible."""
        return not any(self.auto.step(s, i) for i in range(len(self.auto.classes)))


def lexicon(E):
    r = getattr(E, "_lexicon", None)
    if r is None:
        r = E._lexicon = Lexicon(E.p)
    return r
