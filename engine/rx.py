"""Regular languages of the lexer: a parser for the regex syntax its attributes use, and the token automaton.

Of the tokens that match at a position the longest wins, then the one of the highest priority (explicit, or two per
literal or class that must match, as the generator of the lexer computes it)."""

MAXC = 0x110000
POSIX = {"cntrl": [(0, 0x20), (0x7F, 0x80)], "blank": [(9, 10), (32, 33)], "alpha": [(65, 91), (97, 123)], "digit": [(48, 58)],
         "alnum": [(48, 58), (65, 91), (97, 123)], "upper": [(65, 91)], "lower": [(97, 123)], "space": [(9, 14), (32, 33)],
         "punct": [(33, 48), (58, 65), (91, 97), (123, 127)], "xdigit": [(48, 58), (65, 71), (97, 103)], "print": [(32, 127)],
         "graph": [(33, 127)], "ascii": [(0, 128)], "word": [(48, 58), (65, 91), (95, 96), (97, 123)]}
FOLDS = {ord("k"): [0x212A], ord("s"): [0x17F]}


class Unsupported(Exception):
    pass


def norm(rs):
    out = []
    for a, b in sorted(rs):
        if out and a <= out[-1][1]:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        elif a < b:
            out.append((a, b))
    return tuple(out)


def negate(rs):
    out, p = [], 0
    for a, b in norm(rs):
        if p < a:
            out.append((p, a))
        p = b
    if p < MAXC:
        out.append((p, MAXC))
    return tuple(out)


def fold(rs):
    out = list(rs)
    for a, b in rs:
        for lo, d in ((65, 32), (97, -32)):
            x, y = max(a, lo), min(b, lo + 26)
            if x < y:
                out.append((x + d, y + d))
    rs = norm(out)
    for a, b in rs:
        for k, v in FOLDS.items():
            if a <= k < b:
                out += [(x, x + 1) for x in v]
            if any(a <= x < b for x in v):
                out += [(k, k + 1), (k - 32, k - 31)]
    return norm(out)


class Parser:
    def __init__(self, s):
        self.s, self.i = s, 0

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else None

    def parse(self):
        r = self.alt(False)
        if self.i != len(self.s):
            raise Unsupported(self.s)
        return r

    def alt(self, ci):
        out = [self.cat(ci)]
        while self.peek() == "|":
            self.i += 1
            out.append(self.cat(ci))
        return out[0] if len(out) == 1 else ("alt", out)

    def cat(self, ci):
        out = []
        while self.peek() not in (None, "|", ")"):
            out.append(self.rep(ci))
        return ("cat", out)

    def rep(self, ci):
        a = self.atom(ci)
        while True:
            c = self.peek()
            if c == "*":
                a = ("rep", a, 0, None)
            elif c == "+":
                a = ("rep", a, 1, None)
            elif c == "?":
                a = ("rep", a, 0, 1)
            elif c == "{":
                j = self.s.index("}", self.i)
                lo, _, hi = self.s[self.i + 1:j].partition(",")
                a = ("rep", a, int(lo), int(lo) if not _ else int(hi) if hi else None)
                self.i = j
            else:
                return a
            self.i += 1

    def atom(self, ci):
        c = self.peek()
        self.i += 1
        if c == "(":
            if self.s.startswith("?", self.i):
                j = self.i + 1
                on = True
                while self.s[j] not in ":)":
                    f = self.s[j]
                    if f == "-":
                        on = False
                    elif f == "i":
                        ci = on
                    elif f not in "us":
                        raise Unsupported(self.s)
                    j += 1
                self.i = j + 1
                if self.s[j] == ")":
                    return self.cat_rest(ci)
            r = self.alt(ci)
            if self.peek() != ")":
                raise Unsupported(self.s)
            self.i += 1
            return r
        if c == "[":
            rs = self.cls()
            return ("set", fold(rs) if ci and rs else tuple(rs))
        if c == ".":
            return ("set", negate([(10, 11)]))
        if c in "^$":
            raise Unsupported(self.s)
        x = self.esc() if c == "\\" else [(ord(c), ord(c) + 1)]
        return ("set", fold(x) if ci else norm(x))

    def cat_rest(self, ci):
        return self.alt(ci)

    def esc(self):
        c = self.peek()
        self.i += 1
        if c in "ux" and self.peek() == "{":
            j = self.s.index("}", self.i)
            v = int(self.s[self.i + 1:j], 16)
            self.i = j + 1
        elif c == "x":
            v = int(self.s[self.i:self.i + 2], 16)
            self.i += 2
        elif c in "nrtfv0":
            v = {"n": 10, "r": 13, "t": 9, "f": 12, "v": 11, "0": 0}[c]
        elif c.isalnum():
            raise Unsupported(self.s)
        else:
            v = ord(c)
        return [(v, v + 1)]

    def cls(self):
        neg = False
        if self.peek() == "^":
            neg = True
            self.i += 1
        rs = []
        first = True
        while self.peek() != "]" or first:
            first = False
            if self.s.startswith("[:", self.i):
                j = self.s.index(":]", self.i)
                n = self.s[self.i + 2:j]
                rs += negate(POSIX[n[1:]]) if n.startswith("^") else POSIX[n]
                self.i = j + 2
                continue
            if self.peek() == "[" or self.s[self.i:self.i + 2] in ("&&", "--", "~~"):
                raise Unsupported(self.s)
            a = self.item()
            if self.peek() == "-" and self.s[self.i + 1] != "]":
                self.i += 1
                b = self.item()
                rs.append((a, b + 1))
            else:
                rs.append((a, a + 1))
        self.i += 1
        return negate(rs) if neg else norm(rs)

    def item(self):
        c = self.peek()
        self.i += 1
        if c == "\\":
            return self.esc()[0][0]
        return ord(c)


def parse(s):
    return Parser(s).parse()


def lit(s, ci=False):
    return ("cat", [("set", fold([(ord(c), ord(c) + 1)]) if ci else ((ord(c), ord(c) + 1),)) for c in s])


def priority(n):
    k = n[0]
    if k == "set":
        return 2
    if k == "cat":
        return sum(priority(x) for x in n[1])
    if k == "alt":
        return min([priority(x) for x in n[1]])
    if k == "rep":
        return n[2] * priority(n[1])
    raise Unsupported(k)


def sets(n, out):
    if n[0] == "set":
        out.append(n[1])
    elif n[0] == "rep":
        sets(n[1], out)
    else:
        for x in n[1]:
            sets(x, out)


class Auto:
    """A deterministic automaton for several tagged languages at once."""

    def __init__(self, langs, alphabet=None):
        """langs: tag -> ast"""
        cuts = {0, MAXC}
        rs = []
        for a in langs.values():
            sets(a, rs)
        for r in rs:
            for a, b in r:
                cuts |= {a, b}
        for a in alphabet or ():
            cuts.add(a)
        cuts = sorted(cuts)
        self.classes = list(zip(cuts, cuts[1:]))
        self.eps, self.tr, self.fin = [], [], {}
        self.start0 = self.new()
        for t, a in langs.items():
            i, o = self.build(a)
            self.eps[self.start0].append(i)
            self.fin.setdefault(o, set()).add(t)
        self.dfa = {}
        self.start = self.close([self.start0])

    def new(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1

    def build(self, n):
        k = n[0]
        if k == "set":
            a, b = self.new(), self.new()
            self.tr[a].append((n[1], b))
            return a, b
        if k == "cat":
            a = b = self.new()
            for x in n[1]:
                i, o = self.build(x)
                self.eps[b].append(i)
                b = o
            return a, b
        if k == "alt":
            a, b = self.new(), self.new()
            for x in n[1]:
                i, o = self.build(x)
                self.eps[a].append(i)
                self.eps[o].append(b)
            return a, b
        _, x, lo, hi = n
        a = b = self.new()
        for _ in range(lo):
            i, o = self.build(x)
            self.eps[b].append(i)
            b = o
        if hi is None:
            i, o = self.build(x)
            e = self.new()
            self.eps[b] += [i, e]
            self.eps[o] += [i, e]
            return a, e
        e = self.new()
        for _ in range(hi - lo):
            self.eps[b].append(e)
            i, o = self.build(x)
            self.eps[b].append(i)
            b = o
        self.eps[b].append(e)
        return a, e

    def close(self, xs):
        seen, todo = set(xs), list(xs)
        while todo:
            for y in self.eps[todo.pop()]:
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return frozenset(seen)

    def step(self, s, ci):
        k = (s, ci)
        r = self.dfa.get(k)
        if r is None:
            c = self.classes[ci][0]
            out = [b for x in s for rs, b in self.tr[x] if any(lo <= c < hi for lo, hi in rs)]
            r = self.dfa[k] = self.close(out)
        return r

    def tags(self, s):
        out = set()
        for x in s:
            out |= self.fin.get(x, set())
        return out

    def reach(self):
        """(state, word that reaches it) of every state"""
        out = {self.start: ""}
        todo = [self.start]
        while todo:
            s = todo.pop(0)
            for i, (a, b) in enumerate(self.classes):
                t = self.step(s, i)
                if t and t not in out:
                    c = next((x for x in (ord("a"), ord("A"), ord("0")) if a <= x < b), a)
                    out[t] = out[s] + chr(c)
                    todo.append(t)
        return out


def starts_with(auto, prefix, ci):
    """Does every word start with the prefix?"""
    cur = {auto.start}
    for ch in prefix:
        if any(auto.tags(s) for s in cur):
            return False
        ok = fold([(ord(ch), ord(ch) + 1)]) if ci else ((ord(ch), ord(ch) + 1),)
        nxt = set()
        for s in cur:
            for i, (a, b) in enumerate(auto.classes):
                t = auto.step(s, i)
                if t:
                    if not any(lo <= a and b <= hi for lo, hi in ok):
                        return False
                    nxt.add(t)
        cur = nxt
    return True


def last_sets(n):
    """(characters the words may end with, may the word be empty?)"""
    k = n[0]
    if k == "set":
        return set([n[1]]), False
    if k == "alt":
        r, e = set(), False
        for x in n[1]:
            a, b = last_sets(x)
            r |= a
            e = e or b
        return r, e
    if k == "cat":
        r = set()
        for x in reversed(n[1]):
            a, b = last_sets(x)
            r |= a
            if not b:
                return r, False
        return r, True
    a, b = last_sets(n[1])
    return a, b or n[2] == 0
