"""The start of the value of a line (the first token after the first colon outside quotes) is tracked by a ghost variable in every state. A
text stored in the card is either the slice from there to the current line break, on paths on which no escape sequence was passed, or
was put together from the tokens of the value: every token is recorded once, a token kind that stands for an escape sequence adds the
character the RFC gives it, any other adds its own text. Or it is such a slice with a replacement table applied, and the table is
compared with the RFC's. Values of other types are computed from that same text."""
import itertools
import cards
import lexphase
import lexrules
from rules import rfc
from rules.lib import *
from rules.text import table
from rules.C10 import structs, field

PARTS = ["parse", "parse_loose"]
TEXT = "property::TextProperty"
ANY = "property::AnyProperty"


def unescape(s):
    out, i = "", 0
    while i < len(s):
        c = lexphase.ESCAPES.get(s[i:i + 2])
        if c is not None:
            out, i = out + c, i + 2
        else:
            out, i = out + s[i], i + 1
    return out


ALPHABET = "\\,;nNa"


def same(f, g, alphabet=ALPHABET, n=5):
    for k in range(n):
        for w in itertools.product(alphabet, repeat=k):
            s = "".join(w)
            if f(s) != g(s):
                return s
    return None


class Text:
    """What a stored text is made of."""

    def __init__(self, ctx, r):
        self.ctx, self.r, self.E = ctx, r, r.E
        self.slices, self.builds = {}, {}
        for e in r.of("slice"):
            if e.d["a"] is not None:
                self.slices.setdefault((e.d["s"], e.d["a"], e.d["b"]), []).append(e)
        self.esc, self.missing = lexphase.escapes(self.E)

    def whole(self, e, t):
        """Wherever the slice is made it is the value of the line at hand, which is still the same line."""
        if t.op != "slice" or t.a[2] is not mk("tstart", e.d["cur"]) or not e.d["eol"]:
            return False
        es = self.slices.get((t.a[0], t.a[1], t.a[2]), [])
        return bool(es) and all(x.d["a"] is x.d["vstart"] and x.d["cur"] is e.d["cur"] and x.d["eol"] for x in es)

    def plain(self, t, names, ext):
        """No escape sequence was passed where the slice was made for these names."""
        es = self.slices.get((t.a[0], t.a[1], t.a[2]), [])
        for e in es:
            ns, _ = line_names(e)
            other = ns is not None and (names is not None and not ns & names or ext and not any(x.startswith("X-") for x in ns))
            if ("esc",) in e.may and not other:
                return False
        return bool(es) and not self.missing

    def text(self, e, t, names):
        """None if the term is the text of the line's value, unescaped; else what is wrong"""
        todo, seen, built = [t], set(), False
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "phi":
                todo.extend(self.E.phisrc.get(x, ()))
                if not self.E.phisrc.get(x):
                    return "unknown"
            elif x.op == "slice":
                if not self.whole(e, x):
                    return "a part of the line other than its value"
                if not self.plain(x, names, ("xname",) in e.must):
                    return "the value with its escape sequences"
            elif x.op in ("cat", "star", "tslice"):
                built = True
            elif x.op == "c":
                if x.a[1] not in ("",) + tuple(lexphase.ESCAPES.values()):
                    return "the constant %r" % x.a[1]
                built = True
            elif table(x) is not None:
                f, y = table(x)
                if y.op != "slice" or not self.whole(e, y):
                    return "a part of the line other than its value"
                w = same(f, unescape)
                if w is not None:
                    return "%r is read as %r" % (w, f(w))
            else:
                return "something else (%s)" % x.op
        if built and ("vskip",) in e.may:
            return "a token of the value is left out"
        if built and ("vdup",) in e.may:
            return "a token of the value is added twice"
        return None

    def pieces(self):
        """Every piece that is added to the text of a value."""
        n = 0
        for e in self.r.of("strpush"):
            if e.d["vstart"] in (None, lexphase.NOWHERE):
                continue
            x = e.d["item"]
            st = e.state()
            line = lexphase.linetok(e)
            if x.op == "tslice":
                n += 1
                k = lexphase.tokset(self.E, st, x.a[0])
                bad = (k if k is not None else set(self.esc)) & set(self.esc)
                self.ctx.ob("escape", not bad, cards.where(e), "an escape sequence is not added as it is written (%s)" % ", ".join(sorted(bad)),
                            how="facts about the token", key=("piece", e.span, e.fn))
            elif x.op == "c" and isinstance(x.a[1], str):
                n += 1
                want = {k for k, c in self.esc.items() if c == x.a[1]} if x.a[1] else lexphase.fold_kinds(self.E)
                k = e.d["hand"]
                ok = bool(k) and k <= want
                self.ctx.ob("escape", ok, cards.where(e), "%r is added only for %s" % (x.a[1], "its escape sequence" if x.a[1] else "folds"),
                            how="facts about the token", key=("piece", e.span, e.fn, x.a[1]))
        return n


def sources(T, e, t):
    """The texts a value is computed from: what is wrong with one of them, or None"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x in seen or not hasattr(x, "op"):
            continue
        seen.add(x)
        if x.op == "slice" and any(y.op in ("tstart", "tend") or y.op == "phi" and y in T.E.posphi for y in x.a[1:]):
            if not T.whole(e, x):
                return "a part of the line other than its value"
            continue
        if x.op == "tslice" and x.a[0] is lexphase.linetok(e):
            return "the name of the line"
        if x.op == "phi":
            todo.extend(T.E.phisrc.get(x, ()))
        else:
            for y in x.a:
                if isinstance(y, frozenset):
                    todo.extend(y)
                elif hasattr(y, "op"):
                    todo.append(y)
    return None


def check(ctx, part):
    r = cards.parse_run(ctx.an, part)
    T = Text(ctx, r)
    E = r.E
    n = texts = 0
    for e in card_stores(r):
        v = e.d["item"] if e.d.get("how") == "push" else e.d["value"]
        names, _ = line_names(e)
        for s in structs(E, v):
            x = field(E, s, "value")
            if x is None:
                continue
            n += 1
            f = e.d["field"]
            text = s.a[0] == TEXT
            if x.op == "agg" and x.a[0] == ANY and x.a[1] == cards.variant(E, ANY, "Text"):
                text, x = True, x.a[2]
            if text:
                texts += 1
                why = T.text(e, x, names)
                ctx.ob("text", why is None, cards.where(e), "the text of %s is the value of its line, unescaped%s" % (f, " (%s)" % why if why else ""),
                       how="from the first token of the value to the line break", key=("text", e.span))
            else:
                why = sources(T, e, x)
                ctx.ob("value", why is None, cards.where(e), "the value of %s is computed from the value of its line%s" % (f, " (%s)" % why if why else ""),
                       how="from the first token of the value to the line break", key=("value", e.span))
    k = T.pieces()
    ctx.floor("store", n, 100, "stores of property values")
    ctx.floor("text", texts, 30, "stores of text")
