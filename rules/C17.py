"""The start of a parameter value (after its equals sign, or after the opening quote) is tracked by a ghost variable in every state. Every
slice of the input a parameter is computed from begins there, and ends at the closing quote if the value is quoted, else at the
delimiter that follows. On paths on which an escape sequence may have been passed the slice goes through a replacement table, which is
compared with the RFC's. Values that are texts are that text and nothing else, lists are all its parts between commas in order."""
import cards
import lexphase
import lexrules
from rules import rfc
from rules.lib import *
from rules.text import table
from rules.C16 import same, unescape as unescape_all

PARTS = ["parse", "parse_loose"]
ESC = {k: c for k, c in lexphase.ESCAPES.items() if c != ";"}
ALPHABET = "\\,;nNa"
# fields whose values are not text
COMPUTED = {"value", "pref", "pid", "types", "geo", "media_type", "language"}


def unescape(s):
    out, i = "", 0
    while i < len(s):
        c = ESC.get(s[i:i + 2])
        if c is not None:
            out, i = out + c, i + 2
        else:
            out, i = out + s[i], i + 1
    return out


def positions(E, t):
    out, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if x in seen or not hasattr(x, "op"):
            continue
        seen.add(x)
        if x.op in ("tstart", "tend") and x.a[0].op == "phi":
            out.add(x)
            todo += [mk(x.op, y) for y in E.phisrc.get(x.a[0], ())]
        elif x.op == "phi":
            todo += E.phisrc.get(x, ())
        else:
            out.add(x)
    return out


class Value:
    def __init__(self, ctx, r):
        self.ctx, self.r, self.E = ctx, r, r.E
        self.slices = {}
        for e in r.of("slice"):
            if e.d["a"] is not None:
                self.slices.setdefault((e.d["s"], e.d["a"], e.d["b"]), []).append(e)
        self.missing = {w for w in lexphase.escapes(self.E)[1] if w in ESC}
        self.quote = lexphase.role(self.E, '"')
        self.ends = lexphase.role(self.E, ";") | lexphase.role(self.E, ":")

    def complete(self, e):
        """Where the slice is made it is the value of the parameter at hand."""
        d, E = e.d, self.E
        if d["ph"] != "P" or d["a"] is not d["pstart"]:
            return False
        q = {l[1] for l in e.must if l[0] == "q"}
        k = lexphase.tokset(E, e.state(), d["cur"]) if d["cur"] is not None else None
        if q == {0}:
            return bool(k) and k <= self.ends and d["b"] is mk("tstart", d["cur"])
        if q == {1}:
            return k == self.quote and d["b"] is mk("tstart", d["cur"])
        return q == {2} and d["b"] is d["pend"]

    def whole(self, e, x):
        es = self.slices.get(tuple(x.a), [])
        if positions(self.E, x.a[1]) & positions(self.E, e.d["pstart"]):
            self.here = True
        return bool(es) and all(self.complete(y) for y in es)

    def plain(self, e, x, phi):
        """No escape sequence was passed where the slice is used as it is."""
        if self.missing:
            return False
        if not any(("esc",) in y.may for y in self.slices.get(tuple(x.a), [])):
            return True
        if phi is not None:
            return (phi, x) not in self.E.escsrc
        return not lexphase.may_escape(e.state(), x)

    def why(self, e, t, text):
        """What is wrong with a value stored at e, or None"""
        todo, seen = [(t, True, None)], set()
        self.here = False
        while todo:
            x, exact, up = todo.pop()
            if not hasattr(x, "op") or (x, exact, up) in seen:
                continue
            seen.add((x, exact, up))
            if x.op == "phi":
                src = self.E.phisrc.get(x, ())
                if not src and exact and text:
                    return "something unknown"
                todo += [(y, exact, x) for y in src]
            elif x.op == "slice" and (any(y.op in ("tstart", "tend") for y in x.a[1:]) or x.a[1] in self.E.posphi):
                if not self.whole(e, x):
                    return "a part of the line other than the value of the parameter"
                if not self.plain(e, x, up):
                    return "the value with its escape sequences"
            elif table(x) is not None:
                f, y = table(x)
                if y.op != "slice" or not self.whole(e, y):
                    return "a part of the line other than the value of the parameter"
                w = same(f, unescape, ALPHABET)
                if w is not None:
                    return "%r is read as %r" % (w, f(w))
            elif x.op == "tslice":
                if x.a[0] not in {l[1] for l in e.must if l[0] == "key"}:
                    return "a token that is not part of the value"
            elif x.op in ("agg", "seq", "star"):
                for y in x.a:
                    todo += [(z, exact, None) for z in (y if isinstance(y, frozenset) else [y])]
            elif x.op == "elem" and x.a[0].op in ("split", "splitn") and x.a[0].a[-1] in (C("char", ","), S(",")):
                todo.append((x.a[0].a[0], exact and x.a[0].op == "split", None))
                if x.a[0].op == "splitn":
                    return "only some of the parts between commas"
            elif x.op == "c":
                if exact and text and x.a[0] == "str":
                    return "the constant %r" % (x.a[1],)
            elif exact and text and x.op not in ("fld",):
                if x.op == "call" and str(x.a[0]).startswith(("parse:", "time::")):
                    todo += [(y, False, None) for y in x.a[1:]]
                else:
                    return "not the text itself (%s %s)" % (x.op, x.a[0] if x.op == "call" else "")
            else:
                todo += [(y, exact and x.op == "fld", None) for y in x.a]
        return None if self.here else "not computed from its value"


def check(ctx, part):
    r = cards.parse_run(ctx.an, part)
    V = Value(ctx, r)
    n = 0
    for e in r.events:
        if e.kind not in ("store", "touch", "push") or e.d.get("adt") != lexphase.PARAMETERS:
            continue
        v = e.d["item"] if e.kind != "store" else e.d["value"]
        f = e.d["field"]
        if v is agg(OPTION, 1, mk("seq")):
            # an empty list, to be filled
            continue
        n += 1
        why = V.why(e, v, f not in COMPUTED)
        ctx.ob("value", why is None, cards.where(e), "%s is the value of its parameter, unquoted and unescaped%s" % (f, " (%s)" % why if why else ""),
               how="from the start of the value to its end", key=("value", e.span, f))
        if v.op == "agg" and v.a[0] == "tuple" or any(t.op in ("seq", "star") for t in subterms(v)):
            ok = not {("vskip",), ("vdup",), lexphase.IOPEN} & set(e.may)
            ctx.ob("parts", ok, cards.where(e), "every part between commas of %s is stored once" % f, how="every part is recorded once",
                   key=("parts", e.span, f))
    ctx.floor("value", n, 30, "stores of parameter values")
