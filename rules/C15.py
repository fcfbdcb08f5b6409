"""Display of every enumerated value is interpreted to an exact text and compared with the RFC's; FromStr is interpreted on that text in
several cases and must give the same value back. FromStr is also interpreted path by path on an unknown text: every successful
path has facts that fix the text to those of the value it returns, so nothing else is accepted."""
import cards
import scen
from rules import rfc
from rules.lib import *


def texts(t):
    return {t, t.upper(), t.lower(), t.title()}


def display(an, A, v):
    d = an.trait_impls(DISPLAY, "fmt").get(A)
    if d is None:
        raise Missing("Display for " + A)

    def setup(E):
        E.args = [v, None]
    r = an.run(d, "none", tag=("show", v), setup=setup, args="setup")
    out = {"".join(x if isinstance(x, str) else "?" for x in flat(sink(st) or mk("cat"))) for st, x in r.rets if cards.dset(r.E, st, x) == {0}}
    return d, out


def from_str(an, A, t):
    f = an.trait_impls(FROMSTR, "from_str").get(A)
    if f is None:
        raise Missing("FromStr for " + A)

    def setup(E):
        E.args = [S(t)]
    r = an.run(f, "none", tag=("read", t), setup=setup, args="setup")
    return f, {v for st, v in r.rets}


def ok_of(vs):
    v = next(iter(vs)) if len(vs) == 1 else None
    return v.a[2] if v is not None and v.op == "agg" and v.a[0] == RESULT and v.a[1] == 0 else None


def check(ctx):
    an = ctx.an
    for A, table in rfc.ENUMS.items():
        a = an.adt(A)
        for vi, v in enumerate(a["variants"]):
            n = v["name"]
            val = agg(A, vi)
            d, out = display(an, A, val)
            ctx.ob("write", out == {table.get(n)}, d["name"], "%s::%s is written as %r (written: %s)" % (A, n, table.get(n), sorted(out)),
                   how="exact text", key=("write", A, n))
            for t in sorted(x for y in (out | {table.get(n, "")}) for x in texts(y)):
                f, got = from_str(an, A, t)
                ctx.ob("read", ok_of(got) is val, f["name"], "%r is read as %s::%s" % (t, A, n), how="interpreted on the text", key=("read", A, n))
        f = an.trait_impls(FROMSTR, "from_str")[A]

        def setup(E):
            scen.split(E)
            E.args = [mk("sym", "s")]
        r = an.run(f, "none", tag="only", setup=setup, args="setup")
        for st, v in r.rets:
            x = ok_of({v})
            if x is None:
                ctx.ob("only", v.op == "agg" and v.a[0] == RESULT and v.a[1] == 1, f["name"], "the result is understood", how="error")
                continue
            n = a["variants"][x.a[1]]["name"] if x.op == "agg" else None
            known = set()
            for t, fact in st.facts.items():
                if fact[0] == "in" and (t.op == "ci" and t.a[0] is mk("sym", "s") or t is mk("sym", "s") or t.op == "call"):
                    known |= {str(y).upper() for y in fact[1]}
                if t.op == "inset" and fact == ("in", frozenset([1])) and mk("sym", "s") in subterms(t.a[0]):
                    known |= {str(y).upper() for y in inset(t)}
                if t.op == "empty" and mk("sym", "s") in subterms(t.a[0]) and fact == ("in", frozenset([1])):
                    known.add("")
            ctx.ob("only", known == {table.get(n, "?").upper()}, f["name"], "only %r is read as %s::%s (facts: %s)" % (table.get(n), A, n, sorted(known)),
                   how="path facts", key=("only", A, n))
    types(ctx)


def inset(t):
    x = t.a[1]
    return x if isinstance(x, (frozenset, set, tuple)) else ()


def types(ctx):
    an = ctx.an
    A = "parameter::TypeParameter"
    a = an.adt(A)
    for vi, v in enumerate(a["variants"]):
        n = v["name"]
        t = rfc.TYPE_PARAMETER.get(n)
        if n == "Extension":
            x = mk("sym", "name")
            d, out = display(an, A, agg(A, vi, x))
            ctx.ob("write", out == {"X-?"}, d["name"], "an extension type is written as X- and its name (%s)" % sorted(out), how="exact text", key=("write", A, n))
            extension(ctx, A, vi)
            continue
        for val, text in [(agg(A, vi), t)] if t and ":" not in t else \
                [(agg(A, vi, agg(t, i)), rfc.ENUMS[t][y["name"]]) for i, y in enumerate(an.adt(t)["variants"])] if t else []:
            d, out = display(an, A, val)
            ctx.ob("write", out == {text}, d["name"], "TYPE %s is written as %r" % (n, text), how="exact text", key=("write", A, n, text))
            for x in sorted(texts(text)):
                f, got = from_str(an, A, x)
                ctx.ob("read", ok_of(got) is val, f["name"], "TYPE=%s is read as %s" % (x, n), how="interpreted on the text", key=("read", A, n, text))
        ctx.ob("table", t is not None, A, "%s is a known kind of TYPE" % n, how="table")


def extension(ctx, A, vi):
    an = ctx.an
    f = an.trait_impls(FROMSTR, "from_str")[A]
    s = mk("sym", "s")

    def setup(E):
        scen.split(E)
        E.args = [s]
    r = an.run(f, "none", tag="only", setup=setup, args="setup")
    n = 0
    for st, v in r.rets:
        x = ok_of({v})
        if x is None or x.op != "agg" or x.a[1] != vi:
            continue
        n += 1
        pre = any(t.op == "starts" and t.a[0] is s and str(t.a[1].a[1]).upper() == "X-" and fa == ("in", frozenset([1])) for t, fa in st.facts.items()
                  if t.op == "starts" and t.a[1].op == "c") or any(t.op == "ci" and fa == ("in", frozenset(["X-"])) for t, fa in st.facts.items())
        y = x.a[2]
        if pre:
            ok = y.op == "slice" and y.a[0] is s and y.a[1] is I(2) or y.op == "c" and y.a[1] == "" or y.op == "strip" or \
                y.op == "fld" and s in subterms(y)
        else:
            ok = y is s
        ctx.ob("extension", ok, f["name"], "any other type keeps its name, without the X-", how="the text after the prefix", key=("extension", pre))
    ctx.floor("extension", n, 2, "paths that make an extension type")
