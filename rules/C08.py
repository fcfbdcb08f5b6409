"""Two decisions about the loose parser. First, the phase of the line automaton is computed at every return of an error: it is
never inside or after a property line, unless the line starts with VERSION. Second, whenever the first token of a line is
read, every path since the line before has stored that line or has seen an operation on it fail, so that recovery from
one line can never consume another line."""
import cards
import lexphase
from rules.lib import *

FRAMING = (0, 1, 2, 3, "E", "B", "X", None)


def check(ctx):
    an = ctx.an
    r = cards.parse_run(an, "parse_loose")
    E = r.E
    n = 0
    for st, v in r.rets:
        if cards.dset(E, st, v) == {0}:
            continue
        n += 1
        ph = lexphase.phase(st)
        ok = ph in FRAMING
        if ph == 4:
            toks = {l[1] for l in st.must if l[0] == "linetok"}
            ok = len(toks) == 1 and lexphase.tokset(E, st, toks.pop()) == lexphase.role(E, "Version")
        ctx.ob("error", ok, r.fn["name"], "loose parsing fails only for a broken frame or an invalid card, not for one property line (phase %s)" % ph,
               how="phase %s at the return" % ph, key=("error", str(ph)))
    ctx.floor("error", n, 3, "paths on which loose parsing returns an error")
    lines = E.lines
    ctx.floor("line", len(lines), 1, "places that read the first token of a line")
    for fn, bb, span, must, may, twice, settled in lines:
        w = "%s (%s)" % (span, fn)
        ctx.ob("settled", settled, w, "the line before was stored, or an operation on it failed, before the next line is read",
               how="stored or failed on every path", key=("settled", span))
        ctx.ob("single", not twice, w, "no line is stored twice", how="stored at most once on every path", key=("single", span))
    es = card_stores(r)
    ctx.floor("store", len(es), 36, "places that write a card field")
    for e in es:
        ctx.ob("wholeline", bool(e.d["eol"]), cards.where(e), "a property is stored only after its line was read to the end",
               how="the current token ends the line", key=("wholeline", e.span))
