"""A line automaton runs together with the abstract interpretation of the strict entry points: whenever the first token of the
next line (or END:VCARD) is read, every path since the line before it has stored exactly one property in the card.  A line
that stores nothing must therefore have left the function, which in strict mode is an error."""
import cards
from rules.lib import *

PARTS = ["parse", "try_from", "iter"]


def check(ctx, part):
    an = ctx.an
    r = cards.parse_run(an, part)
    lines = r.E.lines
    ctx.floor("line", len(lines), 1, "places that read the first token of a line below " + r.fn["name"])
    for fn, bb, span, must, may, twice, old in lines:
        w = "%s (%s)" % (span, fn)
        ctx.ob("single", not twice, w, "no line is stored twice", how="stored at most once on every path", key=("single", span))
    if part != "iter":
        d = delivered(r)
        ctx.floor("deliver", len(d), 1, "places that hand out a card below " + r.fn["name"])
        for w, st, card in d:
            ctx.ob("kept", ("dropped",) not in st.may, w,
                   "whenever the next line was read on the way here, the line before it had been stored in the card",
                   how="stored on every path between two lines", key=("kept", w))
    es = card_stores(r)
    ctx.floor("store", len(es), 36, "places that write a card field below " + r.fn["name"])
    for e in es:
        ctx.ob("wholeline", bool(e.d["eol"]), cards.where(e), "a property is stored only after its line was read to the end",
               how="the current token ends the line", key=("wholeline", e.span))
