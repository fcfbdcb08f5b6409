"""A typestate automaton over the kinds of the tokens read (BEGIN:VCARD, end of line, VERSION, end of line, lines, END:VCARD at
the start of a line) is run together with the abstract interpretation of every entry point; each place where a card
is handed to the caller is shown to be reachable only when the automaton has accepted the text of that card."""
import cards
import lexphase
from rules.lib import *

PARTS = ENTRY


def check(ctx, part):
    an = ctx.an
    r = cards.parse_run(an, part)
    n = sum(1 for e in r.events if e.kind == "agg" and e.d.get("adt") == cards.VCARD)
    ctx.floor("card", n, 1, "places that build a card below " + r.fn["name"])
    d = delivered(r)
    ctx.floor("deliver", len(d), 1, "places that hand out a card below " + r.fn["name"])
    for w, st, card in d:
        ctx.ob("framing", lexphase.complete(st), w,
               "a card is handed out only after BEGIN:VCARD, VERSION, its lines and END:VCARD have been read in order",
               how="the automaton accepted", key=("framing", w))
    n = len(r.of("next"))
    ctx.floor("tokens", n, 10, "places that read a token or an item")
