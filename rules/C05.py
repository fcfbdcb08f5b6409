"""Each place where an entry point hands a card to the caller is shown to lie behind a successful outcome of the public
validation on that very card, with no later change to it; validation itself is interpreted on an arbitrary card and shown to
succeed exactly when the card has a formatted name and, if it has members, is of kind group."""
import cards
from rules.lib import *

PARTS = ENTRY + ["validate"]


def check(ctx, part):
    an = ctx.an
    if part == "validate":
        return validate(ctx)
    r = cards.parse_run(an, part)
    d = delivered(r)
    ctx.floor("deliver", len(d), 1, "places that hand out a card below " + r.fn["name"])
    for w, st, card in d:
        ctx.ob("validated", cards.validated(r.E, st, card), w, "a card is handed out only when its validation succeeded",
               how="validation returned Ok for the same value", key=("validated", w))


def validate(ctx):
    an = ctx.an
    fs = an.fns(cards.VCARD + "::validate")
    if not fs:
        raise Missing("the public validation of a card")
    f = fs[0]
    card = mk("sym", an.p.fns[f["key"]]["locals"][1][1])
    r = an.run(f, "none", watch=lambda E, st: cards.card_facts(E, st, card))
    E = r.E
    ok = err = 0
    for st, v in r.rets:
        ds = cards.dset(E, st, v)
        if ds == {0}:
            ok += 1
            ctx.ob("ok", cards.card_ok(E, st, card), f["name"],
                   "validation succeeds only with a formatted name and, if there are members, the kind group", how="facts at return")
        elif ds == {1}:
            err += 1
            ctx.ob("err", cards.card_bad(E, st, card), f["name"],
                   "validation fails only without a formatted name or with members and another kind", how="facts at return")
        else:
            ctx.ob("ok", False, f["name"], "the outcome of validation is decided on every path")
    ctx.floor("ok", ok, 1, "paths on which validation succeeds")
    ctx.floor("err", err, 2, "paths on which validation fails")
