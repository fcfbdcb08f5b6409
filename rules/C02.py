"""The same enumeration of operations that may panic as for parsing, started from every other public function: the builder,
constructors, conversions, validation, Display and the accessors of every public type."""
import cards
from rules.lib import *

PARTS = ["card", "0", "1", "2"]


def check(ctx, part):
    an = ctx.an
    d = card_display(an)
    if part == "card":
        n = panics(ctx, an.run(d))
        ctx.floor("panic", n, 1, "operations that may panic below Display of a card")
        return
    fs = [f for f in other_functions(an) if f is not d]
    ctx.floor("roots", len(fs), 150, "public functions")
    for i, f in enumerate(sorted(fs, key=lambda f: f["name"])):
        if i % 3 == int(part):
            r = an.run(f)
            n = panics(ctx, r)
            ctx.ob("root", True, f["name"], "%s was analysed" % f["name"], how="%d blocks" % r.E.nblocks)
