"""Every loop reachable from a public function is found in the MIR; for each of its back edges the interpreter shows that
a finite iterator, the lexer or a bounded counter has advanced since the loop head on every path, and that no function is
recursive, so every call ends."""
import cards
from rules.lib import *

PARTS = ENTRY + ["rest"]


def check(ctx, part):
    an = ctx.an
    if part != "rest":
        r = an.run(cards.entry_points(an)[part])
        backs(ctx, r)
        ctx.floor("loop", len(r.of("back")), 8, "loops below " + r.fn["name"])
        return
    es = {f["key"] for f in cards.entry_points(an).values()}
    fs = [f for f in public_functions(an) if f["key"] not in es]
    n = 0
    for f in fs:
        r = an.run(f)
        backs(ctx, r)
        n += len(r.of("back"))
    ctx.floor("loop", n, 8, "loops in the other public functions")
