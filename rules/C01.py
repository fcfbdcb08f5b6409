"""Every operation that may panic (slicing, indexing, arithmetic, unwrap, expect, explicit panics, fallible library calls)
on a path from a public function that turns text into values is enumerated by an abstract interpretation of the MIR with
all private callees inlined, and each is discharged by a fact that holds on every path to it; recursion is rejected."""
import cards
from rules import lib
from rules.lib import *

PARTS = ENTRY + ["rest"]


def check(ctx, part):
    an = ctx.an
    if part == "rest":
        fs = input_functions(an)
        ctx.floor("inputs", len(fs), 10, "public functions that parse text")
        n = 0
        for f in fs:
            n += panics(ctx, an.run(f))
        ctx.floor("panic", n, 20, "operations that may panic in the parsing functions")
        return
    r = an.run(cards.entry_points(an)[part])
    n = panics(ctx, r)
    ctx.floor("panic", n, 40, "operations that may panic below " + r.fn["name"])
    fields = {(e.d["proof"][6:]) for e in r.of("panic") if str(e.d["proof"]).startswith("field:")}
    for field in fields:
        resume(ctx, r, field)


def resume(ctx, r, field):
    """The offset a method resumes from is always the start or the end of a token of the same text."""
    an = ctx.an
    adt = an.selfadt(r.fn)
    fd = [f for f in an.adt(adt)["variants"][0]["fields"] if f["name"] == field]
    ctx.ob("resume", bool(fd) and not fd[0].get("pub"), adt, "the field the lexer resumes from is private to the crate", how="visibility")
    runs = [r] + [an.run(f) for f in public_functions(an) if f is not r.fn and builds(an, f, adt)]
    runs += [an.run(f) for k, f in cards.entry_points(an).items() if f is not r.fn and k == "try_from"]
    seen = set()
    for x in runs:
        seen |= set(x.E.visited_fns)
        srcs = {e.d["src"] for e in x.of("bump")}
        for e in x.events:
            if e.kind == "store" and e.d["adt"] == adt:
                ok = e.d["field"] == field and boundary(x, e.d["value"], srcs)
                ctx.ob("resume", ok, cards.where(e), "the stored offset is the end of a token of the text that is resumed", how="token end",
                       key=("resume", e.span))
            elif e.kind == "agg" and e.d.get("adt") == adt:
                i = cards.fidx(an.p, adt, field)
                v = e.d["value"] if "value" in e.d else None
                ctx.ob("resume", v is not None and v.a[2 + i] == I(0), cards.where(e), "a new iterator starts at the beginning", how="constant 0",
                       key=("resume", e.span))
    for f in field_writers(an, adt, field):
        ctx.ob("resume", f["key"] in seen or f["name"] in seen, f["name"], "every function that writes the offset is analysed", how="visited")


def builds(an, f, adt):
    t = an.p.types[an.p.strip(f["locals"][0][0])]
    return t["k"] == "adt" and t["adt"] == adt


def boundary(r, v, srcs):
    if v == I(0):
        return True
    if v.op == "phi":
        ps = r.E.phisrc.get(v, ())
        return bool(ps) and all(x is not v and boundary(r, x, srcs) for x in ps)
    if v.op != "tend":
        return False
    cs = cursors(r.E, v.a[0])
    return bool(cs) and all(x.a and x.a[0] in srcs for x in cs)
