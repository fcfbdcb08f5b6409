"""Reader and writer are compared with the RFC's table of property names. Reader: at every place that stores into a field of
the card the path facts fix the name of the line (ignoring case, after its group) to the name of that field, and every name
has such a place with and without a group. Writer: Display of a card is interpreted on symbolic cards holding two values
in one field, for every field and kind of value; the output has exactly one line per value, in order, with that name."""
import cards
import lexphase
import scen
from rules import rfc
from rules.lib import *

PARTS = ["parse", "parse_loose", "write"]


def check(ctx, part):
    an = ctx.an
    fields = [f["name"] for f in an.adt(cards.VCARD)["variants"][0]["fields"]]
    for f in fields:
        ctx.ob("table", f in rfc.NAMES or f == rfc.EXTENSIONS, f, "the field belongs to a property of the RFC", how="table")
    if part == "write":
        return write(ctx, fields)
    r = cards.parse_run(an, part)
    seen = set()
    for e in card_stores(r):
        f = e.d["field"]
        names, grouped = line_names(e)
        if f == rfc.EXTENSIONS:
            ok = ("xname",) in e.must
            what = "only lines whose name starts with X- become extension properties"
        else:
            ok = names == {rfc.NAMES.get(f)}
            what = "only %s lines are stored in %s (the name is %s)" % (rfc.NAMES.get(f), f, sorted(names) if names else "unknown")
        ctx.ob("read", ok, cards.where(e), what, how="path facts about the first token of the line", key=("read", e.span, f))
        if ok:
            seen.add((f, grouped))
    for f in fields:
        for g in (False, True):
            ctx.ob("readable", (f, g) in seen, f, "%s lines %s a group are stored in %s" % (rfc.NAMES.get(f, "X-"), "with" if g else "without", f),
                   how="a store exists")


def scenarios(an, field):
    """symbolic cards with two values in one field: (description, card, [(group, parameters, value, struct)])"""
    k, ty = field_kind(an.p, cards.VCARD, field)
    E0 = type("X", (), {})
    G, P = mk("sym", "group"), mk("sym", "params")
    for w in range(len(scen.payloads(an.p, ty))):
        for g in (False, True):
            for p in (False, True):
                yield w, g, p, k, ty, agg(OPTION, 1, G) if g else agg(OPTION, 0), agg(OPTION, 1, P) if p else agg(OPTION, 0)


def write(ctx, fields):
    an = ctx.an
    d = card_display(an)
    n = 0
    for f in fields:
        for w, g, p, k, ty, gv, pv in scenarios(an, f):
            n += 1
            label = "%s, payload %d, %s group, %s parameters" % (f, w, "a" if g else "no", "with" if p else "without")
            path, adt = scen.payloads(an.p, ty)[w]

            def setup(E):
                E.vals = [scen.prop(E, ty, w, x, gv, pv) for x in (("v",) if k == "Option" else ("v", "w"))]
                split_short(E)
                E.args = [scen.one_field(E, cards.VCARD, f, value=agg(OPTION, 1, E.vals[0]) if k == "Option" else mk("seq", *E.vals)), None]
            r = an.run(d, "std", tag=label, setup=setup, args="setup")
            okr = False
            for st, v in r.rets:
                if cards.dset(r.E, st, v) != {0}:
                    continue
                okr = True
                ok, why = lines_ok(r.E, sink(st), f, r.E.vals, g, p, adt)
                ctx.ob("write", ok, d["name"], "the card writes one %s line per value (%s): %s" % (rfc.NAMES.get(f, "X-"), label, why),
                       how="exact output", key=("write", f, w, g, p))
            ctx.ob("writable", okr, d["name"], "Display succeeds (%s)" % label, how="path exists", key=("writable", f, w, g, p))
    ctx.floor("scenario", n, 140, "symbolic cards")


def lines_ok(E, out, f, vals, g, p, adt):
    ls = logical(E, out) if out is not None else None
    if ls is None:
        return False, "part of the output is not understood"
    ls = [x for x in ls if x.a and one_line(x)[0] not in ("BEGIN:VCARD", "VERSION:4.0", "END:VCARD")]
    if len(ls) != len(vals):
        return False, "%d lines for %d values" % (len(ls), len(vals))
    for t, v in zip(ls, vals):
        s, ts = one_line(t)
        want, terms = "", []

        def put(x):
            nonlocal want
            want += chr(0xE000 + len(terms))
            terms.append(x)
        if g:
            put(lambda t: t is mk("sym", "group"))
            want += "."
        if f == rfc.EXTENSIONS:
            put(lambda t, v=v: t is v.a[2 + cards.fidx(E.p, adt, "name")])
        else:
            want += rfc.NAMES[f]
        if p:
            put(lambda t: t.op == "disp" and t.a[1] is mk("sym", "params"))
        want += ":"
        put(lambda t, v=v: t.op == "disp" and (t.a[1] is v or t.a[1] in subterms(v)) or t in subterms(v))
        if s != want or len(ts) != len(terms) or not all(q(t) for q, t in zip(terms, ts)):
            return False, "the line is %r with %d parts" % (s, len(ts))
    return True, "as expected"
