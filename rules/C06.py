"""Every place below an entry point that writes a field of a card under construction is enumerated. Fields of properties the RFC
allows once are optional values that are assigned only on paths where they are known to be empty; fields of all other
properties are lists that are only ever appended to, so that no earlier occurrence is lost."""
import cards
from rules import rfc
from rules.lib import *

PARTS = ENTRY


def check(ctx, part):
    an = ctx.an
    r = cards.parse_run(an, part)
    fields = an.adt(cards.VCARD)["variants"][0]["fields"]
    ctx.floor("fields", len(fields), 36, "fields of a card")
    byname = dict(rfc.NAMES)
    for f in fields:
        k, _ = field_kind(an.p, cards.VCARD, f["name"])
        n = byname.get(f["name"])
        want = "Option" if n in rfc.ONCE else "Vec"
        ctx.ob("shape", k == want, f["name"], "%s holds %s" % (n or f["name"], "at most one value" if want == "Option" else "any number of values"),
               how="type")
    es = card_stores(r)
    ctx.floor("store", len(es), 36, "places that write a card field below " + r.fn["name"])
    for e in es:
        k, _ = field_kind(an.p, cards.VCARD, e.d["field"])
        how = e.d.get("how")
        if k == "Option":
            ok = how is None and cards.dset(r.E, e.state(), e.d["old"]) == {0}
            ctx.ob("once", ok, cards.where(e), "%s is assigned only while it is empty" % e.d["field"], how="known to be None",
                   key=("once", e.span, e.d["field"]))
        else:
            ctx.ob("append", how == "push", cards.where(e), "%s is only appended to" % e.d["field"], how="push",
                   key=("append", e.span, e.d["field"]))
