"""At every place that stores a property in the card, the group of the stored value is compared with the part of the line's first
token before its dot (none if there is no dot), and its parameters with the delimiter that followed the name: present exactly
when it was a semicolon. The accessors of the property interface are interpreted on symbolic values of every property type and
shown to return exactly these two fields."""
import cards
import lexphase
import scen
from rules.lib import *

PARTS = ["parse", "parse_loose", "access"]


def structs(E, v):
    """The property structs inside a stored value."""
    if v.op != "agg":
        return [v]
    a = E.p.adts.get(v.a[0])
    names = [f["name"] for f in a["variants"][v.a[1]]["fields"]] if a else []
    if "group" in names and "parameters" in names:
        return [v]
    if len(v.a) == 3:
        return structs(E, v.a[2])
    return [v]


def check(ctx, part):
    an = ctx.an
    if part == "access":
        return access(ctx)
    r = cards.parse_run(an, part)
    E = r.E
    n = 0
    for e in card_stores(r):
        v = e.d["item"] if e.d.get("how") == "push" else e.d["value"]
        _, grouped = line_names(e)
        tok, delim = lexphase.linetok(e), lexphase.delim(e)
        for s in structs(E, v):
            n += 1
            g = field(E, s, "group")
            p = field(E, s, "parameters")
            if grouped:
                ok = some_of(g) is not None and lexphase.name_part(some_of(g), tok, 0)
            else:
                ok = grouped is False and none(g)
            ctx.ob("group", ok, cards.where(e), "%s keeps the group of its line and no other" % e.d["field"],
                   how="the part of the first token before the dot" if grouped else "no dot, no group", key=("group", e.span, grouped))
            if delim == "P":
                ok = some_of(p) is not None
            else:
                ok = delim == "V" and none(p)
            ctx.ob("parameters", ok, cards.where(e), "%s keeps the parameters of its line" % e.d["field"],
                   how="present" if delim == "P" else "a colon follows the name, no parameters", key=("parameters", e.span, delim))
    ctx.floor("store", n, 100, "stores of property values")


def field(E, s, name):
    if s.op != "agg":
        return None
    for i, f in enumerate(E.p.adts[s.a[0]]["variants"][s.a[1]]["fields"]):
        if f["name"] == name:
            return s.a[2 + i]
    return None


def some_of(v):
    return v.a[2] if v is not None and v.op == "agg" and v.a[0] == OPTION and v.a[1] == 1 else None


def none(v):
    return v is not None and v.op == "agg" and v.a[0] == OPTION and v.a[1] == 0


def access(ctx):
    an = ctx.an
    n = 0
    for f in an.fns():
        m = f["name"].rsplit("::", 1)[-1]
        if f.get("impl_trait") is None or m not in ("group", "parameters") or an.selfadt(f) not in an.p.pubadts or f.get("closure"):
            continue
        adt = an.selfadt(f)
        ty = an.p.strip(f["impl_self"])
        for w in range(len(scen.payloads(an.p, ty))):
            for present in (False, True):
                x = agg(OPTION, 1, mk("sym", "it")) if present else agg(OPTION, 0)
                y = agg(OPTION, 0) if present else agg(OPTION, 1, mk("sym", "other"))
                g, p = (x, y) if m == "group" else (y, x)

                def setup(E):
                    E.args = [scen.prop(E, ty, w, "v", g, p)]
                r = an.run(f, "std", tag=("acc", w, present), setup=setup, args="setup")
                n += 1
                for st, v in r.rets:
                    v = r.E.deref(st, v)
                    s = some_of(v)
                    ok = none(v) if not present else s is not None and r.E.deref(st, s) is mk("sym", "it")
                    ctx.ob("access", ok, f["name"], "%s of %s returns that field" % (m, adt), how="interpreted", key=("access", f["name"], w, present))
    ctx.floor("access", n, 40, "accessor scenarios")
