"""At every place that stores a property which may hold several kinds of value, the facts about its VALUE parameter on the path there are
compared with the kind that is stored; and every VALUE that RFC 6350 allows on the property reaches such a place."""
import cards
from rules.lib import *
from rules.C10 import structs, field

PARTS = ["parse", "parse_loose"]
PARAMETERS = "parameter::Parameters"
VALUE = "parameter::ValueType"
ANY = "property::AnyProperty"
ABSENT = "absent"
# field -> kind of value stored -> VALUE parameters it may be stored for
DATE = {"DateTime": {ABSENT, "DateAndOrTime"}, "Text": {"Text"}}
EITHER = {"Text": {ABSENT, "Text"}, "Uri": {ABSENT, "Uri"}}
KINDS = {"bday": DATE, "anniversary": DATE, "tel": EITHER, "related": EITHER, "uid": EITHER, "key": EITHER,
         "timezone": {"Text": {ABSENT, "Text"}, "Uri": {"Uri"}, "UtcOffset": {"UtcOffset"}},
         "extensions": {"Text": {ABSENT, "Text"}, "Integer": {"Integer"}, "Float": {"Float"}, "Boolean": {"Boolean"}, "Date": {"Date"},
                        "DateTime": {"DateTime"}, "Time": {"Time"}, "DateAndOrTime": {"DateAndOrTime"}, "Timestamp": {"Timestamp"},
                        "Language": {"LanguageTag"}, "UtcOffset": {"UtcOffset"}, "Uri": {"Uri"}}}


def declared(E, st, s):
    """The VALUE parameters the property may have on this path"""
    p = field(E, s, "parameters")
    ks = cards.dset(E, st, p)
    if ks is None:
        return None
    names = {int(v["discr"]): v["name"] for v in E.p.adts[VALUE]["variants"]}
    out = {ABSENT} if 0 in ks else set()
    if 1 in ks:
        v = cards.fget(E, st, E.deref(st, E.getstep(st, p, (OPTION, 1, 0, "0"))), PARAMETERS, "value")
        ks = cards.dset(E, st, v)
        if ks is None or 0 in ks:
            out.add(ABSENT)
        if ks is None or 1 in ks:
            ds = cards.dset(E, st, E.deref(st, E.getstep(st, v, (OPTION, 1, 0, "0")))) if ks else None
            out |= {names[d] for d in ds} if ds is not None else set(names.values())
    return out


def kind(E, v, s):
    """The kind of value: the variant of the property or of its value"""
    x = field(E, s, "value")
    if x is not None and x.op == "agg" and x.a[0] == ANY:
        return E.p.adts[ANY]["variants"][x.a[1]]["name"]
    k = None
    while v.op == "agg" and v is not s and len(v.a) == 3:
        a = E.p.adts.get(v.a[0])
        if a and a["kind"] == "enum" and v.a[0] != OPTION:
            k = a["variants"][v.a[1]]["name"]
        v = v.a[2]
    return k


def unlike(st, E):
    """A text was found not to be a URI on the path."""
    return any(t.op == "discr" and t.a[0].op == "call" and str(t.a[0].a[0]) == "parse:uri::Uri" and f == ("in", frozenset([1])) for t, f in st.facts.items())


def check(ctx, part):
    r = cards.parse_run(ctx.an, part)
    E = r.E
    seen, n = {}, 0
    for e in card_stores(r):
        f = e.d["field"]
        if f not in KINDS:
            continue
        v = e.d["item"] if e.d.get("how") == "push" else e.d["value"]
        st = e.state()
        for s in structs(E, v):
            k = kind(E, v, s)
            want = KINDS[f].get(k)
            if want is None:
                ctx.ob("kind", False, cards.where(e), "the kind of value of %s is known (%s)" % (f, k), key=("kind", e.span, f, k))
                continue
            n += 1
            got = declared(E, st, s)
            if got is not None:
                seen.setdefault(f, set()).update(got)
            ok = got is not None and got <= want
            ctx.ob("value", ok, cards.where(e), "%s is stored as %s only if VALUE is %s%s" % (f, k, " or ".join(sorted(want)),
                   "" if ok else ", not for %s" % sorted(got - want if got else ["?"])), how="facts about the parameter", key=("value", e.span, f, k))
            if KINDS[f] is EITHER and k == "Text" and got == {ABSENT}:
                ctx.ob("uri", unlike(st, E), cards.where(e), "%s without VALUE is a text only if it is no URI" % f, how="facts about the text",
                       key=("uri", e.span, f))
    for f, ks in KINDS.items():
        for x in sorted(set().union(*ks.values())):
            ctx.ob("accepted", x in seen.get(f, ()), "parse", "%s is stored if its VALUE is %s" % (f, x), how="a path stores it", key=("accepted", f, x))
    ctx.floor("value", n, 50, "stores of properties with several kinds of value")
