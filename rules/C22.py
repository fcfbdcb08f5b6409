"""Every method of the builder, the constructors and the conversions into property types are interpreted on symbolic values; what they
return is compared, field by field, with what they were given."""
import cards
import scen
from rules.lib import *

PARTS = ["all"]
BUILDER = "builder::VcardBuilder"
FROM = "std::convert::From"
RENAMED = {"birthday": "bday", "telephone": "tel"}
# the delimiter of properties with several components
DELIMITER = {"name": "SemiColon", "org": "SemiColon", "categories": "Comma"}
VEC = "std::vec::Vec"
ASIDE = ("group", "parameters", "delimiter")


def old(E, name, ty):
    """A value a field had before: unknown, or a list of one unknown"""
    t = E.p.types[ty]
    if t["k"] == "adt" and t["adt"] == VEC:
        return mk("seq", scen.sym(E, name, t["args"][0]))
    return scen.sym(E, name, ty)


def argument(E, ty, name="value"):
    """A symbolic argument: lists, arrays and tuples have known parts, new types known contents"""
    t = E.p.types[ty]
    if t["k"] == "array":
        return agg("array", 0, *[scen.sym(E, "%s.%d" % (name, i), t["t"]) for i in range(5)])
    if t["k"] == "adt" and t["adt"] == VEC:
        return mk("seq", *[scen.sym(E, "%s.%d" % (name, i), t["args"][0]) for i in range(3)])
    if t["k"] == "tuple":
        return agg("tuple", 0, *[scen.sym(E, "%s.%d" % (name, i), x) for i, x in enumerate(t["ts"])])
    a = E.p.adts.get(t.get("adt"))
    if a and t["adt"] in E.p.pubadts and a["kind"] == "struct" and len(a["variants"][0]["fields"]) == 1:
        return agg(t["adt"], 0, scen.sym(E, name + ".0", a["variants"][0]["fields"][0]["ty"]))
    return scen.sym(E, name, ty)


def content(E, st, v, skip=()):
    """What a value holds, in order, apart from groups, parameters and delimiters"""
    v = E.deref(st, v)
    if v.op == "agg":
        a = E.p.adts.get(v.a[0])
        fs = a["variants"][v.a[1]]["fields"] if a and a["variants"] else []
        if a and a["kind"] == "enum" and not fs:
            return [v]
        return [y for i, x in enumerate(v.a[2:]) if not (i < len(fs) and fs[i]["name"] in ASIDE) for y in content(E, st, x)]
    if v.op == "seq":
        return [y for x in v.a for y in content(E, st, x)]
    return [v]


def named(E, v, name):
    """The fields of that name anywhere in a value"""
    out = []
    for x in subterms(v):
        if x.op == "agg" and x.a[0] in E.p.adts:
            for i, f in enumerate(E.p.adts[x.a[0]]["variants"][x.a[1]]["fields"]):
                if f["name"] == name:
                    out.append(x.a[2 + i])
    return out


def none(v):
    return v.op == "agg" and v.a[0] == OPTION and v.a[1] == 0


def bare(E, v):
    """Groups and parameters in it are absent"""
    return all(none(x) for n in ("group", "parameters") for x in named(E, v, n))


def delimiter(E, v):
    ds = {E.p.adts[x.a[0]]["variants"][x.a[1]]["name"] for x in named(E, v, "delimiter") if x.op == "agg"}
    return ds.pop() if len(ds) == 1 else None


def check(ctx, part):
    an, p = ctx.an, ctx.an.p
    fields = an.adt(cards.VCARD)["variants"][0]["fields"]
    names = {f["name"] for f in fields}
    n = k = 0
    for f in sorted(an.fns(pred=lambda f: an.selfadt(f) == BUILDER and f.get("pub")), key=lambda f: f["name"]):
        m = f["name"].rsplit("::", 1)[-1]
        args = [p.types[f["locals"][i + 1][0]] for i in range(f["argc"])]
        out = p.types[f["locals"][0][0]]
        own = args and args[0].get("adt") == BUILDER
        if own and len(args) == 2 and out.get("adt") == BUILDER and RENAMED.get(m, m) in names:
            n += 1
            method(ctx, f, RENAMED.get(m, m), fields)
        elif own and len(args) == 1 and out.get("adt") == cards.VCARD:
            k += 1
            finish(ctx, f, fields)
    ctx.floor("method", n, 33, "methods that set a property")
    ctx.floor("finish", k, 1, "ways to get the card")
    for a in (cards.VCARD, BUILDER):
        start(ctx, an.fn(a + "::new"), a, fields)
    n = 0
    for f in sorted(an.fns(pred=lambda f: f.get("impl_trait") == FROM and f["name"].endswith("::from") and not f.get("closure")), key=lambda f: f["name"]):
        n += conversion(ctx, f)
    ctx.floor("conversion", n, 24, "conversions")
    for m, d in (("new_semi_colon", "SemiColon"), ("new_comma", "Comma")):
        conversion(ctx, an.fn("property::TextListProperty::" + m), d)


def given(E, fields):
    """(a builder or card in use, its card)"""
    return agg(cards.VCARD, 0, *[old(E, "card." + f["name"], f["ty"]) for f in fields])


def run(ctx, f, mkargs, tag):
    box = {}

    def setup(E):
        scen.split(E)
        E.args = box["args"] = mkargs(E)
    r = ctx.an.run(f, "std", tag=tag, setup=setup, args="setup")
    return r, box["args"]


def method(ctx, f, name, fields):
    an = ctx.an

    def mkargs(E):
        c = given(E, fields)
        b = E.p.adts[BUILDER]["variants"][0]["fields"]
        x = [c if E.p.types[y["ty"]].get("adt") == cards.VCARD else scen.sym(E, y["name"], y["ty"]) for y in b]
        return [agg(BUILDER, 0, *x), argument(E, f["locals"][2][0])]
    r, (b, arg) = run(ctx, f, mkargs, "C22")
    E = r.E
    before = card_of(b)
    kept = done = bool(r.rets)
    form = True
    why = ""
    once = False
    for st, v in r.rets:
        after = card_of(E.deref(st, v))
        if after is None:
            kept = False
            why = " (the card returned is not known)"
            continue
        for i, x in enumerate(fields):
            o, w = before.a[2 + i], E.deref(st, after.a[2 + i])
            if x["name"] != name:
                if w is not o:
                    kept, why = False, " (%s changes)" % x["name"]
                continue
            new = w
            if o.op == "seq":
                if w.op != "seq" or w.a[:-1] != o.a:
                    done = False
                    continue
                new = w.a[-1]
            elif w is o:
                done = done and failed(E, st)
                continue
            elif not (w.op == "agg" and w.a[0] == OPTION and w.a[1] == 1):
                done = False
                continue
            once = True
            got, want = content(E, st, new), content(E, st, arg)
            if got != want and not parsed(E, st, got, want):
                done = False
            if not bare(E, new) or delimiter(E, new) != DELIMITER.get(name):
                form = False
    ctx.ob("kept", kept, f["name"], "the other properties stay as they were%s" % why, how="the card returned is compared field by field", key=("kept", name))
    ctx.ob("set", done and once, f["name"], "%s is %s" % (name, "added after the others" if any(x["name"] == name and is_vec(an, x) for x in fields) else "replaced"),
           how="the value in the field is the argument", key=("set", name))
    ctx.ob("form", form, f["name"], "%s has no group, no parameters%s" % (name, " and components are separated by " + DELIMITER[name] if name in DELIMITER else ""),
           how="fields of the value", key=("form", name))


def is_vec(an, x):
    return an.p.types[x["ty"]].get("adt") == VEC


def card_of(b):
    if b.op == "agg" and b.a[0] == cards.VCARD:
        return b
    if b.op == "agg" and b.a[0] == BUILDER:
        for x in b.a[2:]:
            if x.op == "agg" and x.a[0] == cards.VCARD:
                return x
    return None


def parses(E, st):
    return [(t, f) for t, f in st.facts.items() if t.op == "discr" and t.a[0].op == "call" and "parse:" in str(t.a[0].a[0])]


def failed(E, st):
    """A text was found not to be a value of the type."""
    return any(f == ("in", frozenset([1])) for t, f in parses(E, st))


def parsed(E, st, got, want):
    """It is the value parsed from the text given."""
    return len(got) == 1 and len(want) == 1 and any(f == ("in", frozenset([0])) and t.a[0].a[1] == want[0] and t.a[0] in set(subterms(got[0]))
                                                    for t, f in parses(E, st))


def finish(ctx, f, fields):
    def mkargs(E):
        c = given(E, fields)
        b = E.p.adts[BUILDER]["variants"][0]["fields"]
        return [agg(BUILDER, 0, *[c if E.p.types[y["ty"]].get("adt") == cards.VCARD else scen.sym(E, y["name"], y["ty"]) for y in b])]
    r, (b,) = run(ctx, f, mkargs, "C22")
    c = card_of(b)
    ok = bool(r.rets) and all(same_card(r.E, st, r.E.deref(st, v), c) for st, v in r.rets)
    ctx.ob("finish", ok, f["name"], "the card is returned as it was built", how="compared field by field", key=("finish",))


def same_card(E, st, v, c):
    return v is c or v.op == "agg" and v.a[:2] == c.a[:2] and all(E.deref(st, x) is y for x, y in zip(v.a[2:], c.a[2:]))


def start(ctx, f, adt, fields):
    r, (arg,) = run(ctx, f, lambda E: [argument(E, f["locals"][1][0])], "C22")
    ok = bool(r.rets)
    why = ""
    for st, v in r.rets:
        c = card_of(r.E.deref(st, v))
        if c is None:
            ok = False
            continue
        for i, x in enumerate(fields):
            w = r.E.deref(st, c.a[2 + i])
            if x["name"] == "formatted_name":
                good = w.op == "seq" and len(w.a) == 1 and content(r.E, st, w) == content(r.E, st, arg) and bare(r.E, w)
            else:
                good = none(w) or w.op == "seq" and not w.a
            if not good:
                ok, why = False, " (%s)" % x["name"]
    ctx.ob("start", ok, f["name"], "a new card has the formatted name and nothing else%s" % why, how="compared field by field", key=("start", adt))


def conversion(ctx, f, d=None):
    """The value holds exactly what it was made of"""
    p = ctx.an.p
    into = p.types[f["locals"][0][0]]
    if f["argc"] != 1 or "error" in str(into.get("adt", "")).lower():
        return 0
    if d is None and not any(p.types[f["locals"][i][0]].get("adt") in p.pubadts for i in (0, 1)):
        return 0
    r, (arg,) = run(ctx, f, lambda E: [argument(E, f["locals"][1][0])], "C22")
    ok = bool(r.rets)
    for st, v in r.rets:
        v = r.E.deref(st, v)
        ok = ok and content(r.E, st, v) == content(r.E, st, arg) and bare(r.E, v) and delimiter(r.E, v) == d
    ctx.ob("conversion", ok, f["name"], "the %s holds what it is made of, without group and parameters" % str(into.get("adt", "value")).split("::")[-1],
           how="the contents are compared", key=("conversion", f["name"]))
    return 1
