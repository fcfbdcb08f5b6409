"""The destructor and `zeroize` of every type of which a card may hold values are interpreted, path by path; on each path every text and number
the value may hold there was handed to the zeroize crate. Values of types that have a destructor of their own are wiped by it."""
import cards
import scen
from rules.lib import *

PARTS = ["all"]
DROP = "std::ops::Drop"
ZEROIZE = "zeroize::Zeroize"
HOLDERS = {OPTION, "std::vec::Vec", "std::boxed::Box", "std::collections::HashMap", "std::collections::BTreeMap", "std::borrow::Cow"}
STRING = "std::string::String"


def own(p, n):
    return n in p.adts and p.adts[n].get("local", True) and n.startswith(("vcard::", "property::", "parameter::"))


def held(p, ty):
    """(does a value of the type hold a text or number itself?, the types of the library whose values it holds)"""
    t = p.types[ty]
    if t["k"] in ("int", "uint", "float", "bool", "char", "str"):
        return True, set()
    subs = t.get("ts", []) if t["k"] == "tuple" else [t["t"]] if t["k"] in ("slice", "array") and "t" in t else []
    if t["k"] == "adt":
        if t["adt"] == STRING:
            return True, set()
        if own(p, t["adt"]):
            return False, {t["adt"]}
        subs = t.get("args", []) if t["adt"] in HOLDERS else []
    a, b = False, set()
    for x in subs:
        c, d = held(p, x)
        a, b = a or c, b | d
    return a, b


def reachable(p):
    out, todo = {}, [cards.VCARD]
    while todo:
        n = todo.pop()
        if n in out:
            continue
        out[n] = []
        for vi, v in enumerate(p.adts[n]["variants"]):
            for i, f in enumerate(v["fields"]):
                direct, inner = held(p, f["ty"])
                out[n].append((vi, i, f["name"], direct, inner))
                todo += sorted(inner)
    return out


def check(ctx, part):
    an, p = ctx.an, ctx.an.p
    if an.config not in ("default", "all-features") and "zeroize" not in an.config.split("+"):
        return
    if cards.VCARD not in p.adts:
        raise Missing(cards.VCARD)
    types = reachable(p)
    # types whose values hold something to wipe, themselves or in values they hold
    secret = {n for n, fs in types.items() if any(d for *_, d, _ in fs)}
    while True:
        more = {n for n, fs in types.items() if any(i & secret for *_, i in fs)} - secret
        if not more:
            break
        secret |= more
    drops, wipes = an.trait_impls(DROP, "drop"), an.trait_impls(ZEROIZE, "zeroize")
    k = 0
    for n in sorted(secret):
        mine = [x for x in types[n] if x[3]]
        if mine:
            k += covered(ctx, n, drops.get(n), mine, "its destructor", True)
        if n in wipes:
            covered(ctx, n, wipes[n], [x for x in types[n] if x[3] or x[4] & secret], "zeroize", False)
        elif n == cards.VCARD:
            raise Missing("zeroize for " + n)
    ctx.floor("type", k, 15, "fields that hold texts or numbers")


def covered(ctx, n, f, fields, what, whole):
    an, p = ctx.an, ctx.an.p
    short = n.split("::")[-1]
    if f is None:
        ctx.ob("wiped", False, n, "%s holds %s, and has no destructor that wipes it" % (short, ", ".join(x[2] for x in fields)), key=("drop", n))
        return len(fields)
    r = an.run(f, "none", tag="C24", setup=scen.split)
    me = mk("sym", f["locals"][1][1] or "arg1")
    a = p.adts[n]
    for vi, i, name, direct, inner in fields:
        bad = None
        some = False
        for st, v in r.rets:
            s = me
            if a["kind"] == "enum":
                ds = cards.dset(r.E, st, s, n)
                if ds is not None and int(a["variants"][vi]["discr"]) not in ds:
                    continue
            some = True
            x = r.E.getstep(st, s, (n, vi, i, name))
            done = {l[1] for l in st.must if l[0] == "wiped"}
            t = p.types[p.adts[n]["variants"][vi]["fields"][i]["ty"]]
            if t["k"] == "adt" and t["adt"] == OPTION and x not in done:
                ds = cards.dset(r.E, st, x, OPTION)
                if ds == {0}:
                    continue
                x = r.E.getstep(st, x, (OPTION, 1, 0, "0")) if ds == {1} else x
            if x not in done and r.E.deref(st, x) not in done and not (whole and s in done):
                bad = True
        label = "%s.%s" % (short, name) if a["kind"] != "enum" else "%s::%s" % (short, a["variants"][vi]["name"])
        ctx.ob("wiped", bad is None and some, f["name"], "%s is wiped by %s on every path" % (label, what), how="values handed to the zeroize crate", key=(what, n, vi, i))
    return len(fields)
