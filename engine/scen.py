"""Runs of one function on a value of which only one field is unknown."""
from engine import State
from terms import *
from terms import mk


def empty_of(p, ty):
    """The empty value of a field type, or None if it has none."""
    t = p.types[ty]
    if t["k"] == "adt":
        if t["adt"] == OPTION:
            return agg(OPTION, 0)
        if t["adt"] in ("std::vec::Vec",):
            return mk("seq")
    return None


def one_field(E, adt, name, sym="self", value=None):
    """A value of `adt` whose other fields are empty."""
    a = E.p.adts[adt]
    fs = a["variants"][0]["fields"]
    s = mk("sym", sym)
    st = State()
    vals = []
    for i, f in enumerate(fs):
        v = value if f["name"] == name else empty_of(E.p, f["ty"])
        if v is None:
            v = E.getstep(st, s, (adt, 0, i, f["name"]))
            E.note_type(v, f["ty"])
        vals.append(v)
    return agg(adt, 0, *vals)


def payloads(p, ty):
    """[(enum variant path, struct type)] of the property structs a type may hold"""
    t = p.types[ty]
    if t["k"] != "adt" or t["adt"] not in p.adts:
        return []
    a = p.adts[t["adt"]]
    if a["kind"] == "enum":
        out = []
        for vi, v in enumerate(a["variants"]):
            if len(v["fields"]) == 1:
                out += [((t["adt"], vi) + (x,), s) for x, s in payloads(p, v["fields"][0]["ty"])]
        return out
    return [((), t["adt"])]


def prop(E, ty, which, name, group, params, keep=None):
    """A value of property type `ty` (its `which`-th payload) with a symbolic value, and a given group and parameters."""
    p = E.p
    path, adt = payloads(p, ty)[which]
    st = State()
    s = mk("sym", name)
    vals = []
    for i, f in enumerate(p.adts[adt]["variants"][0]["fields"]):
        if f["name"] == "group" and group is not None:
            v = group
        elif f["name"] == "parameters" and params is not None:
            v = params
        elif keep and f["name"] in keep:
            v = keep[f["name"]]
        else:
            v = E.getstep(st, s, (adt, 0, i, f["name"]))
            E.note_type(v, f["ty"])
        vals.append(v)
    v = agg(adt, 0, *vals)
    while path:
        v = agg(path[0], path[1], v)
        path = path[2]
    return v


def split(E, keep=lambda t: True):
    """Every path of the run is kept apart: states that learnt different facts are not joined, except for facts about one iteration of a loop."""
    ids = {}

    def hook(E, st, t, v):
        if keep(t) and not any(x.op == "phi" or x.op == "elem" and x.a[1].op != "c" for x in subterms(t)):
            st.label(("part", "fact", ids.setdefault(t, len(ids)), repr(v)))
    E.fact_hooks = tuple(getattr(E, "fact_hooks", ())) + (hook,)


def sym(E, name, ty):
    x = mk("sym", name)
    E.note_type(x, ty)
    return x


def sample(E, name, ty, n=2):
    """A symbolic value of a type; lists have n elements."""
    t = E.p.types[ty]
    if t["k"] == "adt" and t["adt"] == "std::vec::Vec":
        return mk("seq", *[sample(E, "%s.%d" % (name, i), t["args"][0], n) for i in range(n)])
    if t["k"] == "tuple":
        return agg("tuple", 0, *[sample(E, "%s.%d" % (name, i), x, n) for i, x in enumerate(t["ts"])])
    if t["k"] == "adt" and t["adt"] == OPTION:
        return agg(OPTION, 1, sample(E, name, t["args"][0], n))
    return sym(E, name, ty)
