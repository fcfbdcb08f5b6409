"""What the rules know about vCard values."""
import engine as eng
from an import Missing, FROMSTR, DISPLAY
from terms import *
from terms import mk

VCARD = "vcard::Vcard"


def fidx(p, adt, name):
    for i, f in enumerate(p.adts[adt]["variants"][0]["fields"]):
        if f["name"] == name:
            return i
    raise Missing("field %s of %s" % (name, adt))


def fget(E, st, v, adt, name, vi=0):
    fs = E.p.adts[adt]["variants"][vi]["fields"]
    for i, f in enumerate(fs):
        if f["name"] == name:
            return E.getstep(st, v, (adt, vi, i, name))
    raise Missing("field %s of %s" % (name, adt))


def dset(E, st, v, adt=None):
    """The set of discriminants a value (of enum `adt`) may have, or None."""
    v = E.deref(st, v)
    if v.op == "agg":
        a = E.p.adts.get(v.a[0])
        if a and a["kind"] == "enum":
            return {int(a["variants"][v.a[1]]["discr"])}
        return None
    dt = mk("discr", v, adt) if adt else E.models.DISCR_OF.get(v)
    if dt is None:
        return None
    f = st.facts.get(dt)
    if f is None:
        a = E.p.adts.get(dt.a[1])
        return {int(x["discr"]) for x in a["variants"]} if a else None
    if f[0] == "in":
        return set(f[1])
    a = E.p.adts.get(dt.a[1])
    return {int(x["discr"]) for x in a["variants"]} - set(f[1]) if a else None


def variant(E, v, name):
    """discriminant of a named variant"""
    a = E.p.adts[v]
    for x in a["variants"]:
        if x["name"] == name:
            return int(x["discr"])
    raise Missing("variant %s::%s" % (v, name))


def group_kind(E):
    return variant(E, "property::Kind", "Group")


def card_facts(E, st, card):
    """(formatted name empty, members empty, variants of the kind, variants of its value)"""
    fn = fget(E, st, card, VCARD, "formatted_name")
    mem = fget(E, st, card, VCARD, "member")
    kind = fget(E, st, card, VCARD, "kind")
    ks = dset(E, st, kind)
    kp = E.getstep(st, kind, (OPTION, 1, 0, "0"))
    val = fget(E, st, E.deref(st, kp), "property::KindProperty", "value")
    ds = dset(E, st, val)
    return (E.evalf(st, mk("empty", fn)), E.evalf(st, mk("empty", mem)),
            None if ks is None else frozenset(ks), None if ds is None else frozenset(ds))


def card_ok(E, st, card):
    """Is the card known to satisfy the validity rules of the RFC?"""
    fn, mem, kind, val = card_facts(E, st, card)
    if fn != 0:
        return False
    return mem == 1 or kind == {1} and val == {group_kind(E)}


def card_bad(E, st, card):
    """Is the card known to break them?"""
    fn, mem, kind, val = card_facts(E, st, card)
    if fn == 1:
        return True
    if mem != 0:
        return False
    return kind == {0} or val is not None and group_kind(E) not in val


YES = ("in", frozenset([1]))


def validated(E, st, card):
    """The opaque call of the public validation function succeeded."""
    for f in E.an.fns(VCARD + "::validate"):
        v = call("fn:" + f["name"], card)
        if dset(E, st, v) == {0}:
            return True
    return False


def is_card(v):
    return v.op == "agg" and v.a[0] == VCARD


def entry_points(an):
    """The public functions that turn text into vCards: name -> (fn, strict?)"""
    r = {}
    for n in ("parse", "parse_loose"):
        r[n] = an.fn(n)
    it = [f for f in an.fns() if f.get("impl_trait") == "std::iter::Iterator" and f["name"].endswith("::next")
          and an.selfadt(f) in an.p.pubadts]
    if not it:
        raise Missing("the public iterator")
    r["iter"] = it[0]
    tf = [f for f in an.fns() if f.get("impl_trait") == "std::convert::TryFrom" and an.selfadt(f) == VCARD]
    if not tf:
        raise Missing("TryFrom for Vcard")
    r["try_from"] = tf[0]
    return r


def parse_run(an, which):
    """The analysis of an entry point with the token typestate."""
    import lexphase

    def setup(E):
        lexphase.setup(E)
        lexphase.record(E, VCARD)
        E.an = an
        std = E.opaque
        v = {f["key"] for f in an.fns(VCARD + "::validate")}
        E.opaque = lambda desc, fn: fn["key"] in v or std(desc, fn)
    f = entry_points(an)[which]
    return an.run(f, "std", tag="parse", setup=setup)


def parse_runs(an):
    return {k: parse_run(an, k) for k in entry_points(an)}


def where(e):
    return "%s (%s)" % (e.span, e.fn)
