"""serde. Writer: Serialize of every type a card is made of is interpreted on a value with one field set, with every field set and, for
enums, on each variant; what it writes under which name is recorded. Reader: the function that maps names to fields is evaluated on
each name that was written, and the visitor is run on exactly that name, on no name and on all names; the field the value ends up in
is the one it was written from. A type written as text is written through Display and read through FromStr."""
import cards
import scen
import serdemodel
from rules.lib import *

PARTS = ["all"]
SER = "serde::Serialize"
RESULT = serdemodel.RESULT
# the variant of these is not written, by their documented form; it is guessed from the value when it is read
UNTAGGED = {"property::AnyProperty", "property::DateAndOrTime", "property::TextOrUriProperty", "property::DateTimeOrTextProperty",
            "property::TimeZoneProperty"}


def impls(an):
    """type -> its Serialize function"""
    out = {}
    for f in an.p.fns.values():
        if f["local"] and f.get("impl_trait") == SER and f["name"].endswith("::serialize") and not f.get("closure"):
            a = an.selfadt(f)
            if a and not a.endswith("::__SerializeWith"):
                out[a] = f
    return out


def types_of(p, ty, acc):
    t = p.types[ty]
    if t["k"] == "adt":
        acc.add(t["adt"])
        for x in t.get("args", []):
            types_of(p, x, acc)
    for x in t.get("ts", []):
        types_of(p, x, acc)
    for k in ("t",):
        if isinstance(t.get(k), int):
            types_of(p, t[k], acc)


def reachable(an):
    p = an.p
    out, todo = [], [cards.VCARD]
    while todo:
        n = todo.pop()
        if n in out:
            continue
        a = p.adts.get(n)
        if not a or not n.startswith(("vcard::", "property::", "parameter::", "date_time::")):
            continue
        out.append(n)
        for v in a["variants"]:
            for f in v["fields"]:
                acc = set()
                types_of(p, f["ty"], acc)
                todo += sorted(acc)
    return sorted(out)


def runs(an, f, args, tag, setup, split=True):
    def s(E):
        if split:
            scen.split(E)
        setup(E)
        E.args = args(E)
    return an.run(f, "none", tag=("C26",) + tag, setup=s, args="setup")


def written(r):
    """For each path that succeeds: {name: value}, or None if the value was not finished."""
    out = []
    for st, v in r.rets:
        if cards.dset(r.E, st, v, RESULT) == {1}:
            continue
        w = {}
        for l in st.must:
            if isinstance(l, tuple) and l[0] == "wrote":
                w.setdefault(text(l[1]), []).append(l[2])
        out.append((st, v, w if ("ended",) in st.must else None))
    return out


def text(t):
    return t.a[1] if t.op == "c" and isinstance(t.a[1], str) else repr(t)


def unwrap(an, v, cache):
    """What a wrapper of the derive macro writes: (form, inner value), a wrapper being the only user of `with` functions."""
    if v.op != "agg" or not v.a[0].endswith("::__SerializeWith"):
        return "plain", v
    inner = v.a[2]
    if inner.op == "agg" and inner.a[0] == "tuple":
        inner = inner.a[2]
    f = next((f for f in an.p.fns.values() if f["local"] and f.get("impl_trait") == SER and an.selfadt(f) == v.a[0]), None)
    if f is None:
        return "unknown", inner
    if v.a[0] not in cache:
        r = runs(an, f, lambda E: None, ("with", v.a[0]), serdemodel.setup())
        forms = set()
        for st, x in r.rets:
            src = [t for t in subterms(x) if t.op == "sym" and str(t.a[0]) == "self"]
            if x.op == "call" and x.a[0] == "as":
                forms.add(("as", x.a[1], path_of(x.a[2])))
            elif x.op == "call" and x.a[0] == "text":
                forms.add(("text", path_of(x.a[1])))
            else:
                y = path_set(r, st)
                forms.add(("none",) if y else ("other", str(x)[:80]))
        cache[v.a[0]] = frozenset(forms)
    return cache[v.a[0]], inner


def path_of(t):
    """The fields that lead from the wrapper to what is written."""
    out = []
    while t.op == "fld":
        out.append(str(t.a[3]))
        t = t.a[0]
    return tuple(reversed(out)) if t.op == "sym" and str(t.a[0]) == "self" else ("?", str(t)[:60])


def path_set(r, st):
    """Is this the path for an absent value?"""
    return any(t.op == "discr" and t.a[1] == OPTION and f == ("in", frozenset({0})) for t, f in st.facts.items())


def form_of(v, n):
    """How the reader made the value it stored for the n-th name."""
    some = False
    if v.op == "agg" and v.a[0] == OPTION and v.a[1] == 1:
        some, v = True, v.a[2]
    if v is mk("sym", "read%d" % n):
        return ("plain",) if not some else ("some",)
    if v.op == "call" and v.a[0] == "as" and v.a[2] is mk("sym", "de%d" % n):
        return ("as", v.a[1])
    x = v
    if x.op == "fld" and x.a[0].op == "call" and str(x.a[0].a[0]).startswith("parse:") and x.a[0].a[-1] is mk("sym", "text:de%d" % n):
        return ("text", some)
    return ("other", str(v)[:80])


def agree(w, rd):
    if w == "plain":
        return rd == ("plain",)
    if isinstance(w, frozenset):
        if len(w) == 1:
            x = next(iter(w))
            if x[0] == "as":
                return x[2] == ("values", "0") and rd == ("as", x[1])
            return x == ("text", ("values", "0")) and rd == ("text", False)
        return w == {("none",), ("text", ("values", "0", "0"))} and rd == ("text", True)
    return False


def fn_of(an, n, owner, m):
    """The method of serde's traits in the derived reader of type `n`."""
    for f in an.p.fns.values():
        if f["local"] and f["name"].endswith(">::" + m) and not f.get("closure"):
            a = an.selfadt(f)
            if a and a.endswith("::" + owner) and " for %s>::" % n in a:
                return f
    return None


def empty_of(p, ty):
    return scen.empty_of(p, ty)


def filled(E, st, adt, i, f):
    p = E.p
    t = p.types[f["ty"]]
    s = mk("sym", "v.%s" % f["name"])
    if t["k"] == "adt" and t["adt"] == OPTION:
        E.note_type(s, t["args"][0])
        return agg(OPTION, 1, s), s
    if t["k"] == "adt" and t["adt"] == "std::vec::Vec":
        E.note_type(s, t["args"][0])
        return mk("seq", s), s
    E.note_type(s, f["ty"])
    return s, s


def check(ctx, part):
    an, p = ctx.an, ctx.an.p
    if an.config != "all-features" and "serde" not in an.config.split("+"):
        return
    sers = impls(an)
    if cards.VCARD not in sers:
        raise Missing("Serialize for " + cards.VCARD)
    n = 0
    for t in reachable(an):
        f = sers.get(t)
        if f is None:
            ctx.ob("type", False, t, "%s can be written" % t, key=("type", t))
            continue
        if t in UNTAGGED:
            continue
        if p.adts[t]["kind"] == "enum":
            n += enum(ctx, t, f)
        else:
            n += struct(ctx, t, f)
    ctx.floor("names", n, 120, "names of fields and variants")


def textual(ctx, t, f):
    """A type written through Display: true if it is one."""
    an = ctx.an
    r = runs(an, f, lambda E: None, ("ser", t), serdemodel.setup(), split=False)
    xs = [x for st, x in r.rets]
    if not xs or not all("collect_str" in str(x)[:60] or x.op == "call" and x.a[0] == "text" for x in xs):
        return False
    me = mk("sym", f["locals"][1][1] or "arg1")
    ok = all(str(x).endswith(", sym[%s])" % me.a[0]) for x in xs)
    ctx.ob("text", ok, f["name"], "%s is written as the text of its Display" % t, how="collect_str of the value itself", key=("text", t, "w"))
    d = next((g for g in an.p.fns.values() if g["local"] and g.get("impl_trait") == "serde::Deserialize" and an.selfadt(g) == t
              and g["name"].endswith("::deserialize")), None)
    if d is None:
        raise Missing("Deserialize for " + t)
    r = runs(an, d, lambda E: [mk("sym", "de0")], ("de", t), serdemodel.setup())
    good = False
    bad = None
    for st, v in r.rets:
        if cards.dset(r.E, st, v, RESULT) == {1}:
            continue
        good = True
        v = v.a[2] if v.op == "agg" and v.a[0] == RESULT else r.E.getstep(st, v, (RESULT, 0, 0, "0"))
        if form_of(v, 0) != ("text", False):
            bad = str(v)[-120:]
    ctx.ob("text", good and bad is None, d["name"], "%s is read from that text by its FromStr: %s" % (t, bad or "ok"), how="FromStr of the whole text", key=("text", t, "r"))
    return True


def struct(ctx, t, f):
    an, p = ctx.an, ctx.an.p
    if textual(ctx, t, f):
        return 1
    fields = p.adts[t]["variants"][0]["fields"]
    cache = {}
    names, ws = {}, []
    for i, fd in enumerate(fields):
        for kind in ("alone", "together"):
            syms = {}

            def args(E):
                st = State_()
                vals = []
                for j, g in enumerate(fields):
                    full, s = filled(E, st, t, j, g)
                    e = empty_of(p, g["ty"])
                    syms[g["name"]] = (full, s)
                    vals.append(full if j == i or kind == "together" or e is None else e)
                return [agg(t, 0, *vals), mk("sym", "serializer")]
            if kind == "together" and i:
                continue
            r = runs(an, f, args, ("w", t, kind, i), serdemodel.setup())
            outs = written(r)
            ctx.ob("written", bool(outs), f["name"], "%s can be written" % t, how="path exists", key=("can", t))
            for st, v, w in outs:
                if w is None:
                    ctx.ob("written", False, f["name"], "%s is written as a struct of named fields" % t, key=("struct", t))
                    continue
                ws.append(set(w))
                for j, g in enumerate(fields):
                    full, s = syms[g["name"]]
                    if j != i and kind == "alone":
                        continue
                    hits = [(k, x) for k, xs in w.items() for x in xs if unwrap(an, x, cache)[1] is full]
                    ok = len(hits) == 1 and len(w[hits[0][0]]) == 1
                    ctx.ob("written", ok, f["name"], "%s.%s is written, whole and once, under a name of its own (written: %s)"
                           % (t, g["name"], ", ".join(sorted(w))), how="value handed to serialize_field", key=("w", t, g["name"], kind))
                    if ok:
                        names.setdefault(g["name"], set()).add((hits[0][0], unwrap(an, hits[0][1], cache)[0]))
    for g in fields:
        ns = names.get(g["name"], set())
        ctx.ob("name", len(ns) == 1, f["name"], "%s.%s has one name" % (t, g["name"]), how=str(sorted(k for k, _ in ns)), key=("name", t, g["name"]))
    visit = fn_of(an, t, "__Visitor", "visit_map")
    lookup = fn_of(an, t, "__FieldVisitor", "visit_str")
    if visit is None or lookup is None:
        raise Missing("derived Deserialize for " + t)
    idx = {}
    for g in fields:
        for k, form in names.get(g["name"], ()):
            idx[g["name"]] = key_index(an, lookup, k)
            ctx.ob("name", idx[g["name"]] is not None, lookup["name"], "the name %s of %s is known to the reader" % (k, t), how="visit_str",
                   key=("known", t, k))
    # a field that some value is written without may be missing, any other is there
    there = {g["name"] for g in fields if names.get(g["name"]) and all(next(iter(names[g["name"]]))[0] in w for w in ws)}
    known = [g for g in fields if idx.get(g["name"]) is not None]
    sets = [[g] for g in known] + [known, list(reversed(known))] + [[]]
    for q, gs in enumerate(sets):
        need = [g for g in fields if (g["name"] in there or empty_of(p, g["ty"]) is None) and g not in gs]
        use = gs + [g for g in need if g in known]
        r = runs(an, visit, lambda E: None, ("r", t, q), serdemodel.setup(keys=[idx[g["name"]] for g in use]), split=False)
        good = False
        for st, v in r.rets:
            if cards.dset(r.E, st, v, RESULT) == {1}:
                continue
            good = True
            x = v.a[2] if v.op == "agg" and v.a[0] == RESULT else None
            for j, g in enumerate(fields):
                y = r.E.getstep(st, x, (t, 0, j, g["name"])) if x is not None else mk("sym", "?")
                if g in use:
                    m = use.index(g)
                    fm = next(iter(names[g["name"]]))[1] if names.get(g["name"]) else None
                    ok = agree(fm, form_of(y, m))
                    what = "%s.%s is read from what was written for it" % (t, g["name"])
                else:
                    ok = y is empty_of(p, g["ty"])
                    what = "%s.%s is empty if it was not written" % (t, g["name"])
                ctx.ob("read", ok, visit["name"], "%s (it is %s)" % (what, str(form_of(y, use.index(g)) if g in use else y)[:120]),
                       how="result of visit_map", key=("r", t, g["name"], q))
        ctx.ob("read", good, visit["name"], "%s is read from %s" % (t, [g["name"] for g in use] or "an empty map"), how="path exists", key=("ok", t, q))
    return len(fields)


def State_():
    from engine import State
    return State()


def key_index(an, lookup, name):
    """The field that the reader takes a name for."""
    r = runs(an, lookup, lambda E: [mk("sym", "self"), mk("c", "str", name)], ("key", lookup["key"], name), serdemodel.setup(), split=False)
    out = set()
    for st, v in r.rets:
        if v.op == "agg" and v.a[0] == RESULT and v.a[1] == 0 and v.a[2].op == "agg":
            x = v.a[2]
            vs = an.p.adts[x.a[0]]["variants"]
            out.add(None if vs[x.a[1]]["name"] in ("__ignore",) or vs[x.a[1]]["fields"] else x.a[1])
        elif cards.dset(r.E, st, v, RESULT) != {1}:
            out.add(None)
        else:
            out.add(None)
    return out.pop() if len(out) == 1 else None


def enum(ctx, t, f):
    an, p = ctx.an, ctx.an.p
    if textual(ctx, t, f):
        return 1
    vs = p.adts[t]["variants"]
    cache, names, adj = {}, {}, False
    for vi, v in enumerate(vs):
        pay = mk("sym", "payload")

        def args(E):
            if v["fields"]:
                E.note_type(pay, v["fields"][0]["ty"])
            return [agg(t, vi, *([pay] if v["fields"] else [])), mk("sym", "serializer")]
        r = runs(an, f, args, ("e", t, vi), serdemodel.setup())
        outs = written(r)
        for st, x, w in outs:
            w = w or {}
            if len(v["fields"]) > 1:
                raise Missing("variants with several values")
            tag = [(k, y) for k, ys in w.items() for y in ys if y.op == "agg" and "TaggedEnumVariant" in y.a[0]]
            if tag:
                adj = True
                k, y = tag[0]
                name = text(y.a[-1])
                rest = [z for k2, ys in w.items() for z in ys if k2 != k]
                ok = len(tag) == 1 and k == "kind" and set(w) <= {"kind", "value"}
                ok = ok and [unwrap(an, z, cache)[1] for z in rest] == ([pay] if v["fields"] else [])
                form = unwrap(an, rest[0], cache)[0] if rest else None
            else:
                ok = len(w) == 1 and all(len(ys) == 1 for ys in w.values())
                name, y = next(((k, ys[0]) for k, ys in w.items()), ("?", UNIT))
                form, y = unwrap(an, y, cache)
                ok = ok and (y is pay if v["fields"] else y is UNIT)
            ctx.ob("variant", ok, f["name"], "%s::%s is written under its name with its value" % (t, v["name"]), how=name, key=("ew", t, vi))
            names[vi] = (name, form)
    lookup = fn_of(an, t, "__FieldVisitor", "visit_str")
    visit = fn_of(an, t, "__Visitor", "visit_map" if adj else "visit_enum")
    if lookup is None or visit is None:
        ctx.ob("variant", False, f["name"], "%s is read by the names of its variants" % t, key=("tagged", t))
        return 0
    for vi, (name, form) in names.items():
        k = key_index(an, lookup, name)
        ctx.ob("name", k is not None, lookup["name"], "the name %s of %s is known to the reader" % (name, t), how="visit_str", key=("known", t, name))
        if k is None:
            continue
        keys = ["Tag", "Content"] if vs[vi]["fields"] else ["Tag"]
        r = runs(an, visit, lambda E: None, ("er", t, vi), serdemodel.setup(keys=keys, variant=k))
        good, bad = False, None
        for st, v in r.rets:
            if cards.dset(r.E, st, v, RESULT) == {1}:
                continue
            x = v.a[2] if v.op == "agg" and v.a[0] == RESULT else v
            good = True
            if x.op != "agg" or x.a[0] != t or x.a[1] != vi:
                bad = str(x)[:100]
            elif vs[vi]["fields"] and not adj and not agree(form, form_of(x.a[2], 0)):
                bad = str(x)[:100]
            elif vs[vi]["fields"] and adj and not any(y is mk("sym", "de1") for y in subterms(x.a[2])):
                bad = str(x)[:100]
        ctx.ob("variant", good and bad is None, visit["name"], "%s written for %s::%s is read as this variant (%s)" % (name, t, vs[vi]["name"], bad or "ok"),
               how="result of the visitor", key=("er", t, vi))
    return len(vs)
