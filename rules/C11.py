"""Reader and writer of property parameters are compared with the RFC's table. Reader: at every place that stores into a field of
Parameters the path facts fix the key of the parameter (ignoring case) to the key of that field; a property with parameters is
stored only after every parameter read on its line was stored; list-valued parameters given again are appended, never replaced.
Writer: Display of Parameters is interpreted path by path on symbolic parameters with one field set, and with all fields set; the
output has exactly one `;KEY=` part per parameter, with the key of the field and the values of the field in order."""
import cards
import lexphase
import scen
from rules import rfc
from rules.lib import *

PARTS = ["parse", "parse_loose", "write"]
PARAMS = lexphase.PARAMETERS


def key_names(e):
    """(keys the parameter of a store may have, is it an extension key?)"""
    ks = {l[1] for l in e.must if l[0] == "key"}
    if len(ks) != 1:
        return None, False
    k = mk("tslice", ks.pop())
    names = None
    for t, f in e.facts.items():
        if t.op == "ci" and f[0] == "in" and t.a[0] is k:
            names = f[1] if names is None else names & f[1]
    return names, None


def ext_key(r, e):
    ks = {l[1] for l in e.must if l[0] == "key"}
    return len(ks) == 1 and lexphase.tokset(r.E, e.state(), ks.pop()) == lexphase.ext_kinds(r.E)


def check(ctx, part):
    an = ctx.an
    fields = [f["name"] for f in an.adt(PARAMS)["variants"][0]["fields"]]
    for f in fields:
        ctx.ob("table", f in rfc.PARAMS or f == rfc.EXTENSIONS, f, "the field belongs to a parameter of the RFC", how="table")
    if part == "write":
        return write(ctx, fields)
    r = cards.parse_run(an, part)
    E = r.E
    seen = set()
    for e in r.events:
        if e.kind not in ("store", "touch") or e.d["adt"] != PARAMS:
            continue
        f = e.d["field"]
        names, _ = key_names(e)
        if f == rfc.EXTENSIONS:
            ok = names == {"ENCODING"} or ext_key(r, e)
            what = "only X- parameters and ENCODING become extension parameters"
            seen.add((f, "ENCODING" if names else "X-"))
        else:
            ok = names == {rfc.PARAMS.get(f)}
            what = "only %s parameters are stored in %s (the key is %s)" % (rfc.PARAMS.get(f), f, sorted(names) if names else "unknown")
            if ok:
                seen.add((f, rfc.PARAMS[f]))
        ctx.ob("read", ok, cards.where(e), what, how="path facts about the key token", key=("read", e.span, f))
        if f in rfc.PARAM_LISTS:
            if e.kind == "store":
                ok = cards.dset(E, e.state(), e.d["old"]) == {0}
            else:
                ok = e.d.get("how") in ("push", "append", "extend")
            ctx.ob("append", ok, cards.where(e), "%s parameters given again on a line are added to the earlier ones" % rfc.PARAMS.get(f, "X-"),
                   how="first value, or appended", key=("append", e.span, f))
    for f in fields:
        for k in [rfc.PARAMS[f]] if f in rfc.PARAMS else ["X-", "ENCODING"]:
            ctx.ob("readable", (f, k) in seen, f, "%s parameters are stored in %s" % (k, f), how="a store exists")
    n = 0
    for e in card_stores(r):
        if lexphase.delim(e) != "P":
            continue
        n += 1
        ok = ("pstored",) in e.must and (part == "parse_loose" or ("plost",) not in e.may)
        if part == "parse":
            ctx.ob("kept", ok, cards.where(e), "every parameter of the line was stored before the property is", how="no key token without a store",
                   key=("kept", e.span))
    ctx.floor("kept", n, 80, "stores of properties with parameters")


def runs(an, v, tag):
    d = an.trait_impls(DISPLAY, "fmt").get(PARAMS)
    if d is None:
        raise Missing("Display for Parameters")

    def setup(E):
        scen.split(E)
        E.args = [v(E), None]
    r = an.run(d, "std", tag=tag, setup=setup, args="setup")
    out = []
    for st, x in r.rets:
        if cards.dset(r.E, st, x) == {0}:
            out.append((st, sink(st)))
    return d, r, out


def write(ctx, fields):
    an = ctx.an
    a = an.adt(PARAMS)["variants"][0]["fields"]
    E0 = None
    for f in a:
        name = f["name"]
        for n in (1, 2, 3):
            vals = {}

            def v(E):
                vals["v"] = scen.sample(E, name, an.p.types[f["ty"]]["args"][0], n)
                return scen.one_field(E, PARAMS, name, value=agg(OPTION, 1, vals["v"]))
            d, r, outs = runs(an, v, ("params", name, n))
            ctx.ob("writable", bool(outs), d["name"], "Display succeeds with %s set" % name, how="path exists", key=("writable", name))
            for st, o in outs:
                ok, why = one(r.E, an, name, vals["v"], o)
                ctx.ob("write", ok, d["name"], "%s is written as %s: %s" % (name, rfc.PARAMS.get(name, "its own key"), why), how="exact output on every path",
                       key=("write", name, n))
            if vals["v"].op != "seq":
                break

    def every(E):
        return agg(PARAMS, 0, *[agg(OPTION, 1, scen.sample(E, f["name"], an.p.types[f["ty"]]["args"][0], 2 if f["name"] == rfc.EXTENSIONS else 1))
                                for f in a])

    def setup(E):
        E.args = [every(E), None]
    d = an.trait_impls(DISPLAY, "fmt")[PARAMS]
    r = an.run(d, "std", tag="allparams", setup=setup, args="setup")
    want = {f["name"] for f in a}
    okr = False
    for st, x in r.rets:
        if cards.dset(r.E, st, x) != {0}:
            continue
        okr = True
        got = {t.a[0].split(".")[0] for t in subterms(sink(st)) if t.op == "sym"}
        ctx.ob("all", want <= got, d["name"], "no parameter keeps another one from being written (missing: %s)" % sorted(want - got), how="all fields set")
    ctx.ob("all", okr, d["name"], "parameters with every field set can be written", how="path exists")


def leaves(v):
    if v.op == "seq":
        return [y for x in v.a for y in leaves(x)]
    if v.op == "agg":
        return [y for x in v.a[2:] for y in leaves(x)]
    return [v]


def root(t, syms):
    """The symbols a part of the output shows."""
    return [x for x in order(t) if x in syms]


def order(t):
    out = []

    def go(x):
        if isinstance(x, (frozenset, tuple)):
            for y in x:
                go(y)
        elif hasattr(x, "op"):
            out.append(x)
            for y in x.a:
                go(y)
    go(t)
    return out


def one(E, an, name, v, o):
    parts = flat(o)
    text = "".join(x if isinstance(x, str) else chr(0xE000 + i) for i, x in enumerate(parts))
    ls = leaves(v)
    shown = [x for y in parts if not isinstance(y, str) for x in root(y, set(ls))]
    if shown != ls:
        return False, "the values are not all written once in order"
    if any(not isinstance(y, str) and has_star(y) for y in parts):
        return False, "part of the output is not understood"
    if name == rfc.EXTENSIONS:
        rest = text
        for x in v.a:
            k = rest.find("=")
            if not rest.startswith(";") or k != 2 or parts[ord(rest[1]) - 0xE000] is not x.a[2]:
                return False, "output %r" % text
            rest = rest[k:]
            j = rest.find(";")
            rest = rest[j:] if j >= 0 else ""
        return rest == "", "output %r" % text
    key = ";" + rfc.PARAMS.get(name, "?") + "="
    body = text[len(key):]
    if not text.startswith(key) or ";" in body or "=" in body:
        return False, "output %r" % text
    q = body.count('"')
    if q not in (0, 2) or q == 2 and not (body[0] == body[-1] == '"'):
        return False, "output %r" % text
    if not all(c == '"' or c == "," or ord(c) >= 0xE000 for c in body):
        return False, "output %r" % text
    if v.op == "seq":
        seps = body.count(",") + sum(1 for y in parts if not isinstance(y, str) for x in order(y) if x.op == "cat" for z in x.a
                                     if z.op == "c" and z.a[1] == ",")
        if seps != len(v.a) - 1:
            return False, "%d separators between %d values" % (seps, len(v.a))
    return True, "as expected"


def has_star(t):
    return any(x.op in ("star", "phi") for x in order(t))
