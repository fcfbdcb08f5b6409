"""At every place that stores a parameter with a restriction the path facts imply it: TYPE only where the name of the line is one of
the RFC's properties that allow it or starts with X-, LABEL only on ADR lines, PREF only with an interval inside 1 to 100 and as the
number written there. CLIENTPIDMAP is stored only where its parameters are known to hold no PID; converting a text to a
CLIENTPIDMAP value succeeds only with facts that exclude the source zero."""
import cards
import lexphase
from rules import rfc
from rules.lib import *
from rules.C10 import field, some_of, none

PARTS = ["parse", "parse_loose", "value"]
PARAMS = lexphase.PARAMETERS


def check(ctx, part):
    if part == "value":
        return value(ctx)
    r = cards.parse_run(ctx.an, part)
    E = r.E
    seen, typed = set(), set()
    for e in r.events:
        if e.kind not in ("store", "touch") or e.d["adt"] != PARAMS:
            continue
        f = e.d["field"]
        w = cards.where(e)
        names, _ = line_names(e)
        if f == "types":
            seen.add(f)
            typed |= {l[1] for l in e.may if l[0] == "typedname"}
            ctx.ob("type", ("typed",) in e.must, w, "TYPE is accepted only on the properties the RFC allows it on and on X- properties",
                   how="facts about the name of the line", key=("type", e.span))
        elif f == "label":
            seen.add(f)
            ctx.ob("label", names == {"ADR"}, w, "LABEL is accepted only on ADR", how="facts about the name of the line", key=("label", e.span))
        elif f == "pref" and e.kind == "store":
            v = e.d["value"]
            x = v.a[2] if v.op == "agg" and v.a[0] == OPTION and v.a[1] == 1 else None
            iv = None
            if x is not None:
                iv = (x.a[1], x.a[1]) if x.op == "c" and isinstance(x.a[1], int) else e.iv.get(x)
            seen.add(f)
            ctx.ob("pref", iv is not None and iv[0] is not None and iv[1] is not None and iv[0] >= 1 and iv[1] <= 100, w,
                   "PREF is between 1 and 100 (known: %s)" % (iv,), how="interval", key=("pref", e.span))
            ctx.ob("pref", x is not None and x.op == "fld" and x.a[0].op == "call" and str(x.a[0].a[0]).startswith("parse:"), w,
                   "PREF is the number that is written", how="a parsed integer", key=("prefn", e.span))
    for e in card_stores(r):
        if e.d["field"] != "client_pid_map":
            continue
        seen.add("client_pid_map")
        ps = field(E, e.d["item"], "parameters")
        ok = none(ps)
        if some_of(ps) is not None:
            ok = cards.dset(E, e.state(), cards.fget(E, e.state(), some_of(ps), PARAMS, "pid")) == {0}
        ctx.ob("pid", ok, cards.where(e), "CLIENTPIDMAP has no PID parameter", how="facts about the parameters", key=("pid", e.span))
    for n in sorted(lexphase.TYPED):
        ctx.ob("accepted", n in typed, n, "TYPE is accepted on %s" % n, how="a store of TYPE parameters is reachable with this name")
    for f in ("types", "label", "pref", "client_pid_map"):
        ctx.ob("seen", f in seen, f, "the parameter is read", how="a store exists")


def value(ctx):
    an = ctx.an
    A = "property::ClientPidMap"
    an.adt(A)
    f = an.trait_impls(FROMSTR, "from_str").get(A)
    if f is None:
        raise Missing("FromStr for ClientPidMap")
    r = an.run(f, "std")
    n = 0
    for st, v in r.rets:
        if v.op == "agg" and v.a[1] == 1:
            continue
        n += 1
        src = cards.fget(r.E, st, cards.fget(r.E, st, v, RESULT, "0"), A, "source")
        iv = st.iv.get(src)
        fact = st.facts.get(src)
        ok = iv is not None and iv[0] is not None and iv[0] >= 1 or fact is not None and (fact[0] == "in" and 0 not in fact[1] or fact[0] != "in" and 0 in fact[1])
        ok = ok or src.op == "c" and src.a[1] != 0
        ctx.ob("source", ok, f["name"], "the source identifier is positive", how="facts at the successful return")
    ctx.floor("source", n, 1, "successful returns")
