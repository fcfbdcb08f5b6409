"""A value that has components is split at the delimiters that no backslash stands before, and each component is unescaped by itself: the
pattern of the split is a function of a character and what the closure remembers, and known completely from one interpreted call,
so are the replacements; their composition is compared with the RFC on words. Every component is recorded once and in order."""
import itertools
import cards
import lexphase
import scen
from rules.lib import *
from rules.text import Unknown, ev, holds, parts, SPLITS
from rules.C16 import Text, unescape
from rules.C10 import structs, field

PARTS = ["parse", "parse_loose", "types"]
LISTS = {"name": ";", "org": ";", "categories": ","}
LISTTEXT = "property::TextListProperty"
DELIMITER = "property::TextListDelimiter"
ADDRESS = ["po_box", "extended_address", "street_address", "locality", "region", "postal_code", "country_name"]


def components(s, d, limit=0):
    """The components of a value as RFC 6350 reads them"""
    out, i = [""], 0
    while i < len(s):
        if s[i] == "\\" and i + 1 < len(s):
            out[-1] += s[i:i + 2]
            i += 2
        elif s[i] == d and len(out) != limit:
            out.append("")
            i += 1
        else:
            out[-1] += s[i]
            i += 1
    return [unescape(x) for x in out]


def words(alphabet, n):
    for k in range(n + 1):
        for w in itertools.product(alphabet, repeat=k):
            yield "".join(w)


def check(ctx, part):
    if part == "types":
        address(ctx)
        gender(ctx)
        return
    r = cards.parse_run(ctx.an, part)
    T = Text(ctx, r)
    E = r.E
    pushes = {}
    for e in r.events:
        if e.kind in ("push", "gather"):
            pushes.setdefault(e.d["item"], []).append(e)
    n = 0
    for e in card_stores(r):
        f = e.d["field"]
        v = e.d["item"] if e.d.get("how") == "push" else e.d["value"]
        for s in structs(E, v):
            if s.op != "agg" or s.a[0] != LISTTEXT:
                continue
            n += 1
            d = LISTS.get(f)
            why = "it is not a list of the RFC" if d is None else listed(T, E, e, field(E, s, "value"), d, pushes)
            ctx.ob("list", why is None, cards.where(e), "the components of %s are what stands between %r, unescaped%s" % (f, d, " (%s)" % why if why else ""),
                   how="words over the characters that mean something", key=("list", e.span, f))
            x = field(E, s, "delimiter")
            want = agg(DELIMITER, cards.variant(E, DELIMITER, "Comma" if d == "," else "SemiColon"))
            ctx.ob("delimiter", x is want, cards.where(e), "%s is written with the delimiter it was read with" % f, how="constant", key=("delimiter", e.span, f))
            bad = {("vskip",), ("vdup",), lexphase.IOPEN} & set(e.may)
            ctx.ob("order", not bad, cards.where(e), "every component of %s is stored once" % f, how="every component is recorded once", key=("order", e.span, f))
    ctx.floor("list", n, 3, "stores of lists of texts")


def listed(T, E, e, t, d, pushes):
    todo, seen, n = [t], set(), 0
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi":
            if not E.phisrc.get(x):
                return "something unknown"
            todo += E.phisrc[x]
        elif x.op in ("seq", "star"):
            todo += x.a[0] if x.op == "star" else x.a
        else:
            n += 1
            w = component(T, E, e, x, d, pushes.get(x, []))
            if w:
                return w
    return None if n else "nothing"


def component(T, E, e, x, d, evs):
    els = {y for y in subterms(x) if y.op == "elem" and y.a[0].op in SPLITS}
    if len(els) != 1:
        return "not one component"
    el, = els
    if el.a[1].op == "fromend":
        return "in reverse order"
    src = el.a[0]
    y = src.a[0]
    if y.op != "slice" or not T.whole(e, y):
        return "a part of the line other than its value"
    cases = {tuple((t, f) for t, f in q.facts.items() if t.op in ("contains", "empty", "starts", "ends", "more") and {el, y} & set(subterms(t))) for q in evs}
    k = (x, d, frozenset(cases))
    if k not in DONE:
        DONE[k] = differs(x, el, src, y, d, [dict(c) for c in cases])
    return DONE[k]


DONE = {}


def differs(x, el, src, y, d, cases):
    for s in itertools.chain(words("\\;,nNa", 4), words("\\" + d + "a", 7)):
        want = components(s, d)
        try:
            ps = parts(src, {y: s})
        except Unknown as u:
            return "unknown split %s" % u
        if len(ps) != len(want):
            return "%r is split into %d" % (s, len(ps))
        for p, w in zip(ps, want):
            env = {y: s, el: p}
            if cases and not any(holds(c, env) for c in cases):
                continue
            try:
                got = ev(x, env)
            except Unknown as u:
                return "unknown text %s" % u
            if got != w:
                return "%r in %r is read as %r" % (w, s, got)
    return None


def outcomes(ctx, A):
    an = ctx.an
    f = an.trait_impls(FROMSTR, "from_str").get(A)
    if f is None:
        raise Missing("FromStr for " + A)
    s = mk("sym", "s")

    def setup(E):
        scen.split(E)
        E.args = [s]
    r = an.run(f, "std", tag="structured", setup=setup, args="setup")
    return f, s, r


def results(r, s, w, show):
    """What the paths that the text may take return"""
    out = set()
    for st, v in r.rets:
        if not holds(st.facts, {s: w}):
            continue
        if v.op == "agg" and v.a[0] == RESULT and v.a[1] == 1:
            out.add(None)
        elif v.op == "agg" and v.a[0] == RESULT:
            out.add(show(st, v.a[2], w))
        else:
            out.add("?")
    return out


def optional(E, x, s, w):
    if x.op != "agg" or x.a[0] != OPTION:
        return "?"
    return None if x.a[1] == 0 else ev(x.a[2], {s: w})


def address(ctx):
    A = "property::DeliveryAddress"
    f, s, r = outcomes(ctx, A)

    def show(st, v, w):
        try:
            return tuple(optional(r.E, field(r.E, v, n), s, w) for n in ADDRESS)
        except (Unknown, IndexError) as u:
            return str(u)
    full = ["a", "b", "c", "d", "e", "f", "g"]
    texts = {";".join(full[:-1] + ["\\N"])} | {";".join(full[:k]) for k in range(8)} | {";".join(full) + ";h", ";".join(full) + "\\;h;", ";" * 5, ";" * 6, ";" * 7}
    for i in range(7):
        for c in words("\\;,n", 2):
            texts.add(";".join(full[:i] + [c] + full[i + 1:]))
            texts.add(";".join([""] * i + [c] + [""] * (6 - i)))
    for m in itertools.product(("", "x"), repeat=7):
        texts.add(";".join(m))
    for w in sorted(texts):
        want = components(w, ";", 7)
        want = tuple(x or None for x in want) if len(want) == 7 else None
        got = results(r, s, w, show)
        ctx.ob("address", got == {want}, f["name"], "%r is read as %s%s" % (w, want, "" if got == {want} else ": %s" % (sorted(got, key=repr),)),
               how="every path evaluated on the text", key=("address",))
    ctx.floor("address", len(r.rets), 8, "paths that read an address")


def gender(ctx):
    from rules import rfc
    A = "property::Gender"
    f, s, r = outcomes(ctx, A)
    sexes = {t: n for n, t in rfc.ENUMS["property::Sex"].items()}

    def show(st, v, w):
        sex, identity = field(r.E, v, "sex"), field(r.E, v, "identity")
        try:
            k = sex
            if sex.op == "agg":
                k = ctx.an.adt(sex.a[0])["variants"][sex.a[1]]["name"]
            elif sex.op == "fld" and sex.a[0].op == "call" and str(sex.a[0].a[0]).startswith("parse:"):
                k = ("parsed", ev(sex.a[0].a[1], {s: w}))
            else:
                k = "?"
            return k, optional(r.E, identity, s, w)
        except (Unknown, IndexError) as u:
            return str(u)
    for w in sorted(words("\\;,nM", 4)):
        cs = components(w, ";", 2)
        got = results(r, s, w, show)
        ident = cs[1] if len(cs) > 1 else None
        want = {("parsed", cs[0]), ident}
        good = {(("parsed", cs[0]), ident), None} | ({(sexes[cs[0]], ident)} if cs[0] in sexes else set())
        ok = bool(got - {None}) and got <= good
        ctx.ob("gender", ok, f["name"], "%r is read as the sex %r and the identity %r%s" % (w, cs[0], ident, "" if ok else ": %s" % sorted(got, key=repr)),
               how="every path evaluated on the text", key=("gender",))
