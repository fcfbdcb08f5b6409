"""Display of every parameter and every property value is interpreted on symbolic values, path by path; the output is a term over the texts
of the value: constants and replacement tables applied to them. The term is then read the way the RFC (and, by C16, C17 and C19, this
reader) reads it. Replacement tables map a text piece by piece and no pattern is longer than two characters, so all words up to three
characters over the characters that mean something to the reader, and one that does not, decide whether a text can leave its place."""
import itertools
import cards
import scen
from rules import rfc
from rules.lib import *
from rules import text
from rules.C16 import unescape
from rules.text import Unknown
from rules.C17 import unescape as unescape_param

PARTS = ["params", "values"]
PARAMS = "parameter::Parameters"
STRING = "std::string::String"
CHARS = "\\,;:\"\n\rna"


SHOWN = {}


def show(an, t):
    """What Display writes for the values inside a term"""
    if SHOWN.get(None) is not an:
        SHOWN.clear()
        SHOWN[None] = an
    imp = an.trait_impls(DISPLAY, "fmt")
    for x in subterms(t):
        if x.op != "agg" or x in SHOWN or x.a[0] not in imp:
            continue

        def setup(E, x=x):
            scen.split(E)
            E.args = [x, None]
        r = an.run(imp[x.a[0]], "std", tag=("show", x), setup=setup, args="setup")
        outs = {sink(st) for st, v in r.rets if cards.dset(r.E, st, v) == {0}}
        if len(outs) == 1:
            SHOWN[x] = outs.pop()


def ev(t, env):
    return text.ev(t, env, SHOWN)


def holds(facts, env):
    return text.holds(facts, env, SHOWN)


def alternatives(E, ty, name, lengths=(1, 2, 3)):
    """Symbolic values of a type, one for each choice of variants; lists have some elements."""
    p = E.p
    t = p.types[ty]
    if t["k"] == "tuple":
        key = S("X-A" + name.rsplit(".", 1)[-1])
        return [agg("tuple", 0, key, *x) for x in itertools.product(*[alternatives(E, y, "%s.%d" % (name, i), lengths)
                                                                      for i, y in enumerate(t["ts"]) if i])]
    if t["k"] != "adt" or t["adt"] == STRING or t["adt"] not in p.adts and t["adt"] not in (OPTION, "std::vec::Vec"):
        return [scen.sym(E, name, ty)]
    if t["adt"] == "std::vec::Vec":
        out = []
        for n in lengths:
            cols = [alternatives(E, t["args"][0], "%s.%d" % (name, i), lengths) for i in range(n)]
            out += [mk("seq", *[c[k % len(c)] for c in cols]) for k in range(max(map(len, cols)))]
        return out
    if t["adt"] == OPTION:
        return [agg(OPTION, 1, x) for x in alternatives(E, t["args"][0], name, lengths)] + [agg(OPTION, 0)]
    a = p.adts[t["adt"]]
    if not t["adt"].startswith(("property::", "parameter::")):
        return [scen.sym(E, name, ty)]
    if a["kind"] == "enum":
        out = []
        for vi, v in enumerate(a["variants"]):
            for x in itertools.product(*[alternatives(E, f["ty"], "%s.%s" % (name, v["name"]), lengths) for f in v["fields"]]):
                out.append(agg(t["adt"], vi, *x))
        return out
    cols = []
    for f in a["variants"][0]["fields"]:
        if f["name"] in ("group", "parameters"):
            cols.append([agg(OPTION, 0)])
        elif f["name"] == "name" and t["adt"] == "property::ExtensionProperty":
            cols.append([S("X-A")])
        else:
            cols.append(alternatives(E, f["ty"], "%s.%s" % (name, f["name"]), lengths))
    if len([c for c in cols if len(c) > 1]) <= 2:
        return [agg(t["adt"], 0, *x) for x in itertools.product(*cols)]
    first, last = [c[0] for c in cols], [c[-1] for c in cols]
    out = [first, last]
    for i in range(len(cols)):
        out.append([c[-1] if i == j else c[0] for j, c in enumerate(cols)])
        out.append([c[0] if i == j else c[-1] for j, c in enumerate(cols)])
    return [agg(t["adt"], 0, *x) for x in out]


def texts(E, p, v, strings):
    """The texts of a value in order."""
    out = []

    def go(x):
        if x in strings:
            out.append(x)
        elif x.op == "agg":
            for y in x.a[2:]:
                go(y)
        elif x.op == "seq":
            for y in x.a:
                go(y)
    go(v)
    return out


def words(n):
    for k in range(n + 1):
        for w in itertools.product(CHARS, repeat=k):
            yield "".join(w)


def split(s, d, limit=None):
    """The parts of a text between delimiters that are not escaped."""
    out, cur, i = [], "", 0
    while i < len(s):
        if s[i] == "\\" and i + 1 < len(s):
            cur, i = cur + s[i:i + 2], i + 2
        elif s[i] == d and (limit is None or len(out) + 1 < limit):
            out, cur, i = out + [cur], "", i + 1
        else:
            cur, i = cur + s[i], i + 1
    return out + [cur]


def shape(E, v):
    """(delimiter, limit, parts) of a structured value: parts are terms or None; (None, None, [text]) for a text"""
    kinds = [x for x in subterms(v) if x.op == "agg"]
    for x in kinds:
        if x.a[0] == "property::DeliveryAddress":
            return ";", None, [y.a[2] if y.a[1] == 1 else None for y in x.a[2:]]
        if x.a[0] == "property::Gender":
            y = x.a[2 + cards.fidx(E.p, x.a[0], "identity")]
            return ";", 2, ["sex"] + ([y.a[2]] if y.a[1] == 1 else [])
        if x.a[0] == "property::TextListProperty":
            d = x.a[2 + cards.fidx(E.p, x.a[0], "delimiter")]
            semi = d.a[1] == cards.variant(E, d.a[0], "SemiColon")
            return ";" if semi else ",", None, list(x.a[2 + cards.fidx(E.p, x.a[0], "value")].a)
    return None, None, None


def plain(w):
    return w.replace("\r", "")


def value_wrong(E, v, out, env):
    """What is wrong with the output of a property value"""
    if "\n" in out or "\r" in out:
        return "a line break is written"
    d, limit, parts = shape(E, v)
    if d is None:
        want = "".join(env[t] for t in env)
        return None if unescape(out) == plain(want) else "%r is written as %r" % (want, out)
    got = split(out, d, limit)
    if len(got) != len(parts):
        return "%d parts are written as %r" % (len(parts), out)
    for g, t in zip(got, parts):
        if t == "sex":
            continue
        w = env[t] if t is not None else ""
        if unescape(g) != plain(w):
            return "%r is written as %r in %r" % (w, g, out)
    return None


def param_wrong(E, name, v, out, env):
    """What is wrong with the output of a parameter"""
    if "\n" in out or "\r" in out:
        return "a line break is written"
    if name == rfc.EXTENSIONS:
        want = [("X-A%d" % i, [env[t] for t in x.a[3].a]) for i, x in enumerate(v.a)]
    else:
        want = [(rfc.PARAMS.get(name), [env[t] for t in env])]
    for key, ws in want:
        if not out.startswith(";%s=" % key):
            return "no %s parameter is written in %r" % (key, out)
        s = out[len(key) + 2:]
        if s[:1] == '"':
            j = s.find('"', 1)
            s, out = s[1:j], s[j + 1:]
            if j < 0 or out[:1] not in ("", ";"):
                return "the quotes do not end with the value in %r" % s
        else:
            j = s.find(";") if s.find(";") >= 0 else len(s)
            s, out = s[:j], s[j:]
            if ":" in s or '"' in s:
                return "the parameter ends early in %r" % s
        pre = "X-" if name == "types" else ""
        w = ",".join(pre + plain(w).replace('"', "'") for w in ws)
        if unescape_param(s) != w:
            return "%r is written as %r" % (w, s)
    return None if out == "" else "%r is left over" % out


def judge(ctx, r, v, strings, label, wrong, key, n):
    """Every word in every place"""
    ts = texts(r.E, r.E.p, v, strings)
    bad = None
    ok = False
    for st, x in r.rets:
        if cards.dset(r.E, st, x) != {0}:
            continue
        ok = True
        o = sink(st)
        if o is not None:
            show(ctx.an, o)
        for t in ts:
            for w in words(n):
                if "," in w and key[0] == "params" and len(ts) > 1:
                    continue
                env = {y: w if y is t else "x" for y in ts}
                try:
                    if not holds(st.facts, env):
                        continue
                    bad = bad or wrong(ev(o, env) if o is not None else "", env)
                except Unknown as u:
                    bad = bad or "part of the output is not understood (%s)" % u
                if bad:
                    break
            if bad:
                break
    ctx.ob("escape", bad is None and ok, r.fn["name"], "%s is written so that it is read back%s" % (label, " (%s)" % bad if bad else ""),
           how="all words in all places, on every path", key=("escape",) + key)


def check(ctx, part):
    an, p = ctx.an, ctx.an.p
    imp = an.trait_impls(DISPLAY, "fmt")
    n = 0
    if part == "params":
        d = imp.get(PARAMS)
        if d is None:
            raise Missing("Display for Parameters")
        for f in an.adt(PARAMS)["variants"][0]["fields"]:
            ty = p.types[f["ty"]]["args"][0]
            n += scenarios(ctx, d, ty, f["name"], lambda E, v, name=f["name"]: scen.one_field(E, PARAMS, name, value=agg(OPTION, 1, v)),
                           lambda E, v, o, env, name=f["name"]: param_wrong(E, name, v, o, env), ("params", f["name"]))
        ctx.floor("scenario", n, 8, "parameters that hold text")
        return
    seen = set()
    for f in an.adt(cards.VCARD)["variants"][0]["fields"]:
        k, ty = field_kind(p, cards.VCARD, f["name"])
        adt = p.types[ty]["adt"]
        if adt in seen or adt not in imp:
            continue
        seen.add(adt)
        n += scenarios(ctx, imp[adt], ty, adt.split("::")[-1], lambda E, v: v, value_wrong, ("values", adt))
    ctx.floor("scenario", n, 30, "property values that hold text")


def scenarios(ctx, d, ty, label, wrap, wrong, key):
    an = ctx.an
    E0 = None
    count = None
    i = n = 0
    while count is None or i < count:
        box = {}

        def setup(E):
            E.strings = set()
            plain_sym = scen.sym

            def sym(E, name, ty):
                x = plain_sym(E, name, ty)
                t = E.p.types[ty]
                if t["k"] == "adt" and t["adt"] == STRING:
                    E.strings.add(x)
                return x
            scen.sym = sym
            try:
                alts = alternatives(E, ty, "v")
            finally:
                scen.sym = plain_sym
            box["n"] = len(alts)
            box["v"] = alts[i]
            box["s"] = E.strings
            scen.split(E)
            E.args = [wrap(E, alts[i]), None]
        if count is not None or True:
            r = run_if_text(an, d, setup, box, ("esc", key, i))
        count = box["n"]
        i += 1
        if r is None:
            continue
        n += 1
        judge(ctx, r, box["v"], box["s"], label, lambda o, env: wrong(r.E, box["v"], o, env), key + (i,), 3 if len(texts(r.E, an.p, box["v"], box["s"])) < 4 else 2)
    return n


def run_if_text(an, d, setup, box, tag):
    class Skip(Exception):
        pass

    def s(E):
        setup(E)
        if not texts(E, E.p, box["v"], box["s"]):
            raise Skip
    try:
        return an.run(d, "std", tag=tag, setup=s, args="setup")
    except Skip:
        return None
