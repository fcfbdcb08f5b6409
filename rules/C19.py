"""Reader: every lexer below an entry point reads a term over the input text; on each path it is compared, as a composition of replacement
tables, with the RFC's unfolding (one line break and one space or tab removed together, nothing else). Writer: the loop over the
characters of a line is interpreted once from a state that stands for every iteration (integers and the text built so far are symbols);
each of its paths appends the character, or a folding and the character, and an integer of the loop is shown by induction to
measure the octets of the physical line, which a path that does not fold keeps at 75 or less."""
import itertools
import re
import cards
import scen
from rules import rfc
from rules.lib import *
from rules.C09 import scenarios, split_short
from rules.text import Unknown, ev, holds

PARTS = ENTRY + ["write"]
LIMIT = 75
ALPHABET = "\r\n \ta"
PATH_FACTS = ("contains", "starts", "ends", "empty")


def check(ctx, part):
    if part == "write":
        return write(ctx)
    an = ctx.an
    fn = cards.entry_points(an)[part]
    r = run(an, fn)
    judged = set()
    n = 0
    for e in r.of("next"):
        if e.d.get("itkind") != "lexer":
            continue
        n += 1
        src = e.d["src"]
        fld = member(src)
        if fld is not None:
            if fld not in judged:
                judged.add(fld)
                built(ctx, *fld)
            continue
        k = (src, tuple(sorted((repr(t), repr(f)) for t, f in facts(e.state()).items())))
        if k in judged:
            continue
        judged.add(k)
        bad = differs(src, e.state())
        ctx.ob("unfold", bad is None, cards.where(e), "the text that is split into tokens is the unfolded input%s" % (" (%s)" % bad if bad else ""),
               how="composition of replacement tables", key=("unfold", bad))
    ctx.floor("tokens", n, 10, "places that read a token")


def run(an, fn):
    def setup(E):
        scen.split(E, keep=lambda t: t.op in PATH_FACTS and of_input(t))
    return an.run(fn, "std", tag="unfold", setup=setup)


def of_input(t):
    return not any(x.op in ("tok", "phi", "uidt", "elem", "fld", "slice", "substr") for x in subterms(t))


def facts(st):
    return {t: f for t, f in st.facts.items() if t.op in PATH_FACTS and of_input(t)}


def member(src):
    """(type, field) when the text was stored before"""
    return (src.a[4], src.a[3]) if src.op == "fld" and any(x.op == "sym" for x in subterms(src)) else None


def built(ctx, adt, field):
    """Every value of the type holds the unfolded text."""
    an = ctx.an
    n = 0
    seen = set()
    entries = {f["key"] for f in cards.entry_points(an).values()}
    for f in public_functions(an):
        if f["key"] in entries:
            continue
        r = run(an, f)
        for e in r.of("agg"):
            if e.d.get("adt") != adt:
                continue
            n += 1
            v = e.d["value"].a[2 + cards.fidx(an.p, adt, field)]
            bad = differs(v, e.state())
            if (e.span, bad) in seen:
                continue
            seen.add((e.span, bad))
            ctx.ob("unfold", bad is None, cards.where(e), "the text that is kept to be split into tokens is the unfolded input%s" % (" (%s)" % bad if bad else ""),
                   how="composition of replacement tables", key=("unfold", bad))
        for e in r.of("store"):
            if e.d["adt"] == adt and e.d["field"] == field:
                ctx.ob("unfold", False, cards.where(e), "the text that is split into tokens is replaced", key=("unfold", e.span))
    ctx.floor("built", n, 1, "places that build a " + adt)


def leaves(t):
    """The unknown text inside a composition of replacements"""
    if t.op == "call" and t.a[0] in ("replace", "replace_all"):
        return leaves(t.a[1])
    if t.op == "cat":
        return set().union(*[leaves(x) for x in t.a])
    return set() if t.op == "c" else {t}


WORDS = ["".join(w) for k in range(7) for w in itertools.product(ALPHABET, repeat=k)]
UNFOLDED = [re.sub("\r?\n[ \t]", "", w) for w in WORDS]


def differs(v, st):
    """How the text differs from the unfolded input, or None"""
    xs = leaves(v)
    if len(xs) != 1:
        return "it is made of %d texts" % len(xs)
    x, = xs
    if x.op in ("phi", "icall", "star", "elem"):
        return "it is not understood"
    fs = facts(st)
    try:
        for w, u in zip(WORDS, UNFOLDED):
            env = {x: w}
            if holds(fs, env) and ev(v, env) != u:
                return "%r is read as %r" % (w, ev(v, env))
    except Unknown as u:
        return "it is not understood (%s)" % u
    return None


# ---------------------------------------------------------------- writer
def write(ctx):
    an = ctx.an
    d = card_display(an)
    fields = [f["name"] for f in an.adt(cards.VCARD)["variants"][0]["fields"]]
    n = 0
    for f in fields:
        for w, g, p, k, ty, gv, pv in scenarios(an, f):
            if g != p:
                continue
            n += 1
            label = "%s, payload %d, %s group and parameters" % (f, w, "with" if g else "without")

            def setup(E):
                E.vals = [scen.prop(E, ty, w, x, gv, pv) for x in (("v",) if k == "Option" else ("v", "w"))]
                split_short(E)
                E.args = [scen.one_field(E, cards.VCARD, f, value=agg(OPTION, 1, E.vals[0]) if k == "Option" else mk("seq", *E.vals)), None]
            r = an.run(d, "std", tag=("fold", label), setup=setup, args="setup")
            for st, v in r.rets:
                if cards.dset(r.E, st, v) != {0}:
                    continue
                o = sink(st)
                bad = framed(r.E, st, o) if o is not None else "nothing is written"
                ctx.ob("fold", bad is None, d["name"], "the card is written in lines of at most %d octets (%s)%s" % (LIMIT, label, ": " + bad if bad else ""),
                       how="induction over the characters of the line", key=("fold", bad))
    ctx.floor("scenario", n, 70, "symbolic cards")


def framed(E, st, o):
    """What is wrong with the lines of a card"""
    good, used = {}, {}
    for x in flat(o):
        if x is not None and not isinstance(x, str) and x.op == "scanned":
            used.setdefault(x.a[0], [])
            if x.a[1] not in used[x.a[0]]:
                used[x.a[0]].append(x.a[1])
    for sc, outs in used.items():
        t = sc.a[0].a[0]
        good[t] = good.get(t) or folds(sc, outs)
    text, ts = "", []
    for x in unfolded(E, o):
        if isinstance(x, str):
            text += x
        else:
            text += chr(0xE000 + len(ts))
            ts.append(x)
    if not re.fullmatch("BEGIN:VCARD\r\nVERSION:4.0\r\n([^\r\n]+\r\n)*END:VCARD\r\n", text):
        return "the output is %r" % text
    for line in text.split("\r\n"):
        xs = [ts[ord(c) - 0xE000] for c in line if 0xE000 <= ord(c) < 0xF000]
        if len(xs) == 1 and len(line) == 1 and isinstance(xs[0], tuple):
            t = xs[0][1]
            if t not in good:
                return "a line is not folded by a loop over its characters"
            if good[t]:
                return good[t]
        elif xs or len(line) > LIMIT:
            if any(isinstance(x, tuple) for x in xs) or not short(st, line, ts):
                return "a line is written without being folded"
    return None


def short(st, line, ts):
    """Is the line known to be short?"""
    want = [c if ord(c) < 0xE000 else ts[ord(c) - 0xE000] for c in line]
    for t, (lo, hi) in st.iv.items():
        if t.op == "len" and hi <= LIMIT:
            s, us = one_line(t.a[0])
            if [c if ord(c) < 0xE000 else us[ord(c) - 0xE000] for c in s] == want:
                return True
    return False


def poly(t):
    """A linear expression: {term: factor}, None for the constant"""
    if is_c(t, "int"):
        return {None: t.a[1]}
    if t.op == "bin" and t.a[0] in ("Add", "Sub"):
        a, b = poly(t.a[1]), poly(t.a[2])
        return plus(a, b, 1 if t.a[0] == "Add" else -1)
    if t.op == "len" and t.a[0].op in ("cat", "c"):
        return octets(t.a[0])
    if t.op == "call" and t.a[0] == "len_utf8":
        return {mk("len", t.a[1]): 1}
    return {t: 1}


def plus(a, b, k=1):
    r = dict(a)
    for t, n in b.items():
        r[t] = r.get(t, 0) + k * n
    return {t: n for t, n in r.items() if n}


def octets(t):
    r = {}
    for x in flat(t):
        r = plus(r, {None: len(x.encode())} if isinstance(x, str) else {mk("len", x): 1})
    return r


def upper(facts, ivs, p):
    """An upper bound of a linear expression known on the path"""
    best = p[None] if set(p) == {None} else 0 if not p else None
    known = [(poly(t), hi) for t, (lo, hi) in ivs if hi != INF] + [(plus({}, poly(t), -1), -lo) for t, (lo, hi) in ivs if lo != -INF]
    for t, f in facts:
        if t.op == "lt" and f[0] == "in" and len(f[1]) == 1:
            a, b = poly(t.a[0]), poly(t.a[1])
            known.append((plus(a, b, -1), -1) if 1 in f[1] else (plus(b, a, -1), 0))
    for q, hi in known:
        d = plus(p, q, -1)
        if set(d) <= {None}:
            v = hi + d.get(None, 0)
            best = v if best is None else min(best, v)
    return best


def folds(sc, outs):
    """What is wrong with a loop that folds a line, or None. The line is the concatenation of some texts of the loop."""
    src, ints, texts, cases = sc.a
    accs = [mk("sym", ("acc", i)) for i in range(len(texts))]
    nums = [mk("sym", ("int", i)) for i in range(len(ints))]
    ch = mk("sym", ("ch", 0))
    g = mk("len", ch)
    if any(not is_c(texts[i], "str") or texts[i].a[1] for i in outs):
        return "the folded line does not start empty"
    before = [accs[i] for i in outs]
    paths = []
    for n, ends, facts, ivs, ax, ix in cases:
        ps = flat(mk("cat", *[ax[i] for i in outs]))
        lit = "".join(p for p in ps[len(before):] if isinstance(p, str))
        if n != 1 or ends or [p for p in ps if not isinstance(p, str)] != before + [ch] or ps[:len(before)] != before or ps[-1] is not ch or lit not in FOLDS:
            return "an iteration does not append one character"
        after = {}
        for s, y in zip(accs, ax):
            after[mk("len", s)] = octets(y)
        for s, y in zip(nums, ix):
            after[s] = poly(y)
        paths.append((facts, ivs, after, bool(lit)))
    first = {mk("len", s): octets(y) for s, y in zip(accs, texts)}
    first.update({s: poly(y) for s, y in zip(nums, ints)})

    def put(p, vals):
        r = {}
        for t, k in p.items():
            r = plus(r, vals.get(t, {t: 1}) if t is not None else {None: 1}, k)
        return r
    whole = {}
    for i in outs:
        whole = plus(whole, {mk("len", accs[i]): 1})
    why = "no integer of the loop measures the physical line"
    for base in [{}, whole]:
        for v in [None] + [{mk("len", s): 1} for s in accs] + [{s: 1} for s in nums]:
            for sign in (1, -1):
                # the length of the physical line as a linear expression that is 0 at first
                m = plus(base, v or {}, sign)
                z = put(m, first)
                if not m or not set(z) <= {None}:
                    continue
                m = plus(m, z, -1)
                ok = True
                for facts, ivs, after, fold in paths:
                    x = put(m, after)
                    full = set(x) == {None} and x[None] >= LIMIT
                    if x != (plus({None: 1}, {g: 1}) if fold else plus(m, {g: 1})) and not full:
                        ok = False
                if not ok:
                    continue
                his = [upper(facts, ivs, plus(m, {g: 1})) for facts, ivs, after, fold in paths if not fold]
                if all(hi is not None and hi <= LIMIT for hi in his):
                    return None
                why = "a line may be longer"
    return why
