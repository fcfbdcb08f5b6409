"""Parts shared by the rules."""
import an as anm
import cards
import engine as eng
import scen
from an import FROMSTR, DISPLAY, Missing
from terms import *
from terms import mk

ENTRY = ["parse", "parse_loose", "iter", "try_from"]


def public_functions(an):
    """Every function a user can call: public functions and trait implementations of public types."""
    out = []
    for f in an.fns():
        if f.get("closure"):
            continue
        tr = f.get("impl_trait")
        if tr is None and not f.get("pub"):
            continue
        if tr is not None:
            if an.selfadt(f) not in an.p.pubadts:
                continue
            if "serde" in tr or "zeroize" in tr:
                continue
        elif "serde" in f["name"]:
            continue
        out.append(f)
    return out


def is_input(an, f):
    """Does the function turn text into values?"""
    tr = f.get("impl_trait")
    n = f["name"].rsplit("::", 1)[-1]
    if tr == FROMSTR or tr == "std::convert::TryFrom":
        return True
    if tr is None and an.selfadt(f) is None and n.startswith("parse"):
        return True
    return tr == "std::iter::Iterator" and n == "next"


def input_functions(an):
    es = {f["key"] for f in cards.entry_points(an).values()}
    return [f for f in public_functions(an) if is_input(an, f) and f["key"] not in es]


def other_functions(an):
    es = {f["key"] for f in cards.entry_points(an).values()}
    return [f for f in public_functions(an) if not is_input(an, f) and f["key"] not in es]


def card_display(an):
    f = an.trait_impls(DISPLAY, "fmt").get(cards.VCARD)
    if f is None:
        raise Missing("Display for Vcard")
    return f


def panics(ctx, r, rule="panic"):
    """Every operation that may panic is proved not to."""
    n = 0
    for e in r.of("panic"):
        n += 1
        why = e.d.get("why") or ""
        ctx.ob(rule, bool(e.d["proof"]), cards.where(e), "%s cannot panic %s, reached from %s" % (e.d["what"], why, r.fn["name"]),
               how=e.d["proof"], key=(rule, e.span, e.fn, e.d["what"]))
    for e in r.of("recursion"):
        ctx.ob(rule, False, cards.where(e), "%s is recursive: its stack use is not bounded" % e.d["callee"], key=(rule, e.fn))
    return n


def field_writers(an, adt, field=None):
    """Local functions whose body builds the type, writes the field or borrows it mutably."""
    def proj(place):
        return any(isinstance(x, list) and x[0] == "f" and x[3] == adt and (field is None or x[2] == field) for x in place[1])
    out = []
    for f in an.p.fns.values():
        if not f["local"]:
            continue
        for b in f.get("blocks") or []:
            hit = False
            for s in b["s"]:
                if s[0] != "=":
                    continue
                rv = s[2]
                if proj(s[1]) or rv[0] == "agg" and rv[1] == adt or rv[0] == "ref" and rv[2] and proj(rv[1]):
                    hit = True
            t = b["t"]
            if t and t[0] == "call" and any(isinstance(x, list) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list)
                                            and proj(x) for x in t[1:]):
                hit = True
            if hit:
                out.append(f)
                break
    return out


def backs(ctx, r, rule="loop"):
    """Every loop makes progress towards an end."""
    idle = {}
    for e in r.of("back"):
        ok = any(isinstance(l, tuple) and l[0] == "iter" and l[2] == 0 for l in e.must)
        how = "an iterator or the lexer advances in every iteration" if ok else counter(e)
        if how:
            ctx.ob(rule, True, cards.where(e), "every iteration of the loop moves towards its end, reached from %s" % r.fn["name"], how=how)
        else:
            idle.setdefault((e.fid, e.bb, e.d["run"]), []).append(e)
    for es in idle.values():
        # an idle iteration is harmless when no further idle one can follow it for ever
        g = {}
        for e in es:
            g.setdefault(e.d["key"], set()).add(e.d["to"])
        for e in es:
            ctx.ob(rule, not reaches(g, e.d["to"], e.d["key"]), cards.where(e),
                   "every iteration of the loop moves towards its end, reached from %s" % r.fn["name"],
                   how="the loop ends after the iteration that does not advance", key=(rule, e.span, e.fn))
    for e in r.of("recursion"):
        ctx.ob(rule, False, cards.where(e), "%s is recursive" % e.d["callee"], key=(rule, e.fn))


def reaches(g, a, b):
    todo, seen = [a], set()
    while todo:
        x = todo.pop()
        if x == b:
            return True
        if x not in seen:
            seen.add(x)
            todo.extend(g.get(x, ()))
    return False


def addend(v):
    if v.op == "add" and len(v.a) == 2:
        for x, y in ((v.a[0], v.a[1]), (v.a[1], v.a[0])):
            if y.op == "c" and isinstance(y.a[1], int) and y.a[1] > 0:
                return x
    return None


def counter(e):
    """A counter below a bound grows in every iteration."""
    st = e.state()
    for t, f in e.facts.items():
        if t.op not in ("lt", "le") or f != ("in", frozenset([1])):
            continue
        for v in e.d["mem"].values():
            x = addend(v)
            if x is not None and x is t.a[0] and x.op == "phi":
                return "a counter grows towards its bound"
    for k, v in e.d["mem"].items():
        if v.op == "slice" and v.a[0].op == "phi" and v.a[1].op != "open":
            return "a slice shrinks"
    return None


def cursors(E, v, seen=None):
    """The lexer positions a token position may stand for, or None."""
    seen = set() if seen is None else seen
    if v in seen:
        return set()
    seen.add(v)
    if v.op in ("tok", "eof", "bumped", "nocur"):
        return {v}
    if v.op == "phi":
        out = set()
        for x in E.phisrc.get(v, ()):
            c = cursors(E, x, seen)
            if c is None:
                return None
            out |= c
        return out
    return None


def held(v):
    """The cards inside a returned value."""
    if cards.is_card(v):
        return [v]
    out = []
    if v.op == "agg":
        if v.a[0] == RESULT and v.a[1] == 1:
            return out
        for x in v.a[2:]:
            out += held(x)
    elif v.op == "seq":
        for x in v.a:
            if x.op == "star":
                for y in x.a[0]:
                    out += held(y)
            else:
                out += held(x)
    return out


def delivered(r):
    """(where, state, card) for every card that is handed out."""
    out = [(cards.where(e), e.state(), e.d["item"]) for e in r.of("push") if cards.is_card(e.d["item"])]
    if not out:
        for s, v in r.rets:
            out += [(r.fn["name"], s, x) for x in held(v)]
    return out


# ---------------------------------------------------------------- stores to the card
def card_stores(r):
    return [e for e in r.of("store") if e.d["adt"] == cards.VCARD]


def field_kind(p, adt, name):
    """Option, Vec or None, and the type inside"""
    f = p.adts[adt]["variants"][0]["fields"][cards.fidx(p, adt, name)]
    t = p.types[f["ty"]]
    if t["k"] == "adt" and t["adt"] in (OPTION, "std::vec::Vec"):
        return ("Option" if t["adt"] == OPTION else "Vec"), t["args"][0]
    return None, f["ty"]


def line_names(e):
    """(property names the line of a store may have, is it in a group?) from the facts about its first token"""
    import lexphase
    tok = lexphase.linetok(e)
    if tok is None:
        return None, None
    names = None
    for t, f in e.facts.items():
        if t.op == "ci" and f[0] == "in" and lexphase.is_name(t.a[0], tok):
            names = f[1] if names is None else names & f[1]
    dot = e.facts.get(mk("contains", mk("tslice", tok), C("char", ".")))
    return names, {("in", frozenset([1])): True, ("in", frozenset([0])): False}.get(dot)


# ---------------------------------------------------------------- what Display writes
SCANS = ("graphemes", "grapheme_indices", "chars", "char_indices", "bytes", "slice")


FOLDS = ("", "\r\n ", "\r\n\t")


def bases(E, t):
    """(texts a term is made of by scanning them, other strings in it)"""
    out, strs = [], set()
    seen = set()

    def go(x):
        if isinstance(x, frozenset):
            for z in x:
                go(z)
            return
        if not isinstance(x, type(t)) or x in seen:
            return
        seen.add(x)
        if x.op == "scanned":
            sc = x.a[0]
            if sc.a[0].a[0] not in out:
                out.append(sc.a[0].a[0])
            for case in sc.a[3]:
                for y in flat(case[4][x.a[1]])[1:]:
                    if isinstance(y, str):
                        strs.add(y)
                    elif not (y.op == "sym" and isinstance(y.a[0], tuple) and y.a[0][0] == "ch"):
                        strs.add(y)
            return
        if x.op in SCANS and x.a[0].op in ("cat", "call", "disp"):
            if x.a[0] not in out:
                out.append(x.a[0])
        elif x.op == "c":
            strs.add(x.a[1])
        elif x.op == "phi":
            for y in E.phisrc.get(x, ()):
                go(y)
            if not E.phisrc.get(x):
                strs.add(x)
        elif x.op in ("cat", "star", "elem"):
            for y in x.a[:1] if x.op == "elem" else x.a:
                go(y)
        else:
            strs.add(x)
    go(t)
    return out, strs


def flat(t):
    """The parts of a concatenation: strings and terms."""
    out = []
    todo = [t]
    while todo:
        x = todo.pop(0)
        if x.op == "cat":
            todo = list(x.a) + todo
        elif x.op == "c" and isinstance(x.a[1], str):
            if out and isinstance(out[-1], str):
                out[-1] += x.a[1]
            elif x.a[1]:
                out.append(x.a[1])
        else:
            out.append(x)
    return out


def relays(sc, outs):
    """Are these texts together what the loop reads, with folds in between?"""
    before = [mk("sym", ("acc", i)) for i in outs]
    if any(not is_c(sc.a[2][i], "str") or sc.a[2][i].a[1] for i in outs):
        return False
    for n, ends, facts, ivs, ax, ix in sc.a[3]:
        ps = flat(mk("cat", *[ax[i] for i in outs]))
        lit = "".join(p for p in ps[len(before):] if isinstance(p, str))
        if n != 1 or ends or [p for p in ps if not isinstance(p, str)] != before + [mk("sym", ("ch", 0))] or ps[:len(before)] != before or lit not in FOLDS:
            return False
    return True


def unfolded(E, t):
    """The parts of the output where folded pieces of a text are replaced by the text: strings and ("line", text)"""
    out = []
    xs = list(flat(t))
    while xs:
        x = xs.pop(0)
        if isinstance(x, str):
            out.append(x)
            continue
        if x.op == "scanned":
            outs = [x.a[1]]
            while xs and not isinstance(xs[0], str) and xs[0].op == "scanned" and xs[0].a[0] is x.a[0]:
                outs.append(xs.pop(0).a[1])
            if relays(x.a[0], outs):
                out.append(("line", x.a[0].a[0].a[0]))
                continue
            if len(outs) > 1:
                out += [mk("scanned", x.a[0], i) for i in outs]
                continue
        bs, strs = bases(E, x)
        if strs <= set(FOLDS) and len(bs) <= 1:
            if not bs:
                continue
            y = ("line", bs[0])
        else:
            y = x
        if out and isinstance(y, tuple) and out[-1] == y:
            continue
        out.append(y)
    return out


def logical(E, t):
    """The lines of the output as texts: (before the first line break, ...), or None if part of it is not understood"""
    lines, cur = [], []
    for x in unfolded(E, t):
        if isinstance(x, str):
            for i, s in enumerate(x.split("\r\n")):
                if i:
                    lines.append(cur)
                    cur = []
                if s:
                    cur.append(S(s))
        elif isinstance(x, tuple):
            cur.append(x[1])
        elif x.op in ("star", "phi", "scanned", "icall"):
            return None
        else:
            cur.append(x)
    lines.append(cur)
    return [mk("cat", *x) for x in lines]


def split_short(E):
    """Keeps paths apart on which a text is known to be short."""
    scen.split(E, keep=lambda t: t.op == "lt" and any(x.op == "len" and x.a[0].op in ("cat", "disp") for x in t.a))


def sink(st):
    for k, v in st.mem.items():
        if k[0] == "OUT":
            return v
    return None


def one_line(t):
    """(pattern, terms): the text of a line with a placeholder character per unknown part"""
    s, ts = "", []
    for x in flat(t):
        if isinstance(x, str):
            s += x
        else:
            s += chr(0xE000 + len(ts))
            ts.append(x)
    return s, ts
