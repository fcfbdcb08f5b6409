"""A second automaton on the token stream of every entry point: a card that is complete has to be handed out before the next token is read, and
the text has to be read to its end before a list of cards (or the end of the iteration) is returned.  The place where the iterator
goes on is a term over the lexer: the end of the END token of the card just handed out or just given up, or of the text."""
import cards
import lexphase
from rules.lib import *

PARTS = ENTRY + ["new"]
ITER = "iter::VcardIterator"


def run(an, which):
    def setup(E):
        lexphase.setup(E)
        E.an = an
        E.positions = which == "iter"
        std = E.opaque
        v = {f["key"] for f in an.fns(cards.VCARD + "::validate")}
        E.opaque = lambda desc, fn: fn["key"] in v or std(desc, fn)
        E.lex_hooks = E.lex_hooks + (passed,)
        E.head_hooks = (start,) + tuple(E.head_hooks)
        E.fact_hooks = E.fact_hooks + (learnt,)
        E.set_hooks = E.set_hooks + (learnt,)
        ev = E.ev

        def handed(kind, fr, bb, span, st, **d):
            if kind == "push" and cards.is_card(d.get("item")):
                st.label(HANDED)
            return ev(kind, fr, bb, span, st, **d)
        E.ev = handed
    return an.run(cards.entry_points(an)[which], "std", tag="deliver", setup=setup)


HANDED, LOST, ATEND, DONE = ("handed",), ("lost",), ("atend",), ("done",)
CUR = ("O", "ghost.current")


def learnt(E, st, t, v):
    """The current token is END:VCARD."""
    cur = st.mem.get(CUR)
    if cur is None or DONE in st.must or t.op not in ("ci", "discr", "inset"):
        return
    if lexphase.tokset(E, st, cur) == lexphase.role(E, "End") or st.facts.get(mk("ci", mk("tslice", cur))) == ("in", frozenset(["END:VCARD"])):
        st.label(DONE)


def start(E, st):
    """Nothing was read yet."""
    if lexphase.phase(st) is None and all(v.a[1].op in ("nocur", "bumped") for v in st.mem.values() if v.op == "lexer"):
        st.label(HANDED)


def passed(c, st, tok):
    """Called when the next token was read: what of the card before it?"""
    ph = c._oldph
    if ph == "B" or ph == 4 and lexphase.tokset(c.E, st, c._oldcur) == lexphase.role(c.E, "End"):
        if HANDED not in st.must:
            st.label(LOST)
    if lexphase.phase(st) == 1:
        st.unlabel(lambda l: l == HANDED)
    st.unlabel(lambda l: l in (ATEND, DONE))
    cur = [v.a[1] for v in st.mem.values() if v.op == "lexer"]
    if len(cur) == 1 and c.E.positions:
        st.mem[CUR] = cur[0]
    if tok is None:
        st.label(ATEND)
        st.label(DONE)


def outcome(E, st, v):
    """Ok or Err, and what is in it; None: may be either"""
    ds = cards.dset(E, st, v, RESULT)
    if ds == {0}:
        return "Ok", E.getstep(st, v, (RESULT, 0, 0, "0"))
    return "Err" if ds == {1} else None, v


def cardlist(E, st, v):
    v = E.deref(st, v)
    if v.op != "seq":
        return False
    return all(all(cards.is_card(y) for y in x.a[0]) if x.op == "star" else cards.is_card(x) for x in v.a)


def position(an):
    """The iterator type, and its fields that hold positions"""
    fn = cards.entry_points(an)["iter"]
    t = an.p.types[fn["locals"][1][0]]
    a = an.p.types[t["t"]]["adt"]
    fs = an.p.adts[a]["variants"][0]["fields"]
    return a, [(i, f["name"], an.p.types[f["ty"]]["s"] == "usize") for i, f in enumerate(fs)]


def check(ctx, part):
    an = ctx.an
    if part == "new":
        return created(ctx)
    r = run(an, part)
    name = r.fn["name"]
    if part == "iter":
        return iterated(ctx, r)
    n = 0
    for st, v in r.rets:
        k, x = outcome(r.E, st, v)
        if k == "Err":
            continue
        n += 1
        if part == "try_from":
            ctx.ob("first", LOST not in st.may, name, "the card that is returned is the first one of the text", how="no other card was read before it", key=("first",))
            continue
        ctx.ob("end", ATEND in st.must and lexphase.phase(st) == 0, name,
               "the cards are returned when the text was read to its end, with nothing but line breaks between and behind them",
               how="end of input read between cards", key=("end", part))
        ctx.ob("each", LOST not in st.may, name, "every card that was read is in the list that is returned", how="appended before the next token is read",
               key=("each", part))
        ctx.ob("list", cardlist(r.E, st, x), name, "the list that is returned is the one the cards were appended to, and nothing else was done with it",
               how="appended to only", key=("list", part))
    ctx.floor("ret", n, 1, "ways to return cards")


def iterated(ctx, r):
    an, E = ctx.an, r.E
    adt, fields = position(an)
    name = r.fn["name"]
    me = mk("sym", r.fn["locals"][1][1] or "arg1")
    pos = [f for f in fields if f[2]]
    init = {f[1]: E.getstep(State(), me, (adt, 0, f[0], f[1])) for f in fields}
    bumps = r.of("bump")
    ctx.floor("pos", len(pos), 1, "fields with a position")
    for e in bumps:
        ctx.ob("resume", any(e.d["n"] is init[f[1]] for f in pos), cards.where(e), "each step starts reading where the one before stopped",
               how="the lexer is moved by the position kept", key=("resume",))
    ctx.floor("bump", len(bumps), 1, "places that resume")
    kinds = set()
    for st, v in r.rets:
        now = E.deref(st, st.mem.get(("O", me.a[0]), me))
        at = {f[1]: E.getstep(st, now, (adt, 0, f[0], f[1])) for f in fields}
        o = cards.dset(E, st, v, OPTION)
        if o == {0}:
            kinds.add("None")
            ctx.ob("none", ATEND in st.must and lexphase.phase(st) == 0 and LOST not in st.may, name,
                   "the iteration ends only where the text ends and nothing but line breaks was left", how="end of input read between cards", key=("none",))
            continue
        for f in fields:
            if not f[2]:
                ctx.ob("same", at[f[1]] is init[f[1]], name, "a step leaves %s as it is" % f[1], how="same value", key=("same", f[1]))
        k, x = outcome(E, st, E.getstep(st, v, (OPTION, 1, 0, "0")))
        kinds.add(k)
        ps = [at[f[1]] for f in pos if at[f[1]] is not init[f[1]]]
        ok = any(x.op == "tend" and (x.a[0] is st.mem.get(CUR) or ATEND in st.must) for x in ps)
        if k == "Ok":
            ctx.ob("behind", ok and lexphase.complete(st) and DONE in st.must, name,
                   "after a card the iterator goes on behind the END of this card", how="the position is the end of the END token", key=("behind", "card"))
        else:
            ctx.ob("behind", ok and DONE in st.must, name, "after a card that failed the iterator goes on behind the END of this card, or stops at the end of the text",
                   how="the position is the end of an END token, or of the text", key=("behind", "error"))
        ctx.ob("each", LOST not in st.may, name, "no card is passed over on the way to the next result", how="no END was read before", key=("each", k))
    ctx.ob("kinds", kinds >= {"None", "Ok", "Err"}, name, "an iteration gives cards, errors and its end: %s" % sorted(map(str, kinds)), key=("kinds",))


def created(ctx):
    """What a new iterator holds"""
    an = ctx.an
    f = an.fn("iter")
    r = an.run(f, "none", tag="deliver")
    adt, fields = position(an)
    for st, v in r.rets:
        v = r.E.deref(st, v)
        ctx.ob("start", v.op == "agg" and v.a[0] == adt and all(v.a[2 + i] is I(0) for i, _, p in fields if p), f["name"],
               "a new iterator starts at the beginning of the text", how="position 0", key=("start",))
        flags = [x for x in subterms(v) if x.op == "sym" and x.a[0] == f["locals"][2][1]]
        ctx.ob("strict", bool(flags) and not any(x.op == "not" for x in subterms(v)), f["name"], "the iterator is as strict as the caller asked", how="the flag is passed on", key=("strict",))
    ctx.floor("ret", len(r.rets), 1, "new iterators")
