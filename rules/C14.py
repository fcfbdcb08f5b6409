"""The lexer's automaton (built from its regular expressions, longest match, then priority) is run on every property name, parameter key
and framing line in every mixture of upper and lower case, names also after every possible group, and on every X- name. Each must be
one token that ends exactly at the delimiter, of a kind that, by the path facts at the places that store it, is accepted for that
field or parameter."""
import cards
import lexphase
import lexrules
import rx
from rules import rfc
from rules.lib import *
from rules.C11 import key_names

GROUPCH = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-"
PARTS = ["parse", "parse_loose"]


def cases(c):
    return {c.lower(), c.upper()}


def walk(L, states, text):
    for c in text:
        states = {L.auto.step(s, L.cls(x)) for s in states for x in cases(c)}
    return states


def plus(L, states, chars):
    """The states after one or more of the characters."""
    out = set()
    todo = list(states)
    while todo:
        s = todo.pop()
        for c in chars:
            t = L.auto.step(s, L.cls(c))
            if t not in out:
                out.add(t)
                todo.append(t)
    return out


def exact(L, states, delims, kinds):
    """Every one of these states is a token of one of the kinds that the delimiter ends."""
    for s in states:
        w = L.winners(s)
        if not w or not w <= kinds:
            return False, "it is lexed as %s" % (", ".join(sorted(w)) or "nothing")
        for d in delims:
            t = L.auto.step(s, L.cls(d))
            if t and (L.winners(t) or not L.dead(t)) and longer(L, t):
                return False, "a longer token may follow"
    return True, "one token"


def longer(L, s):
    seen, todo = set(), [s]
    while todo:
        x = todo.pop()
        if L.winners(x):
            return True
        for i in range(len(L.auto.classes)):
            t = L.auto.step(x, i)
            if t and t not in seen:
                seen.add(t)
                todo.append(t)
    return False


SPELT = ("inset", "starts", "ends", "contains", "find", "eq", "Eq", "Ne")


def exactly(t, f, toks):
    """Does this fact compare the spelling of one of the tokens with letters, in the case they have?"""
    def raw(x):
        if x.op == "tslice":
            return x.a[0] in toks
        if x.op in ("ci", "call") and (x.op == "ci" or str(x.a[0]) in ("upper", "lower")) or x.op == "find":
            return False
        return any(raw(y) for y in x.a if hasattr(y, "op"))

    def texts(x):
        if isinstance(x, (set, frozenset, tuple, list)):
            return {z for y in x for z in texts(y)}
        if isinstance(x, str):
            return {x}
        return {x.a[1]} if hasattr(x, "op") and x.op == "c" and isinstance(x.a[1], str) else set()
    if t.op in SPELT:
        return raw(t.a[0]) and any(z.lower() != z.upper() for z in texts(t.a[1:]))
    return t.op in ("tslice", "slice") and raw(t) and any(z.lower() != z.upper() for z in texts(f[1:] if isinstance(f, tuple) else f))


def check(ctx, part):
    an = ctx.an
    r = cards.parse_run(an, part)
    E = r.E
    L = lexrules.lexicon(E)
    seen = {}
    for e in r.events:
        toks = {l[1] for l in e.must if l[0] == "key"} | {lexphase.linetok(e)}
        for t, f in e.facts.items():
            k = (t, repr(f))
            if k not in seen or not seen[k]:
                seen[k] = exactly(t, f, toks)
                if seen[k]:
                    ctx.ob("spelling", False, cards.where(e), "no decision depends on the case of the letters of a name or key: %s" % str(t)[-160:],
                           key=("spelling", e.span))
    ctx.ob("spelling", True, "the parser", "no decision depends on the case of the letters of a name or key", how="%d path facts" % len(seen), key="spelling")
    ctx.floor("spelling", len(seen), 100, "path facts")
    # the kinds each field takes its lines from, without and with a group
    kinds, keys = {}, {}
    for e in card_stores(r):
        tok = lexphase.linetok(e)
        names, grouped = line_names(e)
        k = lexphase.tokset(E, e.state(), tok) if tok is not None else set()
        kinds.setdefault((e.d["field"], grouped), set()).update(k or ())
    for e in r.events:
        if e.kind in ("store", "touch") and e.d["adt"] == lexphase.PARAMETERS:
            ks = {l[1] for l in e.must if l[0] == "key"}
            k = lexphase.tokset(E, e.state(), ks.pop()) if len(ks) == 1 else set()
            names, _ = key_names(e)
            for n in names if names and e.d["field"] == rfc.EXTENSIONS else [e.d["field"]]:
                keys.setdefault(n, set()).update(k or ())
    start = {L.auto.start}
    dot = plus(L, start, GROUPCH)
    dot = {L.auto.step(s, L.cls(".")) for s in dot}
    for f, n in rfc.NAMES.items():
        for grouped, ss in ((False, start), (True, dot)):
            ok, why = exact(L, walk(L, ss, n), ":;", kinds.get((f, grouped), set()))
            ctx.ob("name", ok, "the lexer", "%s %s is one token in any case, accepted for %s: %s" % (n, "after any group" if grouped else "without group", f, why),
                   how=why, key=("name", n, grouped))
    for grouped, ss in ((False, start), (True, dot)):
        ok, why = exact(L, plus(L, walk(L, ss, "X-"), GROUPCH), ":;", kinds.get((rfc.EXTENSIONS, grouped), set()))
        ctx.ob("name", ok, "the lexer", "X- names are one token in any case: %s" % why, how=why, key=("name", "X-", grouped))
    for f, n in list(rfc.PARAMS.items()) + [("ENCODING", "ENCODING")]:
        ok, why = exact(L, walk(L, start, n), "=", keys.get(f, set()))
        ctx.ob("key", ok, "the lexer", "the parameter key %s is one token in any case: %s" % (n, why), how=why, key=("key", n))
    ok, why = exact(L, plus(L, walk(L, start, "X-"), GROUPCH), "=", keys.get(rfc.EXTENSIONS, set()))
    ctx.ob("key", ok, "the lexer", "X- parameter keys are one token in any case: %s" % why, how=why, key=("key", "X-"))
    for role, ts in lexphase.TEXTS.items():
        for t in ts:
            ok, why = exact(L, walk(L, start, t), "\r\n", lexphase.role(E, role))
            ctx.ob("frame", ok, "the lexer", "%s is one token in any case: %s" % (t, why), how=why, key=("frame", t))
