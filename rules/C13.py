"""The characters each kind of token may hold come from the lexer's regular expressions. A line on which a token was passed whose kind
may be a control character is marked, on every path; no store to the card is reachable on a marked line. Control characters are shown
to be lexed on their own, so that no other kind of token can swallow one."""
import cards
import lexphase
import lexrules
from rules.lib import *

PARTS = ["parse", "parse_loose"]


def check(ctx, part):
    r = cards.parse_run(ctx.an, part)
    E = r.E
    L = lexrules.lexicon(E)
    kinds = lexphase.ctrl_kinds(E)
    for c in list(range(32)) + [127]:
        if c in (9, 10):
            continue
        s = L.auto.step(L.auto.start, L.cls(chr(c)))
        w = L.lex(chr(c))[1]
        ctx.ob("lexed", bool(w) or not s, "the lexer", "U+%04X is a token of its own or an error" % c, how=", ".join(w), key=("lexed", c))
    for n, (d, ps) in lexrules.token_patterns(E.p).items():
        for st, word in L.auto.reach().items():
            if n not in L.winners(st) or n in kinds:
                continue
            bad = [ch for ch in word if (ord(ch) < 32 or ord(ch) == 127) and ch not in "\t\n" and not word.startswith("\r\n")]
            ctx.ob("pure", not bad, "the lexer", "%s tokens hold no control character (%r)" % (n, word), how="words of its language", key=("pure", n))
    n = 0
    for e in card_stores(r):
        n += 1
        ctx.ob("control", ("ctrl",) not in e.may, cards.where(e), "%s is not stored from a line with a control character" % e.d["field"],
               how="every token passed on the line is of another kind", key=("control", e.span))
    ctx.floor("control", n, 100, "stores of properties")
