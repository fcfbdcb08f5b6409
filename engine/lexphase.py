"""Typestate of the token stream of one vCard.

Phases (a partition label of every state):
  none: before the first token       B after a complete card
  0 between cards          1 after BEGIN:VCARD       2 after its line end
  3 after VERSION          4 in the body at the start of a line
  D at the token after the first one of a line         V, P in the value after ':' or in the parameters after ';'
  5 in the body inside any other line                 X anything else
  L in the body, the current token completed a line
  E after the end of the text
"""
from terms import *
from terms import mk


INLINE = (4, 5, "D", "V", "P")
AFTER_BEGIN = (1, 2, 3, "L") + INLINE


TEXTS = {"Begin": ["BEGIN:VCARD"], "End": ["END:VCARD"], "Version": ["VERSION:4.0", "VERSION:3.0"]}


def role(E, name):
    """The token kinds that stand for exactly one text."""
    r = getattr(E, "_roles", None)
    if r is None:
        r = E._roles = {}
    if name not in r:
        import lexrules
        r[name] = lexrules.lexicon(E).role(*TEXTS.get(name, [name]))
    return r[name]


def ext_kinds(E):
    """The kinds an extension name is lexed as, if they stand for nothing else."""
    import lexrules
    r = set(lexrules.lexicon(E).lex("X-A")[1])
    return r if r <= x_kinds(E) else set()


def tokset(E, st, cur):
    """Names of the kinds the current token may have; None if there is none."""
    if cur is None or not (cur.op == "tok" or cur.op == "phi" and cur in E.tokphi):
        return None
    names = getattr(E, "_tokn", None)
    if names is None:
        names = E._tokn = {int(v["discr"]): v["name"] for v in E.p.adts[E.tokadt]["variants"]}
    d = E.models.DISCR_OF.get(cur)
    f = st.facts.get(d) if d is not None else None
    res = {0, 1}
    if f:
        res = set(f[1]) if f[0] == "in" else res - set(f[1])
    out = set()
    if 1 in res:
        out.add("<error>")
    if 0 in res:
        inner = mk("fld", cur, 0, 0, "0", RESULT)
        f = st.facts.get(E.models.DISCR_OF.get(inner))
        s = set(names)
        if f:
            s = set(f[1]) if f[0] == "in" else s - set(f[1])
        out |= {names[x] for x in s}
    return out


def phase(st):
    for l in st.must:
        if l[0] == "part" and l[1] == "ph":
            return l[2]
    return None


def setphase(st, p):
    st.unlabel(lambda l: l[0] == "part" and l[1] == "ph")
    st.label(("part", "ph", p))


def nl_kinds(E):
    """Token kinds whose texts all end with a line break, and those that may."""
    r = getattr(E, "_nlk", None)
    if r is None:
        import lexrules
        import rx
        every, some = set(), set()
        for n, (d, ps) in lexrules.token_patterns(E.p).items():
            al, an = True, False
            for k, t in ps:
                try:
                    a = rx.lit(lexrules.literal(t)) if k == "token" else rx.parse(lexrules.literal(t))
                    ls, e = rx.last_sets(a)
                except (rx.Unsupported, IndexError, KeyError, ValueError):
                    al, an = False, True
                    continue
                al = al and not e and all(x == ((10, 11),) for x in ls)
                an = an or any(lo <= 10 < hi for x in ls for lo, hi in x)
            if al and ps:
                every.add(n)
            if an:
                some.add(n)
        r = E._nlk = (every, some)
    return r


def ends_hook(E, st, t):
    """Does the text of a token end with a line break?"""
    if t.a[0].op != "tslice" or t.a[1].op != "c" or t.a[1].a[1] != "\n":
        return None
    cur = t.a[0].a[0]
    if st.facts.get(mk("nl", cur)) == YES:
        return 1
    k = tokset(E, st, cur)
    if k is None:
        return None
    every, some = nl_kinds(E)
    if k <= every:
        return 1
    if not k & some and "<error>" not in k:
        return 0
    return None


def inset_hook(E, st, t):
    """Is the text of a token one of some words, in any case?"""
    x = t.a[0]
    if x.op != "ci" or x.a[0].op != "tslice":
        return None
    k = tokset(E, st, x.a[0].a[0])
    if not k:
        return None
    m = E.__dict__.setdefault("_inset", {})
    key = (frozenset(k), t.a[1])
    if key not in m:
        import lexrules
        L = lexrules.lexicon(E)
        full = set()
        for w in t.a[1]:
            for y in {w, w.upper(), w.lower(), w.swapcase(), w.title()}:
                n, ks = L.lex(y)
                full |= ks if n == len(y) else {"<error>"} | k
        m[key] = 0 if not k & full else 1 if "<error>" not in k and all(L.pure(n, t.a[1]) for n in k) else None
    return m[key]


YES = ("in", frozenset([1]))


def at_newline(E, st, cur):
    """The current token ends a line."""
    if cur is None:
        return False
    if st.facts.get(mk("nl", cur)) == ("in", frozenset([1])):
        return True
    k = tokset(E, st, cur)
    if k and k <= nl_kinds(E)[0]:
        return True
    f = st.facts.get(mk("ends", mk("tslice", cur), C("char", "\n"))) or st.facts.get(mk("ends", mk("tslice", cur), S("\n")))
    return bool(f) and f == ("in", frozenset([1]))


def norm(E, st):
    """At loop heads the current token is folded into the phase."""
    ph = phase(st)
    if ph in ("B", "X", "E"):
        return
    curs = {v.a[1] for v in st.mem.values() if v.op == "lexer"}
    if len(curs) != 1:
        return
    cur = curs.pop()
    if ph is None:
        if cur.op in ("nocur", "bumped"):
            setphase(st, "B")
        return
    if ph in (3,) + INLINE and at_newline(E, st, cur):
        if ph == 3:
            st.label(("stored",))
            st.label(("settled",))
        setphase(st, "L")
        st.unlabel(lambda l: l == IOPEN)
    elif ph == 4 and tokset(E, st, cur) == role(E, "End") or ph == 0 and at_newline(E, st, cur):
        setphase(st, "B")


def fold(E, st):
    """A card is complete once the END token was read at the start of a line."""
    if phase(st) == 4:
        curs = {v.a[1] for v in st.mem.values() if v.op == "lexer"}
        if len(curs) == 1 and tokset(E, st, curs.pop()) == role(E, "End"):
            setphase(st, "B")


def step(E, st, ph, cur):
    if cur is None or cur.op in ("nocur", "bumped"):
        return 0
    k = tokset(E, st, cur)
    nl = at_newline(E, st, cur)
    if ph == 0:
        if k == role(E, "Begin"):
            return 1
        return 0 if nl else "X"
    if ph == 1:
        return 2 if nl else "X"
    if ph == 2:
        return 3 if k == role(E, "Version") else "X"
    if ph == 3:
        if nl:
            st.label(("stored",))
            st.label(("settled",))
        return 4 if nl else "X"
    if ph == "L":
        return 4
    if ph == 4:
        if k == role(E, "End"):
            return 0
        return 4 if nl else "D"
    if ph in INLINE:
        if nl:
            return 4
        if ph == "D":
            return "V" if k and k == role(E, ":") else "P" if k and k == role(E, ";") else 5
        return ph
    return "X"


def hook(c, st, tok):
    """Called for both outcomes of a token read, after the lexer moved."""
    E = c.E
    cur = c._oldcur
    ph = c._oldph = phase(st)
    if ph == "E":
        if tok is not None:
            return False
    elif ph is None:
        ph = 0 if cur is None or cur.op in ("nocur", "bumped") else "X"
    elif ph == "B" or ph == 4 and tokset(E, st, cur) == role(E, "End"):
        ph = 0
        st.label(("ended",))
    else:
        ph = step(E, st, ph, cur)
        if ph != 0:
            st.unlabel(lambda l: l == ("ended",))
    if tok is None and ph in AFTER_BEGIN:
        ph = "E"
    setphase(st, ph)


def inner_discr(E, v):
    t = mk("fld", v, 0, 0, "0", RESULT)
    d = E.models.DISCR_OF.get(t)
    if d is None:
        d = E.models.DISCR_OF[t] = mk("discr", t, E.tokadt)
    return d


CURS = ("tok", "eof")


def phi_hook(E, sa, a, sb, b, phi, out):
    """Token knowledge survives a join."""
    def cur(x):
        return x.op in CURS or x.op == "phi" and x in E.curphi
    if all(x.op in ("tstart", "tend") or x.op == "phi" and x in E.posphi for x in (a, b)):
        E.posphi.add(phi)
    for s, x in ((sa, a), (sb, b)):
        if x.op == "slice" and may_escape(s, x):
            E.escsrc.add((phi, x))
    if not (cur(a) and cur(b)):
        return
    E.curphi.add(phi)
    if at_newline(E, sa, a) and at_newline(E, sb, b):
        out.append(("f", mk("nl", phi), ("in", frozenset([1]))))
    if any(x.op == "eof" or x.op == "phi" and x not in E.tokphi for x in (a, b)):
        return
    E.tokphi.add(phi)
    E.models.DISCR_OF[phi] = mk("discr", phi, RESULT)
    da, db = inner_discr(E, a), inner_discr(E, b)
    fa, fb = sa.facts.get(da), sb.facts.get(db)
    if fa and not fb and E.vacuous(sb, db):
        fb = fa
    elif fb and not fa and E.vacuous(sa, da):
        fa = fb
    if fa and fb:
        j = fact_join(fa, fb)
        if j:
            out.append(("f", inner_discr(E, phi), j))
    fa, fb = sa.facts.get(mk("discr", a, RESULT)), sb.facts.get(mk("discr", b, RESULT))
    if fa and fb:
        j = fact_join(fa, fb)
        if j:
            out.append(("f", mk("discr", phi, RESULT), j))


def tokens(E):
    """What is known of a token is known of it in all the places that hold it."""
    E.tokphi = set()
    E.curphi = set()
    E.posphi = set()
    E.oftext = set()
    E.escsrc = set()
    E.share = lambda x: x.op in CURS or x.op in ("tstart", "tend") or x.op == "phi" and (x in E.curphi or x in E.posphi)
    E.paired = ("tstart", "tend")
    E.phi_hooks = (phi_hook,)


def setup(E):
    tokens(E)
    E.head_hooks = (norm,)
    E.ret_hooks = (fold,)
    E.lex_hooks = (hook,)
    E.fact_hooks = (xname_hook, failed_hook)
    E.set_hooks = (set_hook,)
    E.eval_hooks = dict(E.eval_hooks, ends=ends_hook, inset=inset_hook)


def complete(st):
    """A complete card was read, and nothing of the next one."""
    return phase(st) == "B" or phase(st) == 0 and ("ended",) in st.must


def name_part(t, tok, which):
    """Is the term the part of the token text before (0) or after (1) its first dot?"""
    ts = mk("tslice", tok)
    dot = C("char", ".")
    find = mk("find", ts, dot)
    if which == 0:
        alts = (mk("slice", ts, mk("open"), find), mk("elem", mk("splitn", ts, I(2), dot), I(0)))
    else:
        alts = (mk("slice", ts, mk("bin", "Add", find, I(1)), mk("open")), mk("elem", mk("splitn", ts, I(2), dot), I(1)))
    return t in alts


def is_name(t, tok):
    """1: the whole token, 2: what follows its group"""
    if t is mk("tslice", tok):
        return 1
    return 2 if name_part(t, tok, 1) else 0


def xname_hook(E, st, t, v):
    """The name of the line is known to start with X-."""
    if not (t.op == "starts" and v == 1 or t.op == "discr"):
        return
    for l in st.must:
        if l[0] == "linetok":
            tok = l[1]
            break
    else:
        return
    if t.op == "starts":
        x, pre = t.a
        if x.op == "call" and x.a[0] in ("upper", "lower"):
            x = x.a[1]
        ok = pre.op == "c" and str(pre.a[1]).upper() == "X-" and is_name(x, tok)
    else:
        k = tokset(E, st, tok)
        ok = bool(k) and k <= x_kinds(E)
    if ok:
        st.label(("xname",))
        st.label(("typed",))


def x_kinds(E):
    """Token kinds whose texts all start with X-."""
    r = getattr(E, "_xk", None)
    if r is None:
        import lexrules
        import rx
        r = set()
        for n, (d, ps) in lexrules.token_patterns(E.p).items():
            try:
                ok = bool(ps)
                for k, t in ps:
                    a = rx.Auto({0: rx.lit(lexrules.literal(t)) if k == "token" else rx.parse(lexrules.literal(t))})
                    ok = ok and rx.starts_with(a, "X-", True)
            except (rx.Unsupported, IndexError, KeyError, ValueError):
                ok = False
            if ok:
                r.add(n)
        E._xk = r
    return r


def failed_hook(E, st, t, v):
    """Some operation on the line is known to have failed."""
    if v == 1 and t.op == "discr" and t.a[1] == RESULT and t.a[0].op != "tok" and t.a[0] not in E.tokphi:
        st.label(("settled",))


PARAMETERS = "parameter::Parameters"
TYPED = {"FN", "NICKNAME", "PHOTO", "ADR", "TEL", "EMAIL", "IMPP", "LANG", "TZ", "GEO", "TITLE", "ROLE", "LOGO", "ORG", "RELATED",
         "CATEGORIES", "NOTE", "SOUND", "URL", "KEY", "FBURL", "CALADRURI", "CALURI"}


def set_hook(E, st, t, vals):
    """What is learnt about the name of the line and about the key of a parameter."""
    folded(E, st, t, vals)
    tok = key = None
    for l in st.must:
        if l[0] == "linetok":
            tok = l[1]
        elif l[0] == "key":
            key = l[1]
    if tok is None or t.op != "ci":
        return
    if vals <= TYPED and is_name(t.a[0], tok):
        st.label(("typed",))
        for x in vals:
            st.label(("typedname", x))
    if key is not None and t.a[0] is mk("tslice", key) and vals == {"CHARSET"}:
        st.label(("pstored",))


def key_kinds(E):
    """Token kinds that may be the key of a parameter: those a TYPE or X- parameter name is lexed as, and what shares them."""
    r = getattr(E, "_kk", None)
    if r is None:
        import lexrules
        from rules import rfc
        L = lexrules.lexicon(E)
        r = set()
        for x in list(rfc.PARAMS.values()) + ["CHARSET", "ENCODING", "X-A"]:
            r |= L.lex(x)[1]
        E._kk = r
    return r


def key_step(E, st, cur):
    """The token just left was the key of a parameter."""
    if phase(st) != "P" or cur is None or any(l == ("linetok", cur) for l in st.must):
        return
    k = tokset(E, st, cur)
    if k and k <= key_kinds(E):
        old = [l for l in st.must if l[0] == "key"]
        if old and ("pstored",) not in st.must:
            st.label(("plost",))
        st.unlabel(lambda l: l[0] in ("key", "pstored"))
        st.label(("key", cur))


def ctrl_kinds(E):
    """Token kinds a control character other than a tab may be lexed as."""
    r = getattr(E, "_ck", None)
    if r is None:
        import lexrules
        L = lexrules.lexicon(E)
        r = set()
        for c in list(range(32)) + [127]:
            if c not in (9, 10):
                r |= L.lex(chr(c))[1]
        E._ck = r
    return r


def escapes(E):
    """{token kind: character it stands for} for the escape sequences of the RFC, and the sequences that have no kind of their own"""
    r = getattr(E, "_esc", None)
    if r is None:
        import lexrules
        L = lexrules.lexicon(E)
        r, missing = {}, set()
        for w, c in ESCAPES.items():
            n, k = L.lex(w)
            if n == len(w) and len(k) == 1 and L.pure(next(iter(k)), [x for x in ESCAPES if ESCAPES[x] == c]):
                r[next(iter(k))] = c
            else:
                missing.add(w)
        r = E._esc = (r, missing)
    return r


ESCAPES = {"\\\\": "\\", "\\,": ",", "\\;": ";", "\\n": "\n", "\\N": "\n"}


def fold_kinds(E):
    """Token kinds that are a line break followed by a blank."""
    import lexrules
    L = lexrules.lexicon(E)
    n, k = L.lex("\n ")
    return k if n == 2 else set()


VSTART, PSTART, PEND = ("GHOST", "value"), ("GHOST", "param"), ("GHOST", "pend")
ELEM = ("GHOST", "elem")
NOWHERE = mk("nowhere")
IOPEN = ("part", "iopen")


def setq(st, x):
    st.unlabel(lambda l: l[0] == "q")
    st.label(("q", x))


def open_quote(E, st, cur):
    """The first token of a parameter value is a quote or not."""
    if ("pfirst",) not in st.must or cur is None:
        return
    k = tokset(E, st, cur)
    if k and k == role(E, '"'):
        setq(st, 1)
        st.mem[PSTART] = mk("tend", cur)
        st.label(("qopen",))
    elif k and not k & role(E, '"'):
        st.unlabel(lambda l: l == ("pfirst",))


def quote_norm(E, st):
    """At loop heads the first token of a parameter value is folded into the state."""
    curs = {v.a[1] for v in st.mem.values() if v.op == "lexer"}
    if len(curs) == 1:
        cur = curs.pop()
        open_quote(E, st, cur)
        escaped(E, st, cur)


def escaped(E, st, cur):
    """A token that may be an escape sequence keeps the states apart."""
    if st.mem.get(VSTART, NOWHERE) is NOWHERE and st.mem.get(PSTART, NOWHERE) is NOWHERE or ("esc",) in st.must:
        return
    k = tokset(E, st, cur)
    kinds = set(escapes(E)[0])
    if st.mem.get(VSTART, NOWHERE) is NOWHERE:
        # a semicolon is not escaped in parameter values
        kinds -= {x for x, c in escapes(E)[0].items() if c == ";"}
    if k is None or k & kinds:
        st.label(("esc",))


def may_escape(st, x):
    """May the slice at hand contain an escape sequence?"""
    return ("esc",) in st.may and all(st.facts.get(mk("contains", x, c)) != ("in", frozenset([0])) for c in (C("char", "\\"), S("\\")))


def value_step(E, st, ph, old, cur, tok):
    """Where the value of the line and of its current parameter begin, by the grammar of the RFC: the value after the first colon that is
    not inside a quoted parameter value, a parameter value after its equals sign."""
    if ph not in ("V", "P") or tok is None:
        st.mem[VSTART] = st.mem[PSTART] = st.mem[PEND] = st.mem[ELEM] = NOWHERE
        st.unlabel(lambda l: l[0] in ("q", "pfirst", "qopen", "vpend", "vskip", "vdup", "epend", "epush") or l in (("esc",), IOPEN))
        return
    if st.mem[VSTART] is not NOWHERE:
        if ("vpend",) in st.may:
            k = tokset(E, st, cur) if cur is not None else None
            if not k or not k <= fold_kinds(E):
                st.label(("vskip",))
        st.unlabel(lambda l: l == ("vpend",))
    if cur is not None:
        escaped(E, st, cur)
    before = st.mem[VSTART]
    value_begin(E, st, ph, old, cur, tok)
    if st.mem[VSTART] is not before:
        st.unlabel(lambda l: l[0] in ("vskip", "vdup", "epend", "epush") or l in (("esc",), IOPEN))
    if st.mem[VSTART] is not NOWHERE:
        st.label(("vpend",))


def value_begin(E, st, ph, old, cur, tok):
    if ph == "V":
        if old == "D":
            st.mem[VSTART] = mk("tstart", tok)
        return
    if ("q", "v") in st.must:
        return
    open_quote(E, st, cur)
    opened = ("qopen",) in st.must
    st.unlabel(lambda l: l[0] in ("pfirst", "qopen"))
    k = tokset(E, st, cur) if cur is not None else None
    quoted = ("q", 1) in st.must
    if opened or not k:
        return
    if k == role(E, '"'):
        if quoted:
            setq(st, 2)
            st.mem[PEND] = mk("tstart", cur)
    elif not quoted and k == role(E, "="):
        setq(st, 0)
        st.mem[PSTART] = mk("tstart", tok)
        st.mem[PEND] = NOWHERE
        st.label(("pfirst",))
        st.unlabel(lambda l: l[0] in ("vskip", "vdup", "epend", "epush") or l in (("esc",), IOPEN))
    elif not quoted and k == role(E, ":"):
        st.mem[VSTART] = mk("tstart", tok)
        setq(st, "v")


LINE = ("ctrl", "stored", "stored2", "linetok", "delim", "xname", "settled", "typed", "typedname", "key", "pstored", "plost")
RECORD = ("store", "touch", "push", "next", "back", "slice", "strpush", "gather")


def line_state(E, st):
    """(phase, current token, does it end the line)"""
    curs = {v.a[1] for v in st.mem.values() if v.op == "lexer"}
    cur = curs.pop() if len(curs) == 1 else None
    return phase(st), cur, at_newline(E, st, cur)


def linetok(e):
    """The first token of the line an event belongs to."""
    r = {l[1] for l in e.must if l[0] == "linetok"}
    return r.pop() if len(r) == 1 else None


def delim(e):
    """V: the name was followed by a colon, P: by a semicolon"""
    r = {l[1] for l in e.must if l[0] == "delim"}
    return r.pop() if len(r) == 1 else None


def holds_token(t):
    return any(x.op == "tok" or x.op == "tstart" for x in subterms(t))


def of_text(E, t):
    """Is the value computed from tokens?"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x in E.oftext:
            break
        for y in subterms(x):
            if y.op in ("tok", "tstart", "tslice"):
                break
            if y.op == "phi":
                todo.extend(E.phisrc.get(y, ()))
        else:
            continue
        break
    else:
        return False
    E.oftext.add(t)
    return True


LISTS = ("iter", "into", "split", "splitn", "rsplit", "rsplitn", "split_terminator")


def inside(st):
    """In a parameter value or in the value of the line"""
    return st.mem.get(VSTART, NOWHERE) is not NOWHERE or st.mem.get(PSTART, NOWHERE) is not NOWHERE


def folded(E, st, t, vals):
    """The token at hand in a list of tokens is a folded line break, which may be left out."""
    if ("epend",) not in st.may or t.op != "discr" or t.a[1] != E.tokadt or t.a[0].op != "fld":
        return
    x = t.a[0].a[0]
    if any(v.op == "lexer" and v.a[1] is x for v in st.mem.values()):
        return
    k = tokset(E, st, x)
    if k and k <= fold_kinds(E):
        st.unlabel(lambda l: l == ("epend",))


def element(E, st, x):
    """The token at hand in a list of tokens."""
    if not inside(st):
        return
    if x is None:
        st.unlabel(lambda l: l == IOPEN)
    elif holds_token(x):
        st.mem[ELEM] = x


def at_hand(E, st, cur):
    """Kinds of the token whose text is being added: that of the list of tokens, else the current one."""
    x = st.mem.get(ELEM, NOWHERE)
    if x is NOWHERE:
        return tokset(E, st, cur) if cur is not None else None
    for t in subterms(x):
        if t.op == "tok" or t.op == "phi" and t in E.tokphi:
            return tokset(E, st, t)
    return None


def is_token(t):
    """Does the value hold a token, not only its text or place?"""
    todo = [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, T):
            todo.extend(x if isinstance(x, (tuple, frozenset)) else ())
        elif x.op == "tok":
            return True
        elif x.op not in ("tstart", "tend", "tslice", "slice"):
            todo.extend(x.a)
    return False


def pushed(E, st, kind, d):
    """The token at hand was recorded: in a list of tokens or in the text of the value."""
    if kind != "strpush" and not of_text(E, d["item"]):
        return
    st.unlabel(lambda l: l == ("vpend",))
    if kind != "push" or not is_token(d["item"]):
        st.unlabel(lambda l: l == ("epend",))
        if ("epush",) in st.may:
            st.label(("vdup",))
        st.label(("epush",))


def record(E, cardadt):
    """Events carry the line state, and every line remembers what it has stored."""
    plain = E.ev

    def ev(kind, fr, bb, span, st, **d):
        if kind in RECORD:
            d["ph"], d["cur"], d["eol"] = line_state(E, st)
            d["vstart"], d["pstart"] = st.mem.get(VSTART), st.mem.get(PSTART)
            d["pend"] = st.mem.get(PEND)
            if kind == "strpush":
                d["hand"] = at_hand(E, st, d["cur"])
        e = plain(kind, fr, bb, span, st, **d)
        if kind in ("push", "strpush", "gather") and inside(st):
            pushed(E, st, kind, d)
        elif kind == "next" and d["itkind"] in LISTS and inside(st) and of_text(E, d["src"]):
            if ("epend",) in st.may:
                st.label(("vskip",))
            st.unlabel(lambda l: l == ("epush",))
            st.label(("epend",))
            if st.mem.get(VSTART, NOWHERE) is NOWHERE or d["src"].op in ("split", "splitn"):
                st.label(IOPEN)
        if kind in ("store", "touch") and d["adt"] == PARAMETERS:
            st.label(("pstored",))
        if kind == "store" and d["adt"] == cardadt:
            if ("stored",) in st.may:
                st.label(("stored2",))
            st.label(("stored",))
            st.label(("settled",))
        elif kind == "agg" and d["adt"] == "error::Error":
            st.label(("settled",))
        return e
    E.ev = ev

    def line_hook(c, st, tok):
        ph = phase(st)
        key_step(E, st, c._oldcur)
        if ph == 1:
            st.unlabel(lambda l: l == ("dropped",))
        if ph == 4:
            if ("stored",) not in st.must:
                st.label(("dropped",))
            E.lines.append((c.fr.fn["name"], c.bb, c.span, ("stored",) in st.must, ("stored",) in st.may, ("stored2",) in st.may,
                            ("settled",) in st.must))
            st.unlabel(lambda l: l[0] in LINE)
            if tok is not None:
                st.label(("linetok", tok))
        elif ph in ("V", "P"):
            st.label(("delim", ph))
        value_step(E, st, ph, c._oldph, c._oldcur, tok)
        if ph in ("D", "V", "P", 5) and c._oldcur is not None:
            k = tokset(E, st, c._oldcur)
            if k is None or k & ctrl_kinds(E):
                st.label(("ctrl",))
    E.lines = []
    E.head_hooks = E.head_hooks + (quote_norm,)
    E.lex_hooks = E.lex_hooks + (line_hook,)
    E.elem_hooks = E.elem_hooks + (element,)
