"""Control-flow graphs, natural loops and liveness over the extracted MIR."""


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[5]]
    return []


def _place_uses(p, out):
    out.add(p[0])
    for e in p[1]:
        if e[0] == "i":
            out.add(e[1])


def _op_uses(o, out):
    if o[0] in ("cp", "mv"):
        _place_uses(o[1], out)


def rv_uses(r, out):
    k = r[0]
    if k == "use":
        _op_uses(r[1], out)
    elif k == "repeat":
        _op_uses(r[1], out)
    elif k in ("ref", "discr", "rawptr", "len", "copyderef"):
        _place_uses(r[1], out)
    elif k == "cast":
        _op_uses(r[2], out)
    elif k == "bin":
        _op_uses(r[2], out)
        _op_uses(r[3], out)
    elif k == "un":
        _op_uses(r[2], out)
    elif k == "agg":
        for o in r[3]:
            _op_uses(o, out)


class Cfg:
    def __init__(self, fn):
        self.fn = fn
        bl = fn["blocks"]
        n = len(bl)
        self.succ = [succs(b["t"]) for b in bl]
        # rpo
        seen = [False] * n
        post = []
        st = [(0, iter(self.succ[0]))]
        seen[0] = True
        while st:
            b, it = st[-1]
            for s in it:
                if not seen[s]:
                    seen[s] = True
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                post.append(b)
                st.pop()
        self.rpo_list = post[::-1]
        self.rpo = {b: i for i, b in enumerate(self.rpo_list)}
        self.pred = {b: [] for b in self.rpo_list}
        for b in self.rpo_list:
            for s in self.succ[b]:
                self.pred[s].append(b)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo_list[1:]:
                new = None
                for p in self.pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while self.rpo[x] > self.rpo[y]:
                                    x = idom[x]
                                while self.rpo[y] > self.rpo[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        self.loops = {}
        self.irreducible = False
        for b in self.rpo_list:
            for s in self.succ[b]:
                if self.rpo[s] <= self.rpo[b]:
                    if not dom(s, b):
                        self.irreducible = True
                        continue
                    body = self.loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x in body:
                            continue
                        body.add(x)
                        w.extend(self.pred[x])
        # liveness
        use = {}
        de = {}
        self.addr = set()
        for b in self.rpo_list:
            u, d = set(), set()
            blk = bl[b]
            for s in blk["s"]:
                if s[0] == "=":
                    r = set()
                    rv_uses(s[2], r)
                    if s[2][0] in ("ref", "rawptr"):
                        pl = s[2][1]
                        if (len(s[2]) < 3 or s[2][2]) and not any(e[0] == "*" for e in pl[1]):
                            self.addr.add(pl[0])
                    u |= r - d
                    if s[1][1]:
                        r2 = set()
                        _place_uses(s[1], r2)
                        u |= r2 - d
                    else:
                        d.add(s[1][0])
                elif s[0] == "dead":
                    d.add(s[1])
                elif s[0] == "sd":
                    if s[1][0] not in d:
                        u.add(s[1][0])
            t = blk["t"]
            r = set()
            if t[0] == "switch":
                _op_uses(t[1], r)
            elif t[0] == "call":
                _op_uses(t[1], r)
                for o in t[2]:
                    _op_uses(o, r)
                if t[3][1]:
                    _place_uses(t[3], r)
                elif t[3][0] not in r:
                    u |= r - d
                    r = set()
                    d.add(t[3][0])
            elif t[0] == "assert":
                _op_uses(t[1], r)
                for o in t[4]:
                    _op_uses(o, r)
            elif t[0] == "return":
                r.add(0)
            u |= r - d
            use[b] = u
            de[b] = d
        live = {b: set() for b in self.rpo_list}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo_list):
                o = set()
                for s in self.succ[b]:
                    o |= live[s]
                i = use[b] | (o - de[b])
                if i != live[b]:
                    live[b] = i
                    ch = True
        self.live = live
        # drop flags: bool locals only ever assigned constants, unnamed
        self.dropflags = set()
        cand = {i for i, l in enumerate(fn["locals"]) if not l[1] and i > fn["argc"]}
        bad = set()
        assigned = set()
        for b in self.rpo_list:
            for s in bl[b]["s"]:
                if s[0] == "=" and not s[1][1] and s[1][0] in cand:
                    if s[2][0] == "use" and s[2][1][0] == "k":
                        c = s[2][1][1].get("c") or {}
                        if c.get("k") == "bool":
                            assigned.add(s[1][0])
                            continue
                    bad.add(s[1][0])
            t = bl[b]["t"]
            if t[0] == "call" and not t[3][1]:
                bad.add(t[3][0])
        # a drop flag is only used to choose whether to run a drop
        onlydrop = set()
        for x in assigned - bad:
            okk = True
            for b in self.rpo_list:
                r = set()
                for s in bl[b]["s"]:
                    if s[0] == "=":
                        rv_uses(s[2], r)
                t = bl[b]["t"]
                if t[0] == "call":
                    for o in t[2]:
                        _op_uses(o, r)
                if x in r:
                    okk = False
                if t[0] == "switch" and t[1][0] in ("cp", "mv") and t[1][1] == [x, []]:
                    tg = [bb for _, bb in t[2]] + [t[3]]
                    if not any(bl[bb]["t"][0] == "drop" for bb in tg):
                        okk = False
            if okk:
                onlydrop.add(x)
        self.dropflags = onlydrop
