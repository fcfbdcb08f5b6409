"""The functions that read and write dates, times and offsets are interpreted on an unknown text or value; each path ends in a term over
format descriptions applied to parts of the text. The terms are evaluated with the meaning of the descriptions on one text of each form
the RFC has: descriptions and path conditions do not tell one digit from another, so one text stands for all of its form."""
import itertools
import re
import cards
import scen
from rules.lib import *
from rules import text
from rules.text import Unknown
from rules.C18 import sink

PARAMS = "parameter::Parameters"
PARTS = ["read", "write"]
D, T = (2024, 2, 29), (23, 5, 9)
# (hour, minute) offsets in minutes
P, M = 330, -480
Term = type(S(""))


class Fail(Exception):
    pass


# ---------------------------------------------------------------- format descriptions
def items(fmt):
    """[(component, modifiers) or text] of a format description"""
    out, i = [], 0
    while i < len(fmt):
        if fmt.startswith("[[", i):
            out.append("[")
            i += 2
        elif fmt[i] == "[":
            j = fmt.index("]", i)
            w = fmt[i + 1:j].split()
            out.append((w[0], dict(x.split(":") for x in w[1:])))
            i = j + 1
        else:
            out.append(fmt[i])
            i += 1
    return out


WIDTH = {"year": 4, "month": 2, "day": 2, "hour": 2, "minute": 2, "second": 2, "offset_hour": 2, "offset_minute": 2, "offset_second": 2}
PLAIN = {"padding": ("zero",), "repr": ("full", "numerical", "24"), "base": ("calendar",), "sign": ("automatic", "mandatory"),
         "case_sensitive": ("true", "false"), "range": ("standard", "extended")}


def checked(it):
    name, mods = it
    if name not in WIDTH or any(v not in PLAIN.get(k, ()) for k, v in mods.items()):
        raise Unknown("format [%s]" % name)
    return name, mods.get("sign") == "mandatory"


def match(fmt, s):
    """The components of a text in this format"""
    c, i = {}, 0
    for it in items(fmt):
        if isinstance(it, str):
            if not s.startswith(it, i):
                raise Fail
            i += len(it)
            continue
        name, must = checked(it)
        sign = ""
        if name in ("year", "offset_hour"):
            if s[i:i + 1] in ("+", "-") and s[i:i + 1]:
                sign, i = s[i], i + 1
            elif must:
                raise Fail
            if name == "year" and sign == "+" and not must:
                raise Fail
        w = s[i:i + WIDTH[name]]
        if len(w) != WIDTH[name] or not (w.isascii() and w.isdigit()):
            raise Fail
        i += len(w)
        c[name] = int(w)
        if sign == "-":
            c[name + "-"] = True
    if i != len(s):
        raise Fail
    return c


def iso(kind, s):
    """ISO 8601 texts, as the default configuration of the time crate reads them"""
    if kind == "date":
        for f in ("[year][month][day]", "[year]-[month]-[day]"):
            try:
                return match(f, s)
            except Fail:
                pass
        if re.fullmatch(r"\d{4}-?(\d{3}|W\d\d(-?\d)?)", s):
            raise Unknown("ISO 8601 day of the year or week")
        raise Fail
    if kind != "time":
        raise Unknown("ISO 8601 " + kind)
    s = s[1:] if s[:1] == "T" else s
    for f in ("[hour]", "[hour][minute]", "[hour]:[minute]", "[hour][minute][second]", "[hour]:[minute]:[second]"):
        try:
            return match(f, s)
        except Fail:
            pass
    if re.search(r"\d[.,]\d", s):
        raise Unknown("ISO 8601 fraction")
    raise Fail


def build(kind, c):
    """A value of the components a text has, or failure if some are missing"""
    need = {"date": ["year", "month", "day"], "time": ["hour"], "offset": ["offset_hour"]}
    need["plain"] = need["date"] + need["time"]
    need["full"] = need["plain"] + need["offset"]
    if any(k not in c for k in need[kind]) or not 1 <= c.get("month", 1) <= 12 or not 1 <= c.get("day", 1) <= 31 or \
            c.get("hour", 0) > 23 or c.get("minute", 0) > 59 or c.get("second", 0) > 59 or c.get("offset_minute", 0) > 59:
        raise Fail
    d = (-c["year"] if c.get("year-") else c["year"], c["month"], c["day"]) if "year" in c else None
    t = (c.get("hour"), c.get("minute", 0), c.get("second", 0))
    o = c.get("offset_hour", 0) * 60 + c.get("offset_minute", 0)
    o = -o if c.get("offset_hour-") else o
    return {"date": d, "time": t, "offset": o, "plain": (d, t, None), "full": (d, t, o)}[kind]


KIND = {"time::Date": "date", "time::Time": "time", "time::UtcOffset": "offset", "time::PrimitiveDateTime": "plain", "time::PlainDateTime": "plain",
        "time::OffsetDateTime": "full"}


def form(fmt, kind, v):
    """The text of a value in a format"""
    d, t, o = {"date": (v, None, None), "time": (None, v, None), "offset": (None, None, v)}.get(kind, v)
    out = ""
    for it in items(fmt):
        if isinstance(it, str):
            out += it
            continue
        name, must = checked(it)
        if name in ("year", "month", "day"):
            x = d and d[("year", "month", "day").index(name)]
        elif name in ("hour", "minute", "second"):
            x = t and t[("hour", "minute", "second").index(name)]
        else:
            x = None if o is None else abs(o) // 60 if name == "offset_hour" else abs(o) % 60 if name == "offset_minute" else 0
        if x is None:
            raise Fail
        sign = ("-" if o < 0 else "+") if name == "offset_hour" and must else "-" if name == "offset_hour" and o < 0 else ""
        out += sign + "%0*d" % (WIDTH[name], x)
    return out


# ---------------------------------------------------------------- terms
def zero(t):
    return t.op == "c" and t.a[1] == 0 or t.op == "agg" and all(zero(x) for x in t.a[2:]) and len(t.a) > 2


class Eval:
    """Evaluates the terms of an interpretation on given texts and values."""

    def __init__(self, an, calls):
        self.an, self.calls, self.memo = an, calls, {}

    def val(self, t, env):
        """The value of a term: a text, a tuple of components, ..."""
        if t in env:
            return env[t]
        if t.op == "agg":
            if t.a[0] == "time::UtcOffset" and zero(t):
                return 0
            if t.a[0] == "tuple":
                return tuple(self.val(x, env) for x in t.a[2:])
            a = self.an.p.adts.get(t.a[0])
            if a and len(t.a) == 3:
                v = self.val(t.a[2], env)
                return (a["variants"][t.a[1]]["name"], v) if a["kind"] == "enum" and t.a[0] not in (OPTION, RESULT) else v
        if t.op == "seq":
            return [self.val(x, env) for x in t.a]
        if t.op == "fld":
            v = self.val(t.a[0], env)
            if t.a[4] in (RESULT, OPTION) or self.an.p.adts.get(t.a[4], {}).get("kind") == "struct":
                return v
            if isinstance(v, tuple) and t.a[4] in (None, "", "tuple") and t.a[2] < len(v):
                return v[t.a[2]]
            raise Unknown("field %s of %s" % (t.a[3], t.a[4]))
        if t.op == "call":
            n = t.a[0]
            if n in self.calls:
                return self.call(n, self.val(t.a[1], env))
            if n in ("parse:i64", "parse:f64"):
                w = self.val(t.a[1], env)
                if not re.fullmatch(r"[+-]?\d+" if n == "parse:i64" else r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?", w):
                    raise Fail
                return int(w) if n == "parse:i64" else float(w)
            ty, _, m = n.rpartition("::")
            if ty in KIND and m == "parse":
                return self.parse(KIND[ty], self.val(t.a[1], env), t.a[2])
            if ty in KIND and m == "format" and t.a[2].op == "fd":
                return form(t.a[2].a[0].a[1] if not isinstance(t.a[2].a[0], str) else t.a[2].a[0], KIND[ty], self.val(t.a[1], env))
            if KIND.get(ty) == "full" and m == "format" and t.a[2].op == "agg" and str(t.a[2].a[0]).endswith("::Rfc3339"):
                v = self.val(t.a[1], env)
                w = form("[year]-[month]-[day]T[hour]:[minute]:[second]", "full", v)
                return w + ("Z" if v[2] == 0 else form("[offset_hour sign:mandatory]:[offset_minute]", "full", v))
            if KIND.get(ty) in ("plain", "full") and m in ("new", "new_in_offset", "new_utc"):
                v = [self.val(x, env) for x in t.a[1:]]
                return v[0], v[1], 0 if m == "new_utc" else None if m == "new" else v[2]
            if ty == "time::OffsetDateTime" or ty in KIND and KIND[ty] == "plain":
                v = self.val(t.a[1], env)
                if m in ("date", "time", "offset"):
                    return v[("date", "time", "offset").index(m)]
                if m == "to_offset" and self.val(t.a[2], env) == v[2]:
                    return v
                if m == "assume_utc":
                    return v[0], v[1], 0
                x = self.val(t.a[2], env)
                if m == "assume_offset":
                    return v[0], v[1], x
                if m == "replace_date":
                    return x, v[1], v[2]
                if m == "replace_time":
                    return v[0], x, v[2]
                if m == "replace_offset":
                    return v[0], v[1], x
                if m == "replace_date_time":
                    return x[0], x[1], v[2]
            if ty in KIND and KIND[ty] == "date" and m == "with_time":
                return self.val(t.a[1], env), self.val(t.a[2], env), None
            if "From<time::Month> for " in n:
                return self.val(t.a[1], env)
            if n == "core::str::<impl str>::split_at":
                s, i = self.val(t.a[1], env), self.val(t.a[2], env)
                if not 0 <= i <= len(s):
                    raise Fail
                return s[:i], s[i:]
            if KIND.get(ty) in ("date", "time", "plain", "full") and m in ("year", "month", "day", "hour", "minute", "second"):
                v, k = self.val(t.a[1], env), KIND[ty]
                d, c = (v, None) if k == "date" else (None, v) if k == "time" else v[:2]
                x = d if m in ("year", "month", "day") else c
                if x is not None and x != "now":
                    return x[("year", "month", "day").index(m) if x is d else ("hour", "minute", "second").index(m)]
            if KIND.get(ty) == "offset" and len(t.a) == 2:
                o = self.val(t.a[1], env)
                sg = -1 if o < 0 else 1
                got = {"is_utc": int(o == 0), "is_negative": int(o < 0), "is_positive": int(o > 0), "whole_hours": sg * (abs(o) // 60), "whole_minutes": o,
                       "whole_seconds": o * 60, "minutes_past_hour": sg * (abs(o) % 60), "seconds_past_minute": 0}.get(m)
                if got is not None:
                    return got
        if t.op == "icall" and t.a[0] == "now_utc":
            return "now", "now", 0
        if t.op == "disp" and t.a[0] == "time::Date":
            return form("[year]-[month]-[day]", "date", self.val(t.a[1], env))
        if t.op == "fmtspec" and len(t.a) == 2 and t.a[0].a[1] != "?":
            x = t.a[1]
            v = self.val(x.a[1] if x.op == "disp" else x, env)
            return ("%" + t.a[0].a[1] + "d") % v
        if t.op == "cast":
            return self.val(t.a[-1], env)
        if t.op == "ci":
            return self.val(t.a[0], env).upper()
        if t.op == "disp" and t.a[0] in ("i64", "f64", "bool"):
            v = self.val(t.a[1], env)
            return ("true" if v else "false") if t.a[0] == "bool" else str(v) if t.a[0] != "f64" else repr(v)[:-2] if v == int(v) else repr(v)
        if t.op == "cat":
            return "".join(str(self.val(x, env)) for x in t.a)
        if t.op == "slice":
            s = self.val(t.a[0], env)
            i = 0 if t.a[1].op == "open" else self.val(t.a[1], env)
            j = len(s) if t.a[2].op == "open" else self.val(t.a[2], env)
            if not 0 <= i <= j <= len(s):
                raise Fail
            return s[i:j]
        if t.op in ("find", "contains"):
            s, p = self.val(t.a[0], env), t.a[1]
            if p.op not in ("cut", "agg"):
                p = S(self.val(p, env))
            ps = text.parts(mk("splitn", S(s), I(2), p), {})
            if t.op == "contains":
                return int(len(ps) > 1)
            if len(ps) < 2:
                raise Fail
            return len(ps[0])
        if t.op == "call" and t.a[0] in ("strip_prefix", "strip_suffix"):
            s, p = self.val(t.a[1], env), self.val(t.a[2], env)
            return s[len(p):] if t.a[0] == "strip_prefix" else s[:len(s) - len(p)]
        if t.op == "elem" and t.a[0].op in text.SPLITS and t.a[1].op == "c":
            s = t.a[0]
            ps = text.parts(mk(s.op, S(self.val(s.a[0], env)), *s.a[1:]), {})
            if t.a[1].a[1] >= len(ps):
                raise Fail
            return ps[t.a[1].a[1]]
        if t.op == "c":
            return t.a[1]
        if t.op == "bin":
            a, b = self.val(t.a[1], env), self.val(t.a[2], env)
            if t.a[0] in ("Add", "Sub"):
                return a + b if t.a[0] == "Add" else a - b
        if t.op == "len":
            return len(self.val(t.a[0], env))
        if t.op == "count":
            s = t.a[0]
            return len(text.parts(mk(s.op, S(self.val(s.a[0], env)), *s.a[1:]), {}))
        if t.op == "more":
            s = t.a[0]
            return int(len(text.parts(mk(s.op, S(self.val(s.a[0], env)), *s.a[1:]), {})) > t.a[1].a[1])
        if t.op == "lt":
            return int(self.val(t.a[0], env) < self.val(t.a[1], env))
        if t.op == "eq":
            return int(self.val(t.a[0], env) == self.val(t.a[1], env))
        if t.op == "inset":
            return int(self.val(t.a[0], env) in t.a[1])
        if t.op == "not":
            return 1 - self.val(t.a[0], env)
        if t.op == "ovf":
            a, b = self.val(t.a[1], env), self.val(t.a[2], env)
            return int(t.a[0] == "Sub" and a < b)
        if t.op in ("starts", "ends", "empty"):
            s = self.val(t.a[0], env)
            return int(text.formula(mk(t.op, S(s), *t.a[1:]), {}, ()))
        if t.op == "discr" and t.a[0].op in ("call", "fld"):
            try:
                v = self.val(t.a[0], env)
            except Fail:
                return 1
            if isinstance(v, tuple) and t.a[1] in self.an.p.adts and t.a[1] not in (OPTION, RESULT) and isinstance(v[0], str):
                return next(int(x["discr"]) for x in self.an.p.adts[t.a[1]]["variants"] if x["name"] == v[0])
            return 0
        raise Unknown("%s %s" % (t.op, t.a[0] if t.op in ("call", "icall") else ""))

    def parse(self, kind, s, f):
        if f.op == "fd":
            x = f.a[0] if isinstance(f.a[0], str) else f.a[0].a[1]
            return build(kind, match(x, s))
        if f.op == "agg" and str(f.a[0]).endswith("::Rfc3339"):
            if kind != "full":
                raise Unknown("RFC 3339 " + kind)
            z = s[:-1] + "+00:00" if s.endswith("Z") else s
            return build(kind, match("[year]-[month]-[day]T[hour]:[minute]:[second][offset_hour sign:mandatory]:[offset_minute]", z))
        if f.op == "agg" and "Iso8601" in str(f.a[0]):
            return build(kind, iso(kind, s))
        raise Unknown("format")

    def call(self, n, s):
        """A function of this library that reads a text"""
        if (n, s) not in self.memo:
            self.memo[n, s] = None
            try:
                self.memo[n, s] = ("ok", self.read(self.calls[n], s))
            except Fail:
                self.memo[n, s] = ("err", None)
        r = self.memo[n, s]
        if r is None:
            raise Unknown("recursion")
        if r[0] == "err":
            raise Fail
        return r[1]

    def taken(self, st, env):
        """Is the path taken? None if that is not known"""
        sure = True
        for t, f in st.facts.items():
            try:
                v = self.val(t, env)
            except (Unknown, KeyError, IndexError, TypeError, AttributeError):
                sure = None
                continue
            except Fail:
                return False
            if isinstance(v, bool):
                v = int(v)
            if (v in f[1]) != (f[0] == "in"):
                return False
        return sure

    def read(self, f, s):
        """The value the function reads from a text"""
        r = reading(self.an, f)
        x = r.text
        got = []
        for st, v in r.rets:
            ok = self.taken(st, {x: s})
            if ok is False:
                continue
            if ok is None:
                raise Unknown("a condition of %s on %r" % (f["name"], s))
            d = cards.dset(r.E, st, v)
            if d == {1}:
                got.append(("err", None))
            elif d == {0}:
                got.append(("ok", self.val(r.E.deref(st, v.a[2] if v.op == "agg" else r.E.getstep(st, v, (RESULT, 0, 0, "0"))), {x: s})))
            elif v.op == "call":
                try:
                    got.append(("ok", self.val(v, {x: s})))
                except Fail:
                    got.append(("err", None))
            else:
                raise Unknown("result of %s" % f["name"])
        if not got or any(g != got[0] for g in got):
            raise Unknown("%s on %r" % (f["name"], s))
        if got[0][0] == "err":
            raise Fail
        return got[0][1]


def helpers(an):
    """Public functions that read one text"""
    out = {}
    for f in an.fns(pred=lambda f: f.get("pub") and an.selfadt(f) is None and f["argc"] == 1 and not f.get("closure")):
        t = an.p.types[f["locals"][1][0]]
        n = f["name"].rsplit("::", 1)[-1]
        if n.startswith("parse_") and t["k"] == "ref" and "helper" in f["name"]:
            out[f["name"]] = f
    return out


def reading(an, f):
    hs = {x["key"] for x in helpers(an).values() if x is not f}
    box = {}

    def setup(E):
        scen.split(E)
        E.prefixes = True
        std = E.opaque
        E.opaque = lambda desc, fn: fn["key"] in hs or fn["key"] != f["key"] and std(desc, fn)
        box["x"] = scen.sym(E, "text", f["locals"][1][0])
        E.args = [box["x"]]
    r = an.run(f, "std", tag="C23", setup=setup, args="setup")
    if "x" in box:
        r.text = box["x"]
    return r


READ = {
    "helper::parse_utc_offset": {"Z": 0, "+0530": P, "-0800": M, "+05": 300, "-08": M, "+0000": 0, "+0030": 30, "+1400": 840, "-1200": -720, "-0930": -570, "0530": None, "": None, "+5": None, "+05:3": None},
    "helper::parse_date": {"20240229": D, "2024-02-29": D, "2024-02": (2024, 2, 1), "2024": (2024, 1, 1), "2024022": None, "": None,
                           "20240229Z": None, "T230509": None, "20240229T230509Z": None, "20241329": None},
    "helper::parse_time": {"230509": (T, 0), "23:05:09": (T, 0), "2305": ((23, 5, 0), 0), "23": ((23, 0, 0), 0), "230509Z": (T, 0), "230509+0530": (T, P),
                           "230509-0800": (T, M), "230509-08": (T, M), "2305+0530": ((23, 5, 0), P), "": None, "Z": None, "230509+": None,
                           "230509+0530Z": None, "246060": None},
    "helper::parse_date_time": {"20240229T230509Z": (D, T, 0), "20240229T230509": (D, T, 0), "20240229T230509+0530": (D, T, P),
                                "20240229T230509-0800": (D, T, M), "20240229T230509-08": (D, T, M), "2024-02-29T23:05:09Z": (D, T, 0),
                                "20240229": None, "230509Z": None, "T230509": None, "": None},
    "helper::parse_timestamp": {"20240229T230509Z": (D, T, 0), "20240229T230509": (D, T, 0), "20240229T230509+0530": (D, T, P),
                                "20240229T230509-0800": (D, T, M), "20240229T230509-08": (D, T, M), "20240229": None, "230509": None, "": None,
                                "20240229T2305": None},
    "property::DateAndOrTime": {"20240229": ("Date", D), "2024-02-29": ("Date", D), "2024-02": ("Date", (2024, 2, 1)), "2024": ("Date", (2024, 1, 1)),
                                "20240229T230509Z": ("DateTime", (D, T, 0)), "20240229T230509-0800": ("DateTime", (D, T, M)),
                                "20240229T230509": ("DateTime", (D, T, 0)), "20240229T230509+0530": ("DateTime", (D, T, P)),
                                "T230509": ("Time", (T, 0)), "T230509-0800": ("Time", (T, M)), "T2305": ("Time", ((23, 5, 0), 0)),
                                "T23": ("Time", ((23, 0, 0), 0)), "T230509+0530": ("Time", (T, P)), "T230509Z": ("Time", (T, 0)),
                                "": None, "T": None, "x": None},
}
READ["date_time::Date"] = {"2024-02-29": D, "2024-02-29T23:05:09Z": D, "2024-02-29T23:05:09-08:00": D, "20240229": None, "": None, "x": None}
READ["date_time::DateTime"] = {"2024-02-29T23:05:09Z": (D, T, 0), "2024-02-29T23:05:09-08:00": (D, T, M), "2024-02-29T23:05:09+05:30": (D, T, P),
                               "2024-02-29": None, "": None, "x": None}
LISTS = {"helper::parse_date_list": "helper::parse_date", "helper::parse_time_list": "helper::parse_time",
         "helper::parse_date_time_list": "helper::parse_date_time", "helper::parse_timestamp_list": "helper::parse_timestamp",
         "helper::parse_date_and_or_time_list": "property::DateAndOrTime"}
for _l, _o in LISTS.items():
    _ok = [(w, v) for w, v in READ[_o].items() if v is not None][:4]
    READ[_l] = {w: [v] for w, v in _ok}
    READ[_l].update({w + "," + x: [v, y] for (w, v), (x, y) in zip(_ok, _ok[1:])})
    READ[_l].update({",".join(w for w, v in _ok): [v for w, v in _ok], _ok[0][0] + ",": None, _ok[0][0] + ",x": None, "x," + _ok[0][0]: None,
                     _ok[0][0] + ";" + _ok[1][0]: None})
READ["helper::parse_boolean"] = {"true": 1, "TRUE": 1, "True": 1, "false": 0, "FALSE": 0, "False": 0, "": None, "x": None, "truex": None}
READ["helper::parse_integer_list"] = {"1": [1], "-20": [-20], "1,-20": [1, -20], "1,2,3": [1, 2, 3], "1,": None, "x": None, "1,x": None}
READ["helper::parse_float_list"] = {"1": [1.0], "-2.5": [-2.5], "1,-2.5": [1.0, -2.5], "0.5,2,3": [0.5, 2.0, 3.0], "1,": None, "x": None, "1,x": None}


def digitless(r):
    """No condition tells digits apart."""
    for st, v in r.rets:
        for t, f in st.facts.items():
            ps = t.a[1:] if t.op in ("inset", "contains", "starts", "ends", "find") else [x for x in t.a if isinstance(x, Term) and x.op == "c"] if t.op == "eq" else ()
            for p in ps:
                for x in subterms(p) if isinstance(p, Term) else [p]:
                    xs = x if isinstance(x, frozenset) else [y for y in x.a if isinstance(y, (str, frozenset))]
                    if any(isinstance(y, str) and re.search(r"\d", y) for z in xs for y in (z if isinstance(z, frozenset) else [z])):
                        return False
    return True


def check(ctx, part):
    (read if part == "read" else write)(ctx)


def read(ctx):
    an = ctx.an
    calls = {"fn:" + n: f for n, f in helpers(an).items()}
    imp = an.trait_impls(FROMSTR, "from_str")
    for n, f in imp.items():
        calls["parse:" + n] = f
    ev = Eval(an, calls)
    n = 0
    for name, ws in READ.items():
        f = imp.get(name) or an.fn(name)
        r = reading(an, f)
        ctx.ob("digits", digitless(r), f["name"], "no condition of %s tells digits apart" % f["name"], how="constants in path conditions", key=("digits", name))
        for w, want in ws.items():
            n += 1
            why = ""
            try:
                got = ev.read(f, w)
            except Fail:
                got = None
            except Unknown as u:
                got, why = "?", " (%s)" % u
            ctx.ob("read", got == want, f["name"], "%r is read as %s%s" % (w, want if want is not None else "an error", why or ("" if got == want else ", not %s" % (got,))),
                   how="the paths of the function, evaluated", key=("read", name, w))
    ctx.floor("read", n, 60, "forms of dates and times")


# ---------------------------------------------------------------- written values
DATES = [D, (987, 1, 31), (9999, 12, 31), (0, 10, 1), (1970, 1, 1)]
TIMES = [T, (0, 0, 0), (13, 10, 59), (12, 0, 0), (0, 30, 0), (23, 59, 59), (9, 0, 1)]
OFFSETS = [P, M, 0, -570, 30, 840, -720, -1439, 1439, 60, -60]
NUMBERS = {"i64": [(1, "1"), (-20, "-20"), (0, "0")], "f64": [(0.5, "0.5"), (-2.25, "-2.25")], "bool": [(True, "true"), (False, "false")]}


def offs(o):
    s, o = "-" if o < 0 else "+", abs(o)
    out = {"%s%02d%02d" % (s, o // 60, o % 60)}
    if o % 60 == 0:
        out.add("%s%02d" % (s, o // 60))
    return out


def zone(o):
    return offs(o) | ({"Z"} if o == 0 else set())


def dates(v):
    return {"%04d%02d%02d" % v}


def clock(v):
    return {"%02d%02d%02d" % v}


def cross(*xs):
    return {"".join(x) for x in itertools.product(*xs)}


def leaves(p, ty):
    """Does a value of this type hold dates, times, offsets, numbers or booleans?"""
    seen, todo = set(), [ty]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        t = p.types[x]
        if kind_of(p, x):
            return True
        if t["k"] == "adt":
            todo += t.get("args", [])
            if t["adt"] in p.adts and t["adt"].startswith("property::"):
                todo += [f["ty"] for v in p.adts[t["adt"]]["variants"] for f in v["fields"]]
        elif t["k"] == "tuple":
            todo += t["ts"]
    return False


def kind_of(p, ty):
    """The kind of a type of the time crate, or of a struct around one"""
    t = p.types[ty]
    if t["s"] in NUMBERS:
        return t["s"]
    while t["k"] == "adt":
        if t["adt"] in KIND:
            return KIND[t["adt"]]
        a = p.adts.get(t["adt"])
        if not a or a["kind"] != "struct" or len(a["variants"][0]["fields"]) != 1 or t["adt"].startswith("property::"):
            return None
        t = p.types[a["variants"][0]["fields"][0]["ty"]]
    return None


def shapes(E, ty, name, inner=None):
    """[(value, [(environment, accepted texts)])] of a type that holds dates, times or offsets"""
    p = E.p
    t = p.types[ty]
    k = kind_of(p, ty)
    if k:
        x = scen.sym(E, name, ty)
        if k in NUMBERS:
            return [(x, [({x: v}, {w}) for v, w in NUMBERS[k]])]
        if k == "date":
            return [(x, [({x: d}, dates(d)) for d in DATES])]
        if k == "time":
            return [(x, [({x: c}, clock(c)) for c in TIMES])]
        if k == "offset":
            return [(x, [({x: o}, offs(o)) for o in OFFSETS])]
        return [(x, [({x: (d, c, o)}, cross(dates(d), {"T"}, clock(c), zone(o))) for d in DATES for c in TIMES[:2] for o in OFFSETS])]
    if t["k"] == "tuple":
        if [kind_of(p, x) for x in t["ts"]] != ["time", "offset"]:
            raise Missing("a tuple of a time and an offset")
        a, b = [scen.sym(E, "%s.%d" % (name, i), x) for i, x in enumerate(t["ts"])]
        return [(agg("tuple", 0, a, b), [({a: c, b: o}, cross({"T"} if inner == "property::DateAndOrTime" else {""}, clock(c), zone(o)))
                                         for c in TIMES for o in OFFSETS])]
    if t["adt"] == "std::vec::Vec":
        one = shapes(E, t["args"][0], name + ".0", inner)
        two = shapes(E, t["args"][0], name + ".1", inner)
        out = [(mk("seq", v), es) for v, es in one]
        for (v, es), (w, fs) in zip(one, two[1:] + two[:1]):
            out.append((mk("seq", v, w), [({**e, **f}, cross(x, {","}, y)) for (e, x), (f, y) in zip(es, fs[1:] + fs[:1])]))
        return out
    a = p.adts[t["adt"]]
    out = []
    for vi, v in enumerate(a["variants"]):
        fs = [f for f in v["fields"] if f["name"] not in ("group", "parameters") and leaves(p, f["ty"])]
        if len(fs) != 1:
            continue
        for x, es in shapes(E, fs[0]["ty"], "%s.%s" % (name, v["name"]), t["adt"]):
            out.append((agg(t["adt"], vi, *[x if f is fs[0] else agg(OPTION, 0) if f["name"] != "name" else S("X-A") for f in v["fields"]]), es))
    return out


def plain(E, ty):
    """The types of dates and times of the library themselves are written as RFC 3339 has it."""
    k = kind_of(E.p, ty)
    x = scen.sym(E, "v", ty)
    if k == "date":
        return [(x, [({x: d}, {"%04d-%02d-%02d" % d}) for d in DATES])]
    return [(x, [({x: (d, c, o)}, cross({"%04d-%02d-%02d" % d}, {"T"}, {"%02d:%02d:%02d" % c},
                                        {w[:3] + ":" + w[3:] for w in offs(o) if len(w) == 5} | ({"Z"} if o == 0 else set())))
                 for d in DATES for c in TIMES for o in OFFSETS])]


def write(ctx):
    an, p = ctx.an, ctx.an.p
    imp = an.trait_impls(DISPLAY, "fmt")
    n = 0
    for adt, d in sorted(imp.items()):
        ty = d["locals"][1][0]
        while p.types[ty]["k"] == "ref":
            ty = p.types[ty]["t"]
        if adt.startswith("date_time::"):
            n += written(ctx, d, adt, lambda E, ty=ty: plain(E, ty))
        elif adt.startswith("property::") and leaves(p, ty):
            n += written(ctx, d, adt, lambda E, ty=ty: shapes(E, ty, "v"))
    tz = next(f for f in an.adt(PARAMS)["variants"][0]["fields"] if f["name"] == "timezone")
    tz = p.types[tz["ty"]]["args"][0]
    n += written(ctx, imp[PARAMS], "TZ", lambda E: [(scen.one_field(E, PARAMS, "timezone", value=agg(OPTION, 1, v)), [(e, cross({";TZ="}, x) | cross({';TZ="'}, x, {'"'})) for e, x in es])
                                                    for v, es in shapes(E, tz, "v", PARAMS)])
    ctx.floor("write", n, 60, "dates, times and offsets")


def written(ctx, d, label, mkshapes):
    an = ctx.an
    n = i = 0
    count = 1
    while i < count:
        box = {}

        def setup(E):
            scen.split(E)
            E.prefixes = True
            vs = mkshapes(E)
            if not vs:
                raise Missing("a value of %s" % label)
            box["n"], box["v"] = len(vs), vs[i]
            E.args = [box["v"][0], None]
        r = an.run(d, "none", tag=("C23w", label, i), setup=setup, args="setup")
        if box:
            r.box = box
        box = r.box
        count = box["n"]
        ev = Eval(an, {})
        bad = None
        for env, want in box["v"][1]:
            n += 1
            why, got = "", set()
            try:
                for st, v in r.rets:
                    ok = ev.taken(st, env)
                    if ok is False:
                        continue
                    if ok is None:
                        raise Unknown("a condition")
                    if cards.dset(r.E, st, v) != {0}:
                        got.add(None)
                    else:
                        o = sink(st)
                        got.add(ev.val(o, env) if o is not None else "")
            except Fail:
                got = {None}
            except Unknown as u:
                got, why = {"?"}, " (%s)" % u
            if bad is None and (len(got) != 1 or not got <= want):
                bad = "%s is written as %s%s" % (" and ".join(sorted(want, key=len)[:1]), sorted(map(str, got)), why)
        ctx.ob("write", bad is None, d["name"], "%s, shape %d: dates, times and offsets are written in their RFC form%s" % (label, i, bad and " (%s)" % bad or ""),
               how="the paths of the function, evaluated", key=("write", label, i))
        i += 1
    return n
