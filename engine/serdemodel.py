"""What serde's traits do, for runs that ask for it (E.serde is a dict): writing records what was written under which name; reading
offers a given list of keys or one variant."""
from models import *
from models import model, TMODELS
from terms import *
from terms import mk

RESULT = "std::result::Result"


def on(trait, *ms):
    def deco(f):
        def g(c):
            s = getattr(c.E, "serde", None)
            return None if s is None else f(c, s)
        for m in ms:
            TMODELS[(trait, m)] = g
        return g
    return deco


def okv(c, v):
    return c.ret(agg(RESULT, 0, v))


def method(p, adt, name):
    """The function `name` of the type, a method of one of serde's traits."""
    for k, f in p.fns.items():
        if f["local"] and (f.get("impl_trait") or "").startswith("serde::") and f["name"].endswith(">::" + name):
            t = p.types[p.strip(f["impl_self"])] if isinstance(f.get("impl_self"), int) else {}
            if t.get("k") == "adt" and t["adt"] == adt:
                return k
    return None


def call(c, key, args):
    f = c.E.p.fns[key]
    return c.E.invoke(c.st, c.fr, c.bb, {"key": key, "res": f["name"], "decl": f["name"]}, args, None, c.span, None)


@on("serde::Serializer", "serialize_struct")
def m_struct(c, s):
    return okv(c, mk("sym", "fields"))


@on("serde::ser::SerializeStruct", "serialize_field")
def m_field(c, s):
    c.st.label(("wrote", c.v(1), c.v(2)))
    return okv(c, UNIT)


@on("serde::ser::SerializeStruct", "skip_field")
def m_skip(c, s):
    return okv(c, UNIT)


@on("serde::ser::SerializeStruct", "end")
def m_end(c, s):
    c.st.label(("ended",))
    return okv(c, UNIT)


@on("serde::Serializer", "serialize_unit_variant", "serialize_newtype_variant")
def m_variant(c, s):
    c.st.label(("wrote", c.v(3), c.v(4) if len(c.args) > 4 else UNIT))
    c.st.label(("ended",))
    return okv(c, UNIT)


def target(c):
    """The type that a method of serde's traits is asked for."""
    ts = c.desc.get("targs") or []
    return c.E.p.types[ts[1]] if len(ts) > 1 else None


def number(c, s):
    n = [l[2] for l in c.st.must if isinstance(l, tuple) and l[:2] == ("part", "keyno")]
    return n[0] if n else 0


@on("serde::de::MapAccess", "next_key", "next_key_seed")
def m_key(c, s):
    n = number(c, s)
    if n >= len(s["keys"]):
        return okv(c, agg(OPTION, 0))
    c.st.unlabel(lambda l: isinstance(l, tuple) and l[:2] == ("part", "keyno"))
    c.st.label(("part", "keyno", n + 1))
    t = c.E.p.types[c.retty] if c.retty is not None else {"k": "?"}
    while t["k"] == "adt" and t["adt"] in (RESULT, OPTION) and t.get("args"):
        t = c.E.p.types[t["args"][0]]
    return okv(c, agg(OPTION, 1, key_value(c.E.p, t, s["keys"][n])))


def key_value(p, t, k):
    if t["k"] != "adt":
        return mk("opaquekey", k)
    if isinstance(k, str):
        a = p.adts.get(t["adt"])
        for vi, v in enumerate(a["variants"] if a else []):
            if v["name"] == k:
                return agg(t["adt"], vi)
        return mk("opaquekey", k)
    return agg(t["adt"], k)


def value(c, s, n):
    """A value of the type asked for: the type's own reader if it is a wrapper of the derive macro."""
    t = target(c)
    if t and t["k"] == "adt":
        if t["adt"].endswith("::__DeserializeWith"):
            k = method(c.E.p, t["adt"], "deserialize")
            if k:
                return call(c, k, [mk("sym", "de%d" % n)])
        if t["adt"].endswith("::__Field") and s.get("variant") is not None:
            return okv(c, agg(t["adt"], s["variant"]))
    return okv(c, mk("sym", "read%d" % n))


@on("serde::de::MapAccess", "next_value")
def m_value(c, s):
    return value(c, s, number(c, s) - 1)


@on("serde::de::MapAccess", "next_value_seed")
def m_vseed(c, s):
    v = c.v(1)
    t = target(c)
    if t and t["k"] == "adt" and t["adt"].endswith("::AdjacentlyTaggedEnumVariantSeed"):
        return okv(c, agg(c.E.p.types[t["args"][0]]["adt"], s["variant"]))
    k = method(c.E.p, v.a[0], "deserialize") if v.op == "agg" else None
    return call(c, k, [v, mk("sym", "de%d" % (number(c, s) - 1))]) if k else None


@on("serde::de::EnumAccess", "variant")
def m_enum(c, s):
    t = target(c)
    if not t or t["k"] != "adt":
        return None
    return okv(c, agg("tuple", 0, agg(t["adt"], s["variant"]), mk("sym", "variant")))


@on("serde::de::VariantAccess", "unit_variant")
def m_unit(c, s):
    return okv(c, UNIT)


@on("serde::de::VariantAccess", "newtype_variant")
def m_newtype(c, s):
    return value(c, s, 0)


@on("serde::Deserializer", "deserialize_option")
def m_option(c, s):
    v = c.v(1)
    k = method(c.E.p, v.a[0], "visit_some") if v.op == "agg" else None
    return call(c, k, [v, c.args[0]]) if k else None


@on("serde::Deserializer", "deserialize_str", "deserialize_string", "deserialize_any")
def m_str(c, s):
    v = c.v(1)
    k = method(c.E.p, v.a[0], "visit_str") if v.op == "agg" else None
    if k is None:
        return None
    return call(c, k, [v, mk("sym", "text:%s" % c.v(0).a[0])])


@model("serde::__private::de::missing_field")
def missing_field(c):
    s = getattr(c.E, "serde", None)
    if s is None:
        return None
    t = c.E.p.types[c.desc["targs"][0]]
    if t["k"] == "adt" and t["adt"] == OPTION:
        return okv(c, agg(OPTION, 0))
    return c.ret(agg(RESULT, 1, mk("sym", "missing")))


@model("serde_with::ser::<impl serde_with::As<T>>::serialize")
def m_as(c):
    if getattr(c.E, "serde", None) is None:
        return None
    return c.ret(mk("call", "as", mk("c", "str", repr(c.desc.get("targs")[:1])), c.v(0)))


@model("serde_with::de::<impl serde_with::As<T>>::deserialize")
def m_deas(c):
    if getattr(c.E, "serde", None) is None:
        return None
    return okv(c, mk("call", "as", mk("c", "str", repr(c.desc.get("targs")[:1])), c.v(0)))


@on("serde::Serializer", "serialize_str", "serialize_some")
def m_serstr(c, s):
    return c.ret(mk("call", "text", c.v(1)))


def setup(keys=(), variant=None):
    def f(E):
        E.serde = {"keys": list(keys), "variant": variant}
    return f
