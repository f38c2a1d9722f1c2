"""JSON documents of known shape with symbolic leaves, and what reading them through nlohmann::json gives."""
from gsa import *
from model import kids

def num_(t): return mk("jnum", t)
def str_(t): return mk("jstr", t if isinstance(t, tuple) else mk("str", t))
NULL = mk("jnull")
def arr(*v): return mk("list", *v)
def obj(**kw): return objd(kw)
def objd(d): return mk("jobj", *[mk("pair", mk("str", k), v) for k, v in d.items()])

def value_of(v, t):
    """get<t>() of a document"""
    k = v[0]
    if k == "ite": return gite(v[1], value_of(v[2], t), value_of(v[3], t))
    t = t.replace("const ", "").strip()
    if "basic_json" in t[:30]: return v
    if t.startswith("std::vector"):
        if k != "list": raise Throw()
        i = t[t.index("<") + 1:]
        return mk("list", *[value_of(x, i) for x in v[1:]])
    if "basic_string" in t[:40] or t.startswith("std::string"):
        if k != "jstr": raise Throw()
        return v[1]
    if k == "jnum" and t.split(" ")[0].split(",")[0] in ("double", "int", "float", "long", "unsigned", "short", "size_t"): return v[1]
    if k == "jbool" and t.startswith("bool"): return v[1]
    if k in ("jobj", "list", "jnull", "jstr", "jnum", "jbool"): raise Throw()
    return mk("call", "json:get", mk("str", t[:20]), v)

def kind(v, ks):
    if v[0] == "ite": return gite(v[1], kind(v[2], ks), kind(v[3], ks))
    if v[0] in ("jobj", "list", "jnull", "jstr", "jnum", "jbool"): return TRUE if v[0] in ks else FALSE
    return mk("cmp", "!=", mk("call", "json:is:" + ks[0], v), ZERO)

IS = {"is_null": ("jnull",), "is_array": ("list",), "is_object": ("jobj",), "is_string": ("jstr",), "is_number": ("jnum",), "is_number_float": ("jnum",),
      "is_boolean": ("jbool",), "is_structured": ("list", "jobj"), "is_primitive": ("jnull", "jstr", "jnum", "jbool"), "is_discarded": ("discarded",)}

def at(I, v, i):
    if v[0] == "ite": return gite(v[1], at(I, v[2], i), at(I, v[3], i))
    return I.geti(v, i)

def json_hook(docs):
    """reads of nlohmann::json; docs: text term -> document"""
    def hook(I, n, f, args, o):
        if f == "std::stoi" or f == "std::stol" or f == "std::stoul":
            v = I.ev(kids(n)[0])
            if v[0] == "str": return num(int(v[1])) if v[1].strip().lstrip("+-").isdigit() else None
            return None
        if "nlohmann::" not in f: return None
        c = kids(n); fn = n.get("fn") or ""
        if fn == "parse":
            t = I.ev(c[0])
            return docs(t)
        if n["k"] != "MCall": return None
        rest = [x for x in c[1:] if x is not None and x["k"] != "CXXDefaultArgExpr"]
        if fn in IS: return kind(I.ev(o), IS[fn])
        if fn == "get" or fn.startswith("operator ") : return value_of(I.ev(o), n.get("t", ""))
        if fn == "get_to" and rest:
            v = value_of(I.ev(o), rest[0].get("t", "")); I.assign(rest[0], v, n); return v
        if fn == "at" and rest: return at(I, I.ev(o), I.ev(rest[0]))
        if fn == "contains" and rest:
            return cmp_("!=", I.count(I.ev(o), I.ev(rest[0])), ZERO)
        if fn == "value" and len(rest) == 2:
            v = I.ev(o); k = I.ev(rest[0]); d = I.ev(rest[1])
            c1 = cmp_("!=", I.count(v, k), ZERO)
            if c1 == TRUE: return value_of(at(I, v, k), n.get("t", ""))
            if c1 == FALSE: return d
            return None
        if fn in ("value", "key") and not rest:
            it = I.ev(o)
            if it[0] != "itr": return None
            v = I.contval(it)
            if fn == "value": return at(I, v, it[2])
            if v[0] == "jobj" and isnum(it[2]) and 0 <= it[2][1] < len(v) - 1: return v[1 + int(it[2][1])][1]
            return mk("call", "json:key", v, it[2])
        if fn == "items" and not rest:
            v = I.ev(o)
            return mk("list", *v[1:]) if v[0] == "jobj" else v
        return None
    return hook
