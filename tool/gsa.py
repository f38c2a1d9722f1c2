"""Gated value flow: one abstract execution of a function over the resolved
syntax tree, building for every variable, field and return value the term (see
terms.py) that the source computes.  Control flow joins become ite-terms, loops
become sums / fold terms over a canonical iteration domain, repository calls
are followed into their bodies, everything else stays an uninterpreted term.
No input is ever chosen and no path is enumerated or handed to a solver: each
statement is visited once per calling context (plus once more in a loop to
find what the loop writes)."""
import sys
from fractions import Fraction as Fr
from terms import *
import terms as T
from model import walk, kids, show, loc, AnalysisError
sys.setrecursionlimit(50000)

TRUE, FALSE = ("bool", True), ("bool", False)
UNROLL = 80

class Unsupported(Exception):
    pass

def is_ts(t):
    return t is not None and ("Reaktoro_::ThermoScalarBase<" in t or "Reaktoro_::Temperature" in t or "Reaktoro_::Pressure" in t
                              or "Reaktoro_::ThermoScalar" in t) and "vector" not in t and "map" not in t and "array" not in t

SMART = ("std::shared_ptr", "std::unique_ptr", "std::weak_ptr", "std::__shared_ptr", "std::__uniq_ptr")
MATH = {"pow", "exp", "log", "sqrt", "fabs", "abs", "log10", "sin", "cos", "tan", "cbrt", "log2", "floor", "ceil", "round",
        "tanh", "sinh", "cosh", "atan", "asin", "acos", "isnan", "isinf", "isfinite", "fmax", "fmin", "erf", "pow2"}

def bool_(v):
    """truth value of a term"""
    k = v[0]
    if k in ("bool", "cmp", "and", "or", "not"): return v
    if k == "num": return ("bool", v[1] != 0)
    if k == "ite": return lor(land(v[1], bool_(v[2])), land(lnot(v[1]), bool_(v[3])))
    return cmp_("!=", v, ZERO)

def gite(c, a, b):
    """ite that decomposes conjunctions and disjunctions"""
    if a == b: return a
    if c[0] == "and": return gite(c[1], gite(c[2], a, b), b)
    if c[0] == "or": return gite(c[1], a, gite(c[2], a, b))
    if c[0] == "not" and c[1][0] in ("and", "or"): return gite(c[1], b, a)
    return ite(c, a, b)

class Facts(list):
    """path condition; `surv`: positions of facts that hold because the alternative throws"""
    def __init__(self, *a): list.__init__(self, *a); self.surv = set()
    def __delitem__(self, k): list.__delitem__(self, k); self.surv = {i for i in self.surv if i < len(self)}

class Interp:
    def __init__(self, M, opaque=None, hook=None, raw_ts=False, depth=14, consts=True, field_hook=None):
        self.M = M; self.opaque = opaque or (lambda f: False); self.hook = hook
        self.raw_ts = raw_ts; self.maxdepth = depth; self.consts = consts; self.field_hook = field_hook
        self.events = []; self.env = {}; self.facts = Facts(); self.loops = []
        self.fr = 0; self.nframes = 0; self.stack = []; self.brk = []; self.cont = []; self.rets = []
        self.lams = {}; self.capmap = {}; self.writes = None; self.globcache = {}
        self.thisv = None; self.steps = 0; self.unsupported = []; self.iterpos = {}

    # ------------------------------------------------------------- events
    def emit(self, kind, node, **kw):
        kw.update(kind=kind, node=node, fn=self.stack[-1] if self.stack else None, pc=tuple(self.facts),
                  loops=tuple(self.loops), stack=tuple(f["f"] for f in self.stack))
        self.events.append(kw)
        return kw

    # ------------------------------------------------------ record handling
    def zero_of(self, t):
        """value of a default-initialised object of canonical type t"""
        t = t.replace("const ", "").strip()
        if is_ts(t): return ZERO
        if t.startswith("std::vector") or t.startswith("std::map") or t.startswith("std::set") or t.startswith("std::unordered_map") \
           or t.startswith("std::list") or t.startswith("std::deque"): return mk("list")
        if t.startswith("std::basic_string") or t.startswith("std::string") or t.startswith("std::__cxx11::basic_string"): return mk("str", "")
        if t in self.M.rec: return mk("zero", t)
        for s in SMART:
            if t.startswith(s): return mk("null")
        return None

    def getf(self, v, n, cls=None):
        k = v[0]
        if k == "rec":
            for a, b in v[2]:
                if a == n: return b
            return self.getf(v[1], n, cls)
        if k == "ite": return gite(v[1], self.getf(v[2], n, cls), self.getf(v[3], n, cls))
        if k == "pair":
            if n == "first": return v[1]
            if n == "second": return v[2]
        if k == "idx" and v[2][0] == "find":
            if n == "first": return v[2][2]
            if n == "second": return self.geti(v[1], v[2][2])
        if k == "zero":
            r = self.M.rec.get(v[1])
            if r:
                for f in r["fields"]:
                    if f["n"] == n:
                        if f.get("c") and f["c"][0]:
                            try: return self.in_global(f["c"][0], f["t"])
                            except Unsupported: pass
                        z = self.zero_of(f["t"])
                        if z is not None: return mk("zero", z[1], "v") if len(v) > 2 and z[0] == "zero" else z
                        if len(v) > 2: return mk("null") if f["t"].endswith("*") else ZERO
                        return mk("undef", v[1] + "::" + n)
        if k == "memb" : pass
        return mk("fld", v, n)

    def setf(self, v, n, x):
        if v[0] == "pair" and n in ("first", "second"): return mk("pair", x, v[2]) if n == "first" else mk("pair", v[1], x)
        if v[0] == "rec": base, ov = v[1], dict(v[2])
        else: base, ov = v, {}
        ov[n] = x
        return mk("rec", base, tuple(sorted(ov.items())))

    def geti(self, v, i):
        k = v[0]
        if k == "jobj":       # a JSON object of known shape
            if i[0] == "find": i = i[2]
            if i[0] == "str":
                for e in v[1:]:
                    if e[1] == i: return e[2]
                return mk("undef", "absent JSON key " + i[1])
            if isnum(i) and 0 <= i[1] < len(v) - 1: return v[1 + int(i[1])][2]
        if k == "list" and isnum(i):
            j = int(i[1])
            if 0 <= j < len(v) - 1: return v[1 + j]
        if k == "upd":
            if v[2] == i: return v[3]
            if (isnum(v[2]) and isnum(i)) or (v[2][0] == "str" and i[0] == "str"): return self.geti(v[1], i)
        if k == "updall":
            dom, key, val = v[2], v[3], v[4]
            if key == ("iter",) + dom[1:]: return self.subst(val, key, i)
            if key == i: return val
        if k == "pushall" and v[1] == ("list",):
            return self.subst(v[3], self.iterof(v[2]), i)
        if k == "push" and isnum(i):
            n = self.size(v[1])
            if n == i: return v[2]
            if isnum(n) and i[1] < n[1]: return self.geti(v[1], i)
        if k == "ite": return gite(v[1], self.geti(v[2], i), self.geti(v[3], i))
        if k == "list" and i[0] == "ite": return gite(i[1], self.geti(v, i[2]), self.geti(v, i[3]))
        if k == "str" and isnum(i) and self.concrete and not 0 <= i[1] <= len(v[1]): self.fault(None, "text read outside its ends")
        if k == "str" and isnum(i) and 0 <= i[1] < len(v[1]): return num(ord(v[1][int(i[1])]))
        if k == "filled": return v[1]
        return mk("idx", v, i)

    def seti(self, v, i, x):
        if v[0] == "list" and isnum(i) and 0 <= i[1] < len(v) - 1:
            l = list(v); l[1 + int(i[1])] = x; return mk(*l)
        if v[0] == "upd" and v[2] == i: return mk("upd", v[1], i, x)
        return mk("upd", v, i, x)

    def size(self, v):
        k = v[0]
        if k in ("list", "jobj"): return num(len(v) - 1)
        if k == "jnull": return ZERO
        if k in ("jnum", "jstr", "jbool"): return ONE
        if k == "str": return num(len(v[1]))
        if k in ("upd", "updall") and v[1] != ("list",): return self.size(v[1])
        if k == "push": return add(self.size(v[1]), ONE)
        if k == "pushall" and v[1] == ("list",): return sub(v[2][2], v[2][1])
        if k == "ite": return gite(v[1], self.size(v[2]), self.size(v[3]))
        if k == "resize": return v[2]
        if k == "filled": return v[2]
        if k == "sorted": return self.size(v[1])
        return mk("size", v)

    def iterof(self, dom):
        return mk("iter", *dom[1:])

    def subst(self, t, a, b):
        return rewrite(t, lambda x: b if x == a else None)

    # ------------------------------------------------------------- env
    @staticmethod
    def npath(path):
        """the value of the map entry that find returned is the value stored under the key"""
        if not any(k == "i" and x[0] == "find" for k, x in path): return path
        out = []
        for k, x in path:
            if k == "f" and x == "second" and out and out[-1][0] == "i" and out[-1][1][0] == "find": out[-1] = ("i", out[-1][1][2])
            else: out.append((k, x))
        return tuple(out)

    def load(self, root, path):
        path = self.npath(path)
        v = self.env.get(root)
        if v is None:
            if root[0] == "g": v = self.global_value(root[1])
            else: v = mk("undef", str(root[-1]))
        for kind, x in path:
            v = self.getf(v, x) if kind == "f" else self.geti(v, x)
        return v

    def store(self, root, path, val, node=None):
        path = self.npath(path)
        if self.writes is not None: self.writes.append((root, path))
        if node is not None: self.emit("write", node, root=root, path=path, value=val)
        if not path: self.env[root] = val; return
        def go(v, p):
            if not p: return val
            kind, x = p[0]
            if kind == "f": return self.setf(v, x, go(self.getf(v, x), p[1:]))
            return self.seti(v, x, go(self.geti(v, x), p[1:]))
        base = self.env.get(root)
        if base is None: base = self.global_value(root[1]) if root[0] == "g" else mk("undef", str(root[-1]))
        self.env[root] = go(base, path)

    def global_value(self, name):
        if name in self.globcache: return self.globcache[name]
        if name.endswith("::npos") and name.startswith("std::"): self.globcache[name] = num(2 ** 64 - 1); return self.globcache[name]
        self.globcache[name] = mk("g", name)
        gs = [g for g in self.M.globn.get(name, []) if g.get("c")]
        # file-local tables with the same name: prefer the one of the current file
        if len(gs) > 1 and self.stack:
            loc_ = [g for g in gs if g["file"] == self.stack[-1]["file"]]
            gs = loc_ or gs
            del self.globcache[name]
        v = mk("g", name)
        if gs and self.consts and gs[0]["c"][0] and (gs[0].get("const") or name not in self.M.written_globals()):
            if len(self.M.globn.get(name, [])) == 1 or True:
                try: v = self.in_global(gs[0]["c"][0], gs[0]["t"])
                except Unsupported: v = mk("g", name)
        if name in self.globcache: self.globcache[name] = v
        return v

    def in_global(self, node, t):
        sv = (self.env, self.facts, self.events, self.fr, self.thisv, self.writes)
        self.env = {}; self.facts = Facts(); self.events = []; self.nframes += 1; self.fr = self.nframes; self.thisv = None; self.writes = None
        try:
            return self.coerce(self.ev(node), t)
        finally:
            self.env, self.facts, self.events, self.fr, self.thisv, self.writes = sv

    def coerce(self, v, t):
        return v

    def merge(self, alts):
        """alts: [(gate, env)], the last gate is taken as 'otherwise'"""
        alts = [a for a in alts if a[1] is not None and a[0] != FALSE]
        if not alts: return None
        if len(alts) == 1: return alts[0][1]
        out = dict(alts[-1][1])
        for g, e in reversed(alts[:-1]):
            for k in set(out) | set(e):
                if k not in e: continue
                if k not in out: out[k] = e[k]; continue
                if out[k] is not e[k] and out[k] != e[k]:
                    out[k] = self.join(g, e[k], out[k])
        return out

    def join(self, g, a, b):
        if a == b: return a
        if a[0] == "rec" or b[0] == "rec":
            ba = a[1] if a[0] == "rec" else a
            bb = b[1] if b[0] == "rec" else b
            if ba == bb:
                oa = dict(a[2]) if a[0] == "rec" else {}
                ob = dict(b[2]) if b[0] == "rec" else {}
                r = {}
                for k in set(oa) | set(ob):
                    x = oa.get(k); y = ob.get(k)
                    if x is None: x = self.getf(ba, k)
                    if y is None: y = self.getf(ba, k)
                    r[k] = self.join(g, x, y)
                return mk("rec", ba, tuple(sorted(r.items())))
        if a[0] in ("&", "ptr") or b[0] in ("&", "ptr"):
            return a if a == b else mk("ite", g, a, b)
        return gite(g, a, b)

    def gate(self, mark):
        g = TRUE
        surv = getattr(self.facts, "surv", ())
        for i in range(mark, len(self.facts)):
            if i not in surv: g = land(g, self.facts[i])
        return g

    def assume_fact(self, c):
        if c[0] == "and": self.assume_fact(c[1]); self.assume_fact(c[2]); return
        if c[0] == "not" and c[1][0] == "or": self.assume_fact(lnot(c[1][1])); self.assume_fact(lnot(c[1][2])); return
        if c == TRUE: return
        self.facts.append(c)

    def known(self, c):
        if c[0] == "bool": return c
        n = lnot(c)
        for f in self.facts:
            if f == c: return TRUE
            if f == n: return FALSE
            # x == const known, other constant asked
            if f[0] == "cmp" and f[1] == "==" and c[0] == "cmp" and c[2] == f[2] and isnum(f[3]) and isnum(c[3]):
                return cmp_(c[1], f[3], c[3])
            if f[0] == "cmp" and f[1] == "==" and c[0] == "cmp" and c[1] in ("==", "!=") and c[2] == f[2] and f[3][0] == "str" and c[3][0] == "str":
                return cmp_(c[1], f[3], c[3])
        if c[0] == "and": return land(self.known(c[1]), self.known(c[2]))
        if c[0] == "or": return lor(self.known(c[1]), self.known(c[2]))
        return c

    # --------------------------------------------------------------- lvalues
    def key(self, d):
        cm = self.capmap.get(self.fr)
        if cm and d in cm: return ("l", cm[d], d)
        return ("l", self.fr, d)

    def entry(self, n, m, i):
        """position of the entry with a constant key in a map given by a list of entries"""
        if m[0] != "list" or len(m) == 1 or not is_const(i): return None
        if not any("map<" in (x or "") for x in (n.get("mc"), n.get("f"), (n["c"][0] or {}).get("t"))): return None
        for j, e in enumerate(m[1:]):
            if e[0] != "pair" or not is_const(e[1]): return None
            if e[1] == i: return j
        return None

    # for arguments that are all known: operator[] on a map with known keys adds the entry instead of updating the map at the key;
    # following a null pointer and reading a text outside its ends are "fault" events that end the path
    concrete = False
    def fault(self, n, what):
        self.emit("fault", n, value=mk("str", what)); raise Throw()
    def lv(self, n):
        """(root, path) of an lvalue expression, or None"""
        k = n["k"]
        if k == "Ref":
            if "g" in n: return (("g", n["g"]), ())
            if "d" in n:
                r = self.key(n["d"])
                v = self.env.get(r)
                if v is None and n.get("binding") and n.get("c"): return self.lv(n["c"][0])
                if v is not None and v[0] == "&": return (v[1], v[2])
                return (r, ())
            return None
        if k == "Member":
            if "g" in n: return (("g", n["g"]), ())
            c = n["c"][0] if n.get("c") else None
            if c is None or not n.get("field"):
                if c is None: return None
            b = self.deref_lv(c) if n.get("arrow") else self.lv(c)
            if b is None: return None
            if not self.raw_ts and n.get("fc", "").startswith("Reaktoro_::"):
                if n["n"] == "val": return b
                return self.temp(self.getf(self.load(*b), n["n"]))   # status, error and derivative parts are not tracked here
            return (b[0], b[1] + (("f", n["n"]),))
        if k == "CXXThisExpr": return None
        if k == "UnOp":
            if n["op"] == "*": return self.deref_lv(n["c"][0])
            if n["op"] in ("++", "--") and not n.get("post"): self.ev(n); return self.lv(n["c"][0])
            return None
        if k == "OpCall":
            op = n["op"]
            if op in ("->", "*") and len(n["c"]) == 1: return self.deref_lv(n["c"][0])
            if op == "[]":
                b = self.lv(n["c"][0])
                i = self.ev(n["c"][1])
                self.emit("index", n, base=(self.load(*b) if b else self.ev(n["c"][0])), idx=i, via="[]", lval=True)
                if b is None: return None
                bv = self.load(*b)
                if bv[0] == "ptr": b = (bv[1], bv[2])
                j = self.entry(n, bv, i)
                if j is None and self.concrete and is_const(i) and bv[0] == "list" and all(e[0] == "pair" and is_const(e[1]) for e in bv[1:]) and "map<" in n["c"][0].get("t", ""):
                    # operator[] makes the entry; the entries of a map are in the order of their keys
                    z = self.zero_of(second_arg(n["c"][0]["t"])) or ZERO
                    es = sorted(list(bv[1:]) + [mk("pair", i, z)], key=lambda e: e[1][1])
                    self.store(b[0], b[1], mk("list", *es)); j = es.index(mk("pair", i, z))
                if j is not None: return (b[0], b[1] + (("i", num(j)), ("f", "second")))
                return (b[0], b[1] + (("i", i),))
            if op in ("=", "+=", "-=", "*=", "/="):
                self.ev(n); return self.lv(n["c"][0])
            return None
        if k == "ArraySubscriptExpr":
            b = self.lv(n["c"][0]); i = self.ev(n["c"][1])
            if b is None:
                v = self.ev(n["c"][0])
                if v[0] == "ptr": b = (v[1], v[2])
                else: return None
            else:
                v = self.load(*b)
                if v[0] == "ptr": b = (v[1], v[2])
            self.emit("index", n, base=self.load(*b), idx=i, via="[]", lval=True)
            return (b[0], b[1] + (("i", i),))
        if k == "MCall":
            fn = n.get("fn"); 
            if fn == "get" and n.get("mc", "").startswith(SMART): return self.lv(n["c"][0])
            if fn == "at" and not n.get("repo"):
                b = self.lv(n["c"][0]); i = self.ev(n["c"][1])
                self.emit("index", n, base=(self.load(*b) if b else self.ev(n["c"][0])), idx=i, via="at", lval=True)
                if b:
                    j = self.entry(n, self.load(*b), i)
                    if j is not None: return (b[0], b[1] + (("i", num(j)), ("f", "second")))
                return (b[0], b[1] + (("i", i),)) if b else None
            if fn in ("front", "back") and not n.get("repo"):
                b = self.lv(n["c"][0])
                if b is None: return None
                i = ZERO if fn == "front" else sub(self.size(self.load(*b)), ONE)
                return (b[0], b[1] + (("i", i),))
            if n.get("rr"):
                v = self.call(n, want_lv=True)
                if v[0] == "&": return (v[1], v[2])
                return self.temp(v)
            return None
        if k == "Call" and n.get("rr"):
            if n.get("f") in ("std::move", "std::forward", "std::ref", "std::cref", "std::as_const"): return self.lv(n["c"][0])
            v = self.call(n, want_lv=True)
            if v[0] == "&": return (v[1], v[2])
            return self.temp(v)
        if k == "Cast": return self.lv(n["c"][0])
        if k in ("BinOp", "CompAssign") and (k == "CompAssign" or n["op"] == "="):
            self.ev(n); return self.lv(n["c"][0])
        if k == "BinOp" and n["op"] == ",":
            self.ev(n["c"][0]); return self.lv(n["c"][1])
        return None

    def temp(self, v):
        self.nframes += 1
        r = ("t", self.nframes); self.env[r] = v
        return (r, ())

    def deref_lv(self, c):
        """lvalue designated by *c / c->"""
        if c["k"] == "CXXThisExpr":
            return self.thisv
        l = self.lv(c)
        v = self.load(*l) if l else self.ev(c)
        if v[0] == "ptr": return (v[1], v[2])
        if v == ("null",) and self.concrete: self.fault(c, "null pointer")
        if v[0] == "itr":
            if v[1][0] == "&": return (v[1][1], v[1][2] + (("i", v[2]),))
            return self.temp(self.geti(v[1], v[2]))
        if v[0] == "ite" and any(x[0] == "itr" for x in ites(v)):
            at = lambda t: gite(t[1], at(t[2]), at(t[3])) if t[0] == "ite" else self.geti(self.contval(t), t[2]) if t[0] == "itr" else t
            return self.temp(at(v))
        if l: return l
        return self.temp(v)

    # ------------------------------------------------------------ expressions
    def ev(self, n):
        if n is None: return mk("none")
        self.steps += 1
        if "cv" in n and n["k"] not in ("UnOp", "CompAssign") and not (n["k"] == "BinOp" and n["op"] in ("=", ",")):
            if n.get("t") == "bool": return ("bool", bool(n["cv"]))
            return num(int(n["cv"]))
        m = getattr(self, "e_" + n["k"], None)
        if m is None:
            return self.e_other(n)
        return m(n)

    def e_other(self, n):
        a = [self.ev(c) for c in kids(n) if isinstance(c, dict)]
        return mk("op", n["k"], *a)

    def e_IntegerLiteral(self, n): return num(int(n["v"]))
    def e_CharacterLiteral(self, n): return num(int(n["v"]))
    def e_FloatingLiteral(self, n): return numtxt(n.get("txt", ""), n["v"]) if n.get("v") is not None else mk("sym", "float:" + str(n.get("txt")))
    def e_CXXBoolLiteralExpr(self, n): return ("bool", bool(n["v"]))
    def e_StringLiteral(self, n): return mk("str", n["v"])
    def e_CXXNullPtrLiteralExpr(self, n): return mk("null")
    def e_GNUNullExpr(self, n): return mk("null")
    def e_CXXScalarValueInitExpr(self, n):
        z = self.zero_of(n.get("t", "")); return z if z is not None else ZERO
    def e_ImplicitValueInitExpr(self, n):
        z = self.zero_of(n.get("t", "")); return z if z is not None else ZERO
    def e_CXXThisExpr(self, n):
        return mk("ptr", self.thisv[0], self.thisv[1]) if self.thisv else mk("sym", "this")
    def e_CXXDefaultArgExpr(self, n): return self.ev(n["c"][0])
    def e_ExprWithCleanups(self, n): return self.ev(n["c"][0])
    def e_Rewritten(self, n):
        a, b = self.ev(n["c"][0]), self.ev(n["c"][1]); return self.binop(n["op"], a, b, n)

    def e_Ref(self, n):
        if "enum" in n: return num(int(n["v"]))
        if "d" in n or "g" in n:
            l = self.lv(n)
            return self.load(*l)
        if "f" in n: return mk("fun", n["f"], n.get("u"))
        return mk("sym", n.get("n", "?"))

    def e_Member(self, n):
        if "g" in n: return self.load(("g", n["g"]), ())
        if not n.get("field"): return mk("sym", n.get("n", "?"))
        c = n["c"][0] if n.get("c") else None
        tsf = not self.raw_ts and n.get("fc", "").startswith("Reaktoro_::")
        l = self.lv(n) if not (tsf and n["n"] == "val") else None
        if l is not None:
            v = self.load(*l)
        else:
            l = (self.deref_lv(c) if n.get("arrow") else self.lv(c)) if c is not None else self.thisv
            b = self.load(*l) if l is not None else self.ev(c)
            v = b if (tsf and n["n"] == "val") else self.getf(b, n["n"])
        if self.field_hook:
            r = self.field_hook(self, n, v)
            if r is not None: return r
        return v

    def e_Cast(self, n):
        ck = n.get("ck", "")
        v = self.ev(n["c"][0])
        if ck == "FloatingToIntegral":
            if isnum(v): return num(int(v[1]))
            return mk("trunc", v)
        if n.get("t") == "int" and isnum(v): return num(int(v[1]))
        return v

    def e_ConditionalOperator(self, n):
        c = self.known(bool_(self.ev(n["c"][0])))
        if c == TRUE: return self.ev(n["c"][1])
        if c == FALSE: return self.ev(n["c"][2])
        m = len(self.facts); e0 = dict(self.env)
        self.assume_fact(c); a = self.ev(n["c"][1]); ea = self.env; del self.facts[m:]
        self.env = e0; self.assume_fact(lnot(c)); b = self.ev(n["c"][2]); del self.facts[m:]
        self.env = self.merge([(c, ea), (TRUE, self.env)])
        return self.join(c, a, b)

    def e_BinOp(self, n):
        op = n["op"]; L, R = n["c"][0], n["c"][1]
        if op == "=":
            v = self.ev(R)
            self.assign(L, v, n)
            return v
        if op == ",": self.ev(L); return self.ev(R)
        if op in ("&&", "||"):
            a = self.known(bool_(self.ev(L)))
            if op == "&&" and a == FALSE: return FALSE
            if op == "||" and a == TRUE: return TRUE
            m = len(self.facts); e0 = dict(self.env)
            self.assume_fact(a if op == "&&" else lnot(a))
            b = self.known(bool_(self.ev(R)))
            del self.facts[m:]
            self.env = self.merge([(a if op == "&&" else lnot(a), self.env), (TRUE, e0)])
            return land(a, b) if op == "&&" else lor(a, b)
        a = self.ev(L); b = self.ev(R)
        return self.binop(op, a, b, n)

    def binop(self, op, a, b, n):
        t = n.get("t", "")
        if op in ("<", ">", "<=", ">=", "==", "!="):
            if a[0] == "itr" and b[0] == "itr" and op in ("==", "!="):
                for x, y in ((a[2], b[2]), (b[2], a[2])):
                    if x[0] == "find" and y[0] != "find": return cmp_(op, self.count(x[1], x[2]), ZERO)
                return cmp_(op, a[2], b[2])
            self.emit("compare", n, op=op, a=a, b=b)
            if a[0] == "bool" and b[0] == "bool": return ("bool", (a == b) == (op == "=="))
            if op in ("==", "!=") and (a[0] == "bool" or b[0] == "bool"):
                x, y = (a, b) if b[0] == "bool" else (b, a)
                r = bool_(x)
                return r if y[1] == (op == "==") else lnot(r)
            if op in ("==", "!="):
                for x, y in ((a, b), (b, a)):
                    if x == ("null",) and y[0] == "ptr": return ("bool", op == "!=")
                if a[0] == "ite" and (isnum(b) or b[0] in ("str", "enum")) and all(x[0] in ("num", "str") for x in (a[2], a[3])):
                    return bool_(gite(a[1], cmp_(op, a[2], b), cmp_(op, a[3], b)))
                if self.concrete and a[0] == b[0] == "list" and whole(a) and whole(b): return ("bool", (a == b) == (op == "=="))
            return cmp_(op, a, b)
        if a[0] == "ptr" or b[0] == "ptr":
            return mk("op", op, a, b)
        if op == "+": self.emit("arith", n, op=op, a=a, b=b); return self.plus(a, b)
        if op == "-":
            if a[0] == "itr": return sub(a[2], b[2]) if b[0] == "itr" and b[1] == a[1] else mk("op", op, a, b) if b[0] == "itr" else mk("itr", a[1], sub(a[2], b))
            self.emit("arith", n, op=op, a=a, b=b); return sub(a, b)
        if op == "*": return mul(a, b)
        isint = t in ("int", "unsigned int", "long", "unsigned long", "short", "char", "long long", "unsigned long long")
        if op == "/":
            if isint:
                if isnum(a) and isnum(b) and b[1] != 0:
                    q = abs(a[1]) // abs(b[1]); return num(q if (a[1] >= 0) == (b[1] >= 0) else -q)
                return mk("idiv", a, b)
            return div(a, b)
        if op == "%":
            if isnum(a) and isnum(b) and b[1] != 0: return num(int(a[1]) % int(b[1])) if a[1] >= 0 else mk("%", a, b)
            return mk("%", a, b)
        return mk("op", op, a, b)

    def plus(self, a, b):
        if a[0] == "itr" and b[0] != "itr": return mk("itr", a[1], add(a[2], b))
        if a[0] in ("str", "cat", "strm") or b[0] in ("str", "cat", "strm"): return mk("cat", a, b) if not (a[0] == b[0] == "str") else mk("str", a[1] + b[1])
        return add(a, b)

    def assign(self, L, v, n):
        l = self.lv(L)
        if l is None:
            t = L
            while t["k"] in ("Cast", "ParenExpr") and kids(t): t = kids(t)[-1]
            if t["k"] == "Call" and t.get("f") == "std::tie":
                # unpacking into the variables tied
                for i, x in enumerate(kids(t)):
                    if x.get("n") == "ignore": continue
                    self.assign(x, v[1 + i] if v[0] in ("pair", "list") and len(v) > 1 + i else self.getf(v, ("first", "second")[i]) if len(kids(t)) == 2 and v[0] != "ite" and "pair" in str(v[:1]) else self.geti(v, num(i)), n)
                return
            self.emit("write?", n, value=v); return
        self.store(l[0], l[1], v, n)

    def e_CompAssign(self, n):
        op = n["op"][:-1]
        r = self.ev(n["c"][1])
        l = self.lv(n["c"][0])
        if l is None:
            self.emit("write?", n, value=r); return r
        v = self.binop(op, self.load(*l), r, n)
        self.store(l[0], l[1], v, n)
        return v

    def e_UnOp(self, n):
        op = n["op"]; c = n["c"][0]
        if op in ("++", "--"):
            l = self.lv(c)
            if l is None: return mk("op", op, self.ev(c))
            old = self.load(*l)
            if old[0] == "itr": new = mk("itr", old[1], add(old[2], ONE if op == "++" else num(-1)))
            else: new = add(old, ONE) if op == "++" else sub(old, ONE)
            self.store(l[0], l[1], new, n)
            return old if n.get("post") else new
        if "cv" in n: return num(int(n["cv"])) if n.get("t") != "bool" else ("bool", bool(n["cv"]))
        if op == "!":
            return lnot(self.known(bool_(self.ev(c))))
        if op == "-": return neg(self.ev(c))
        if op == "+": return self.ev(c)
        if op == "&":
            l = self.lv(c)
            return mk("ptr", l[0], l[1]) if l else mk("addr", self.ev(c))
        if op == "*":
            l = self.deref_lv(c); return self.load(*l)
        return mk("op", op, self.ev(c))

    def e_ArraySubscriptExpr(self, n):
        l = self.lv(n)
        if l: return self.load(*l)
        b, i = self.ev(n["c"][0]), self.ev(n["c"][1])
        self.emit("index", n, base=b, idx=i, via="[]", lval=False)
        return self.geti(b, i)

    def e_InitListExpr(self, n):
        t = (n.get("t") or "").replace("const ", "")
        items = [self.ev(c) for c in kids(n)]
        if t in self.M.rec and not t.startswith("Reaktoro_"):
            fs = self.M.rec[t]["fields"]
            v = mk("zero", t)
            for f, x in zip(fs, items): v = self.setf(v, f["n"], x)
            return v
        if len(items) == 1 and not ("[" in t or "vector" in t or "array" in t or "initializer_list" in t or "map" in t): return items[0]
        if t.startswith("std::array"):
            if len(items) == 1 and items[0][0] == "list": items = list(items[0][1:])
            elif len(kids(n)) == 1 and kids(n)[0]["k"] == "ImplicitValueInitExpr": items = []
            m = __import__("re").search(r", (\d+)>$", t); el = self.zero_of(t[t.find("<") + 1:t.rfind(",")]) or ZERO
            if m and int(m.group(1)) < 4000: items += [el] * (int(m.group(1)) - len(items))
            return mk("list", *items)
        if t.startswith("std::pair") and len(items) == 2: return mk("pair", *items)
        m = __import__("re").search(r"\[(\d+)\]$", t)
        if m and n.get("filler") and int(m.group(1)) < 4000:
            items += [ZERO] * (int(m.group(1)) - len(items))
        return mk("list", *items)

    def e_LambdaExpr(self, n):
        i = len(self.lams) + 1
        vals = {}; refs = {}
        for c in n.get("cap", []):
            if c.get("cap") == "val" and "d" in c:
                if c.get("c"): vals[c["d"]] = self.ev(c["c"][0])
                else:
                    r = self.key(c["d"]); v = self.env.get(r)
                    if v is not None and v[0] == "&": v = self.load(v[1], v[2])
                    vals[c["d"]] = v if v is not None else mk("undef", c["n"])
            elif c.get("cap") == "ref" and "d" in c:
                refs[c["d"]] = self.key(c["d"])[1]
        self.lams[i] = (n, vals, refs, self.thisv, self.stack[-1] if self.stack else None)
        return mk("lam", i)

    def e_CXXNewExpr(self, n):
        init = n["c"][1] if len(n["c"]) > 1 else None
        if n.get("array"):
            sz = self.ev(n["c"][0])
            self.emit("new", n, size=sz)
            r = ("h", n["l"], self.fr, len(self.events)); self.env[r] = mk("newarr", sz)
            return mk("ptr", r, ())
        v = self.ev(init) if init else (self.zero_of(n.get("nt", "")) or mk("undef", "new"))
        self.emit("new", n, size=None)
        return v   # a pointer to a fresh object stands for the object

    def e_CXXDeleteExpr(self, n):
        v = self.ev(n["c"][0]); self.emit("delete", n, value=v); return mk("none")

    def e_CXXThrowExpr(self, n):
        v = self.ev(n["c"][0]) if kids(n) and n["c"][0] else mk("none")
        self.emit("throw", n, value=v)
        raise Throw()

    # ------------------------------------------------------------ construct
    def e_Construct(self, n):
        cls = n["cls"]; ctor = n["ctor"]; c = kids(n)
        if ctor in ("copy", "move") and len(c) == 1: 
            v = self.ev(c[0])
            if self.hook:
                r = self.hook(self, n, "copy:" + cls, [v], None)
                if r is not None: return r
            return v
        if self.hook:
            r = self.hook(self, n, "ctor:" + cls, None, None)
            if r is not None: return r
        if not self.raw_ts and cls.startswith("Reaktoro_::"):
            args = [self.ev(x) for x in c]
            if not args: return ZERO
            return args[0]
        args = None
        if cls.startswith("std::"):
            args = [self.ev(x) for x in c if x is not None and x["k"] != "CXXDefaultArgExpr"]
            base = cls
            if base.startswith(("std::vector", "std::map", "std::set", "std::unordered_map", "std::list", "std::deque", "std::array")):
                if not args: return mk("list")
                if len(args) == 1 and args[0][0] in ("list",): return args[0]
                if n.get("list") and len(args) == 1 and args[0][0] == "list": return args[0]
                if base.startswith("std::vector") and not n.get("list"):
                    if len(args) == 1: return mk("filled", ZERO, args[0]) if self.t_is_num(c[0]) else args[0]
                    if len(args) == 2 and args[0][0] != "itr": return mk("filled", args[1], args[0])
                    if len(args) == 2 and args[0][0] == "itr" and args[0][2] == ZERO: return self.contval(args[0])
                return mk("new", base, *args)
            if base.startswith("std::basic_string") or base.startswith("std::__cxx11::basic_string"):
                if not args: return mk("str", "")
                if len(args) == 1: return args[0]
                return mk("new", "string", *args)
            if base.startswith("std::pair"):
                if len(args) == 2: return mk("pair", *args)
                if len(args) == 1: return args[0]
                ps = n.get("t", "")
                return mk("pair", ZERO, ZERO) if not args else mk("new", base, *args)
            if base.startswith("std::function"):
                return args[0] if args else mk("null")
            if base.startswith(SMART):
                return args[0] if args else mk("null")
            if base.startswith("std::initializer_list") and len(args) == 1: return args[0]
            if base.startswith("std::tuple"): return mk("list", *args)
            return mk("new", base, *args)
        f = self.M.fn.get(n.get("u"))
        if f is None or n.get("implicit"):
            if not c and cls in self.M.rec: 
                return mk("zero", cls, "v") if n.get("zero") else mk("zero", cls)
            args = [self.ev(x) for x in c]
            if not args: return self.zero_of(cls) or mk("new", cls)
            return mk("new", cls, *args)
        if self.opaque(f) or len(self.stack) >= self.maxdepth or sum(1 for s in self.stack if s is f) > 1:
            args = [self.ev(x) for x in c]
            self.emit("call", n, f=f["f"], args=args, fdef=f)
            return mk("new", cls, *args)
        return self.construct(f, cls, c, n)

    def t_is_num(self, c):
        t = c.get("t", "") if c else ""
        return t.replace("const ", "") in ("int", "unsigned int", "long", "unsigned long", "size_t", "short")

    def construct(self, f, cls, argnodes, n):
        self.nframes += 1
        root = ("o", self.nframes); self.env[root] = mk("zero", cls)
        binds = self.bind(f, argnodes, n)
        self.run_fn(f, (root, ()), binds, n)
        v = self.load(root, ())
        return v

    # ------------------------------------------------------------- calls
    def e_Call(self, n): return self.rv(self.call(n))
    def e_MCall(self, n): return self.rv(self.call(n))
    def e_OpCall(self, n): return self.rv(self.opcall(n))
    def rv(self, v):
        return self.load(v[1], v[2]) if v[0] == "&" else v

    def contval(self, it):
        return self.load(it[1][1], it[1][2]) if it[1][0] == "&" else it[1]

    def opcall(self, n):
        op = n["op"]; c = n["c"]; f = n.get("f", "")
        ts = not self.raw_ts and f.startswith("Reaktoro_::")
        if op == "()":
            return self.invoke(c[0], c[1:], n)
        if op == "=":
            tl = c[0].get("t", "")
            fd = self.M.fn.get(n.get("u"))
            if fd is not None and not ts and not fd.get("defaulted") and not self.opaque(fd):
                l = self.lv(c[0])
                if l is not None:
                    binds = self.bind(fd, c[1:], n)
                    return self.run_fn(fd, l, binds, n)
            v = self.ev(c[1])
            if isnum(v) and "basic_string" in tl.split("<")[0]: v = mk("str", chr(int(v[1])))
            self.assign(c[0], v, n); return v
        if op in ("+=", "-=", "*=", "/="):
            fd = self.M.fn.get(n.get("u"))
            if fd is not None and not ts:
                return self.generic_call(n, fd, c[0], c[1:]) if fd.get("cls") else self.generic_call(n, fd, None, c)
            r = self.ev(c[1]); l = self.lv(c[0])
            if l is None: return r
            old = self.load(*l)
            v = self.binop(op[0], old, r, dict(n, t="double"))
            self.store(l[0], l[1], v, n); return v
        if op in ("->", "*") and len(c) == 1:
            l = self.deref_lv(c[0]); return self.load(*l)
        if op == "[]":
            l = self.lv(n)
            if l is not None: return self.load(*l)
            b, i = self.ev(c[0]), self.ev(c[1])
            self.emit("index", n, base=b, idx=i, via="[]", lval=False)
            return self.geti(b, i)
        if op in ("++", "--"):
            l = self.lv(c[0]); old = self.load(*l) if l else self.ev(c[0])
            if old[0] == "itr": new = mk("itr", old[1], add(old[2], ONE if op == "++" else num(-1)))
            else: new = add(old, ONE if op == "++" else num(-1))
            if l: self.store(l[0], l[1], new, n)
            return old if len(c) > 1 else new
        fd = self.M.fn.get(n.get("u"))
        if fd is not None and not ts and not self.opaque(fd):
            if fd.get("cls"): return self.generic_call(n, fd, c[0], c[1:])
            return self.generic_call(n, fd, None, c)
        if op == "<<" or op == ">>":
            a = [self.ev(x) for x in c]
            self.emit("call", n, f=f, args=a, fdef=fd)
            if op == ">>":
                for x in c[1:]:
                    l = self.lv(x)
                    if l: self.store(l[0], l[1], mk("read", *a), n)
            elif len(c) == 2:
                x = c[0]
                while x["k"] in ("OpCall", "ParenExpr", "Cast") and (x["k"] != "OpCall" or x.get("op") == "<<") and x.get("c"): x = x["c"][0]
                if "stringstream" in x.get("t", ""):
                    l = self.lv(x)
                    if l: v = mk("cat", self.load(*l), a[1]); self.store(l[0], l[1], v, n); return v
            return a[0] if a else mk("none")
        a = [self.ev(x) for x in c]
        if len(a) == 1:
            if op == "-": return neg(a[0])
            if op == "+": return a[0]
            if op == "!": return lnot(bool_(a[0]))
        if len(a) == 2: return self.binop(op, a[0], a[1], dict(n, t="double"))
        return mk("op", op, *a)

    def invoke(self, fnode, argnodes, n):
        if self.hook:
            r = self.hook(self, n, "()", argnodes, fnode)
            if r is not None: return r
        l = self.lv(fnode)
        v = self.load(*l) if l else self.ev(fnode)
        return self.invoke_value(v, argnodes, n)

    def invoke_value(self, v, argnodes, n):
        if v[0] == "lam" and v[1] in self.lams and len(self.stack) < self.maxdepth:
            node, vals, refs, th, owner = self.lams[v[1]]
            for g in node.get("insts", []):     # a generic lambda: the body this call instantiates
                if n is not None and n.get("lop") == g["lop"]: node = {**g, "l": node["l"]}
            fake = {"f": (owner or {}).get("f", "") + "::lambda", "n": "lambda", "params": node["params"], "c": node["c"], "file": (owner or {}).get("file", ""),
                    "l": node["l"], "u": "lam%d" % v[1], "rr": node.get("rr"), "rt": node.get("rt")}
            binds = self.bind(fake, argnodes, n)
            return self.run_fn(fake, th, binds, n, caps=(vals, refs))
        if v[0] == "fun":
            fd = self.M.fn.get(v[2])
            if fd is not None: return self.generic_call(n, fd, None, argnodes)
        if v[0] == "ite":
            # call through a selected closure: both alternatives
            m = len(self.facts); e0 = dict(self.env); c = v[1]
            self.assume_fact(c); a = self.rv(self.invoke_value(v[2], argnodes, n)); ea = self.env; del self.facts[m:]
            self.env = e0; self.assume_fact(lnot(c)); b = self.rv(self.invoke_value(v[3], argnodes, n)); del self.facts[m:]
            self.env = self.merge([(c, ea), (TRUE, self.env)])
            return self.join(c, a, b)
        args = []
        for a in argnodes: args.append(self.ev(a))
        self.emit("call", n, f="(indirect)", args=args, fdef=None, callee=v)
        r = mk("apply", v, *args)
        return r

    def bind(self, f, argnodes, n):
        """evaluates arguments in the caller; returns [(param, value or alias)]"""
        out = []
        ps = f.get("params", [])
        for i, p in enumerate(ps):
            a = argnodes[i] if i < len(argnodes) else None
            if a is not None and a["k"] == "CXXDefaultArgExpr": a = a["c"][0] if kids(a) else None
            if a is None:
                if p.get("c"): out.append((p, self.in_global(p["c"][0], p["t"]))); continue
                out.append((p, mk("undef", p["n"]))); continue
            if p.get("ref") in ("r", "c", "m"):
                l = self.lv(a) if a["k"] in ("Ref", "Member", "ArraySubscriptExpr", "OpCall", "UnOp", "MCall", "Call", "Cast") else None
                if l is not None and l[0][0] != "g":
                    out.append((p, mk("&", l[0], l[1]))); continue
                if l is not None and p.get("ref") == "r": out.append((p, mk("&", l[0], l[1]))); continue
                if l is not None: out.append((p, self.load(*l))); continue
            out.append((p, self.ev(a)))
        return out

    def call(self, n, want_lv=False):
        if n.get("indirect"): return self.invoke(n["c"][0], n["c"][1:], n)
        k = n["k"]; f = n.get("f", ""); fn = n.get("fn", ""); c = kids(n)
        obj = c[0] if k == "MCall" else None
        rest = c[1:] if k == "MCall" else c
        if self.hook:
            r = self.hook(self, n, f, None, obj)
            if r is not None: return r
        fd = self.M.fn.get(n.get("u"))
        if not n.get("repo") or (fd is None and f.startswith("std::")):
            r = self.builtin(n, f, fn, obj, rest)
            if r is not None: return r
        if not self.raw_ts and f.startswith("Reaktoro_::") and fn in MATH:
            return T.fn(fn, *[self.ev(a) for a in rest])
        if fd is not None:
            return self.generic_call(n, fd, obj, rest)
        return self.opaque_call(n, f, obj, rest, n.get("pr", ""), n.get("mconst"))

    recursion = 1      # how often a function may be on the stack when it is entered
    def generic_call(self, n, fd, obj, argnodes):
        if self.opaque(fd) or len(self.stack) >= self.maxdepth or sum(1 for s in self.stack if s is fd) > self.recursion or fd.get("dep"):
            pr = ""
            for p in fd.get("params", []):
                t = p["t"]
                pr += {"r": "r", "m": "m", "c": "c"}.get(p.get("ref"), "p" if t.endswith("*") and not t.startswith("const ") else "v")
            return self.opaque_call(n, fd["f"], obj, argnodes, pr, fd.get("const"), fd)
        if obj is not None:
            l = self.deref_lv(obj) if obj["k"] == "CXXThisExpr" or (obj.get("t", "").endswith("*")) else self.lv(obj)
            if l is None: l = self.temp(self.ev(obj))
        else: l = self.thisv if fd.get("cls") and not fd.get("static") else None
        binds = self.bind(fd, argnodes, n)
        return self.run_fn(fd, l, binds, n)

    def opaque_call(self, n, f, obj, argnodes, pr, mconst, fd=None):
        argv = []; outs = []
        ol = None
        if obj is not None:
            if obj["k"] == "CXXThisExpr": ol = self.thisv
            else:
                ol = self.lv(obj)
                if ol is not None:
                    v = self.load(*ol)
                    if v[0] == "ptr": ol = (v[1], v[2])
            ov = self.load(*ol) if ol is not None else self.ev(obj)
            argv.append(ov)
        for i, a in enumerate(argnodes):
            if a is None: continue
            mode = pr[i] if i < len(pr) else "v"
            if mode in "rp":
                l = self.lv(a)
                if l is not None and mode == "p":
                    v = self.load(*l); l = (v[1], v[2]) if v[0] == "ptr" else None
                    argv.append(v if l is None else self.load(*l))
                elif l is not None: argv.append(self.load(*l))
                else:
                    v = self.ev(a)
                    if mode == "p" and v[0] == "ptr": l = (v[1], v[2]); v = self.load(*l)
                    argv.append(v)
                if l is not None: outs.append((i, l))
            else: argv.append(self.ev(a))
        self.emit("call", n, f=f, args=argv, fdef=fd, obj=ol)
        for i, l in outs:
            self.store(l[0], l[1], mk("out", f, num(i), *argv))
        if ol is not None and not mconst:
            self.store(ol[0], ol[1], mk("mut", f, *argv))
        if n.get("noret"): raise Throw()
        return mk("call", f, *argv)

    # models of library functions ------------------------------------------
    def builtin(self, n, f, fn, obj, rest):
        if obj is None:
            if fn in MATH and not (n.get("repo")): return T.fn(fn, *[self.ev(a) for a in rest])
            if fn in ("tolower", "toupper") and len(rest) == 1:
                a = self.ev(rest[0])
                if isnum(a) and a[1].denominator == 1 and 0 <= a[1] < 128: return num(ord(getattr(chr(int(a[1])), fn[2:])()))
                return mk("call", fn, a)
            if f in ("std::move", "std::forward", "std::ref", "std::cref", "std::as_const"):
                l = self.lv(rest[0]); return mk("&", l[0], l[1]) if l is not None else self.ev(rest[0])
            if f in ("std::min", "std::max") and len(rest) == 2:
                a, b = self.ev(rest[0]), self.ev(rest[1])
                c = cmp_("<", b, a) if f == "std::min" else cmp_("<", a, b)
                return gite(c, b, a)
            if f in ("std::begin", "std::cbegin"): return self.iter_at(rest[0], ZERO)
            if f in ("std::end", "std::cend"): return self.iter_at(rest[0], None)
            if f == "std::make_pair": return mk("pair", *[self.ev(a) for a in rest])
            if f in ("std::make_tuple", "std::tie", "std::forward_as_tuple"): return mk("list", *[self.ev(a) for a in rest])
            if f in ("std::make_shared", "std::make_unique"):
                return self.made(n, rest)
            if f == "std::swap":
                a, b = self.lv(rest[0]), self.lv(rest[1])
                if a and b:
                    x, y = self.load(*a), self.load(*b); self.store(a[0], a[1], y, n); self.store(b[0], b[1], x, n); return mk("none")
            if f == "std::advance" and len(rest) == 2:
                l = self.lv(rest[0]); d = self.ev(rest[1]); v = self.load(*l)
                if v[0] == "itr": self.store(l[0], l[1], mk("itr", v[1], add(v[2], d)), n); return mk("none")
            if f in ("std::next",):
                a = [self.ev(x) for x in rest if x["k"] != "CXXDefaultArgExpr"]
                if a and a[0][0] == "itr": return mk("itr", a[0][1], add(a[0][2], a[1] if len(a) > 1 else ONE))
            if f == "std::distance" and len(rest) == 2:
                a, b = self.ev(rest[0]), self.ev(rest[1])
                if a[0] == b[0] == "itr" and a[1] == b[1]: return sub(b[2], a[2])
                return mk("call", f, a, b)
            if f == "std::accumulate" and len(rest) >= 3:
                a, b = self.ev(rest[0]), self.ev(rest[1])
                if a[0] == "itr" and b[0] == "itr": return self.fold(a, b, rest, n)
            if f == "std::inner_product" and len(rest) == 4:
                a, b, c2 = self.ev(rest[0]), self.ev(rest[1]), self.ev(rest[2])
                if a[0] == b[0] == c2[0] == "itr" and c2[2] == a[2]:
                    dom = mk("dom", a[2], b[2], num(len(self.loops)))
                    it = self.iterof(dom)
                    return add(self.ev(rest[3]), self.mksum(dom, mul(self.geti(self.contval(a), it), self.geti(self.contval(c2), it))))
            if f == "std::for_each" and len(rest) == 3:
                a, b = self.ev(rest[0]), self.ev(rest[1]); lam = self.ev(rest[2])
                if a[0] == b[0] == "itr" and a[1][0] == "&" and lam[0] == "lam":
                    self.loop_over(n, a, b, lam); return lam
            if f == "std::find" and len(rest) == 3:
                a, b, v = self.ev(rest[0]), self.ev(rest[1]), self.ev(rest[2])
                if a[0] == b[0] == "itr" and a[1][0] == "&" and a[1] == b[1]:
                    m = self.contval(a)
                    if m[0] == "list" and whole(v) and all(whole(x) for x in m[1:]) and isnum(a[2]) and isnum(b[2]):
                        return mk("itr", a[1], next((num(j) for j in range(int(a[2][1]), int(b[2][1])) if m[1 + j] == v), b[2]))
                return mk("call", f, a, b, v)
            if f in ("std::fill",) and len(rest) == 3:
                a, b = self.ev(rest[0]), self.ev(rest[1]); v = self.ev(rest[2])
                if a[0] == "itr" and a[1][0] == "&" and a[2] == ZERO:
                    self.store(a[1][1], a[1][2], mk("filled", v, b[2]), n); return mk("none")
            return None
        # member functions of library classes
        if "basic_string" in n.get("mc", "") and "stream" not in n.get("mc", ""):
            r = self.string_call(fn, obj, [x for x in rest if x["k"] != "CXXDefaultArgExpr"], n)
            if r is not None: return r
        mc = n.get("mc", "")
        if mc.startswith(SMART):
            if fn == "get":
                l = self.lv(obj); return mk("&", l[0], l[1]) if l is not None else self.ev(obj)
            if fn == "reset":
                l = self.lv(obj); a = [self.ev(x) for x in rest if x["k"] != "CXXDefaultArgExpr"]
                if l is not None: self.store(l[0], l[1], a[0] if a else mk("null"), n)
                return mk("none")
            if fn == "swap" and len(rest) == 1:
                a, b = self.lv(obj), self.lv(rest[0])
                if a and b:
                    x, y = self.load(*a), self.load(*b); self.store(a[0], a[1], y, n); self.store(b[0], b[1], x, n); return mk("none")
        if mc.startswith("std::function") and fn == "operator()":
            return self.invoke(obj, rest, n)
        if fn in ("size", "length") and not rest: return self.size(self.ev(obj))
        if fn == "empty" and not rest: return cmp_("==", self.size(self.ev(obj)), ZERO)
        if fn in ("begin", "cbegin"): return self.iter_at(obj, ZERO)
        if fn in ("end", "cend"): return self.iter_at(obj, None)
        if fn in ("c_str", "data", "str") and not rest: return self.ev(obj) if fn != "str" else mk("strm", self.ev(obj))
        if fn in ("at", "front", "back"):
            l = self.lv(n)
            if l is not None: return mk("&", l[0], l[1])
            b = self.ev(obj)
            if fn == "at":
                i = self.ev(rest[0]); return self.geti(b, i)
            return self.geti(b, ZERO if fn == "front" else sub(self.size(b), ONE))
        if fn in ("push_back", "emplace_back"):
            l = self.lv(obj); a = [self.ev(x) for x in rest]
            self.emit("call", n, f=n.get("f"), args=[self.load(*l) if l else mk("none")] + a, fdef=None, obj=l)
            if l is None: return mk("none")
            v = self.load(*l); x = a[0] if len(a) == 1 else mk("pair", *a) if len(a) == 2 else mk("list", *a)
            self.store(l[0], l[1], mk("list", *(list(v[1:]) + [x])) if v[0] == "list" else mk("push", v, x), n)
            return mk("none")
        if fn == "clear" and not rest:
            l = self.lv(obj)
            if l is not None: self.store(l[0], l[1], mk("str", "") if "string" in mc else mk("list"), n)
            return mk("none")
        if fn == "assign" and len(rest) == 2 and "vector" in mc + (obj.get("t") or "") and not kids(rest[0]) and rest[0]["k"] == "IntegerLiteral" or \
           fn == "assign" and len(rest) == 2 and "vector" in mc + (obj.get("t") or "") and "cv" in rest[0]:
            l = self.lv(obj); k, v = self.ev(rest[0]), self.ev(rest[1])
            if l is not None:
                self.store(l[0], l[1], mk("list", *([v] * int(k[1]))) if isnum(k) and 0 <= k[1] <= 64 else mk("filled", v, k), n)
            return mk("none")
        if fn in ("resize",):
            l = self.lv(obj); a = [self.ev(x) for x in rest if x["k"] != "CXXDefaultArgExpr"]
            if l is not None:
                v = self.load(*l); ct = (obj.get("t") or "").replace("const ", ""); el = ct[ct.find("<") + 1:ct.rfind(">")].strip() if "<" in ct else ""
                z0 = self.zero_of(el) if el.startswith("std::") else None
                if z0 is None: z0 = ZERO
                if v[0] == "list" and isnum(a[0]) and a[0][1].denominator == 1 and 0 <= a[0][1] <= 64:
                    k = int(a[0][1]); fill = a[1] if len(a) > 1 else z0
                    nv = mk("list", *(list(v[1:1 + k]) + [fill] * (k - len(v) + 1)))
                else: nv = mk("filled", a[1] if len(a) > 1 else z0, a[0]) if v == ("list",) else mk("resize", v, *a)
                self.store(l[0], l[1], nv, n)
            return mk("none")
        if fn == "reserve": return mk("none")
        if fn == "count" and len(rest) == 1: return self.count(self.ev(obj), self.ev(rest[0]))
        if "map<" in mc or "map<" in (obj.get("t") or ""):
            r = self.map_insert(fn, obj, rest, n)
            if r is not None: return r
        if fn == "find" and len(rest) == 1:
            m, k = self.ev(obj), self.ev(rest[0])
            if m[0] == "list" and self.count(m, k) in (ZERO, ONE) and "map<" in mc + (obj.get("t") or ""):
                return mk("itr", self.ctr(obj), next((num(j) for j, e in enumerate(m[1:]) if e[1] == k), num(len(m) - 1)))
            return mk("itr", self.ctr(obj), mk("find", m, k))
        if fn == "contains" and len(rest) == 1: return cmp_("!=", self.count(self.ev(obj), self.ev(rest[0])), ZERO)
        if fn == "push" and len(rest) == 1: pass
        return None

    def string_call(self, fn, obj, rest, n):
        """member functions of strings whose text is known"""
        if fn not in ("find", "rfind", "replace", "substr", "append", "erase", "insert", "find_first_of", "find_last_of"): return None
        l = self.lv(obj); v = self.load(*l) if l is not None else self.ev(obj)
        if v[0] != "str": return None
        a = [self.ev(x) for x in rest]
        if not all(is_const(x) for x in a): return None
        t = v[1]; p = [x[1] if x[0] == "str" else int(x[1]) for x in a]; N = 2 ** 64 - 1
        if any(isinstance(x, int) and x < 0 for x in p): p = [x + 2 ** 64 if isinstance(x, int) and x < 0 else x for x in p]
        ch = lambda x: x if isinstance(x, str) else chr(x)
        if fn in ("find", "rfind", "find_first_of", "find_last_of") and len(p) in (1, 2):
            x = ch(p[0])
            if fn == "find": r = t.find(x, p[1] if len(p) > 1 else 0) if len(p) < 2 or p[1] <= len(t) else -1
            elif fn == "rfind": r = t.rfind(x) if len(p) == 1 or p[1] >= len(t) else t.rfind(x, 0, p[1] + len(x))
            elif fn == "find_first_of": r = next((i for i in range(p[1] if len(p) > 1 else 0, len(t)) if t[i] in x), -1)
            elif fn == "find_last_of": r = max([i for i in range(min(len(t), (p[1] if len(p) > 1 else len(t)) + 1)) if t[i] in x], default=-1)
            else: return None
            return num(r if r >= 0 else N)
        if fn == "substr" and p and self.concrete and p[0] > len(t): raise Throw()
        if fn == "substr" and p and p[0] <= len(t): return mk("str", t[p[0]:] if len(p) < 2 else t[p[0]:p[0] + p[1]])
        if fn == "replace" and len(p) == 3 and isinstance(p[2], str) and p[0] <= len(t): r = t[:p[0]] + p[2] + t[min(len(t), p[0] + p[1]):]
        elif fn == "insert" and len(p) == 2 and isinstance(p[1], str) and p[0] <= len(t): r = t[:p[0]] + p[1] + t[p[0]:]
        elif fn == "append" and len(p) == 1 and isinstance(p[0], str): r = t + p[0]
        elif fn == "erase" and len(p) == 2 and p[0] <= len(t): r = t[:p[0]] + t[p[0] + p[1]:]
        else: return None
        if l is None: return None
        self.store(l[0], l[1], mk("str", r), n)
        return mk("&", l[0], l[1])

    def made(self, n, rest):
        """make_shared/make_unique: a copy of the argument, or the constructor with as many parameters"""
        t = n.get("t", ""); cls = t[t.find("<") + 1:t.rfind(">")].split(",")[0].strip() if "<" in t else ""
        if len(rest) == 1 and (rest[0].get("t", "").replace("const ", "").strip() == cls):
            cp = [m for m in self.M.rec.get(cls, {}).get("methods", []) if m.get("ctor") == "copy"]
            if self.hook and cp:
                r = self.hook(self, {"k": "Construct", "u": cp[0]["u"], "implicit": cp[0].get("implicit"), "c": rest, "l": n.get("l"), "cls": cls, "ctor": "copy"}, "copy:" + cls, None, None)
                if r is not None: return r
            return self.ev(rest[0])
        if not rest and cls in self.M.rec and not any(m.get("ctor") == "default" and m.get("user") for m in self.M.rec[cls]["methods"]): return mk("zero", cls, "v")
        cand = [m for m in self.M.rec.get(cls, {}).get("methods", []) if m.get("ctor") and m.get("user") and len(m["params"]) == len(rest) and m["u"] in self.M.fn and m["ctor"] not in ("copy", "move")]
        if len(cand) == 1: return self.construct(self.M.fn[cand[0]["u"]], cls, rest, n)
        return mk("new", t, *[self.ev(a) for a in rest])

    def fold(self, a, b, rest, n):
        dom = mk("dom", a[2], b[2], num(len(self.loops)))
        it = self.iterof(dom); cont = self.contval(a)
        init = self.ev(rest[2])
        el = self.geti(cont, it)
        if len(rest) == 3: return add(init, self.mksum(dom, el))
        lam = self.ev(rest[3])
        if lam[0] != "lam": return mk("call", "std::accumulate", cont, init, lam)
        p = mk("sym", "phi:acc%d" % len(self.loops))
        node, vals, refs, th, owner = self.lams[lam[1]]
        ps = node["params"]
        binds = [(ps[0], p), (ps[1], el)]
        fake = {"f": (owner or {}).get("f", "") + "::lambda", "n": "lambda", "params": ps, "c": node["c"], "file": (owner or {}).get("file", ""), "l": node["l"], "u": "lam", "rr": None}
        self.loops.append(dom)
        v = self.rv(self.run_fn(fake, th, binds, n, caps=(vals, refs)))
        self.loops.pop()
        d = accum(v, p)
        if d is not None: return add(init, self.mksum(dom, d))
        return mk("fold", dom, init, v)

    def loop_over(self, n, a, b, lam):
        """std::for_each(a, b, lambda)"""
        node, vals, refs, th, owner = self.lams[lam[1]]
        root, path = a[1][1], a[1][2]
        fake = {"f": (owner or {}).get("f", "") + "::lambda", "n": "lambda", "params": node["params"], "c": node["c"], "file": (owner or {}).get("file", ""), "l": node["l"], "u": "lam", "rr": None}
        def body(it):
            p = node["params"][0]
            el = mk("&", root, path + (("i", it),)) if p.get("ref") else self.geti(self.load(root, path), it)
            self.run_fn(fake, th, [(p, el)], n, caps=(vals, refs))
        self.general_loop(n, a[2], b[2], body)

    def ctr(self, obj):
        l = self.lv(obj)
        return mk("&", l[0], l[1]) if l is not None else self.ev(obj)

    def count(self, m, k):
        if m[0] == "jobj" and k[0] == "str": return ONE if any(e[1] == k for e in m[1:]) else ZERO
        if m[0] in ("jnum", "jstr", "jnull", "jbool"): return ZERO
        if m[0] == "list" and len(m) > 1 and is_const(k) and all(x[0] == "pair" and is_const(x[1]) for x in m[1:]):
            return ONE if any(x[1] == k for x in m[1:]) else ZERO
        if m[0] == "list" and any(x[0] in ("jnum", "jstr", "jnull", "jobj") for x in m[1:]): return ZERO
        if m[0] == "list" and len(m) == 1: return ZERO
        if m[0] == "upd" and m[2] == k: return ONE
        if m[0] == "erased" and m[2] == k: return ZERO
        if m[0] == "ite": return gite(m[1], self.count(m[2], k), self.count(m[3], k))
        if m[0] == "erased" or m[0] == "loopv" and m[3][0] == "erased" and m[3][1] == mk("sym", "self"):
            # removing entries adds none
            b = m[1] if m[0] == "erased" else m[2]
            if self.count(b, k) == ZERO or cmp_("==", mk("count", b, k), ZERO) in self.facts: return ZERO
        return mk("count", m, k)

    def map_insert(self, fn, obj, rest, n):
        """insertions into a std::map: insert and emplace keep an existing entry, insert_or_assign replaces it"""
        l = self.lv(obj)
        if l is None: return None
        if fn in ("insert", "emplace") and len(rest) == 1:
            v = self.ev(rest[0])
            if v[0] == "list" and len(v) == 3: v = mk("pair", v[1], v[2])
            if v[0] == "itr" or v[0] == "list": return None
            k, x = self.getf(v, "first"), self.getf(v, "second")
        elif fn in ("emplace", "try_emplace", "insert_or_assign") and len(rest) == 2: k, x = self.ev(rest[0]), self.ev(rest[1])
        elif fn == "erase" and len(rest) == 1:
            k = self.ev(rest[0]); m = self.load(*l)
            if self.concrete and m[0] == "list" and k[0] == "itr" and isnum(k[2]) and 0 <= k[2][1] < len(m) - 1:
                e = list(m); del e[1 + int(k[2][1])]; self.store(l[0], l[1], mk(*e), n)
                for r, v in list(self.env.items()):      # iterators to later entries stay with their entries
                    if v[0] == "itr" and v[1] == k[1] and isnum(v[2]) and v[2][1] > k[2][1]: self.env[r] = mk("itr", v[1], num(v[2][1] - 1))
                return mk("itr", k[1], k[2])
            if k[0] == "itr": k = k[2][2] if k[2][0] == "find" else k
            self.store(l[0], l[1], mk("erased", m, k), n); return mk("none")
        elif fn == "insert" and len(rest) == 2:
            a, b = self.ev(rest[0]), self.ev(rest[1])
            if not (a[0] == b[0] == "itr" and a[1] == b[1]): return None
            def body(it):
                e = self.geti(self.contval(a), it); m = self.load(*l)
                k, x = self.getf(e, "first"), self.getf(e, "second")
                self.store(l[0], l[1], gite(self.known(cmp_("==", self.count(m, k), ZERO)), mk("upd", m, k, x), m), n)
            self.general_loop(n, a[2], b[2], body); return mk("none")
        else: return None
        m = self.load(*l); c = self.known(cmp_("==", self.count(m, k), ZERO))
        new = mk("upd", m, k, x)
        self.store(l[0], l[1], new if fn == "insert_or_assign" else gite(c, new, m), n)
        return mk("pair", mk("itr", mk("&", l[0], l[1]), mk("find", m, k)), c)

    def iter_at(self, obj, i):
        c = self.ctr(obj)
        v = self.load(c[1], c[2]) if c[0] == "&" else c
        return mk("itr", c, i if i is not None else self.size(v))

    # ------------------------------------------------------------ functions
    def run_fn(self, f, this, binds, n, caps=None):
        self.nframes += 1
        fr = self.nframes
        sv = (self.fr, self.thisv, self.brk, self.cont, self.rets)
        mark = len(self.facts)
        outer = set(self.env)
        for p, v in binds: self.env[("l", fr, p["d"])] = v
        if caps:
            for d, v in caps[0].items(): self.env[("l", fr, d)] = v
            self.capmap[fr] = dict(caps[1])
        self.fr = fr; self.thisv = this; self.brk = []; self.cont = []; self.rets = []
        self.stack.append(f)
        fell = True
        try:
            try:
                for i in f.get("inits", []) or []:
                    if "n" in i and this is not None and i.get("c"):
                        nd = i["c"][0]
                        if nd is None: continue
                        fld = None
                        if not i.get("written") and nd["k"] in ("ImplicitValueInitExpr",): continue
                        if not i.get("written") and nd["k"] == "Construct" and nd.get("ctor") == "default": continue
                        v = self.ev(nd); self.store(this[0], this[1] + (("f", i["n"]),), v, nd)
                    elif i.get("deleg") or "base" in i:
                        nd = i["c"][0] if i.get("c") else None
                        if nd is not None and nd["k"] == "Construct" and self.M.fn.get(nd.get("u")) and this is not None and nd["ctor"] not in ("copy", "move"):
                            fd = self.M.fn[nd["u"]]
                            b = self.bind(fd, kids(nd), nd); self.run_fn(fd, this, b, nd)
                        elif nd is not None and nd["k"] == "Construct" and nd["ctor"] in ("copy", "move") and kids(nd) and this is not None:
                            v = self.ev(kids(nd)[0]); self.store(this[0], this[1], v, nd)
                body = f["c"][0] if f.get("c") else None
                if body is not None: fell = self.ex(body)
            except Throw:
                fell = False
            if fell: self.rets.append((self.gate(mark), self.env, mk("none"), tuple(self.facts[mark:])))
            rets = self.rets
        finally:
            self.stack.pop()
            self.fr, self.thisv, self.brk, self.cont, self.rets = sv
        if not rets:
            del self.facts[mark:]
            raise Throw()
        if len(rets) == 1:
            keep = rets[0][3]
            del self.facts[mark:]
            # the callee's other paths end in an exception: these facts hold wherever execution goes on, they select nothing
            self.facts.surv |= set(range(len(self.facts), len(self.facts) + len(keep)))
            self.facts.extend(keep)
            self.env = rets[0][1]; val = rets[0][2]
        else:
            del self.facts[mark:]
            self.env = self.merge([(g, e) for g, e, v, _ in rets])
            val = rets[-1][2]
            for g, e, v, _ in reversed(rets[:-1]):
                if v != val:
                    if v[0] == "&": v = self.load_in(e, v)
                    if val[0] == "&": val = self.load_in(rets[-1][1], val)
                    val = self.join(g, v, val)
        # drop the callee's locals that nothing can reach any more
        for k in [k for k in self.env if k[0] == "l" and k[1] == fr and k not in outer]:
            if not any(kk == k for kk in ()): pass
        return val

    def load_in(self, env, v):
        sv = self.env; self.env = env
        try: return self.load(v[1], v[2])
        finally: self.env = sv

    # ------------------------------------------------------------ statements
    def ex(self, n):
        """executes a statement; False when control never falls through"""
        if n is None: return True
        m = getattr(self, "s_" + n["k"], None)
        try:
            if m is not None: return m(n)
            self.ev(n)
            return True
        except Throw:
            return False

    def s_CompoundStmt(self, n):
        for s in kids(n):
            if not self.ex(s): return False
        return True
    def s_NullStmt(self, n): return True

    def s_DeclStmt(self, n):
        for v in kids(n): self.declare(v)
        return True

    def declare(self, v):
        key = ("l", self.fr, v["d"])
        if v.get("static") and not v.get("const"):
            self.env[key] = mk("static", v["n"]); return
        init = v["c"][0] if v.get("c") else None
        if init is None:
            self.env[key] = mk("undef", v["n"]); return
        if v.get("ref"):
            l = self.lv(init)
            if l is not None:
                self.env[key] = mk("&", l[0], l[1]); return
        x = self.ev(init)
        if init["k"] == "Construct" and init["ctor"] == "default" and x[0] == "new" and len(x) == 2:
            z = self.zero_of(v["t"]); x = z if z is not None else x
        if v.get("bind"):
            for i, b in enumerate(v["bind"]):
                self.env[("l", self.fr, b["d"])] = self.getf(x, ("first", "second")[i]) if "pair" in v["t"] and len(v["bind"]) == 2 else self.geti(x, num(i)) if "tuple" in v["t"] else self.bindfield(x, v["t"], i)
        if x[0] == "itr" and not v.get("ref"): pass
        self.env[key] = x
        self.emit("decl", v, value=x)

    def bindfield(self, x, t, i):
        r = self.M.rec.get(t.replace("const ", "").replace("&", "").strip())
        return self.getf(x, r["fields"][i]["n"]) if r else mk("idx", x, num(i))

    def s_ReturnStmt(self, n):
        c = n["c"][0] if kids(n) else None
        f = self.stack[-1]
        v = mk("none")
        if c is not None:
            if f.get("rr"):
                l = self.lv(c)
                v = mk("&", l[0], l[1]) if l is not None else self.ev(c)
            else: v = self.ev(c)
        self.ret(v, n)
        return False

    def ret(self, v, n):
        m = self.fmark if False else None
        self.rets.append((self.gate(self.fn_mark()), dict(self.env), v, tuple(self.facts[self.fn_mark():])))

    def fn_mark(self):
        return self._marks[-1]

    def s_IfStmt(self, n):
        init, cv, cond, th, el = n["c"]
        if init: self.ex(init)
        if cv:
            self.declare(cv)
        c = self.known(bool_(self.ev(cond)))
        if c == TRUE: return self.ex(th)
        if c == FALSE: return self.ex(el) if el else True
        m = len(self.facts); e0 = dict(self.env)
        self.assume_fact(c)
        f1 = self.ex(th); e1 = self.env; del self.facts[m:]
        self.env = e0
        self.assume_fact(lnot(c))
        f2 = self.ex(el) if el else True; e2 = self.env; del self.facts[m:]
        if f1 and f2:
            self.env = self.merge([(c, e1), (TRUE, e2)]); return True
        if f1: self.env = e1; self.assume_fact(c); return True
        if f2: self.env = e2; self.assume_fact(lnot(c)); return True
        return False

    def s_BreakStmt(self, n):
        if self.brk: self.brk[-1].append((self.gate(self.brkmark[-1]), dict(self.env)))
        return False
    def s_ContinueStmt(self, n):
        if self.cont: self.cont[-1].append((self.gate(self.contmark[-1]), dict(self.env)))
        return False

    def s_SwitchStmt(self, n):
        init, cond, body = n["c"]
        if init: self.ex(init)
        subj = self.ev(cond)
        flat = []   # (labels, stmt)
        def label(s):
            labs = []
            while s is not None and s["k"] in ("CaseStmt", "DefaultStmt"):
                if s["k"] == "CaseStmt":
                    labs.append(self.ev(s["c"][0])); s = s["c"][1]
                else:
                    labs.append("default"); s = s["c"][0]
            return labs, s
        for s in (kids(body) if body["k"] == "CompoundStmt" else [body]):
            labs, st = label(s)
            flat.append((labs, st))
        entries = [i for i, (l, s) in enumerate(flat) if l]
        hasdef = any("default" in l for l, s in flat)
        alllabs = [x for l, s in flat for x in l if x != "default"]
        mark = len(self.facts); e0 = dict(self.env); alts = []
        def run_from(i, gate):
            self.env = dict(e0)
            self.brk.append([]); self.brkmark.append(mark)
            self.assume_fact(gate)
            fell = True
            for l, s in flat[i:]:
                if s is not None and not self.ex(s): fell = False; break
            if fell: alts.append((self.gate(mark), self.env))
            alts.extend(self.brk.pop()); self.brkmark.pop()
            del self.facts[mark:]
        if isnum(subj) and all(isnum(x) for x in alllabs):
            tgt = None
            for i in entries:
                if subj in flat[i][0]: tgt = i
            if tgt is None:
                for i in entries:
                    if "default" in flat[i][0]: tgt = i
            if tgt is None: return True
            run_from(tgt, TRUE)
        else:
            other = TRUE
            for i in entries:
                labs = [x for x in flat[i][0] if x != "default"]
                if "default" in flat[i][0]: continue
                g = FALSE
                for x in labs: g = lor(g, self.known(cmp_("==", subj, x)))
                if g == FALSE: continue
                run_from(i, g)
                other = land(other, lnot(g))
            other = TRUE
            for x in alllabs: other = land(other, cmp_("!=", subj, x))
            d = [i for i in entries if "default" in flat[i][0]]
            if d: run_from(d[0], other)
            else: alts.append((other, dict(e0)))
        e = self.merge(alts)
        if e is None: return False
        self.env = e
        return True

    # loops ------------------------------------------------------------------
    brkmark = None
    def s_ForStmt(self, n):
        init, cond, inc, body = n["c"]
        if init: self.ex(init)
        return self.loop(n, cond, inc, body)
    def s_WhileStmt(self, n):
        cond, body = n["c"][-2], n["c"][-1]
        return self.loop(n, cond, None, body)
    def s_DoStmt(self, n):
        body, cond = n["c"]
        # first iteration unconditionally, then a while loop
        ok, _ = self.once(body)
        if not ok: return False
        return self.loop(n, cond, None, body)

    def once(self, body):
        """runs a loop body once; returns (control may continue, breaks)"""
        m = len(self.facts)
        self.brk.append([]); self.brkmark.append(m); self.cont.append([]); self.contmark.append(m)
        fell = self.ex(body) if isinstance(body, dict) else (body() or True)
        conts = self.cont.pop(); self.contmark.pop(); brks = self.brk.pop(); self.brkmark.pop()
        alts = conts + ([(self.gate(m), self.env)] if fell else [])
        if fell: alts = alts  # last = fall through
        del self.facts[m:]
        e = self.merge(alts)
        if e is not None: self.env = e
        return e is not None, brks

    def loop(self, n, cond, inc, body):
        # 1. constant trip count
        e0 = dict(self.env); nev = len(self.events); nf_ = len(self.facts); nr = len(self.rets)
        w0 = len(self.writes) if self.writes is not None else 0
        k = 0; ok = False; left = []; M0 = len(self.facts)
        while k <= UNROLL:
            c = self.known(bool_(self.ev(cond))) if cond is not None else TRUE
            if c == FALSE: ok = True; break
            if c != TRUE: break
            g0 = self.gate(M0)
            cont, brks = self.once(body)
            if brks:
                left += [(land(g0, g), e) for g, e in brks]
                if not cont: self.env = None; ok = True; break
                if not all(g != TRUE for g, e in brks): break
                for g, e in brks: self.assume_fact(lnot(g))
            elif not cont: self.env = None; ok = True; break        # every path leaves the function here
            if inc is not None: self.ev(inc)
            k += 1
        if ok:
            if left:
                alts = left + ([(self.gate(M0), self.env)] if self.env is not None else [])
                self.env = self.merge(alts)
            del self.facts[M0:]
            if self.env is None: self.env = e0; return False
            return True
        self.env = e0; del self.events[nev:]; del self.facts[nf_:]; del self.rets[nr:]
        if self.writes is not None: del self.writes[w0:]
        # 2. counted loop over a symbolic range?
        dom = self.counted(n, cond, inc, body)
        if dom is not None:
            key, start, end, op = dom
            isitr = start[0] == "itr"
            s = start[2] if isitr else start; t = end[2] if isitr else end
            if op == "<=": t = add(t, ONE)
            def bd(it):
                self.env[key] = mk("itr", start[1], it) if isitr else it
                self.ex_body(body)
            r = self.general_loop(n, s, t, bd, skip={key})
            self.env[key] = mk("itr", start[1], t) if isitr else t
            return r
        # 3. anything else
        def bd(it):
            if cond is not None:
                c = self.known(bool_(self.ev(cond)))
                self.assume_fact(c)
            self.ex_body(body)
            if inc is not None: self.ev(inc)
        r = self.general_loop(n, mk("sym", "while"), mk("sym", "while:%s" % "end"), bd, opaque=True)
        return r

    def ex_body(self, body):
        if not self.ex(body): raise LoopEnd()

    def counted(self, n, cond, inc, body):
        """recognises  for (i = s; i < e; i++)  with i written only by inc"""
        if cond is None or inc is None or n["k"] != "ForStmt": return None
        if cond["k"] not in ("BinOp", "OpCall", "Rewritten") or cond.get("op") not in ("<", "!=", "<=", ">", ">="): return None
        a, b = cond["c"][0], cond["c"][1]
        op = cond["op"]
        if inc["k"] not in ("UnOp", "OpCall", "CompAssign") or inc.get("op") not in ("++", "+="): return None
        if inc.get("op") == "+=" and self.ev(inc["c"][1]) != ONE: return None
        v = inc["c"][0]
        if v["k"] != "Ref" or "d" not in v: return None
        if op in (">", ">="): a, b = b, a; op = {">": "<", ">=": "<="}[op]
        while a["k"] == "Cast": a = a["c"][0]
        if not (a["k"] == "Ref" and a.get("d") == v["d"]):
            if op == "!=" and b["k"] == "Ref" and b.get("d") == v["d"]: a, b = b, a
            else: return None
        key = self.key(v["d"])
        for x in walk(body):
            if x["k"] in ("UnOp", "CompAssign", "BinOp", "OpCall") and x.get("op") in ("++", "--", "+=", "-=", "=", "*=") and kids(x) and kids(x)[0] \
               and kids(x)[0]["k"] == "Ref" and kids(x)[0].get("d") == v["d"]: return None
        start = self.env.get(key)
        if start is None: return None
        end = self.ev(b)
        if (start[0] == "itr") != (end[0] == "itr"): return None
        if op == "!=" and start[0] != "itr" and not isnum(start): return None
        return key, start, end, op

    def s_CXXForRangeStmt(self, n):
        var, rng, body = n["c"]
        l = self.lv(rng)
        if l is None: l = self.temp(self.ev(rng))
        cont = self.load(*l)
        def setvar(it):
            key = ("l", self.fr, var["d"])
            if var.get("bind"):
                el = self.geti(self.load(*l), it)
                for i, b in enumerate(var["bind"]):
                    kk = ("l", self.fr, b["d"])
                    if var.get("ref"): self.env[kk] = mk("&", l[0], l[1] + (("i", it), ("f", ("first", "second")[i])))
                    else: self.env[kk] = self.getf(el, ("first", "second")[i])
            elif var.get("ref"): self.env[key] = mk("&", l[0], l[1] + (("i", it),))
            else: self.env[key] = self.geti(self.load(*l), it)
        if cont[0] == "list" and len(cont) - 1 <= UNROLL:
            e0 = dict(self.env); nev = len(self.events); nf_ = len(self.facts); nr = len(self.rets); ok = True
            w0 = len(self.writes) if self.writes is not None else 0
            left = []; M0 = len(self.facts)
            for j in range(len(cont) - 1):
                setvar(num(j)); g0 = self.gate(M0)
                c, brks = self.once(body)
                if brks:
                    left += [(land(g0, g), e) for g, e in brks]
                    if not c: self.env = None; break
                    if not all(g != TRUE for g, e in brks): ok = False; break
                    for g, e in brks: self.assume_fact(lnot(g))
                elif not c: self.env = None; break        # every path leaves the function here
            if ok:
                if left: self.env = self.merge(left + ([(self.gate(M0), self.env)] if self.env is not None else []))
                del self.facts[M0:]
                if self.env is None: self.env = e0; return False
                return True
            self.env = e0; del self.events[nev:]; del self.facts[nf_:]; del self.rets[nr:]
            if self.writes is not None: del self.writes[w0:]
        fr = self.fr
        def bd(it):
            setvar(it)
            self.ex_body(body)
        return self.general_loop(n, ZERO, self.size(cont), bd)

    def general_loop(self, n, s, t, bd, skip=(), opaque=False):
        dom = mk("dom", s, t, num(len(self.loops)))
        it = self.iterof(dom)
        e0 = dict(self.env); keys = set(e0)
        # dry run: what does the body write?
        sw, se, sr, sf = self.writes, len(self.events), len(self.rets), list(self.facts)
        self.writes = []
        self.loops.append(dom)
        self.run_body(bd, it)
        ws = self.writes; self.writes = sw
        del self.events[se:]; del self.rets[sr:]; self.facts[:] = sf
        self.env = dict(e0)
        targets = {}
        for root, path in ws:
            if root not in keys or root in skip: continue
            p = []
            for kind, x in path:
                if kind == "i" and not isnum(x): break
                p.append((kind, x))
            targets.setdefault(root, set()).add(tuple(p))
        tl = []
        for root, ps in targets.items():
            ps = sorted(ps, key=len)
            keep = []
            for p in ps:
                if not any(p[:len(q)] == q for q in keep): keep.append(p)
            for p in keep: tl.append((root, p))
        phis = {}
        # names of the loop-carried symbols depend on what they stand for only
        for root, p in tl:
            init = self.load(root, p)
            if init[0] in ("&",): continue
            phis[(root, p)] = (mk("phi", init, num(len(self.loops)), mk("sym", str(len(phis)))), init)
        for (root, p), (ph, init) in phis.items(): self.store(root, p, ph)
        brks, fell = self.run_body(bd, it)
        self.loops.pop()
        after = self.env
        self.env = dict(after)
        # keep only what is alive after the loop
        phset = {ph for ph, i in phis.values()}
        new = {rp: (self.load_in(after, ("&",) + rp) if fell else init) for rp, (ph, init) in phis.items()}
        # values with which a break leaves the loop, where they differ from those at the end of a pass
        for rp, (ph, init) in phis.items():
            bv = [(g, self.load_in(e, ("&",) + rp)) for g, e in brks]
            if all(v == new[rp] for g, v in bv): continue
            for g, v in reversed(bv): new[rp] = mk("ite", g, mk("brk", v), new[rp])
        final = {}; late = []
        for (root, p), (ph, init) in phis.items():
            nv = new[(root, p)]
            if nv == ph: r = init
            else:
                d = accum(nv, ph) if not brks and not opaque else None
                if d is not None and not any(x in phset for x in subterms(d)):
                    r = add(init, self.mksum(dom, d))
                else:
                    r = None
                    if not brks and not opaque:
                        r = fold_container(nv, ph, init, dom, it, phset)
                    if r is None: late.append((root, p)); continue
            final[(root, p)] = r
        # a value recomputed in every pass from the running sums
        for rp in late:
            ph, init = phis[rp]; nv = new[rp]; r = None
            if not brks and not opaque:
                tab = {new[o]: mk("fin", num(i)) for i, o in enumerate(final) if new[o] != phis[o][0]}
                back = {mk("fin", num(i)): final[o] for i, o in enumerate(final)}
                g = rewrite_top(nv, tab)
                if not any(x in phset or x == it for x in subterms(g)):
                    r = gite(cmp_("<", dom[1], dom[2]), rewrite(g, lambda x: back.get(x)), init)
            final[rp] = r if r is not None else mk("loopv", dom, init, self.subst(nv, ph, mk("sym", "self")))
        for (root, p), r in final.items(): self.writes_store(root, p, r)
        for k in list(self.env):
            if k not in keys and k[0] in ("l",) and k not in e0: del self.env[k]
        for k, v in e0.items():
            if k not in self.env: self.env[k] = v
        # values of non-written keys must be those before the loop
        wr = {r for r, p in phis}
        for k in e0:
            if k not in wr and k not in skip: self.env[k] = e0[k]
        return True

    def writes_store(self, root, p, v):
        self.store(root, p, v)

    def run_body(self, bd, it):
        m = len(self.facts)
        self.brk.append([]); self.brkmark.append(m); self.cont.append([]); self.contmark.append(m)
        fell = True
        try: bd(it)
        except (LoopEnd, Throw): fell = False
        conts = self.cont.pop(); self.contmark.pop(); brks = self.brk.pop(); self.brkmark.pop()
        alts = conts + ([(self.gate(m), self.env)] if fell else [])
        del self.facts[m:]
        e = self.merge(alts)
        if e is not None: self.env = e
        return brks, e is not None

    def mksum(self, dom, d):
        if d == ZERO: return ZERO
        return mk("sumd", dom, d)

    def s_CXXTryStmt(self, n):
        c = kids(n)
        e0 = dict(self.env); m = len(self.facts)
        ev0 = len(self.events)
        sw = self.writes; self.writes = []
        f1 = self.ex(c[0]); e1 = self.env
        ws = self.writes; self.writes = sw
        if sw is not None: sw.extend(ws)
        del self.facts[m:]
        alts = []
        exc = mk("cmp", "!=", mk("sym", "exc@%d" % len(self.stack)), ZERO)
        for h in c[1:]:
            self.env = dict(e0)
            for root, path in ws:
                if root in self.env:
                    self.store(root, path, mk("partial", self.load_in(e1, ("&", root, path)) if f1 else mk("sym", "?")))
            hv = h["c"][0]
            if hv: self.env[("l", self.fr, hv["d"])] = mk("sym", "exception")
            self.assume_fact(exc)
            f2 = self.ex(h["c"][1])
            if f2: alts.append((exc, self.env))
            del self.facts[m:]
        if f1: alts.append((TRUE, e1))
        e = self.merge(alts)
        if e is None: return False
        self.env = e
        return True

    def s_GotoStmt(self, n): raise Unsupported("goto")
    def s_LabelStmt(self, n): raise Unsupported("label")

    # --------------------------------------------------------------- top level
    def run(self, f, this=None, args=None, facts=()):
        """analyses one function; args: list of values (refs become roots); facts: conditions taken to hold"""
        self.events = []; self.facts = Facts(facts); self.loops = []; self.stack = []
        self.env = {}; self.brk = []; self.cont = []; self.rets = []; self.brkmark = []; self.contmark = []
        binds = []; roots = {}
        for i, p in enumerate(f.get("params", [])):
            v = args[i] if args is not None and i < len(args) and args[i] is not None else mk("sym", p["n"])
            if p.get("ref"):
                r = ("p", p["n"]); self.env[r] = v; binds.append((p, mk("&", r, ()))); roots[p["n"]] = r
            elif p["t"].endswith("*"):
                r = ("p", p["n"]); self.env[r] = v; binds.append((p, mk("ptr", r, ()))); roots[p["n"]] = r
            else: binds.append((p, v))
        if f.get("cls") and not f.get("static"):
            self.env[("this",)] = this if this is not None else mk("sym", "this")
            th = (("this",), ())
        else: th = None
        try:
            v = self.rv(self.run_fn(f, th, binds, None))
        except Throw:
            v = mk("noreturn")
        return v

    def out(self, name):
        return self.load(("p", name), ())
    def this(self):
        return self.load(("this",), ())

def second_arg(t):
    """the second template argument of a type"""
    d = 0; cur = ""; out = []
    for ch in t[t.find("<") + 1:]:
        if ch in "<(": d += 1
        if ch in ">)": d -= 1
        if d < 0: break
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    out.append(cur.strip())
    return out[1] if len(out) > 1 else ""
def is_const(t): return isnum(t) or t[0] == "str"
def whole(t):
    """a value known in full"""
    return is_const(t) or t[0] in ("list", "pair") and all(whole(x) for x in t[1:])

def ites(t):
    """the alternatives of a gated term"""
    if t[0] == "ite": return ites(t[2]) + ites(t[3])
    return [t]

class Throw(Exception): pass
class LoopEnd(Exception): pass

# marks of the current function's facts: maintained around run_fn
_orig = Interp.run_fn
def _run_fn(self, f, this, binds, n, caps=None):
    if not hasattr(self, "_marks"): self._marks = []
    if not isinstance(self.brkmark, list): self.brkmark = []; self.contmark = []
    self._marks.append(len(self.facts))
    sb, sc = self.brkmark, self.contmark
    self.brkmark, self.contmark = [], []
    try: return _orig(self, f, this, binds, n, caps)
    finally:
        self._marks.pop(); self.brkmark, self.contmark = sb, sc
Interp.run_fn = _run_fn

def accum(nv, p):
    """nv = p + d  ->  d"""
    if nv == p: return ZERO
    if nv[0] == "+":
        a = accum(nv[1], p)
        if a is not None and not has(nv[2], p): return add(a, nv[2])
        b = accum(nv[2], p)
        if b is not None and not has(nv[1], p): return add(b, nv[1])
        return None
    if nv[0] == "-":
        a = accum(nv[1], p)
        if a is not None and not has(nv[2], p): return sub(a, nv[2])
        return None
    if nv[0] == "ite":
        a = accum(nv[2], p); b = accum(nv[3], p)
        if a is not None and b is not None and not has(nv[1], p): return gite(nv[1], a, b)
    return None

def rewrite_top(t, tab, memo=None):
    """replaces maximal occurrences of the keys of tab"""
    memo = {} if memo is None else memo
    if t in tab: return tab[t]
    if not isinstance(t, tuple) or not t or t[0] in ("num", "sym", "str", "bool", "iter"): return t
    if id(t) in memo: return memo[id(t)]
    a = [rewrite_top(x, tab, memo) if isinstance(x, tuple) else x for x in t[1:]]
    r = t if all(x is y for x, y in zip(a, t[1:])) else rebuild(t, a)
    memo[id(t)] = r
    return r

def has(t, p):
    return any(x == p for x in subterms(t))

def fold_container(nv, ph, init, dom, it, phset):
    if nv[0] == "upd" and nv[1] == ph and not any(x in phset for x in subterms(nv[2])) and not any(x in phset for x in subterms(nv[3])):
        return mk("updall", init, dom, nv[2], nv[3])
    if nv[0] == "push" and nv[1] == ph and not any(x in phset for x in subterms(nv[2])):
        return mk("pushall", init, dom, nv[2])
    if nv[0] == "rec" and nv[1] == ph: return None
    if not any(x in phset for x in subterms(nv)) and not any(x == it for x in subterms(nv)):
        return mk("ite", mk("cmp", "<", dom[1], dom[2]), nv, init)
    return None
