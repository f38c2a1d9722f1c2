"""Rules on effects: what queries may change."""
from registry import rule
from model import *
from gsa import *
from fractions import Fraction as F
import rules.own as own
from rules.own import clean
from rules.cache import Engine, ENGC

READERS = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "find", "at", "front", "back", "data", "get", "lower_bound", "upper_bound", "equal_range", "c_str", "operator->", "operator*", "operator bool",
           "elements", "str", "size", "empty", "count", "contains", "use_count", "capacity", "base", "first", "second", "has_value", "value", "load", "key"}
MUTALG = {"sort", "stable_sort", "reverse", "fill", "fill_n", "iota", "replace", "replace_if", "remove", "remove_if", "unique", "rotate", "shuffle", "swap", "swap_ranges", "iter_swap", "exchange", "generate",
          "partition", "nth_element", "partial_sort", "erase", "erase_if"}

def leads(t):
    """a value of this type can be used to change an object it does not contain"""
    w = own.pointerish(t)
    if w: return w
    u = clean(t)
    if "const_iterator" in u: return None
    if "_iterator" in u or "iterator<" in u: return None if "__normal_iterator<const " in u else "an iterator"
    return None

class Eff(own.Own):
    """functions reachable with (parameters that lead into, this being) the protected objects, and the writes to them"""
    def __init__(self, M, spare):
        super().__init__(M); self.spare = spare; self.writes = []; self.gsa = {}
    def class_ok(self, cls, op): pass
    def type_ok(self, *a): pass
    def function(self, f, params, this):
        k = (f["u"], params, this)
        if k in self.seen: return self.seen[k]
        self.seen[k] = False
        self.functions.add(f["f"])
        a = EFlow(self, f, set(params), this)
        for _ in range(4):
            n = len(a.taint); self.writes_now = []; a.w = []; a.run()
            if len(a.taint) == n: break
        for x in a.w:
            if x not in self.writes: self.writes.append(x)
        self.seen[k] = a.ret
        return a.ret

class EFlow(own.Flow):
    def __init__(self, *a):
        super().__init__(*a); self.w = []; self.refs = set()
        for b in (self.f.get("c") or []):
            if b is None: continue
            for n in walk(b):
                if n["k"] == "Var" and n.get("t", "").strip().endswith("&"): self.refs.add(n["d"])
        for p in self.f.get("params", []):
            if p.get("ref"): self.refs.add(p["d"])
    def store(self, v, name, n): pass
    def copies(self, v, n, op): pass
    def spared(self, n):
        """the expression names a cache, which is not observable"""
        while n is not None:
            if n["k"] == "Member" and (n.get("fc"), n["n"]) in self.O.spare: return True
            c = kids(n); n = c[0] if c else None
        return False
    def write(self, target, n, how):
        if self.spared(target): return
        x = (self.f["f"], loc(self.f, n), show(target)[:80], how)
        if x not in self.w: self.w.append(x)
    def target(self, l):
        """is assigning to l a write to a protected object"""
        while l["k"] in ("Cast", "ParenExpr") and kids(l): l = kids(l)[0]
        if l["k"] == "Ref": return l.get("d") in self.taint and l.get("d") in self.refs
        if l["k"] == "ConditionalOperator": return any(self.target(x) for x in kids(l)[1:])
        if l["k"] == "Member" and kids(l) and self.byvalue(kids(l)[0]): return False
        return self.rooted(l)
    def byvalue(self, n):
        """a local object itself, not something it leads to"""
        while n["k"] in ("Member", "ParenExpr", "Cast") and kids(n):
            if n["k"] == "Member" and n.get("arrow"): return False
            if leads(n.get("t", "")): return False
            n = kids(n)[0]
        return n["k"] == "Ref" and n.get("d") in self.locals and n.get("d") not in self.refs and not leads(n.get("t", ""))
    def rooted(self, n):
        if n is not None and n["k"] in ("Construct", "InitListExpr", "MCall", "OpCall", "Call") :
            if n["k"] == "OpCall" and n["op"] in ("++", "--", "+", "-") and kids(n): return bool(leads(n.get("t", ""))) and self.rooted(kids(n)[0])
            if n["k"] == "Construct" and leads(n.get("t", "")): return any(a is not None and self.rooted(a) for a in kids(n))
            if n["k"] == "MCall" and self.M.fn.get(n.get("u")) is None and kids(n) and self.rooted(kids(n)[0]):
                return not own.PLAIN.match(clean(n.get("t", "")))
        return super().rooted(n)
    def present(self, n):
        """operator[] on a map whose key is known to be there inserts nothing"""
        f = self.f
        if f["u"] not in self.O.gsa:
            ev = []
            try:
                I = Interp(self.M, opaque=lambda g: g.get("cls") != f.get("cls"))
                I.run(f, this=sym("this"), args=[sym("a%d" % i) for i, _ in enumerate(f["params"])]); ev = I.events
            except Exception: ev = []
            self.O.gsa[f["u"]] = ev
        ev = [e for e in self.O.gsa[f["u"]] if e["kind"] == "index" and e["node"] is n]
        def ok(e):
            J = Interp(self.M); cnt = J.count(e["base"], e["idx"])
            return any(x == cmp_("!=", cnt, ZERO) for c in e["pc"] for x in ([c] + list(c[1:] if c[0] == "and" else []))) or e["base"][0] == "upd" and e["base"][2] == e["idx"]
        return bool(ev) and all(ok(e) for e in ev)
    def visit(self, n):
        super().visit(n)
        for x in walk(n):
            k = x["k"]; c = kids(x)
            if k == "Var" and c and c[0] is not None and self.rooted(c[0]) and leads(x.get("t", "")): self.taint.add(x["d"])
            if k in ("BinOp", "CompoundAssignOperator") and (x["op"] == "=" or x["op"] in ("+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>=")):
                if self.target(c[0]): self.write(c[0], x, "assigned")
                elif c[0]["k"] == "Ref" and self.rooted(c[1]) and leads(c[0].get("t", "")): self.taint.add(c[0].get("d"))
            elif k == "UnOp" and x.get("op") in ("++", "--"):
                if self.target(c[0]): self.write(c[0], x, "changed")
            elif k == "OpCall" and (x["op"] in ("=", "+=", "-=", "*=", "/=", "++", "--", ">>") or x["op"] == "<<" and False):
                t = c[-1] if x["op"] == ">>" else c[0]
                if self.byvalue(t): continue
                fd = self.M.fn.get(x.get("u"))
                if self.target(t) and not (leads(t.get("t", "")) and t["k"] == "Ref" and t.get("d") not in self.refs): self.write(t, x, "assigned")
            elif k == "OpCall" and x["op"] == "[]" and c:
                t = clean(c[0].get("t", ""))
                if ("std::map<" in t or "unordered_map<" in t) and self.rooted(c[0]) and not self.byvalue(c[0]):
                    if not self.present(x): self.write(c[0], x, "inserted into when the key is missing")
            elif k == "CXXDeleteExpr":
                if self.rooted(c[0]): self.write(c[0], x, "deleted")
            elif k == "MCall" and c:
                fd = self.M.fn.get(x.get("u"))
                if (fd is None or fd.get("c") is None) and not x.get("mconst") and self.rooted(c[0]) and not self.byvalue(c[0]):
                    if x.get("fn") not in READERS and x.get("n") not in READERS and not (clean(c[0].get("t", "")).startswith("std::function")):
                        self.write(c[0], x, "changed by %s()" % (x.get("fn") or x.get("f")))
            elif k == "Construct" and x.get("ctor") == "move" and c and c[0] is not None:
                y = c[0]
                if any(z["k"] == "Call" and z.get("f") in ("std::move",) for z in walk(y)) and self.rooted(y) and not self.byvalue(strip_move(y)): self.write(y, x, "moved from")
            elif k == "Call":
                fd = self.M.fn.get(x.get("u"))
                if fd is None and (x.get("fn") in MUTALG or str(x.get("f", "")).split("::")[-1] in MUTALG):
                    for a in c:
                        if a is not None and self.rooted(a) and not self.byvalue(a): self.write(a, x, "changed by %s" % x.get("f"))
                    

def strip_move(y):
    while y["k"] != "Ref" and kids(y):
        if y["k"] == "Member": return y
        y = kids(y)[-1]
    return y

@rule("E04")
def E04(M, c):
    """Interprocedural effect analysis: from every public const operation, everything that leads into the object (through its pointers, references and iterators) is followed
    through the call graph, and no reachable statement may write to it."""
    E = Engine(M)
    icls = E.typeat(E.db[:-1])
    keep = {p[len(E.db) - 1] for p in [E.db] + E.settings}
    spare = {(icls, f[2]) for f in E.fields(E.db[:-1]) if f[2] not in keep}
    n = 0
    for cls in (ENGC, "ThermoFun::Database", "ThermoFun::Substance", "ThermoFun::Reaction", "ThermoFun::Element"):
        fs = [f for f in M.fn.values() if f.get("cls") == cls and not f.get("dep") and f.get("c") is not None and f.get("const") and f.get("access") == "public" and not f.get("implicit")]
        for f in fs:
            O = Eff(M, spare); n += 1
            ps = frozenset(p["d"] for p in f["params"] if p.get("ref") == "c" and clean(p["t"]) in M.rec)
            O.function(f, ps, True)
            c.analysed.update(O.functions)
            sig = "%s(%s)" % (f["n"], ",".join(clean(p["t"]).split("::")[-1].split("<")[0] for p in f["params"]))
            c.ob(not O.writes, "%s::%s" % (cls.split("::")[-1], sig), loc(f), "%s::%s changes neither the object nor the records it reads" % (cls.split("::")[-1], f["n"]),
                 "; ".join("%s at %s in %s is %s" % (t, w, g.replace("ThermoFun::", ""), h) for g, w, t, h in O.writes[:4]))
    c.need(n, "public const operations", 60)

# ------------------------------------------------------------------ the caller's pressure
BAR = 100000
def dref(p): return p.get("ref") == "r" and clean(p["t"]).rstrip("& ") == "double"
def bare(n):
    while n is not None and n["k"] in ("Cast", "ParenExpr") and kids(n): n = kids(n)[0]
    return n

class Pressure:
    """where the caller's pressure variable goes and who writes to it"""
    def __init__(self, M):
        self.M = M; self.seen = {}; self.writes = []; self.bad = []
    def callee(self, n):
        return self.M.fn.get(n.get("u")) if n["k"] in ("MCall", "Call", "Construct") else None
    def function(self, f, ds):
        k = (f["u"], frozenset(ds))
        if k in self.seen: return
        self.seen[k] = f
        al = set(ds); copy = {}; body = [b for b in f.get("c") or [] if b is not None]
        for b in body:
            for x in walk(b):
                if x["k"] == "LambdaExpr":
                    for p in x.get("params") or []:
                        if dref(p): al.add(p["d"])
        for b in body:
            for x in walk(b):
                if x["k"] == "Var" and kids(x) and kids(x)[0] is not None:
                    v = bare(kids(x)[0])
                    if v["k"] == "Ref" and v.get("d") in al:
                        if x.get("t", "").strip().endswith("&"): al.add(x["d"])
                        else: copy[x["d"]] = x
        lent, back = {}, set()
        for b in body:
            for x in walk(b):
                k, c = x["k"], kids(x)
                if k in ("BinOp", "CompAssign", "CompoundAssignOperator") and x.get("op", "").endswith("=") and x["op"] not in ("==", "!=", "<=", ">=") or k == "UnOp" and x.get("op") in ("++", "--"):
                    t = bare(c[0])
                    if t is not None and t["k"] == "Ref" and t.get("d") in al:
                        v = bare(c[1]) if len(c) > 1 else None
                        if x.get("op") == "=" and v["k"] == "Ref" and v.get("d") in copy: back.add(v["d"]); self.writes.append((f, x, "copy"))
                        else: self.writes.append((f, x, "own"))
                elif k == "UnOp" and x.get("op") == "&" and bare(c[0])["k"] == "Ref" and bare(c[0]).get("d") in al: self.writes.append((f, x, "address"))
                elif k in ("MCall", "Call", "Construct", "OpCall"):
                    fd = self.callee(x)
                    args = c[1:] if k in ("MCall", "OpCall") else c
                    for i, a in enumerate(args):
                        a = bare(a)
                        if a is None or a["k"] != "Ref": continue
                        if fd is not None and i < len(fd["params"]):
                            if not dref(fd["params"][i]): continue
                            if a.get("d") in al: self.function(fd, {fd["params"][i]["d"]})
                            elif a.get("d") in copy: lent[a["d"]] = (x, a, fd)
                        elif fd is None and a.get("d") in al and str(x.get("f", x.get("fn"))).split("::")[-1] in ("swap", "exchange", "tie", "modf", "frexp"): self.writes.append((f, x, "address"))
        for d, (x, a, fd) in lent.items():
            if d not in back: self.bad.append((f, x, a, fd))

def pa_terms(M):
    """tests whether a term is, in Pa, the pressure given or the saturation pressure"""
    P, T = sym("P"), sym("T")
    sat = mk("call", "ThermoFun::waterSaturatedPressureWagnerPruss", T)
    def bar(t):
        """the pressure the HGK code leaves when given P in bar"""
        return t[0] == "out" and str(t[1]).endswith("WaterHGKgems::calculateWaterHGKgems") and len(t) > 5 and \
            equal(t[4], ("-", T, num(F(27315, 100)))) is True and equal(t[5], ("/", P, num(BAR))) is True and t[2] == num(1)
    def ok(t, zero=None):
        if t == P: return zero is not True
        if t == sat: return zero is not False
        if t[0] == "ite" and t[1] == cmp_("==", P, ZERO): return ok(t[2], True) and ok(t[3], False)
        if t[0] == "ite" and t[1] == cmp_("!=", P, ZERO): return ok(t[2], False) and ok(t[3], True)
        for x in subterms(t):
            if bar(x): return equal(t, ("*", x, num(BAR))) is True
        return equal(t, P) is True and zero is not True
    return ok

@rule("E09")
def E09(M, c):
    """Flow analysis of the caller's pressure variable through every query to the functions that write to it; value-graph terms of each value written: the given
    pressure, or in Pa the saturation pressure of water where the pressure given was zero."""
    A = Pressure(M); icls = "ThermoFun::ThermoEngine"
    inside = lambda f: (f.get("cls") or "").startswith((icls, "ThermoFun::ThermoBatch"))
    n = 0
    for f in M.fn.values():
        if f.get("dep") or not f.get("c") or not inside(f): continue
        ds = {p["d"] for p in f["params"] if dref(p)}
        lam = any(x["k"] == "LambdaExpr" and any(dref(p) for p in x.get("params") or []) for b in kids(f) if b is not None for x in walk(b))
        if ds or lam: n += 1; A.function(f, ds)
    c.need(n, "functions handing on the caller's pressure", 20)
    c.analysed.update(f["f"] for f in A.seen.values())
    for f in {f["u"]: f for f in A.seen.values()}.values():
        if not inside(f): continue
        w = [x for g, x, how in A.writes if g is f and how != "copy"]
        c.ob(not w, "write:%s" % f["f"], loc(f, w[0]) if w else loc(f), "%s leaves the pressure to the solvent models" % f["f"].replace("ThermoFun::", ""), show(w[0])[:200] if w else "")
    for f, x, a, fd in A.bad: c.fail("lost:%s:%s" % (f["f"], a["n"]), loc(f, x), "the pressure %s sets reaches only a copy of the caller's variable" % fd["f"].replace("ThermoFun::", ""), show(x)[:200])
    ok = pa_terms(M); k = 0
    core = lambda g: (g.get("cls") or "").endswith("WaterHGKgems") or g["n"].startswith(("waterThermoState", "waterSaturatedPressure", "waterDensity")) or \
        not any(dref(p) for p in g["params"]) and g.get("rt", "").replace("ThermoFun::", "") in ("PropertiesSolvent", "ThermoPropertiesSubstance", "ElectroPropertiesSolvent", "WaterThermoState")
    for f in {f["u"]: f for f in A.seen.values()}.values():
        if inside(f) or (f.get("cls") or "").endswith("WaterHGKgems") or f["u"] not in {x["u"] for x in engine_callees(M, inside)}: continue
        p = next(p for p in f["params"] if dref(p)); k += 1
        args = [sym("T") if clean(q["t"]) == "double" and q is not p and i == 0 else sym("P") if q is p else None for i, q in enumerate(f["params"])]
        I = Interp(M, opaque=core); I.run(f, args=args)
        ev = I.events
        for i, e in enumerate(ev):
            if e["kind"] != "write" or e["root"] != ("p", p["n"]) or e["path"]: continue
            if ok(e["value"]): c.ob(True, "", loc(f, e["node"]), "the pressure stays in Pa"); continue
            later = [x["kind"] for x in ev[i + 1:] if x["kind"] in ("call", "throw") or x["kind"] == "write" and x["root"] == e["root"]]
            if later and later[0] == "write": continue
            c.fail("value:%s" % f["f"], loc(e["fn"], e["node"]), "%s stores in the caller's pressure a value that is neither it nor the saturation pressure in Pa" % f["f"].replace("ThermoFun::", ""), tshow(e["value"])[:300])
        out = I.out(p["n"])
        c.ob(out != sym("P") and ok(out), "value:%s" % f["f"], loc(f), "%s leaves the pressure given or, for none, the saturation pressure in Pa" % f["f"].replace("ThermoFun::", ""), tshow(out)[:300])
    c.need(k, "solvent models setting the pressure", 4)
    hgk(M, c)

def engine_callees(M, inside):
    out = {}
    for f in M.fn.values():
        if f.get("dep") or not inside(f): continue
        for b in kids(f):
            if b is None: continue
            for x in walk(b):
                g = M.fn.get(x.get("u"))
                if g is not None: out[g["u"]] = g
    return list(out.values())

def hgk(M, c):
    """the HGK code, in bar: the saturation pressure below the triple point, else the pressure given"""
    f = M.one("ThermoFun::WaterHGKgems::calculateWaterHGKgems")
    p = next(p for p in f["params"] if dref(p))
    # the statements after the last one that mentions the pressure cannot change it
    body = kids(f)[0]; st = kids(body); al = {p["d"]}
    for x in walk(body):
        if x["k"] == "Var" and kids(x) and x.get("t", "").strip().endswith("&") and (bare(kids(x)[0]) or {}).get("d") in al: al.add(x["d"])
    last = max([i for i, s in enumerate(st) if s is not None and any(x["k"] == "Ref" and x.get("d") in al for x in walk(s))], default=-1)
    g = dict(f, c=[dict(body, c=st[:last + 1])] + kids(f)[1:])
    I = Interp(M, opaque=lambda h: h["u"] != f["u"])
    I.run(g, args=[sym("T"), sym("P")] + [None] * (len(f["params"]) - 2))
    def low(a):
        """no pressure, one below the triple point, or (nearly) the saturation pressure itself"""
        if a[0] != "cmp" or not isnum(a[3]): return False
        if a[1] in ("<", "<=") and a[2] == sym("P"): return a[3][1] <= F(62, 10000)
        if a[1] == "==": return a[3] == ZERO and not any(x[0] not in ("sym", "fn") for x in subterms(a[2])) and sym("P") in subterms(a[2])
        return a[1] in ("<", "<=") and a[2][0] == "fn" and a[3][1] <= F(1, 10**9)
    out = I.out(p["n"]); good = True; why = ""
    sat = [t for t in subterms(out) if t[0] == "call" and str(t[1]).endswith("PsHGK")]
    for pc, leaf in all_leaves(out):
        if leaf == sym("P"): continue
        if any(equal(leaf, ("*", s, num(10))) is True and equal(s[-1], ("+", sym("T"), num(F(27315, 100)))) is True for s in subterms(leaf) if s[0] == "call" and str(s[1]).endswith("PsHGK")) and any(v and low(a) for a, v in pc): continue
        good = False; why = "%s when %s" % (tshow(leaf)[:120], ", ".join(("" if v else "not ") + tshow(a)[:80] for a, v in pc))
    c.ob(good and bool(sat), "value:%s" % f["f"], loc(f), "the HGK code leaves the pressure given or the saturation pressure, in bar", why)

def atoms_of(c):
    if c[0] in ("and", "or", "not"):
        for x in c[1:]: yield from atoms_of(x)
    elif c[0] != "bool": yield c

def all_leaves(t, pc=()):
    """(facts, leaf) of a gated term, by cases on the atomic conditions, innermost first"""
    if t[0] != "ite": yield pc, t; return
    c = t[1]
    while True:
        a = next(atoms_of(c)); inner = conds_in(a)
        if not inner: break
        c = inner[0]
    for v in (True, False): yield from all_leaves(assume(t, a, v), pc + ((a, v),))
