"""Rules on the database and its records."""
from registry import rule
from model import *
from gsa import *
import itertools
from fractions import Fraction

DB = "ThermoFun::Database::"
KINDS = [("Element", "Elements"), ("Substance", "Substances"), ("Reaction", "Reactions")]

def methods(M, q, pred=lambda f: True):
    return [f for f in M.named(q) if not f.get("dep") and pred(f)]

def the(M, q, pred=lambda f: True):
    r = methods(M, q, pred)
    if len(r) != 1: raise AnalysisError("anchor vanished: %d definitions of %s" % (len(r), q))
    return r[0]

def takes(cls): return lambda f: len(f["params"]) == 1 and clean(f["params"][0]["t"]) == cls
def const(f): return bool(f.get("const"))

from rules.own import clean

def no_parse(f): return f["n"].startswith("parse") or f["n"] == "readConventions"

def fields_path(t):
    p = []
    while t[0] == "fld": p.append(t[2]); t = t[1]
    return tuple(reversed(p)), t

def map_path(M, pl):
    """field path of the record map that the accessor map<Plural>() shows"""
    p, r = fields_path(Interp(M).run(the(M, DB + "map" + pl, const), this=sym("db")))
    if r != sym("db") or not p: raise AnalysisError("Database::map%s() is not a plain accessor" % pl)
    return p

def at_path(I, v, path):
    for x in path: v = I.getf(v, x)
    return v

def whole(t):
    """a record all of whose members come from one other record is that record"""
    def f(x):
        if x[0] == "rec" and len(x[2]) == 1 and x[2][0][0] == "pimpl" and x[2][0][1][0] == "fld" and x[2][0][1][2] == "pimpl": return x[2][0][1][1]
        return None
    for _ in range(4):
        u = rewrite(t, f)
        if u == t: return t
        t = u
    return t

@rule("E08")
def E08(M, c):
    """Value-graph analysis of the lookups with the symbol assumed absent (control never returns, nothing is inserted) and assumed present (the stored record is returned)."""
    for sg, pl in KINDS:
        path = map_path(M, pl); I0 = Interp(M)
        m = at_path(I0, sym("db"), path); cnt = I0.count(m, sym("s"))
        absent, present = cmp_("==", cnt, ZERO), cmp_("!=", cnt, ZERO)
        f = the(M, DB + "contains" + sg); v = Interp(M).run(f, this=sym("db"), args=[sym("s")])
        c.analysed.add(f["f"])
        c.ob(bool_(v) == present, "contains:" + sg, loc(f), "contains%s is true exactly for the symbols stored" % sg, tshow(v)[:300])
        g = the(M, DB + "get" + sg, lambda f: const(f) and len(f["params"]) == 1)
        J = Interp(M); v = J.run(g, this=sym("db"), args=[sym("s")], facts=[absent])
        c.analysed.update({e["fn"]["f"] for e in J.events if e["fn"]})
        at = [e for e in J.events if e["kind"] == "index" and e["via"] == "at" and e["base"] == m and e["idx"] == sym("s")]
        c.ob(v == mk("noreturn") or bool(at), "absent:" + sg, loc(g), "get%s of a symbol that is not stored throws" % sg, "returns " + tshow(v)[:300])
        ins = [e for e in J.events if e["kind"] == "index" and e["via"] == "[]" and e["base"] == m]
        c.ob(J.this() == sym("db") and not ins, "insert:" + sg, loc(g, ins[0]["node"]) if ins else loc(g), "get%s of a symbol that is not stored adds nothing to the database" % sg, tshow(J.this())[:300])
        K = Interp(M); v = K.run(g, this=sym("db"), args=[sym("s")], facts=[present])
        c.ob(whole(K.rv(v)) == mk("idx", m, sym("s")) and K.this() == sym("db"), "present:" + sg, loc(g), "get%s of a stored symbol returns the record stored under it" % sg, tshow(v)[:300])

@rule("D08")
def D08(M, c):
    """Value-graph terms of the record maps after every operation that stores records, against 'kept when present' (add) and 'replaced' (set); and of the lists, counts and copies of records."""
    for sg, pl in KINDS:
        path = map_path(M, pl); I0 = Interp(M); m = at_path(I0, sym("db"), path); cls = "ThermoFun::" + sg
        key = getter_of(M, cls + "::symbol", sym("r"))
        def after(f, arg):
            I = Interp(M, opaque=no_parse); I.run(f, this=sym("db"), args=[arg])
            c.analysed.update({e["fn"]["f"] for e in I.events if e["fn"]})
            return I, whole(at_path(I, I.this(), path))
        def others(I, name, f):
            """nothing but this kind's map (and what follows from it) changes"""
            for s2, p2 in KINDS:
                if p2 != pl:
                    c.ob(at_path(I, I.this(), map_path(M, p2)) == at_path(I0, sym("db"), map_path(M, p2)), "%s:%s" % (name, p2), loc(f), "%s leaves the %s alone" % (name, p2.lower()))
        new = mk("upd", m, key, sym("r"))
        for op, exp in (("add", mk("ite", cmp_("==", I0.count(m, key), ZERO), new, m)), ("set", new)):
            f = the(M, DB + op + sg, takes(cls)); I, got = after(f, sym("r"))
            got = plain_valence(got)
            c.ob(got == exp or gite(*exp[1:]) == got if exp[0] == "ite" else got == exp, op + sg, loc(f), "%s%s %s" % (op, sg, "keeps a stored record with that symbol and stores a new one otherwise" if op == "add" else "stores the record in place of one with that symbol"), tshow(got)[:600])
            others(I, op + sg, f)
            # the overload that takes JSON stores what the parsed record would
            g = methods(M, DB + op + sg, lambda f: len(f["params"]) == 1 and "basic_string" in f["params"][0]["t"])
            for h in g:
                I, got2 = after(h, sym("json")); got2 = plain_valence(got2)
                ps = {x for x in subterms(got2) if x[0] == "call" and "parse" + sg in str(x[1])}
                c.ob(bool(ps) and all(sym("json") in x for x in ps) and got2[0] == exp[0], op + sg + ":json", loc(h), "%s%s of a JSON record stores the record parsed from it in the same way" % (op, sg), tshow(got2)[:400])
        for op in ("add", "set"):
            f = methods(M, DB + op + "Map" + pl)
            if not f: c.fail(op + "Map" + pl, "ThermoFun/Database.h", "%sMap%s is declared but not defined" % (op, pl)); continue
            I, got = after(f[0], sym("r"))
            dom = mk("dom", ZERO, I0.size(sym("r")), ZERO); it = mk("idx", sym("r"), I0.iterof(dom)); self = sym("self")
            k, x = mk("fld", it, "first"), mk("fld", it, "second")
            ks = getter_of(M, cls + "::symbol", x)
            ok = False
            for kk in (k, ks):
                b = mk("upd", self, kk, x)
                if op == "add": b = mk("ite", cmp_("==", mk("count", self, kk), ZERO), b, self)
                ok = ok or plain_valence(strip_inner(got)) == mk("loopv", dom, m, b)
            c.ob(ok, op + "Map" + pl, loc(f[0]), "%sMap%s %s" % (op, pl, "keeps stored records and stores the others of the map" if op == "add" else "stores every record of the map in place of one with its symbol"), tshow(got)[:700])
            others(I, op + "Map" + pl, f[0])
        dom = mk("dom", ZERO, I0.size(m), ZERO); it = mk("idx", m, I0.iterof(dom))
        for name, exp, what in (("numberOf" + pl, I0.size(m), "is the number of records stored"),
                                ("get%sList" % pl, mk("pushall", mk("list"), dom, mk("fld", it, "first")), "lists the symbol of every record stored"),
                                ("get" + pl, mk("pushall", mk("list"), dom, mk("fld", it, "second")), "lists every record stored")):
            f = the(M, DB + name); v = Interp(M).run(f, this=sym("db"))
            c.analysed.add(f["f"])
            c.ob(whole(v) == exp, name, loc(f), "%s %s" % (name, what), tshow(v)[:400])

def getter_of(M, q, obj):
    return Interp(M).run(the(M, q, lambda f: const(f) and not f["params"]), this=obj)

def strip_inner(t): return t

def plain_valence(t):
    """reading an element into the formula parser fills in a missing valence: not part of storing"""
    def f(x):
        if x[0] == "ite" and "777" in str(x[1]) and "valence" in str(x[1]): return x[3]
        return None
    for _ in range(3):
        u = rewrite(t, f)
        if u == t: break
        t = u
    return whole(t)

EL = [("atomic_mass", "molarMass"), ("entropy", "entropy"), ("heat_capacity", "heatCapacity"), ("volume", "volume"), ("number", "number"), ("valence", "valence")]

@rule("D06")
def D06(M, c):
    """Value-flow analysis of every operation that stores element records: after each store, and before the operation returns, the formula parser receives
    that record's key and values (compared term by term); and of the conversions between records and formula parser data."""
    path = map_path(M, "Elements")
    def handed(I, K, V, stored):
        """why the data handed over is not that of the stored record, or None"""
        J = Interp(M)
        acc = lambda n: J.run(the(M, "ThermoFun::Element::" + n, lambda f: const(f) and not f["params"]), this=stored)
        if K[0] != "new" or "ElementKey" not in str(K[1]): return "key " + tshow(K)[:200]
        for a, n in zip(K[2:], ("symbol", "class_", "isotopeMass")):
            if plain_valence(a) != plain_valence(acc(n)): return "the key's %s is %s" % (n, tshow(a)[:200])
        for x, n in EL:
            got, want = I.getf(V, x), acc(n)
            if n == "valence": got, want = plain_valence(got), plain_valence(want)
            if got != want: return "%s is %s" % (x, tshow(got)[:200])
        return None
    class Rec:
        def __init__(self): self.sync = []
        def __call__(self, I, n, f, args, obj):
            if n["k"] != "MCall" or not str(n.get("f", "")).endswith("DBElements::addElement"): return None
            a = [I.ev(x) for x in kids(n)[1:]]
            if len(a) != 2: return None
            mp = at_path(I, I.this_of_run(), path)
            why = None
            # the records stored so far
            cands = [I.geti(mp, k) for k in {x[2] for x in subterms(mp) if x[0] == "upd" and len(x) == 4}]
            scope = "one"
            nophi = lambda t: rewrite(t, lambda x: x[1] if x[0] == "phi" and (x[1] == mp or x[1] == sym("r")) else None)
            a = [nophi(I.rv(x)) for x in a]
            for d in reversed(I.loops):
                if d[1] == ZERO and d[2] == I.size(mp):
                    el = I.getf(I.geti(mp, I.iterof(d)), "second")
                    if handed(I, a[0], a[1], el) is None: scope = "all"; cands = [el]
                    break
                if mp[0] == "loopv" and mp[1] == d and mp[3][0] == "upd" and len(mp[3]) == 4 and mp[3][1] == sym("self"):
                    # the records just stored without condition, one after the other
                    if handed(I, a[0], a[1], whole(mp[3][3])) is None: scope = "all"; cands = [whole(mp[3][3])]
                    break
            for s in cands:
                why = handed(I, a[0], a[1], s)
                if why is None: break
            if not cands: why = "not a stored element"
            I.emit("sync", n, ok=why is None, why=why, scope=scope)
            return None
    ops = [f for n in ("addElement", "setElement", "addMapElements", "setMapElements", "appendData") for f in methods(M, DB + n)]
    ctors = [f for f in M.named(DB + "Database") if not f.get("dep") and f["params"] and "Database" not in f["params"][0]["t"]]
    nw = 0
    for f in ops + ctors:
        I = Interp(M, opaque=no_parse, hook=Rec())
        I.this_of_run = lambda I=I: I.load(("this",), ())
        I.run(f, this=sym("db") if f not in ctors else mk("zero", "ThermoFun::Database"), args=[sym("r")])
        c.analysed.update({e["fn"]["f"] for e in I.events if e["fn"]})
        name = f["n"] if f not in ctors else "Database"
        w = []
        for i, e in enumerate(I.events):
            if e["kind"] == "write" and e["node"] is not None and stores(e, path): w.append((i, e))
        if not w: continue
        nw += len(w)
        for i, e in w:
            # the fill-in of a missing valence happens while the record is handed over
            if any("777" in str(x) and "valence" in str(x) for x in e["pc"]): continue
            later = [s for s in I.events[i + 1:] if s["kind"] == "sync" and reaches(s, e)]
            good = [s for s in later if s["ok"]]
            c.ob(bool(good), "sync:%s:%s" % (name, clean(f["params"][0]["t"])[:24]), loc(e["fn"], e["node"]), "%s hands the element record it stores to the formula parser" % name,
                 (later[0]["why"] or "") if later else "no hand-over follows the store at %s" % loc(e["fn"], e["node"]))
    c.need(nw, "stores of element records", 6)
    # restoring an element from formula parser data
    for f in M.named("ThermoFun::Element::Element"):
        if len(f["params"]) != 2 or f.get("dep"): continue
        I = Interp(M); I.run(f, this=mk("zero", "ThermoFun::Element"), args=[sym("k"), sym("v")])
        J = Interp(M)
        for x, n in EL:
            got = J.run(the(M, "ThermoFun::Element::" + n, lambda f: const(f) and not f["params"]), this=I.this())
            c.ob(got == mk("fld", sym("v"), x), "restore:" + n, loc(f), "an element made from formula parser data has its %s" % n, tshow(got)[:200])
        for n, m in (("symbol", "Symbol"), ("class_", "Class"), ("isotopeMass", "Isotope")):
            got = J.run(the(M, "ThermoFun::Element::" + n, lambda f: const(f) and not f["params"]), this=I.this())
            c.ob(got[0] == "call" and str(got[1]).endswith("::" + m) and got[2] == sym("k"), "restore:" + n, loc(f), "an element made from a formula parser key has its %s" % n, tshow(got)[:200])

def stores(e, path):
    fs = tuple(x for k, x in e["path"] if k == "f")
    if e["root"] == ("this",): return fs[:len(path)] == path
    return False

def reaches(s, e):
    """every execution of the store e is followed by the hand-over s"""
    if s["scope"] == "all": return all(x in e["pc"] for x in s["pc"])
    return s["loops"] == e["loops"] and all(x in e["pc"] for x in s["pc"])

class Cmp:
    """a comparison of two records, evaluated from the order of each pair of corresponding fields"""
    def __init__(self, t): self.t = t; self.fields = []; self.why = None; self.scan(t)
    def pair(self, x, y):
        p, r = fields_path(x); q, s = fields_path(y)
        if {r, s} != {sym("a"), sym("b")} or p != q or not p: self.why = "compares %s with %s" % (tshow(x)[:80], tshow(y)[:80]); return None
        if p not in self.fields: self.fields.append(p)
        return p, r == sym("a")
    @staticmethod
    def pairs(x, y):
        """the corresponding parts that a comparison of x with y looks at, in order"""
        tup = lambda t: t[0] in ("list", "pair", "tuple")
        if tup(x) and tup(y) and len(x) == len(y): return [w for u, v in zip(x[1:], y[1:]) for w in Cmp.pairs(u, v)]
        comp = lambda t: t[0] in ("call", "compare") and str(t[1] if t[0] == "call" else t[0]).split("::")[-1] == "compare" and len(t) == (4 if t[0] == "call" else 3)
        if comp(x) and y == ZERO: return [(x[-2], x[-1])]          # string::compare against 0
        if comp(y) and x == ZERO: return [(y[-1], y[-2])]
        return [(x, y)]
    def scan(self, t):
        k = t[0]
        if k == "cmp":
            x, y = t[2], t[3]
            for u, v in self.pairs(x, y): self.pair(u, v)
        elif k in ("ite", "and", "or", "not"):
            for s in t[1:]: self.scan(s)
        elif k != "bool": self.why = "is not made of comparisons of fields: " + tshow(t)[:120]
    def ev(self, s, t=None):
        """s: field path -> sign of (a's field - b's field)"""
        t = self.t if t is None else t; k = t[0]
        if k == "bool": return t[1]
        if k == "ite": return self.ev(s, t[2]) if self.ev(s, t[1]) else self.ev(s, t[3])
        if k == "not": return not self.ev(s, t[1])
        if k == "and": return all(self.ev(s, x) for x in t[1:])
        if k == "or": return any(self.ev(s, x) for x in t[1:])
        x, y = t[2], t[3]
        d = 0
        for u, v in self.pairs(x, y):
            p, fwd = self.pair(u, v); d = s[p] if fwd else -s[p]
            if d: break
        return {"<": d < 0, "<=": d <= 0, ">": d > 0, ">=": d >= 0, "==": d == 0, "!=": d != 0}[t[1]]

@rule("D05")
def D05(M, c):
    """Symbolic evaluation of the comparison operators of records for every combination of orders of the fields they compare."""
    for cls in ("Element", "Substance"):
        ops = {}
        for o in ("<", ">", "=="):
            fs = methods(M, "ThermoFun::operator" + o, lambda f: len(f["params"]) == 2 and clean(f["params"][0]["t"]).endswith(cls))
            if not fs:
                if o == "<" or cls == "Substance": raise AnalysisError("anchor vanished: operator%s of %s" % (o, cls))
                continue
            f = fs[0]; I = Interp(M); t = bool_(I.run(f, args=[sym("a"), sym("b")])); c.analysed.add(f["f"])
            k = Cmp(t); ops[o] = (f, k)
            c.ob(k.why is None, "%s:fields:%s" % (cls, o), loc(f), "operator%s of %s records decides by comparing corresponding fields" % (o, cls), k.why or "")
        if any(k.why for _, k in ops.values()): continue
        P = sorted({p for _, k in ops.values() for p in k.fields})
        name = lambda s: ", ".join("%s %s" % (p[-1], {-1: "less", 0: "equal", 1: "greater"}[s[p]]) for p in P)
        vec = [dict(zip(P, v)) for v in itertools.product((-1, 0, 1), repeat=len(P))]
        inv = lambda s: {p: -v for p, v in s.items()}
        val = {o: {tuple(s[p] for p in P): k.ev(s) for s in vec} for o, (f, k) in ops.items()}
        at = lambda o, s: val[o][tuple(s[p] for p in P)]
        f = ops["<"][0]
        zero = {p: 0 for p in P}
        c.ob(not at("<", zero), cls + ":irreflexive", loc(f), "no %s record is less than itself" % cls)
        bad = [s for s in vec if at("<", s) and at("<", inv(s))]
        c.ob(not bad, cls + ":asymmetric", loc(f), "of two %s records at most one is less than the other" % cls, "both hold with " + name(bad[0]) if bad else "")
        # transitivity of < and of 'neither is less', over all consistent orders of three values of each field
        tri = sorted({(sgn(a - b), sgn(b - d), sgn(a - d)) for a in range(3) for b in range(3) for d in range(3)})
        R = {s: (val["<"][s], val["<"][tuple(-x for x in s)]) for s in val["<"]}
        reach = {}                       # prefixes of (ab, bc, ac) sign vectors
        bad = None
        for combo in itertools.product(tri, repeat=len(P)):
            ab, bc, ac = zip(*combo)
            x, y, z = R[ab], R[bc], R[ac]
            if x[0] and y[0] and not z[0]: bad = (ab, bc, "a < b and b < c but not a < c"); break
            if not any(x) and not any(y) and any(z): bad = (ab, bc, "a, b and b, c are equivalent but a, c are not"); break
        det = "" if bad is None else "%s with a to b: %s; b to c: %s" % (bad[2], name(dict(zip(P, bad[0]))), name(dict(zip(P, bad[1]))))
        c.ob(bad is None, cls + ":transitive", loc(f), "the order of %s records is transitive, as is its equivalence" % cls, det)
        if ">" in ops:
            bad = [s for s in vec if at(">", s) != at("<", inv(s))]
            c.ob(not bad, cls + ":converse", loc(ops[">"][0]), "operator> of %s records is the converse of operator<" % cls, name(bad[0]) if bad else "")
        if "==" in ops:
            bad = [s for s in vec if not at("<", s) and not at("<", inv(s)) and not at("==", s)]
            c.ob(not bad, cls + ":equal", loc(ops["=="][0]), "%s records neither of which is less compare equal" % cls, name(bad[0]) if bad else "")
            # equality is an equivalence relation
            ok = at("==", zero) and all(at("==", s) == at("==", inv(s)) for s in vec)
            E = val["=="]; badE = None
            for combo in itertools.product(tri, repeat=len(P)):
                ab, bc, ac = zip(*combo)
                if E[ab] and E[bc] and not E[ac]: badE = (ab, bc); break
            c.ob(ok and badE is None, cls + ":equivalence", loc(ops["=="][0]), "operator== of %s records is an equivalence" % cls, "" if badE is None else name(dict(zip(P, badE[0]))))

def sgn(x): return (x > 0) - (x < 0)

@rule("D04")
def D04(M, c):
    """Value-graph terms of every getter after every setter: the matching getter returns the value set, every other one what it returned before."""
    norm = lambda s: s.lower().replace("_", "")
    n = 0
    for cls in ("Substance", "Reaction", "Element"):
        C = "ThermoFun::" + cls
        fs = [f for f in M.fn.values() if f.get("cls") == C and not f.get("dep") and f.get("c") is not None and f.get("access") == "public" and not f.get("implicit")]
        gets = [f for f in fs if f.get("const") and not f["params"] and not f["n"].startswith("operator")]
        sets = [f for f in fs if f["n"].startswith("set") and len(f["params"]) == 1]
        before = {g["u"]: Interp(M).run(g, this=sym("o")) for g in gets}
        alias = {}
        for g in gets: alias.setdefault(before[g["u"]], []).append(g)
        for s in sets:
            name = norm(s["n"][3:]); I = Interp(M); I.run(s, this=sym("o"), args=[sym("v")]); th = I.this()
            c.analysed.add(s["f"])
            match = [g for g in gets if norm(g["n"]) == name]
            c.ob(bool(match), "%s:%s" % (cls, s["n"]), loc(s), "%s can be read back" % s["f"].replace("ThermoFun::", ""))
            own = {before[g["u"]] for g in match}; n += 1
            for g in gets:
                J = Interp(M); got = J.run(g, this=th); c.analysed.add(g["f"])
                if before[g["u"]] in own or g in match:
                    c.ob(whole(got) == sym("v"), "%s:%s:%s" % (cls, s["n"], g["n"]), loc(g), "%s returns what %s stored" % (g["n"], s["n"]), tshow(got)[:200])
                else: c.ob(got == before[g["u"]], "%s:%s:%s" % (cls, s["n"], g["n"]), loc(s), "%s leaves %s alone" % (s["n"], g["n"]), tshow(got)[:200])
        for a, gs in alias.items():
            c.ob(len({norm(g["n"]) for g in gs} - {"thermorefprop"}) == 1, "%s:shared:%s" % (cls, gs[0]["n"]), loc(gs[0]), "different getters of %s show different data" % cls, ", ".join(g["n"] for g in gs))
    c.need(n, "setters", 44)
    for cls in ("Substance", "Reaction"):
        ctor = [f for f in M.fn.values() if f.get("cls") == "ThermoFun::" + cls and f["n"] == cls and not f["params"] and not f.get("dep")]
        if len(ctor) != 1: raise AnalysisError("anchor vanished: default constructor of " + cls)
        I = Interp(M); I.run(ctor[0], this=mk("zero", "ThermoFun::" + cls)); th = I.this()
        for m, want in (("referenceT", num(Fraction(29815, 100))), ("referenceP", num(100000))):
            g = the(M, "ThermoFun::%s::%s" % (cls, m)); v = Interp(M).run(g, this=th)
            c.ob(v == want, "%s:default:%s" % (cls, m), loc(ctor[0]), "a new %s refers to 298.15 K and 1 bar" % cls.lower(), tshow(v)[:200])
