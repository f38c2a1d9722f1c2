"""Rules on batch calculations and their output (Batch/)."""
from registry import rule
from model import *
from gsa import *
from itertools import product
from fractions import Fraction as F
from rules.data import the, methods, clean

B = "ThermoFun::ThermoBatch"; O = "ThermoFun::Output::"
SUBP = {x: x for x in ("gibbs_energy", "helmholtz_energy", "internal_energy", "enthalpy", "entropy", "volume", "heat_capacity_cp", "heat_capacity_cv")}
REAP = {"reaction_" + x: "reaction_" + x for x in SUBP}
REAP.update(logKr="log_equilibrium_constant", lnKr="ln_equilibrium_constant")
KINDS = {"Substance": ("ThermoFun::ThermoPropertiesSubstance", SUBP), "Reaction": ("ThermoFun::ThermoPropertiesReaction", REAP)}
UNITS = {"temperature": "K", "pressure": "Pa", **{x: "J/mol" for x in list(SUBP) + list(REAP)}, "logKr": "1", "lnKr": "1"}
for p in ("", "reaction_"):
    for x in ("entropy", "heat_capacity_cp", "heat_capacity_cv"): UNITS[p + x] = "J/K/mol"
    UNITS[p + "volume"] = "J/bar"

strs = lambda *a: mk("list", *[mk("str", x) for x in a])
nums = lambda *a: mk("list", *[num(x) for x in a])
pairs = lambda a: mk("list", *[nums(*x) for x in a])

def lin(frm, to, x):
    """a conversion between two units that differs for every pair of units and is undone by the reverse one"""
    if frm == to: return x
    lo, hi = sorted((frm, to)); k = 2 + sum(map(ord, lo + ">" + hi)) % 7; o = 3 + len(lo + hi) % 5
    return x * k + o if frm == lo else (x - o) / k

def val(kind, field, T, P, s): return sym("%s.%s(%s, %s, %s)" % (kind, field, T, P, s))

class Batch:
    def __init__(self, M, c):
        self.M, self.c = M, c
        self.undef = lambda field, T, P, s: False
        self.sat = lambda T: T + 700
    def record(self, I, kind, T, P, s):
        cls = KINDS[kind.split("+")[0]][0]; v = mk("zero", cls)
        for f in self.M.rec[cls]["fields"]:
            if "Scalar" not in f["t"]: continue
            e = I.setf(I.getf(v, f["n"]), "val", val(kind, f["n"], T, P, s))
            e = I.setf(e, "sta", I.setf(I.getf(e, "sta"), "first", ZERO if self.undef(f["n"], T, P, s) else num(2)))
            v = I.setf(v, f["n"], e)
        return v
    def hook(self, I, n, f, args, o):
        if f == "ThermoFun::units::convert":
            a = [I.ev(x) for x in kids(n)]
            if a[1][0] == a[2][0] == "str" and a[0][0] == "num": return num(lin(a[1][1], a[2][1], a[0][1]))
            return a[0] if a[1] == a[2] else mk("conv", *a)
        if n["k"] == "MCall" and f.startswith("ThermoFun::ThermoEngine::thermoProperties"):
            a = [I.ev(x) for x in kids(n)[1:]]
            if len(a) != 3 or a[0][0] != "num" or a[1][0] != "num" or a[2][0] != "str":
                raise Unsupported("a batch queries the engine in a form not covered: " + ", ".join(tshow(x)[:60] for x in a))
            what = f.rsplit("thermoProperties", 1)[1]
            kind = {"Substance": "Substance", "Reaction": "Reaction", "ReactionFromReactants": "Reaction+FromReactants"}.get(what)
            if kind is None: return None
            T, P = a[0][1], a[1][1]
            if P == 0:
                P = self.sat(T); l = I.lv(kids(n)[2])
                ref = self.M.fn.get(n.get("u"), {}).get("params", [{}, {}])[1].get("r", "r")
                if l is not None and ref: I.store(l[0], l[1], num(P), n)
            return self.record(I, kind, T, P, a[2][1])
        if f == "copy:" + B + "::Impl": return None
        return None
    def interp(self): return Interp(self.M, raw_ts=True, hook=self.hook)
    def new(self):
        ctor = [f for f in methods(self.M, B + "::ThermoBatch") if len(f["params"]) == 1 and "ThermoEngine" in f["params"][0]["t"]]
        if len(ctor) != 1: raise AnalysisError("anchor vanished: the construction of a batch from an engine")
        I = self.interp(); I.run(ctor[0], this=mk("zero", B), args=[sym("ENGINE")]); return I.this()
    def call(self, b, f, *args):
        """calls a member function; returns (result, batch afterwards)"""
        I = self.interp(); r = I.run(f, this=b, args=list(args))
        self.c.analysed.update({e["fn"]["f"] for e in I.events if e["fn"]}); self.c.analysed.add(f["f"]); self.I = I
        return r, I.this()
    def set(self, b, name, *args):
        fs = [f for f in methods(self.M, B + "::" + name) if len(f["params"]) == len(args)]
        if len(fs) != 1: raise AnalysisError("anchor vanished: ThermoBatch::%s" % name)
        return self.call(b, fs[0], *args)[1]
    def prefs(self, b, **kv):
        f = [f for f in methods(self.M, B + "::setBatchPreferences")][0]
        v = mk("zero", "ThermoFun::BatchPreferences", "v"); I = self.interp()
        cls = self.M.rec["ThermoFun::BatchPreferences"]
        ctor = [m for m in cls["methods"] if m.get("ctor") == "default" and m["u"] in self.M.fn]
        if ctor: I.run(self.M.fn[ctor[0]["u"]], this=v); v = I.this()
        for k, x in kv.items(): v = I.setf(v, k, x if isinstance(x, tuple) else ("bool", x))
        return self.call(b, f, v)[1]
    def fn(self, kind, *types):
        """the overload of thermoProperties<kind> with these parameter types"""
        fs = [f for f in methods(self.M, B + "::thermoProperties" + kind) if tuple(ptype(p["t"]) for p in f["params"]) == types]
        if len(fs) != 1: raise AnalysisError("anchor vanished: the overload of thermoProperties%s taking (%s)" % (kind, ", ".join(types)))
        return fs[0]
    def out(self, o, name, *args):
        f = the(self.M, O + name); return self.call(o, f, *args)[0]
    def table(self, o):
        v = self.out(o, "to2DVectorDouble"); I = self.I; k = I.size(v)
        if not isnum(k): return None
        rows = []
        for i in range(int(k[1])):
            r = I.geti(v, num(i)); m = I.size(r)
            if not isnum(m): return None
            rows.append([I.geti(r, num(j)) for j in range(int(m[1]))])
        return rows

def ptype(t):
    t = t.replace("const", "").replace("&", "").strip()
    if "vector<std::vector" in t or t.endswith("vvd"): return "pairs"
    if "ThermoProperties" in t or t.endswith("vtps") or t.endswith("vtpr"): return "results"
    if "vector<double" in t: return "doubles"
    if "vector<std::string" in t or "vector<std::basic_string" in t or t.endswith("vstr"): return "names"
    if "string" in t: return "name"
    if t == "double": return "double"
    return t

def rows_of(first, TP, symbols):
    """the order of the results: symbol by symbol when the loop over the T-P pairs is the first (inner) one"""
    return [(t, p, s) for s in symbols for t, p in TP] if first else [(t, p, s) for t, p in TP for s in symbols]

def unit_text(t): return tshow(t)

@rule("B01")
def B01(M, c):
    """Every overload of a batch calculation is evaluated on concrete lists of symbols, properties and T-P pairs, the engine's queries standing for themselves, and its results compared place by place with the engine's."""
    X = Batch(M, c); b0 = X.new(); n = 0
    syms = ["A", "Bb", "C"]; TP = [(300, 10), (320, 40), (300, 40), (350, 0)]
    def check(key, f, o, want, text):
        if o == ("noreturn",): c.fail(key, loc(f), text, "raises an error instead"); return
        got = X.table(o)
        c.ob(got == want, key, loc(f), text, "" if got == want else "computed %s" % ([[tshow(x) for x in r] for r in got] if got else "a table of unknown shape"))
    def want(kind, names, prefs, units, order, src=""):
        field = KINDS[kind][1]; w = []
        for t, p, s in order:
            T = lin(units[0], "K", F(t)); P = lin(units[1], "Pa", F(p))
            if P == 0: P = X.sat(T)
            w.append([val(kind + src, field[x], T, P, s) for x in names])
        return w
    for kind in KINDS:
        names = list(KINDS[kind][1])
        few = names[3:1:-1] + names[-1:]
        # every property by its name
        for x in names:
            f = X.fn(kind, "double", "double", "name", "name")
            o, _ = X.call(b0, f, num(300), num(10), mk("str", "A"), mk("str", x)); n += 1
            check("%s:%s" % (kind, x), f, o, want(kind, [x], {}, ("K", "Pa"), [(300, 10, "A")]), "%s of a %s is its field %s" % (x, kind.lower(), KINDS[kind][1][x]))
            if o != ("noreturn",):
                d = X.out(o, "toDouble"); sc = X.out(o, "toThermoScalar")
                w = want(kind, [x], {}, ("K", "Pa"), [(300, 10, "A")])[0][0]
                c.ob(d == w, "toDouble:%s:%s" % (kind, x), loc(the(M, O + "toDouble")), "toDouble gives the value", tshow(d)[:200])
                c.ob(X.I.getf(sc, "val") == w and X.I.getf(X.I.getf(sc, "sta"), "first") == num(2), "toThermoScalar:%s:%s" % (kind, x), loc(the(M, O + "toThermoScalar")), "toThermoScalar gives the quantity with its status", tshow(sc)[:200])
        f = X.fn(kind, "double", "double", "names", "names")
        other = "density" if kind == "Substance" else "enthalpy"
        for bad in ("no_such_property", other):
            o, _ = X.call(b0, f, num(300), num(10), strs("A"), strs(names[0], bad)); n += 1
            c.ob(o == ("noreturn",), "unknown:%s:%s" % (kind, bad), loc(f), "asking for %s of a %s is an error" % (bad, kind.lower()), tshow(o)[:200])
        # both orders, with units of the user
        for first, u in product((True, False), (("K", "Pa"), ("degC", "bar"))):
            b = X.prefs(b0, loopOverTPpairsFirst=first)
            if u[0] != "K":
                b = X.set(b, "setPropertyUnit", mk("str", "temperature"), mk("str", u[0])); b = X.set(b, "setPropertyUnit", mk("str", "pressure"), mk("str", u[1]))
            tag = "%s:%s:%s" % (kind, "TP" if first else "symbols", u[0])
            def run(name, types, args, TPs, ss=syms, bb=b):
                f = X.fn(kind, *types); o, b2 = X.call(bb, f, *args)
                check("%s:%s" % (tag, name), f, o, want(kind, few, {}, u, rows_of(first, TPs, ss)), "%s: each result lies at the place of its symbol and T-P pair, at T and P in internal units" % name)
                return b2
            b2 = run("T-P pairs", ("pairs", "names", "names"), [pairs(TP), strs(*syms), strs(*few)], TP)
            # a second calculation with the same batch forgets the first
            run("again", ("pairs", "names", "names"), [pairs(TP[:2]), strs(*syms[1:]), strs(*few)], TP[:2], syms[1:], b2)
            run("T-P pairs, no results given", ("pairs", "names", "names", "results"), [pairs(TP), strs(*syms), strs(*few), mk("list")], TP)
            run("one pair", ("double", "double", "names", "names"), [num(300), num(10), strs(*syms), strs(*few)], [(300, 10)])
            run("one pair again", ("double", "double", "names", "names"), [num(340), num(15), strs(*syms), strs(*few)], [(340, 15)], syms, b2)
            n += 5
            for tfirst in (True, False):
                bb = X.prefs(b, loopOverTPpairsFirst=first, loopTemperatureThenPressure=tfirst)
                Ts, Ps = [300, 310], [10, 20, 30]
                G = [(t, p) for t in Ts for p in Ps] if tfirst else [(t, p) for p in Ps for t in Ts]
                w = "" if tfirst else ", pressures outside"
                run("grid" + w, ("doubles", "doubles", "names", "names"), [nums(*Ts), nums(*Ps), strs(*syms), strs(*few)], G, syms, bb)
                run("grid, no results given" + w, ("doubles", "doubles", "names", "names", "results"), [nums(*Ts), nums(*Ps), strs(*syms), strs(*few), mk("list")], G, syms, bb)
                bi = X.set(bb, "setTemperatureIncrement", num(290), num(320), num(10)); bi = X.set(bi, "setPressureIncrement", num(5), num(15), num(5))
                Ts, Ps = [290, 300, 310, 320], [5, 10, 15]
                G = [(t, p) for t in Ts for p in Ps] if tfirst else [(t, p) for p in Ps for t in Ts]
                run("increments" + w, ("names", "names"), [strs(*syms), strs(*few)], G, syms, bi)
                bi = X.set(bi, "setPressureIncrement", num(7), num(7), num(0))
                run("increments of temperature alone" + w, ("names", "names"), [strs(*syms), strs(*few)], [(t, 7) for t in Ts], syms, bi)
                n += 4
            # results given by the caller are the results
            res = {}
            for types, args, TPs in ((("pairs", "names", "names", "results"), [pairs(TP[:2])], TP[:2]), (("doubles", "doubles", "names", "names", "results"), [nums(300), nums(10, 20)], [(300, 10), (300, 20)])):
                f = X.fn(kind, *types); I = X.interp()
                recs = [X.record(I, kind, 1, i, "given") for i in range(len(TPs) * len(syms))]
                o, _ = X.call(b, f, *args, strs(*syms), strs(*few), mk("list", *recs)); n += 1
                check("%s:given %s" % (tag, types[0]), f, o, [[val(kind, KINDS[kind][1][x], 1, i, "given") for x in few] for i in range(len(recs))], "results given by the caller are used in their order")
                for bad in (recs[:-1], recs + recs[:1]):
                    o, _ = X.call(b, f, *args, strs(*syms), strs(*few), mk("list", *bad))
                    c.ob(o == ("noreturn",), "%s:given %s:%d" % (tag, types[0], len(bad)), loc(f), "a number of given results other than one for each symbol and T-P pair is an error", tshow(o)[:200])
        # steps that never reach the end
        for what, a in (("Temperature", (290, 320, 0)), ("Temperature", (290, 320, -5)), ("Pressure", (5, 15, 0)), ("Pressure", (5, 15, -1))):
            bb = X.set(b0, "setTemperatureIncrement", num(290), num(320), num(10)); bb = X.set(bb, "setPressureIncrement", num(5), num(15), num(5))
            bb = X.set(bb, "set%sIncrement" % what, *map(num, a)); f = X.fn(kind, "names", "names")
            o, _ = X.call(bb, f, strs("A"), strs(names[0])); n += 1
            c.ob(o == ("noreturn",), "step:%s:%s:%d" % (kind, what, a[2]), loc(f), "an increment of %s by %d is an error" % (what.lower(), a[2]), tshow(o)[:200])
    # reactions from their reactants when preferred
    for pref in (False, True):
        bb = X.prefs(b0, reactionPropertiesFromReactants=pref)
        f = X.fn("Reaction", "pairs", "names", "names"); o, _ = X.call(bb, f, pairs(TP), strs(*syms), strs("logKr")); n += 1
        check("reactants:%s" % pref, f, o, want("Reaction", ["logKr"], {}, ("K", "Pa"), rows_of(True, TP, syms), "+FromReactants" if pref else ""), "properties of reactions %s from their reactants" % ("are" if pref else "are not"))
    c.need(n, "calculations evaluated", 80)
    c.explanation = "ThermoBatch's public calculations are evaluated from its source for both kinds of records, every property name, both loop orders, user units and every overload, with the engine's query a symbol of (T, P, record); each result must be the engine's for the T-P pair and symbol of its place."

# ------------------------------------------------------------------ output
def flat(t):
    """the pieces of text of a string-valued term"""
    if t[0] == "str": return [t[1]] if t[1] else []
    if t[0] == "cat": return flat(t[1]) + flat(t[2])
    if t[0] == "strm": return stream_pieces(t[1])[0]
    return [("?", t)]

def stream_pieces(t):
    """the pieces and formatting state of an in-memory stream's value"""
    if t[0] == "cat":
        p, st = stream_pieces(t[1]); return p + item(t[2], st), st
    if t[0] == "mut" and str(t[1]).endswith("::precision"):
        p, st = stream_pieces(t[2]); st["prec"] = t[3]; return p, st
    if t[0] == "new": return [], dict(prec=num(6), mode="general")
    return [("?", t)], dict(prec=num(6), mode="general")

def item(v, st):
    """what a stream in this state writes for a value"""
    if v[0] == "fun":
        nm = v[1]
        if nm == "std::endl": return ["\n"]
        if nm in ("std::fixed", "std::scientific", "std::defaultfloat"): st["mode"] = {"std::fixed": "fixed", "std::scientific": "scientific", "std::defaultfloat": "general"}[nm]; return []
        if nm == "std::flush": return []
        return [("?", v)]
    if v[0] == "call" and v[1] == "std::setprecision" or v[0] == "setprecision": st["prec"] = v[-1]; return []
    if v[0] in ("str", "cat", "strm"): return flat(v)
    return [("num", v, st["prec"], st["mode"])]

def text(pieces):
    out = []
    for p in pieces:
        if isinstance(p, str) and out and isinstance(out[-1], str): out[-1] += p
        else: out.append(p)
    return out

def files(I):
    """file name -> pieces written to it, in the order of the writes"""
    out = {}; st = {}
    for e in I.events:
        if e["kind"] != "call" or not e.get("args"): continue
        f = e["f"]; a0 = e["args"][0]
        if f.endswith("operator<<") or f.endswith("::precision"):
            if any(x[0] == "new" and "stringstream" in str(x[1]) for x in subterms(a0)): continue
            name = next((x[1] for x in subterms(a0) if x[0] == "str"), "?")
            root = str(next((x for x in subterms(a0) if x[0] in ("undef", "new")), "stream"))
            s = st.setdefault(root, dict(prec=num(6), mode="general")); o = out.setdefault(name, [])
            if any(p not in (TRUE,) for p in e["pc"]): o.append(("?", mk("list", *e["pc"])))
            if f.endswith("::precision"):
                if len(e["args"]) > 1: s["prec"] = e["args"][1]
            else: o += item(e["args"][1], s)
    return {k: text(v) for k, v in out.items()}

def show(p):
    return "".join(x if isinstance(x, str) else "<%s:%s%s>" % (tshow(x[1])[:60], x[3][0], tshow(x[2])) if x[0] == "num" else "<?%s>" % tshow(x[1])[:80] for x in p)

@rule("B02")
def B02(M, c):
    """Ownership of the state an output reads: it is a copy made when the output was made, not the batch's own."""
    X = Batch(M, c)
    ctor = [f for f in methods(M, "ThermoFun::Output::Output") if len(f["params"]) == 1 and "ThermoBatch" in f["params"][0]["t"]]
    if len(ctor) != 1: raise AnalysisError("anchor vanished: the construction of an output from a batch")
    fresh = []
    def hook(I, n, f, args, o):
        if f == "copy:" + B + "::Impl":
            v = I.ev(kids(n)[0]); fresh.append(v); return mk("fresh", v)
        return None
    I = Interp(M, raw_ts=True, hook=hook); I.run(ctor[0], this=mk("zero", "ThermoFun::Output"), args=[I.setf(mk("zero", B), "pimpl", sym("STATE"))])
    o = I.this(); c.analysed.update({e["fn"]["f"] for e in I.events if e["fn"]})
    state = sym("STATE")
    def holds(t, inside=False):
        """occurrences of the batch's own state that are not behind a copy"""
        if t[0] == "fresh": return False
        if t == state: return True
        return any(holds(x) for x in t if isinstance(x, tuple))
    c.ob(any(x[0] == "fresh" for x in subterms(o)), "copied", loc(ctor[0]), "an output holds a copy of the state of its batch", tshow(o)[:300])
    c.ob(not holds(o), "shared", loc(ctor[0]), "an output shares no state with the batch that made it", tshow(o)[:300])
    # what the copy must take along: every member of the batch's state that the output's functions read
    rec = M.rec[B + "::Impl"]; n = 0
    for f in rec["fields"]:
        n += 1
        t = f["t"]
        own = not (t.rstrip().endswith("*") or t.rstrip().endswith("&")) and "shared_ptr" not in t
        if not own:
            users = [g for g in M.fn.values() if g["f"].startswith(O) and any(x.get("n") == f["n"] and x["k"] in ("Member",) for x in walk(g))]
            c.ob(not users, "member:" + f["n"], loc(ctor[0]), "the member %s, which copies share, is not read by outputs" % f["n"], ", ".join(g["f"] for g in users))
        else: c.ob(True, "member:" + f["n"], loc(ctor[0]), "the member %s is copied with the state" % f["n"])
    user_copy = [m for m in rec["methods"] if m.get("ctor") == "copy" and m.get("user") and m["u"] in M.fn]
    if user_copy:
        I = Interp(M, raw_ts=True); src = sym("STATE"); I.run(M.fn[user_copy[0]["u"]], this=mk("zero", B + "::Impl"), args=[src]); cp = I.this()
        for f in rec["fields"]:
            v = I.getf(cp, f["n"]); c.ob(v == I.getf(src, f["n"]), "copy:" + f["n"], loc(M.fn[user_copy[0]["u"]]), "a copy of the state has its %s" % f["n"], tshow(v)[:200])
    c.need(n, "members of the batch's state", 8)
    c.explanation = "The construction of an Output is evaluated symbolically with copies of the batch's state marked: every part of the batch reachable from the Output must lie behind such a copy, made at construction, and the copy must be member-wise with no shared member read by outputs."

@rule("B03")
def B03(M, c):
    """The text written by each output form on concrete results, piece by piece, against the documented form."""
    X = Batch(M, c); n = 0
    X.undef = lambda field, T, P, s: s == "B,,b" and field in ("enthalpy", "reaction_enthalpy") or T == 320 and s == "A"
    b0 = X.new(); syms = ["A;,", ",B,,;b", ";C"]; TP = [(300, 10), (320, 40), (300, 40)]
    conv = lambda v, x, u: v if UNITS[x] == u else mk("conv", v, mk("str", UNITS[x]), mk("str", u))
    def setup(kind, **prefs):
        b = X.prefs(b0, **prefs)
        names = ["enthalpy", "entropy"] if kind == "Substance" else ["reaction_enthalpy", "logKr"]
        u = {"temperature": "K", "pressure": "Pa", names[0]: UNITS[names[0]], names[1]: UNITS[names[1]]}; d = {"temperature": 1, "pressure": 1, names[0]: 0, names[1]: 3}
        if prefs.get("_", False): pass
        return b, names, u, d
    def cell(kind, prefs, u, d, x, t, p, s):
        T, P = lin(u["temperature"], "K", F(t)), lin(u["pressure"], "Pa", F(p)); f = KINDS[kind][1][x]
        if P == 0: P = X.sat(T)
        if prefs.get("writeNaNifNotDefinedValue", True) and X.undef(f, T, P, s): return ["NaN"]
        return [("num", conv(val(kind, f, T, P, s), x, u[x]), num(d[x]), mode(prefs))]
    def mode(prefs): return "scientific" if prefs.get("isScientific") else "fixed" if prefs.get("isFixed", True) else "general"
    def sep(prefs): return prefs["separator"][1] if "separator" in prefs else ","
    def N(prefs, d, x, v): return [("num", num(v), num(d[x]), mode(prefs))]
    def psat(u, t, p):
        T, P = lin(u["temperature"], "K", F(t)), lin(u["pressure"], "Pa", F(p))
        return lin("Pa", u["pressure"], X.sat(T)) if P == 0 else F(p)
    def rows_csv(kind, prefs, names, u, d, TP, first):
        s = sep(prefs); out = ["Symbol" + s + "T(%s)" % u["temperature"] + s + "P(%s)" % u["pressure"] + "".join(s + "%s(%s)" % (x, u[x]) for x in names) + "\n"]
        for t, p, a in rows_of(first, TP, syms):
            out += [a.replace(s, "_"), s] + N(prefs, d, "temperature", t) + [s] + N(prefs, d, "pressure", psat(u, t, p))
            for x in names: out += [s] + cell(kind, prefs, u, d, x, t, p, a)
            out += ["\n"]
        return text(out)
    def rows_tr(kind, prefs, names, u, d, TP, first):
        s = sep(prefs); out = ["Property" + s + "T(%s)" % u["temperature"] + s + "P(%s)" % u["pressure"] + "".join(s + x.replace(s, "_") for x in syms) + "\n"]
        for t, p, x in rows_of(first, TP, names):
            out += [x.replace(s, "_") + "(%s)" % u[x], s] + N(prefs, d, "temperature", t) + [s] + N(prefs, d, "pressure", psat(u, t, p))
            for a in syms: out += [s] + cell(kind, prefs, u, d, x, t, p, a)
            out += ["\n"]
        return text(out)
    def rows_grid(kind, prefs, x, u, d, TP):
        s = sep(prefs); tf = prefs.get("loopTemperatureThenPressure", True); rd, cd = ("temperature", "pressure") if tf else ("pressure", "temperature")
        lab = {"temperature": "T(%s)" % u["temperature"], "pressure": "P(%s)" % u["pressure"]}
        vals = {"temperature": list(dict.fromkeys(F(t) for t, p in TP)), "pressure": list(dict.fromkeys(psat(u, t, p) for t, p in TP))}
        out = ["Symbol" + s + lab[rd] + "_" + lab[cd]]
        for v in vals[cd]: out += [s] + N(prefs, d, cd, v)
        out += ["\n"]; have = {(F(t), psat(u, t, p)): (t, p) for t, p in TP}
        for a in syms:
            for r in vals[rd]:
                out += [a.replace(s, "_"), s] + N(prefs, d, rd, r)
                for v in vals[cd]:
                    k = (r, v) if tf else (v, r)
                    out += [s] + (cell(kind, prefs, u, d, x, *have[k], a) if k in have else ["NaN"])
                out += ["\n"]
        return text(out)
    def compare(key, f, got, want, textt):
        ok = got == want; dt = ""
        if not ok and got is not None:
            a, b_ = show(got), show(want); i = next((i for i, (x, y) in enumerate(zip(a, b_)) if x != y), min(len(a), len(b_)))
            dt = "written ...%r where ...%r is expected" % (a[max(0, i - 40):i + 60], b_[max(0, i - 40):i + 60])
        c.ob(ok, key, loc(f), textt, dt or "nothing is written to the file named")
    V = [dict(), dict(isFixed=False), dict(isFixed=False, isScientific=True), dict(separator=mk("str", ";")), dict(writeNaNifNotDefinedValue=False), dict(loopTemperatureThenPressure=False)]
    for kind in KINDS:
        for first in (True, False):
            for i, pr in enumerate(V + [dict(units=1)]):
                pr = dict(pr, loopOverTPpairsFirst=first); withu = pr.pop("units", 0)
                b, names, u, d = setup(kind, **pr)
                if withu:
                    u = dict(u, temperature="degC", pressure="bar", **{names[0]: "kJ/mol"}); d = dict(d, temperature=4, pressure=2, **{names[0]: 5, names[1]: 1})
                    b = X.set(b, "setPropertiesUnits", strs("temperature", "pressure", names[0]), strs("degC", "bar", "kJ/mol"))
                    b = X.set(b, "setPropertiesDigits", strs("temperature", "pressure", names[0]), nums(4, 2, 5))
                    b = X.set(b, "setPropertyUnitDigit", mk("str", names[1]), mk("str", UNITS[names[1]]), num(1))
                f = X.fn(kind, "pairs", "names", "names"); pts = TP if not withu else TP + [(350, 0)]
                if withu:  # the converted pressure of the last pair must be 0 for the saturation pressure
                    pts = TP + [(350, lin("Pa", "bar", F(0)))]
                o, _ = X.call(b, f, pairs(pts), strs(*syms), strs(*names))
                tag = "%s:%s:%d" % (kind, "TP" if first else "symbols", i)
                if o == ("noreturn",): c.fail(tag, loc(f), "the calculation gives an output"); continue
                for form, rows in (("toCSV", rows_csv), ("toCSVTransposed", rows_tr)):
                    g = the(M, O + form); X.out(o, form, mk("str", "f.csv")); n += 1
                    compare("%s:%s" % (form, tag), g, files(X.I).get("f.csv"), rows(kind, pr, names, u, d, pts, first), "%s writes each record's value beside its symbol, T, P and property, in the units and digits set" % form)
                g = the(M, O + "toCSVPropertyGrid")
                if first:
                    X.out(o, "toCSVPropertyGrid", mk("str", "f.csv")); fs = files(X.I); n += 1
                    for x in names: compare("toCSVPropertyGrid:%s:%s" % (tag, x), g, fs.get(x + "_f.csv"), rows_grid(kind, pr, x, u, d, pts), "the grid of a property has each value at the row and column of its temperature and pressure")
        # tables of units and digits name every property
        I = X.interp(); b = b0
        for what, tab, want in (("unit", "propertyUnits", lambda x: mk("str", UNITS[x])), ("digits", "propertyDigits", None)):
            f = the(M, B + "::" + tab); v, _ = X.call(b0, f)
            for x in ["temperature", "pressure"] + list(KINDS[kind][1]):
                l = next((e[2] for e in v[1:] if e[0] == "pair" and e[1] == mk("str", x)), None) if v[0] == "list" else None
                ok = l is not None and (l == want(x) if want else isnum(l))
                c.ob(ok, "%s:%s" % (what, x), loc(f), "%s has the default %s%s" % (x, what, " " + UNITS[x] if want else ""), tshow(l) if l else ""); n += 1
    for name, good in (("setPropertiesUnits", strs("K", "bar")), ("setPropertiesDigits", nums(1, 2))):
        f = the(M, B + "::" + name)
        for m in (1, 3):
            r, _ = X.call(b0, f, strs("temperature", "pressure"), mk("list", *(list(good[1:]) * 2)[:m])); n += 1
            c.ob(r == ("noreturn",), "%s:%d" % (name, m), loc(f), "%s with %d values for 2 properties is an error" % (name, m), tshow(r)[:100])
    c.need(n, "outputs evaluated", 60)
    c.explanation = "The functions writing CSV tables are evaluated on concrete symbols, T-P pairs and preferences with symbolic results; the sequence of stream writes is rendered to text with each number's precision and notation and must equal the documented table."
