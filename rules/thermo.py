"""Thermodynamic consistency of the property models, decided on value-graph terms with symbolic derivatives."""
import itertools
from registry import rule
from model import *
from gsa import *
from terms import *
from rules.engine import *

T, P = sym("T"), sym("P")
BAR = num(100000)
PB = div(P, BAR)
SP = ["gibbs_energy", "enthalpy", "entropy", "heat_capacity_cp", "volume", "internal_energy", "helmholtz_energy", "heat_capacity_cv"]
RPN = ["reaction_" + x for x in SP] + ["ln_equilibrium_constant", "log_equilibrium_constant"]

def by_type(f, names):
    """arguments for f's parameters, by position"""
    out = []
    for i, p in enumerate(f["params"]):
        out.append(names[i] if i < len(names) and isinstance(names[i], tuple) else sym(names[i]) if i < len(names) and names[i] else sym("arg%d" % i))
    return out

def model_fn(M, cls, meth="thermoProperties"):
    return M.one("ThermoFun::%s::%s" % (cls, meth), lambda f: f.get("access") == "public" and len(f["params"]) >= 2)

def instance(M, cls, S, c=None):
    """the model object constructed from substance (or reaction) S"""
    ct = [f for f in M.fn.values() if f.get("cls") == "ThermoFun::" + cls and f["n"] == cls and not f.get("dep") and len(f["params"]) == 1
          and f["params"][0]["t"].replace("const ", "").replace("&", "").strip() in ("ThermoFun::Substance", "ThermoFun::Reaction")]
    if len(ct) != 1: raise AnalysisError("anchor vanished: constructor of %s from its record" % cls)
    I = Interp(M); I.run(ct[0], args=[S]); return I.this()

def run_model(M, cls, names, S=None, meth="thermoProperties", fields=SP, opaque=None, hook=None, depth=14, facts=(), c=None):
    f = model_fn(M, cls, meth)
    this = instance(M, cls, S if S is not None else sym("S"))
    I = Interp(M, opaque=opaque, hook=hook, depth=depth); v = I.run(f, this=this, args=by_type(f, names), facts=facts)
    if c is not None: c.analysed.update({e["fn"]["f"] for e in I.events if e.get("fn")})
    return f, I, v, [I.getf(v, x) for x in fields]

def cases(ts, given=(), lim=96):
    """[(assumed conditions, terms)] over the conditions inside the terms"""
    out = []
    for k, val in given: ts = [assume(t, k, val) for t in ts]
    def go(ts, asg):
        cs = []
        for t in ts:
            cs = conds_in(t)
            if cs: break
        if not cs: out.append((asg, ts)); return
        k = cs[0]
        for x in cs:
            if not conds_in(x): k = x; break
        if k[0] in ("and", "or"): k = k[1]
        if k[0] == "not": k = k[1]
        for val in (True, False):
            if len(out) > lim: raise TooBig()
            go([assume(t, k, val) for t in ts], asg + [(k, val)])
    go(list(ts), []); return out

def cname(asg):
    return " and ".join(tshow(k if v else lnot(k)) for k, v in asg) or "always"

def relations(fields, TT, PT, unit_V=BAR):
    """relation name -> (left, right) normal forms, from the property normal forms; PT: derivative table per Pa"""
    G, H, S, C, V, U, A = fields[:7]
    nT = nf(T); nPV = pmul(nf(P), pscale(V, 1 / unit_V[1]))
    return [("U = H - PV", lambda: (U, padd(H, nPV, -1))), ("A = U - TS", lambda: (A, padd(U, pmul(nT, S), -1))),
            ("S = -dG/dT", lambda: (S, pscale(pdiff(G, T, TT), -1))), ("V = dG/dP", lambda: (pscale(V, 1 / unit_V[1]), pdiff(G, P, PT))),
            ("Cp = dH/dT", lambda: (C, pdiff(H, T, TT))), ("Cp = T dS/dT", lambda: (C, pmul(nT, pdiff(S, T, TT)))),
            ("d(G-H+TS)/dP = 0", lambda: (pdiff(padd(padd(G, H, -1), pmul(nT, S)), P, PT), {}))]

def base_tables():
    """a previous stage's record is consistent in T and pressure independent"""
    f = lambda a, b: mk("fld", sym(a), b)
    tt = {}; pt = {}
    g, h, s, cp, v = [f("tps", x) for x in SP[:5]]
    tt.update({g: neg(s), h: cp, s: div(cp, T), v: ZERO, cp: sym("dCp/dT")})
    for x in (g, h, s, cp, v): pt[x] = ZERO
    r, a, b, da = [f("wp", x) for x in ("density", "Alpha", "Beta", "dAldT")]
    dB = sym("dBeta/dT")
    # Alpha per K, Beta per bar or Pa as the model takes it: dBeta in its own unit
    tt.update({r: neg(mul(a, r)), a: da, b: dB, da: sym("d2Alpha/dT2")})
    pt.update({r: mul(b, r), a: neg(dB), b: sym("dBeta/dP"), da: sym("d2Alpha/dTdP")})
    return tt, pt

def eq_subst(k, val):
    """the atom an equality condition fixes, with its value: (term, term) or None"""
    if not val: k = lnot(k)
    if k[0] == "cmp" and k[1] == "==":
        a, b = k[2], k[3]
        if a[0] in ("fld", "idx", "sym"): return a, b
        if b[0] in ("fld", "idx", "sym"): return b, a
    return None

def on_point(asg):
    """does the case hold at isolated temperatures or pressures only?"""
    for k, val in asg:
        kk = k if val else lnot(k)
        if kk[0] == "cmp" and kk[1] == "==" and (depends(kk, T) or depends(kk, P)): return True
    return False

def consistent_cases(ts, given=(), lim=400):
    out = []
    try: cs = cases(ts, given, lim)
    except TooBig: raise AnalysisError("too many cases")
    for asg, tc in cs:
        sb = [x for x in (eq_subst(k, v) for k, v in asg) if x and not depends(x[0], T) and not depends(x[0], P)]
        for a, b in sb: tc = [rewrite(t, lambda x: b if x == a else None) for t in tc]
        out.append((asg, tc))
    return out

def check_relations(c, key, where, ts, want, tt, pt, given=(), rels=relations, point=("U = H - PV", "A = U - TS"), skip=(), tol=1e-8):
    """every wanted relation in every case of the terms"""
    n = 0
    for asg, tc in consistent_cases(ts, given):
        if any(s(asg) for s in skip): continue
        fs = [nf(t) for t in tc]; pt_only = on_point(asg)
        for name, r in rels(fs, tt, pt):
            if name not in want or (pt_only and name not in point): continue
            try: a, b = r(); ok = peq(a, b, tol)
            except TooBig: raise AnalysisError("%s: %s is too large to decide" % (key, name))
            n += 1
            c.ob(ok, "%s:%s" % (key, name), where, "%s: %s when %s" % (key, name, cname(asg)[:300]), "difference: " + pshow(padd(a, b, -1))[:600])
    c.need(n, "relation instances of " + key, 1)

ALLREL = ("U = H - PV", "A = U - TS", "S = -dG/dT", "V = dG/dP", "Cp = dH/dT", "Cp = T dS/dT", "d(G-H+TS)/dP = 0")
VIN = mk("fld", sym("tps"), "volume")
def no_vin(ts): return [rewrite(t, lambda x: ZERO if x == VIN else None) for t in ts]

def below(asg):
    """a case below some temperature"""
    for k, val in asg:
        k = k if val else lnot(k)
        if k[0] == "cmp" and (k[1] in ("<", "<=") and k[2] == T or k[1] in (">", ">=") and k[3] == T): return True
    return False

def anchored(c, key, where, f0, ts, base, sub, given=(), only=None):
    """at the reference conditions the record equals the one it starts from"""
    n = 0
    for asg, tc in consistent_cases(ts, given):
        if on_point(asg) or (only and not only(asg)): continue
        for nm, t, b in zip(SP, tc, base):
            if b is None: continue
            r = rewrite(t, lambda x: sub.get(x)); b2 = rewrite(b, lambda x: sub.get(x))
            n += 1
            c.ob(peq(nf(r), nf(b2)), "%s:reference:%s" % (key, nm), where, "%s: %s at the reference conditions is the value it starts from, when %s" % (key, nm, cname(asg)[:200]), "at the reference: " + pshow(nf(r))[:500])
    c.need(n, "reference obligations of " + key, 1)

SREF = lambda M, S, n: getter(M, "ThermoFun::Substance::" + n, S)

@rule("T01")
def T01(M, c):
    """The returned record of every solid model, as value-graph terms over all parameters, T and P: each relation between the potentials is
    decided by symbolic differentiation and algebraic normal form in every case of the conditions inside the terms."""
    tt, pt = base_tables(); S = sym("S")
    tps = [mk("fld", sym("tps"), x) for x in SP]
    Tr, Pr = SREF(M, S, "referenceT"), SREF(M, S, "referenceP")
    ref = M_ref(M, S)
    for cls, p0, given in (("MinBerman88", Pr, ()), ("MinMurnaghanEOSHP98", None, ()), ("HPLandau", ZERO, ()), ("ConMolVol", Pr, ())):
        f, I, v, ts = run_model(M, cls, ["T", "P", "tps"], c=c)
        ts = no_vin(ts)
        skip = ()
        if cls == "ConMolVol":    # documented: no correction without a reference volume
            vs = cmp_("==", I.getf(I.getf(I.getf(ref, "volume"), "sta"), "first"), ZERO)
            skip = (lambda asg: (vs, True) in asg or (lnot(vs), False) in asg,)
        check_relations(c, cls, loc(f), ts, ALLREL, tt, pt, skip=skip)
        if p0 is not None:
            # the Landau heat capacity is an addition at every temperature below the transition, also at the reference
            lan = cls == "HPLandau"
            anchored(c, cls, loc(f), f, ts, tps[:3 if lan else 4] + [None] * 4, {T: Tr, P: p0}, only=below if lan else None)
        else:
            # with elastic parameters the integral starts at P = 0, without at the reference pressure
            for asg, tc in consistent_cases(ts):
                if on_point(asg): continue
                r = [nf(rewrite(t, lambda x: {T: Tr, P: ZERO}.get(x))) for t in tc]; q = [nf(rewrite(t, lambda x: {T: Tr, P: Pr}.get(x))) for t in tc]
                ok = all(peq(a, nf(b)) for a, b in zip(r[:4], tps)) or all(peq(a, nf(b)) for a, b in zip(q[:4], tps))
                c.ob(ok, cls + ":reference", loc(f), "%s: the correction vanishes at the reference conditions, when %s" % (cls, cname(asg)[:200]), "G at P=0: " + pshow(r[0])[:300])
    # the volume the correction of a solid starts from at its reference conditions
    for cls in ("MinBerman88", "MinMurnaghanEOSHP98", "ConMolVol"):
        f, I, v, ts = run_model(M, cls, ["T", "P", "tps"])
        V = no_vin(ts[4:5])
        for asg, tc in consistent_cases(V):
            if on_point(asg) or any(k[0] == "cmp" and ("sta" in tshow(k)) and ((k, v_) in asg) and ((k[1] == "==") == v_) for k, v_ in asg): continue
            r = nf(rewrite(tc[0], lambda x: {T: Tr, P: Pr}.get(x))); z = nf(rewrite(tc[0], lambda x: {T: Tr, P: ZERO}.get(x)))
            V0 = nf(I.getf(ref, "volume"))
            c.ob(peq(r, V0) or peq(z, V0), cls + ":reference:volume", loc(f), "%s: the volume at the reference conditions is the reference volume" % cls, pshow(r)[:400])

def M_ref(M, S): return getter(M, "ThermoFun::Substance::thermoReferenceProperties", S)

def cp_record(M, nint, ncoef=10, ntrans=0):
    """a substance with concrete numbers of Cp intervals, coefficients and phase transitions, all values symbolic"""
    I = Interp(M); TP = sym("TP")
    nc = ncoef if isinstance(ncoef, tuple) else (ncoef,) * nint
    TP = I.setf(TP, "Cp_coeff", mk("list", *[mk("list", *[sym("c%d_%d" % (j, i)) for i in range(nc[j])]) for j in range(nint)]))
    TP = I.setf(TP, "temperature_intervals", mk("list", *[mk("list", sym("lo%d" % j), sym("hi%d" % j)) for j in range(nint)]))
    TP = I.setf(TP, "phase_transition_prop", mk("list", *[mk("list", sym("t%d" % j), sym("dS%d" % j), sym("dH%d" % j), sym("dV%d" % j)) for j in range(ntrans)]))
    return with_getter(M, sym("S"), "ThermoFun::Substance::thermoParameters", TP)
def ge(a, b): return [cmp_("<=", b, a), cmp_(">=", a, b)]
def lt(a, b): return [cmp_("<", a, b), cmp_(">", b, a)]
CP_TERMS = [lambda T: ONE, lambda T: T, lambda T: powt(T, num(-2)), lambda T: powt(T, num(Fr(-1, 2))), lambda T: powt(T, num(2)), lambda T: powt(T, num(3)), lambda T: powt(T, num(4)),
            lambda T: powt(T, num(-3)), lambda T: div(ONE, T), lambda T: powt(T, num(Fr(1, 2)))]
CPREL = ("S = -dG/dT", "Cp = dH/dT", "Cp = T dS/dT", "d(G-H+TS)/dP = 0")

@rule("T02")
def T02(M, c):
    """Empirical Cp integration: the terms of G, H, S, Cp and V for records with one to three temperature intervals (all boundaries, coefficients
    and transition increments symbolic) are differentiated symbolically; boundary values are compared across intervals."""
    tt, pt = base_tables(); cls = "EmpiricalCpIntegration"
    S1 = cp_record(M, 1); ref = M_ref(M, S1); Tr = SREF(M, S1, "referenceT")
    def inside(j, n):   # T in interval j: above the lower and not below the upper boundary of the earlier ones
        r = []
        for i in range(j): r += ge(T, sym("hi%d" % i)) + ge(T, sym("lo%d" % i))
        return r + ge(T, sym("lo%d" % j)) + lt(T, sym("hi%d" % j))
    def run(n, j, nt, ncoef=10):
        f, I, v, ts = run_model(M, cls, ["T", "P"], S=cp_record(M, n, ncoef, nt), facts=inside(j, n) + [x for i in range(nt) for x in ge(sym("lo%d" % (i + 1)), sym("t%d" % i))], c=c)
        return f, I, ts
    res = {}
    for n in (1, 2, 3):
        for j in range(n):
            f, I, ts = run(n, j, n - 1); res[n, j] = ts
            check_relations(c, cls, loc(f), ts[:7], CPREL, tt, pt)
            cp = ZERO
            for i, g in enumerate(CP_TERMS): cp = add(cp, mul(sym("c%d_%d" % (j, i)), g(T)))
            c.ob(equal(ts[3], cp) is True, cls + ":Cp", loc(f), "Cp is the polynomial of the interval the temperature lies in", "computed: " + tshow(ts[3])[:500])
    where = loc(f)
    # reference temperature
    for nm, t in zip(SP[:3], res[1, 0]):
        r = nf(rewrite(t, lambda x: Tr if x == T else None))
        c.ob(peq(r, nf(I.getf(ref, nm))), cls + ":reference:" + nm, where, "%s at the reference temperature is the reference value" % nm, pshow(r)[:400])
    # transitions: G continuous, H, S and V jump by the transition increments
    for n, j in ((2, 1), (3, 2), (3, 1)):
        tb = sym("hi%d" % (j - 1))
        at = lambda t: nf(rewrite(t, lambda x: tb if x in (T, sym("lo%d" % j)) else None))
        jump = dict(gibbs_energy=ZERO, enthalpy=sym("dH%d" % (j - 1)), entropy=sym("dS%d" % (j - 1)), volume=sym("dV%d" % (j - 1)))
        for nm, d in jump.items():
            i = SP.index(nm)
            a, b = at(res[n, j][i]), at(res[n, j - 1][i])
            c.ob(peq(padd(a, b, -1), nf(d)), cls + ":transition:" + nm, where, "%s changes by the transition's increment between intervals %d and %d" % (nm, j, j + 1), pshow(padd(a, b, -1))[:400])
    # fewer coefficients than terms: the missing ones count as zero
    f, I, ts = run(1, 0, 0, 4)
    z = {sym("c0_%d" % i): ZERO for i in range(4, 10)}
    for nm, t, t0 in zip(SP[:4], ts, res[1, 0]):
        c.ob(peq(nf(t), nf(rewrite(t0, lambda x: z.get(x)))), cls + ":short:" + nm, where, "%s: missing coefficients count as zero" % nm)
    # also when an interval before or after has more of them
    for nc in ((7, 4), (4, 7), (8, 3, 10)):
        z = {sym("c%d_%d" % (j, i)): ZERO for j, k in enumerate(nc) for i in range(k, 10)}
        for j in range(len(nc)):
            f, I, ts = run(len(nc), j, len(nc) - 1, nc)
            for nm, t, t0 in zip(SP[:4], ts, res[len(nc), j]):
                c.ob(peq(nf(t), nf(rewrite(t0, lambda x: z.get(x)))), cls + ":uneven:" + nm, where, "%s: the coefficients an interval lacks count as zero, whatever the interval before it has" % nm, "coefficients %s, interval %d: %s" % (nc, j + 1, tshow(t)[:300]))
    # a temperature outside every interval extrapolates the nearest one
    for what, facts, j in (("below", lt(T, sym("lo0")), 0), ("above", ge(T, sym("hi1")) + ge(T, sym("lo1")) + ge(T, sym("hi0")) + ge(T, sym("lo0")), 1), ("at the upper bound", ge(T, sym("hi1")) + ge(sym("hi1"), T) + ge(T, sym("lo1")) + ge(T, sym("hi0")) + ge(T, sym("lo0")), 1)):
        extra = (lt(T, sym("hi0")) + lt(T, sym("lo1")) + lt(T, sym("hi1"))) if what == "below" else []
        f, I, v, ts = run_model(M, cls, ["T", "P"], S=cp_record(M, 2, 10, 1), facts=facts + extra + ge(sym("lo1"), sym("t0")))
        for nm, t, t0 in zip(SP[:4], ts, res[2, j]):
            cc = conds_in(t)
            c.ob(not cc and peq(nf(t), nf(t0)), cls + ":outside:" + nm, where, "%s %s every interval follows the nearest interval" % (nm, what), tshow(t)[:300])
    # constant Cp
    cls = "EntropyCpIntegration"; S = sym("S")
    f, I, v, ts = run_model(M, cls, ["T", "P"], c=c); ref = M_ref(M, S); Tr = SREF(M, S, "referenceT")
    st = lambda n: cmp_("==", I.getf(I.getf(I.getf(ref, n), "sta"), "first"), ZERO)
    dfn = [(st("heat_capacity_cp"), False), (st("entropy"), False)]
    ts = [assume(assume(t, *dfn[0]), *dfn[1]) for t in ts]
    check_relations(c, cls, loc(f), ts, CPREL, tt, pt)
    for nm, t in zip(SP[:4], ts):
        r = nf(rewrite(t, lambda x: Tr if x == T else None))
        c.ob(peq(r, nf(I.getf(ref, nm))), cls + ":reference:" + nm, loc(f), "%s at the reference temperature is the reference value" % nm, pshow(r)[:400])
    c.need(len(res), "interval cases", 6)

FLD = lambda o, *n: [mk("fld", sym(o), x) for x in n]
def free(M, n, *types):
    """the free function n whose parameters mention types in this order"""
    return M.one("ThermoFun::" + n, lambda f: not f.get("cls") and (not types or [any(t in p["t"] for p in f["params"]) for t in types].count(False) == 0))
KC = num(Fr("273.15"))

def derivs(c, key, where, ts, pairs, tt, pt, facts=()):
    """named terms; pairs: name -> (primitive, 'T' or 'P')"""
    for asg, tc in consistent_cases(list(ts.values())):
        if on_point(asg): continue
        d = dict(zip(ts, [nf(t) for t in tc]))
        for x, (y, w) in pairs.items():
            if x not in d: continue
            try: q = pdiff(d[y], T if w == "T" else P, tt if w == "T" else pt); ok = peq(d[x], q)
            except TooBig: raise AnalysisError("%s: %s is too large to decide" % (key, x))
            c.ob(ok, "%s:%s" % (key, x), where, "%s: %s is d%s/d%s when %s" % (key, x, y, w, cname(asg)[:250]), "difference: " + pshow(padd(d[x], q, -1))[:500])

GPAIRS = dict(gT=("g", "T"), gP=("g", "P"), gTT=("gT", "T"), gTP=("gT", "P"), gPP=("gP", "P"))

@rule("T03")
def T03(M, c):
    """Aqueous solute models: the solvent g function, the Born coefficient and the property records as value-graph terms; every derivative field
    and every relation between the potentials is decided by symbolic differentiation with the chain rule through the solvent's density, its
    expansion coefficients and Born functions."""
    tt, pt = base_tables(); S = sym("S")
    # density models
    for cls, rel in (("SoluteHollandPowell98", ALLREL), ("SoluteAnderson91", tuple(x for x in ALLREL if x != "V = dG/dP"))):
        f, I, v, ts = run_model(M, cls, ["T", "P", "wpr", "wp"], c=c)
        check_relations(c, cls, loc(f), ts, rel, tt, pt)
    # solvent function g
    for nm, args, fl in (("gShok2", [sub(T, KC), PB, sym("ps")], ("g", "gT", "gP", "gTT")), ("functionG", [T, PB, sym("ps")], ("g", "gT", "gP", "gTT", "gTP", "gPP"))):
        f = free(M, nm); I = Interp(M); v = I.run(f, args=args)
        F = lambda x: mk("fld", sym("ps"), x)
        r, a, b, da = [F(x) for x in ("density", "Alpha", "Beta", "dAldT")]
        if nm == "gShok2":
            t1 = {r: neg(mul(a, r)), a: da, b: sym("dBeta/dT"), da: sym("d2Alpha/dT2")}; p1 = {r: mul(b, r), a: neg(sym("dBeta/dT")), b: sym("dBeta/dP"), da: sym("d2Alpha/dTdP")}
        else:
            t1 = {r: F("densityT"), F("densityT"): F("densityTT"), F("densityP"): F("densityTP")}; p1 = {r: F("densityP"), F("densityT"): F("densityTP"), F("densityP"): F("densityPP")}
            for i, z in enumerate(("densityTT", "densityTP", "densityPP")): t1[F(z)] = sym("r%dT" % i); p1[F(z)] = sym("r%dP" % i)
        ts = {}
        # densities below 1 g/cm3, where the published equation holds: |1 - D| = 1 - D
        dens = [nf(sub(ONE, div(r, num(1000)))), nf(sub(div(r, num(1000)), ONE))]
        def noabs(z):
            if z[0] == "fn" and z[1] == "abs":
                n = nf(z[2])
                if peq(n, dens[0]): return z[2]
                if peq(n, dens[1]): return neg(z[2])
        for x in fl: ts[x] = rewrite(I.getf(v, x), noabs)
        derivs(c, nm, loc(f), ts, GPAIRS, t1, p1)
        c.need(sum(1 for k in ts if k in GPAIRS), "derivative fields of " + nm, 3)
    # Born coefficient
    for nm, fl in (("omeg92", ("w", "wT", "wP", "wTT")), ("speciesElectroStateHKF", ("w", "wT", "wP", "wTT", "wTP", "wPP"))):
        f = free(M, nm); I = Interp(M); v = I.run(f, args=[sym("g"), S])
        g = {x: mk("fld", sym("g"), x) for x in ("g", "gT", "gP", "gTT", "gTP", "gPP")}
        t1 = {g["g"]: g["gT"], g["gT"]: g["gTT"], g["gP"]: g["gTP"], g["gTT"]: sym("gTTT"), g["gTP"]: sym("gTTP"), g["gPP"]: sym("gTPP")}
        p1 = {g["g"]: g["gP"], g["gT"]: g["gTP"], g["gP"]: g["gPP"], g["gTT"]: sym("gTTP"), g["gTP"]: sym("gTPP"), g["gPP"]: sym("gPPP")}
        ts = {x: I.getf(v, x) for x in fl}
        chg = getter(M, "ThermoFun::Substance::charge", S); zz = sym("z")
        def posabs(t):
            if t[0] == "fn" and t[1] == "abs":
                n = nf(t[2])
                if len(n) == 1 and list(n)[0] and all(atomof(a) == zz for a, e in list(n)[0]): return t[2] if list(n.values())[0] > 0 else neg(t[2])
        for val in (zz, neg(zz)):   # both signs of the charge, z > 0
            d = {x: rewrite(rewrite(t, lambda y: val if y == chg else None), posabs) for x, t in ts.items()}
            derivs(c, nm, loc(f), d, {k.replace("g", "w"): (y.replace("g", "w"), w) for k, (y, w) in GPAIRS.items()}, t1, p1)
        # at the reference (g = 0) the coefficient is the tabulated one
        for asg, tc in consistent_cases([ts["w"]]):
            r = nf(rewrite(tc[0], lambda x: ZERO if x == g["g"] else None))
            hkf = I.getf(getter(M, "ThermoFun::Substance::thermoParameters", S), "HKF_parameters")
            want = nf(mk("idx", hkf, num(6)))
            c.ob(peq(r, want), nm + ":reference", loc(f), "%s: with g = 0 the Born coefficient is the tabulated one when %s" % (nm, cname(asg)[:150]), pshow(r)[:400])
    # HKF record
    aes = {x: mk("fld", sym("aes"), x) for x in ("w", "wT", "wP", "wTT", "wTP", "wPP")}
    Z, Y, Q, X = FLD("wes", "bornZ", "bornY", "bornQ", "bornX")
    t1 = {aes["w"]: aes["wT"], aes["wT"]: aes["wTT"], aes["wP"]: sym("wTP"), aes["wTT"]: sym("wTTT"), Z: Y, Y: X, Q: sym("dQ/dT"), X: sym("dX/dT")}
    p1 = {aes["w"]: aes["wP"], aes["wT"]: sym("wTP"), aes["wP"]: sym("wPP"), aes["wTT"]: sym("wTTP"), Z: Q, Y: sym("dQ/dT"), Q: sym("dQ/dP"), X: sym("dX/dP")}
    for nm, t in (("thermoPropertiesAqSoluteHKFgems", sub(T, KC)), ("thermoPropertiesAqSoluteHKFreaktoro", T)):
        f = free(M, nm); I = Interp(M); v = I.run(f, args=[t, PB, S, sym("aes"), sym("wes"), sym("wp")])
        c.analysed.update({e["fn"]["f"] for e in I.events if e.get("fn")})
        ts = [I.getf(v, x) for x in SP]
        # 41.84004 (published) and 10 * 4.184: the volume follows to 1e-6
        check_relations(c, nm, loc(f), ts, [x for x in ALLREL if x != "V = dG/dP"], t1, p1)
        check_relations(c, nm, loc(f), ts, ["V = dG/dP"], t1, p1, tol=2e-6)
    # the g function and the Born coefficient handed to the model are those at its temperature, pressure and solvent
    for cls, gf, om, hk, t in (("SoluteHKFgems", "gShok2", "omeg92", "thermoPropertiesAqSoluteHKFgems", sub(T, KC)), ("SoluteHKFreaktoro", "functionG", "speciesElectroStateHKF", "thermoPropertiesAqSoluteHKFreaktoro", T)):
        names = {"ThermoFun::" + x for x in (gf, om, hk)}
        f, I, v, ts = run_model(M, cls, ["T", "P", "wp", "wes"], opaque=lambda g: g["f"] in names)
        ev = {}
        for e in I.events:
            if e["kind"] == "call" and e.get("fdef") is not None and e["fdef"]["f"] in names: ev.setdefault(e["fdef"]["n"], []).append(e)
        for nm in (gf, om, hk):
            if nm not in ev: c.fail("%s:uses:%s" % (cls, nm), loc(f), "%s does not evaluate %s" % (cls, nm)); continue
            a = ev[nm][0]["args"]
            if nm == om: continue
            c.ob(equal(a[0], t) is True and equal(a[1], PB) is True, "%s:args:%s" % (cls, nm), loc(f, ev[nm][0]["node"]), "%s hands %s its temperature and pressure in the units it takes" % (cls, nm), tshow(mk("call", nm, *a[:2]))[:300])
    # Akinfiev-Diamond
    W = {p: [mk("fld", sym(p), x) for x in SP] for p in ("wtp", "wigp")}
    rho, = FLD("wp", "density")
    t2 = dict(tt); p2 = dict(pt)
    for w in W:
        g, h, s, cp, vv = W[w][:5]
        t2.update({g: neg(s), h: cp, s: div(cp, T), cp: sym("d" + w), vv: sym("dV" + w)})
    MW = num(Fr("18.01528"))
    Vw = div(MW, mul(div(rho, num(1000)), num(10)))     # J/bar
    g, h, s, cp, vv = W["wtp"][:5]
    p2.update({g: div(Vw, BAR), s: neg(div(mul(mk("fld", sym("wp"), "Alpha"), Vw), BAR)), cp: sym("dCpw/dP"), h: sym("dHw/dP")})
    for x in W["wigp"][:5]: p2[x] = ZERO
    f, I, v, ts = run_model(M, "SoluteAkinfievDiamondEOS", ["T", "P", "tps", "wtp", "wigp", "wp", "wtpr", "wigpr", "wpr"], c=c)
    check_relations(c, "SoluteAkinfievDiamondEOS", loc(f), no_vin(ts), ALLREL, t2, p2)
    ref = {T: num(Fr("298.15"))}
    for a, b in (("wtp", "wtpr"), ("wigp", "wigpr"), ("wp", "wpr")):
        for t in set(subterms(ts[0])) | set(subterms(ts[2])) | set(subterms(ts[1])):
            if t[0] == "fld" and t[1] == sym(a): ref[t] = mk("fld", sym(b), t[2])
    anchored(c, "SoluteAkinfievDiamondEOS", loc(f), f, ts, [mk("fld", sym("tps"), x) for x in SP[:3]] + [None] * 5, ref)

def check_K(c, key, where, G, lnK, lgK, asg=()):
    n = nf(mul(num(Fr("8.31451")), T))
    c.ob(peq(pmul(nf(lnK), n), pscale(nf(G), -1)), key + ":ln K", where, "%s: ln K = -G/(RT) when %s" % (key, cname(asg)[:200]), "ln K: " + tshow(lnK)[:400])
    c.ob(peq(nf(lgK), pscale(nf(lnK), Fr(0.43429448190325182765)), 1e-7), key + ":log K", where, "%s: log K = ln K / ln 10 when %s" % (key, cname(asg)[:200]), "log K: " + tshow(lgK)[:400])

@rule("T05")
def T05(M, c):
    """Reaction models as value-graph terms: relations between the reaction properties and the equilibrium constants, by symbolic
    differentiation through the solvent's density, for symbolic coefficients."""
    tt, pt = base_tables(); REL = ALLREL
    for cls in ("ReactionDolejsManning10", "ReactionFrantzMarshall", "ReactionRyzhenkoBryzgalin"):
        f, I, v, ts = run_model(M, cls, ["T", "P", "wp"], S=sym("R"), fields=RPN, c=c)
        check_relations(c, cls, loc(f), ts[:7], REL, tt, pt)
        for asg, tc in consistent_cases([ts[0], ts[8], ts[9]]): check_K(c, cls, loc(f), tc[0], tc[1], tc[2], asg)
    # log K as a function of temperature
    cls = "Reaction_LogK_fT"; R = sym("R"); Tr = getter(M, "ThermoFun::Reaction::referenceT", R)
    ref = getter(M, "ThermoFun::Reaction::thermoReferenceProperties", R); I0 = Interp(M)
    st = lambda n: cmp_("==", I0.getf(I0.getf(I0.getf(ref, "reaction_" + n), "sta"), "first"), ZERO)
    def rec(nA, nC):
        I = Interp(M); TPm = sym("TP")
        TPm = I.setf(TPm, "reaction_logK_fT_coeff", mk("list", *[sym("A%d" % i) for i in range(nA)]))
        TPm = I.setf(TPm, "reaction_Cp_fT_coeff", mk("list", *[sym("b%d" % i) for i in range(nC)]))
        return with_getter(M, R, "ThermoFun::Reaction::thermoParameters", TPm)
    def go(m, nA, nC, defd, key, want):
        facts = []
        for n in ("enthalpy", "entropy", "gibbs_energy", "heat_capacity_cp"):
            facts.append(lnot(st(n)) if n in defd else st(n))
        f, I, v, ts = run_model(M, cls, ["T", "P", enumval(M, TM, m)], S=rec(nA, nC), fields=RPN, facts=facts, c=c)
        n = 0
        # the status of a computed scalar: defined, as its operands are (S02)
        isst = lambda k: k[0] == "cmp" and k[2][0] == "fld" and k[2][2] == "first" and k[2][1][0] == "fld" and k[2][1][2] == "sta"
        for _ in range(8):
            cs = {k for t in ts for k in conds_in(t) if isst(k) and k[2][1][1][0] not in ("fld", "sym")}
            if not cs: break
            for k in cs: ts = [assume(t, k, k[1] == "!=") for t in ts]
        # isolated zero enthalpies leave U and A undefined
        zero = lambda k, vv: k[0] == "cmp" and k[1] in ("==", "!=") and k[3] == ZERO and not isst(k) and (k[1] == "==") == vv
        for asg, tc in consistent_cases(ts[:7] + ts[8:]):
            if on_point(asg) or any(zero(*x) for x in asg): continue
            n += 1
            fs = [nf(t) for t in tc[:7]]
            for name, r in relations(fs, tt, pt):
                if name not in want: continue
                a, b = r()
                c.ob(peq(a, b), "%s:%s" % (key, name), loc(f), "%s: %s when %s" % (key, name, cname(asg)[:200]), "difference: " + pshow(padd(a, b, -1))[:500])
            check_K(c, key, loc(f), tc[0], tc[7], tc[8], asg)
        c.need(n, "cases of " + key, 1)
        return f, ts
    full = ("U = H - PV", "A = U - TS", "S = -dG/dT", "Cp = dH/dT", "Cp = T dS/dT", "d(G-H+TS)/dP = 0")
    noCp = tuple(x for x in full if "Cp" not in x)
    for m in ("CTM_LGK", "CTM_LGX"):
        go(m, 7, 0, ("enthalpy", "entropy", "gibbs_energy"), m + " from log K coefficients", full)
        go(m, 4, 0, ("enthalpy", "entropy"), m + " from four log K coefficients", full)
        for defd in (("enthalpy", "entropy"), ("enthalpy", "gibbs_energy"), ("entropy", "gibbs_energy")):
            f, ts = go(m, 0, 5, defd, m + " from Cp coefficients", full)
            at = [nf(rewrite(t, lambda x: Tr if x == T else None)) for t in ts[:3]]
            if "entropy" in defd: c.ob(peq(at[2], nf(I0.getf(ref, "reaction_entropy"))), m + ":reference:entropy", loc(f), "the entropy at the reference temperature is the reference value", pshow(at[2])[:300])
            if "enthalpy" in defd: c.ob(peq(at[1], nf(I0.getf(ref, "reaction_enthalpy"))), m + ":reference:enthalpy", loc(f), "the enthalpy at the reference temperature is the reference value", pshow(at[1])[:300])
            if "gibbs_energy" in defd: c.ob(peq(at[0], nf(I0.getf(ref, "reaction_gibbs_energy"))), m + ":reference:gibbs", loc(f), "the Gibbs energy at the reference temperature is the reference value", pshow(at[0])[:300])
        f, ts = go(m, 0, 3, ("enthalpy", "entropy"), m + " from three Cp coefficients", full)
        cp = add(add(sym("b0"), mul(sym("b1"), T)), div(sym("b2"), mul(T, T)))
        c.ob(equal(ts[3], cp) is True, m + ":Cp", loc(f), "the heat capacity of reaction is the given polynomial", tshow(ts[3])[:300])
    for defd in (("enthalpy", "entropy"), ("enthalpy", "gibbs_energy"), ("entropy", "gibbs_energy")):
        go("CTM_EK2", 0, 0, defd, "CTM_EK2", noCp)
        go("CTM_EK3", 0, 0, defd, "CTM_EK3 without heat capacity", noCp)
        f, ts = go("CTM_EK3", 0, 0, defd + ("heat_capacity_cp",), "CTM_EK3", full)
        at = [nf(rewrite(t, lambda x: Tr if x == T else None)) for t in ts[:3]]
        for i, n in enumerate(("gibbs_energy", "enthalpy", "entropy")):
            if n in defd: c.ob(peq(at[i], nf(I0.getf(ref, "reaction_" + n))), "CTM_EK3:reference:" + n, loc(f), "%s at the reference temperature is the reference value" % n, pshow(at[i])[:300])
    for m in ("CTM_EK0", "CTM_EK1"): go(m, 0, 0, ("gibbs_energy",), m, ())

@rule("T06")
def T06(M, c):
    """The conversions between heat-capacity and log K coefficients of a reaction: the coefficients they store and the reference properties they
    return, as terms, against the log K function, its derivatives and the temperature extrapolation models."""
    R0 = sym("R"); I0 = Interp(M); RL = num(Fr("8.31451") * Fr(math_log10()))
    Tr = getter(M, "ThermoFun::Reaction::referenceT", R0); ref = getter(M, "ThermoFun::Reaction::thermoReferenceProperties", R0)
    b = [sym("b%d" % i) for i in range(5)]; A = [sym("A%d" % i) for i in range(7)]
    lk = lambda a, t: [nf(x) for x in (add(add(add(add(add(add(a[0], mul(a[1], t)), div(a[2], t)), mul(a[3], fn("log", t))), div(a[4], mul(t, t))), mul(a[5], mul(t, t))), div(a[6], powt(t, num(Fr(1, 2))))),)][0]
    cpf = lambda k, t: nf(add(add(add(add(k[0], mul(k[1], t)), div(k[2], mul(t, t))), div(k[3], powt(t, num(Fr(1, 2))))), mul(k[4], mul(t, t))))
    def rec(la, lb, mt=None):
        I = Interp(M); x = sym("TP")
        x = I.setf(x, "reaction_logK_fT_coeff", mk("list", *la)); x = I.setf(x, "reaction_Cp_fT_coeff", mk("list", *lb))
        r = with_getter(M, R0, "ThermoFun::Reaction::thermoParameters", x)
        return with_getter(M, r, "ThermoFun::Reaction::method_T", enumval(M, TM, mt)) if mt else r
    def stored(I, n):
        t = I.getf(getter(M, "ThermoFun::Reaction::thermoParameters", I.this()), n); return [I.geti(t, num(i)) for i in range(7 if "logK" in n else 5)]
    def props(I, v): return [I.getf(v, "reaction_" + x) for x in ("gibbs_energy", "enthalpy", "entropy", "heat_capacity_cp")] + [I.getf(v, "ln_equilibrium_constant"), I.getf(v, "log_equilibrium_constant")]
    def fns(a):   # G, H, S, Cp of the log K function at every temperature
        k = lk(a, T); nT = nf(T); r = nf(RL)
        G = pscale(pmul(pmul(k, nT), r), -1); S = pscale(pdiff(G, T), -1); H = padd(G, pmul(nT, S)); return G, H, S, pdiff(H, T)
    at = lambda p: nf(rewrite(unnf(p), lambda x: Tr if x == T else None))
    def same(p, q, key, text): c.ob(peq(p, q, 1e-7), key, where, text, "difference: " + pshow(padd(p, q, -1))[:400])
    n = 0
    for name, r, src in (("convert_CpfT_to_logKfT", rec([], b), "Cp"), ("convert_logKfT_toCpfT", rec(A, [], "CTM_LGK"), "logK")):
        f = M.one("ThermoFun::Reaction::" + name); where = loc(f); I = Interp(M); v = I.run(f, this=r)
        c.analysed.update({e["fn"]["f"] for e in I.events if e.get("fn")})
        a, k = stored(I, "reaction_logK_fT_coeff"), stored(I, "reaction_Cp_fT_coeff")
        if src == "Cp":
            for i in range(5): same(nf(k[i]), nf(b[i]), name + ":kept", "the heat capacity coefficients are kept")
        else:
            for i in range(7): same(nf(a[i]), nf(A[i]), name + ":kept", "the log K coefficients are kept")
        G, H, S, Cp = fns(a)
        same(Cp, cpf(k, T), name + ":Cp", "%s: the stored heat capacity coefficients are those of the stored log K function" % name)
        got = props(I, v)
        for t, e, nm in zip(got, [G, H, S, Cp], ("gibbs_energy", "enthalpy", "entropy", "heat_capacity_cp")):
            same(nf(t), at(e), name + ":reference:" + nm, "%s: the returned %s is that of the log K function at the reference temperature" % (name, nm)); n += 1
        if src == "Cp":
            same(nf(got[1]), nf(I0.getf(ref, "reaction_enthalpy")), name + ":enthalpy", "the reference enthalpy is preserved")
            same(nf(got[2]), nf(I0.getf(ref, "reaction_entropy")), name + ":entropy", "the reference entropy is preserved")
        same(nf(got[5]), at(lk(a, T)), name + ":log K", "%s: log K is the log K function at the reference temperature" % name)
        same(nf(got[4]), pscale(nf(got[5]), Fr(1 / 0.43429448190325182765)), name + ":ln K", "%s: ln K = ln 10 * log K" % name)
    # coefficients of the temperature extrapolations
    fc = M.one("ThermoFun::Reaction::calc_logK_fT_coefficients"); where = loc(fc)
    st = lambda q: lnot(cmp_("==", I0.getf(I0.getf(I0.getf(ref, "reaction_" + q), "sta"), "first"), ZERO))
    for m in ("CTM_EK2", "CTM_EK3"):
        I = Interp(M); v = I.run(fc, this=rec([], [], m)); a = [I.geti(v, num(i)) for i in range(7)]
        f, I2, v2, ts = run_model(M, "Reaction_LogK_fT", ["T", "P", enumval(M, TM, m)], S=rec([], [], m), fields=RPN, facts=[st(q) for q in ("enthalpy", "entropy", "gibbs_energy", "heat_capacity_cp")])
        same(lk(a, T), nf(ts[9]), "coefficients:" + m, "the log K coefficients of %s give the log K of that extrapolation at every temperature" % m); n += 1
    c.need(n, "converted properties", 10)

def math_log10():
    import math
    return math.log(10)
def unnf(p):
    """a normal form back as a term"""
    def at(i):
        a = atomof(i)
        if a[0] == "sum": return unnf(dict(a[1]))
        if a[0] == "exp": return fn("exp", at(a[1]) if isinstance(a[1], int) else unnf(dict(a[1])))
        if a[0] == "log": return fn("log", at(a[1]) if isinstance(a[1], int) else unnf(dict(a[1])))
        return a
    r = ZERO
    for m, k in p.items():
        t = num(k)
        for i, e in m: t = mul(t, powt(at(i), num(e)))
        r = add(r, t)
    return r
