"""Water: Helmholtz equations of state, thermodynamic state, dielectric constant and Born functions, ideal gas."""
from registry import rule
from model import *
from gsa import *
from terms import *
from rules.engine import *
from rules.thermo import *
import terms as _t

D = sym("D")
HF = ["helmholtz", "helmholtzT", "helmholtzD", "helmholtzTT", "helmholtzTD", "helmholtzDD", "helmholtzTTT", "helmholtzTTD", "helmholtzTDD", "helmholtzDDD"]

def run_free(M, c, f, args, **kw):
    I = Interp(M, **kw); v = I.run(f, args=args)
    c.analysed.update({e["fn"]["f"] for e in I.events if e.get("fn")}); c.analysed.add(f["f"])
    return I, v

def by_ptype(f, **kinds):
    """arguments of f, by the type its parameters mention"""
    out = []
    for p in f["params"]:
        for k, v in kinds.items():
            if k in p["t"]: out.append(v); break
        else: raise AnalysisError("unexpected parameter %s of %s" % (p["t"], f["f"]))
    return out

@rule("T04")
def T04(M, c):
    """The ten fields of both Helmholtz equations of state as value-graph terms of T and density with all tabulated constants: each
    derivative field against the symbolic derivative of the field below it, with respect to temperature and to density."""
    n = 0
    _t.lazy(True)
    try:
        for nm in ("waterHelmholtzStateHGK", "waterHelmholtzStateWagnerPruss"):
            f = free(M, nm); I, v = run_free(M, c, f, [T, D])
            d = {x: nf(I.getf(v, x)) for x in HF}
            for x in HF[1:]:
                for w, s in (("T", T), ("D", D)):
                    if w not in x[9:]: continue
                    y = "helmholtz" + x[9:].replace(w, "", 1)
                    if y not in d: y = "helmholtz" + "".join(sorted(x[9:].replace(w, "", 1), reverse=True))
                    q = pdiff(d[y], s, {}); n += 1
                    c.ob(peq(d[x], q), "%s:%s:%s" % (nm, x, w), loc(f), "%s: %s is the derivative of %s with respect to %s" % (nm, x, y, "temperature" if w == "T" else "density"), "difference: " + pshow(padd(d[x], q, -1))[:400])
    finally: _t.lazy(False)
    c.need(n, "derivative fields", 24)
    # the pressure belonging to a density comes from the same equation of state, as density^2 dF/dD
    for nm, eos in (("waterPressureHGK", "waterHelmholtzStateHGK"), ("waterPressureWagnerPruss", "waterHelmholtzStateWagnerPruss")):
        f = free(M, nm); e = free(M, eos)
        I, v = run_free(M, c, f, [T, D], opaque=lambda g: g["u"] == e["u"])
        at = [x for x in subterms(v) if x[0] == "fld" and x[2] == "helmholtzD"]
        want = mul(mul(D, D), at[0]) if at else ZERO
        c.ob(bool(at) and equal(v, want) is True and eos in tshow(at[0]) and tshow(at[0]).count("T") >= 1 and depends(at[0], T) and depends(at[0], D), nm, loc(f), "%s is density^2 times the density derivative of %s at the same T and density" % (nm, eos), tshow(v)[:300])

def wh_tables(I):
    h = lambda x: mk("fld", sym("wh"), x)
    tt, dd = {}, {}
    for x in HF:
        for w, tb in (("T", tt), ("D", dd)):
            k = x[9:] + w; k = "".join(sorted(k, reverse=True))
            tb[h(x)] = h("helmholtz" + k) if "helmholtz" + k in HF else sym("F_" + k)
    return h, tt, dd

WTP = dict(pressureT=("pressure", "T"), pressureD=("pressure", "D"), pressureDD=("pressureD", "D"), pressureTD=("pressureT", "D"), pressureTT=("pressureT", "T"))

@rule("T07")
def T07(M, c):
    """The thermodynamic state computed from any Helmholtz energy F(T, D): every field against the derivatives of F, implicit derivatives of the
    density at constant pressure, and the potentials' relations; then the published water records as linear functions of that state."""
    f = free(M, "waterThermoState"); where = loc(f)
    I, v = run_free(M, c, f, by_ptype(f, Temperature=T, Pressure=P, ThermoScalar=D, WaterHelmholtzState=sym("wh")))
    h, tt, dd = wh_tables(I)
    g = {x: nf(I.getf(v, x)) for x in list(WTP) + ["pressure", "density", "densityT", "densityP", "densityTT", "densityTP", "densityPP", "volume", "entropy", "helmholtz", "internal_energy", "enthalpy", "gibbs", "cv", "cp"]}
    FT = nf(h("helmholtzT")); nT, nD = nf(T), nf(D)
    Pexp = mul(mul(D, D), h("helmholtzD"))
    atP = lambda p: nf(rewrite(unnf(p), lambda x: Pexp if x == P else None))
    dT = lambda p: pdiff(p, T, tt); dD = lambda p: pdiff(p, D, dd)
    rT, rP = g["densityT"], g["densityP"]
    cT = lambda p: padd(dT(p), pmul(dD(p), rT)); cP = lambda p: pmul(dD(p), rP)     # at constant pressure / temperature
    def ob(key, a, b, text): c.ob(peq(a, b), "state:" + key, where, text, "difference: " + pshow(padd(a, b, -1))[:400])
    ob("pressure", g["pressure"], nf(P), "the pressure is the given one"); ob("density", g["density"], nD, "the density is the given one")
    pr = nf(Pexp); base = {"pressure": pr}
    for x, (y, w) in WTP.items():
        e = (dT if w == "T" else dD)(base[y] if y in base else g[y]); ob(x, g[x], e, "%s is d(%s)/d%s" % (x, y, w))
    one = pconst(Fr(1))
    ob("densityT", padd(g["pressureT"], pmul(g["pressureD"], rT)), {}, "densityT keeps the pressure constant"); ob("densityP", pmul(g["pressureD"], rP), one, "densityP inverts pressureD")
    ob("densityTT", g["densityTT"], cT(rT), "densityTT is d(densityT)/dT at constant pressure"); ob("densityTP", g["densityTP"], cP(rT), "densityTP is d(densityT)/dP"); ob("densityPP", g["densityPP"], cP(rP), "densityPP is d(densityP)/dP")
    ob("volume", pmul(g["volume"], nD), one, "the volume is 1/density"); ob("helmholtz", g["helmholtz"], nf(h("helmholtz")), "the Helmholtz energy is the given one")
    ob("entropy", g["entropy"], pscale(FT, -1), "S = -dF/dT"); ob("internal_energy", g["internal_energy"], padd(g["helmholtz"], pmul(nT, g["entropy"])), "U = F + TS")
    ob("enthalpy", g["enthalpy"], padd(g["internal_energy"], pmul(nf(P), g["volume"])), "H = U + PV"); ob("gibbs", g["gibbs"], padd(g["enthalpy"], pmul(nT, g["entropy"]), -1), "G = H - TS")
    # with P = D^2 dF/dD
    H, G, S = atP(g["enthalpy"]), atP(g["gibbs"]), atP(g["entropy"])
    ob("cv", g["cv"], pmul(nT, dT(S)), "Cv = T dS/dT at constant density"); ob("cp", atP(g["cp"]), pmul(nT, cT(S)), "Cp = T dS/dT at constant pressure"); ob("cpH", atP(g["cp"]), cT(H), "Cp = dH/dT at constant pressure")
    ob("gibbsT", cT(G), pscale(S, -1), "S = -dG/dT at constant pressure"); ob("gibbsP", cP(G), g["volume"], "V = dG/dP at constant temperature")
    # published records
    w = lambda x: mk("fld", sym("wt"), x)
    t2 = {w("gibbs"): neg(w("entropy")), w("enthalpy"): w("cp"), w("entropy"): div(w("cp"), T), w("volume"): neg(div(w("densityT"), mul(w("density"), w("density")))), w("density"): w("densityT"), w("cp"): sym("cpT")}
    t2[w("internal_energy")] = sub(w("cp"), mul(P, t2[w("volume")]))
    p2 = {w("gibbs"): w("volume"), w("entropy"): div(w("densityT"), mul(w("density"), w("density"))), w("density"): w("densityP"), w("volume"): neg(div(w("densityP"), mul(w("density"), w("density")))), w("cp"): sym("cpP")}
    p2[w("enthalpy")] = add(w("volume"), mul(T, p2[w("entropy")])); p2[w("internal_energy")] = sub(mul(T, p2[w("entropy")]), mul(P, p2[w("volume")]))
    t2[w("densityT")] = w("densityTT"); p2[w("densityT")] = w("densityTP"); t2[w("densityP")] = w("densityTP"); p2[w("densityP")] = w("densityPP")
    for cls, st in (("WaterHGKreaktoro", "waterThermoStateHGK"), ("WaterWP95reaktoro", "waterThermoStateWagnerPruss")):
        sf = free(M, st); calls = []
        def hook(I, n, fn_, args, obj, sf=sf, calls=calls):
            if n.get("u") == sf["u"] and n["k"] == "Call":
                calls.append([I.ev(x) for x in kids(n) if x is not None]); return sym("wt")
        sat = ("ThermoFun::waterSaturatedPressureWagnerPruss",)
        hit = []
        for f in [x for x in M.fn.values() if x.get("cls") == "ThermoFun::" + cls and x.get("access") == "public" and x["n"] in ("thermoPropertiesSubstance", "propertiesSolvent")]:
            del calls[:]
            I = Interp(M, hook=hook, opaque=lambda q: q["f"] in sat); r = I.run(f, this=instance(M, cls, sym("S")), args=[T, P] + [sym("arg%d" % i) for i in range(2, len(f["params"]))], facts=[lnot(cmp_("==", P, ZERO))])
            c.analysed.update({e["fn"]["f"] for e in I.events if e.get("fn")}); hit.append(f["n"]); wh = loc(f)
            ok = len(calls) == 1 and equal(calls[0][0], T) is True and equal(calls[0][1], P) is True
            c.ob(ok, cls + ":" + f["n"] + ":state", wh, "%s evaluates %s at the given temperature and pressure" % (cls, st), str([[tshow(x) for x in y] for y in calls])[:300])
            ob2 = lambda key, a, b, text: c.ob(peq(a, b), "%s:%s" % (cls, key), wh, cls + ": " + text, "difference: " + pshow(padd(a, b, -1))[:400])
            if f["n"] == "propertiesSolvent":
                q = {x: nf(I.getf(r, x)) for x in ("density", "densityT", "densityP", "densityTT", "densityTP", "densityPP", "pressureT", "pressureD", "pressureTT", "pressureTD", "pressureDD", "pressure", "Alpha", "Beta", "dAldT")}
                for x in q:
                    if x[0].islower() and x != "dAldT": ob2("solvent:" + x, q[x], nf(w(x)), "%s is that of the state" % x)
                ob2("solvent:Alpha", pmul(q["Alpha"], q["density"]), pscale(pdiff(q["density"], T, t2), -1), "Alpha = -(1/D) dD/dT")
                ob2("solvent:Beta", pmul(q["Beta"], q["density"]), pdiff(q["density"], P, p2), "Beta = (1/D) dD/dP"); ob2("solvent:dAldT", q["dAldT"], pdiff(q["Alpha"], T, t2), "dAldT = dAlpha/dT")
            else:
                G, H, S, C, V, U, A, Cv = [nf(I.getf(r, x)) for x in SP]; Vm = pscale(V, Fr(1, 100000))
                ob2("S", S, pscale(pdiff(G, T, t2), -1), "S = -dG/dT"); ob2("V", Vm, pdiff(G, P, p2), "V = dG/dP"); ob2("Cp", C, pdiff(H, T, t2), "Cp = dH/dT"); ob2("CpS", C, pmul(nT, pdiff(S, T, t2)), "Cp = T dS/dT")
                e = padd(padd(G, H, -1), pmul(nT, S)); ob2("GHS", pdiff(e, T, t2), {}, "G - H + TS is a constant"); ob2("GHSp", pdiff(e, P, p2), {}, "G - H + TS is a constant")
                e = padd(padd(U, H, -1), pmul(nf(P), Vm)); ob2("U", pdiff(e, T, t2), {}, "U - (H - PV) is a constant"); ob2("Up", pdiff(e, P, p2), {}, "U - (H - PV) is a constant")
                e = padd(padd(A, U, -1), pmul(nT, S)); ob2("A", pdiff(e, T, t2), {}, "A - (U - TS) is a constant"); ob2("Ap", pdiff(e, P, p2), {}, "A - (U - TS) is a constant")
                mm = nf(div(unnf(C), w("cp"))); ob2("Cv", Cv, pmul(mm, nf(w("cv"))), "Cv is that of the state")
        c.need(len(hit), "published members of " + cls, 2)

EPAIRS = dict(epsilonT=("epsilon", "T"), epsilonP=("epsilon", "P"), epsilonTT=("epsilonT", "T"), epsilonTP=("epsilonT", "P"), epsilonPP=("epsilonP", "P"))
def born(c, key, where, e, lam, have, scale=None):
    """Born functions from the dielectric constant's fields; e: name -> normal form"""
    s = scale or {}
    k = lambda x: pscale(e[x], s.get(x, Fr(1)))
    e1 = ppow(e["epsilon"], Fr(-1)); e2 = pmul(e1, e1)
    want = dict(bornZ=lambda: pscale(e1, -1), bornY=lambda: pmul(k("epsilonT"), e2), bornQ=lambda: pmul(k("epsilonP"), e2),
                bornX=lambda: padd(pmul(k("epsilonTT"), e2), pscale(pmul(pmul(e["bornY"], e["bornY"]), e["epsilon"]), 2), -1),
                bornU=lambda: padd(pmul(k("epsilonTP"), e2), pscale(pmul(pmul(e["bornY"], e["bornQ"]), e["epsilon"]), 2), -1),
                bornN=lambda: padd(pmul(k("epsilonPP"), e2), pscale(pmul(pmul(e["bornQ"], e["bornQ"]), e["epsilon"]), 2), -1))
    n = 0
    for x in have:
        a = e[x]; b = want[x](); n += 1
        c.ob(peq(a, b), "%s:%s" % (key, x), where, "%s: %s is the derivative of -1/epsilon it stands for" % (key, x), "difference: " + pshow(padd(a, b, -1))[:400])
    return n

@rule("T08")
def T08(M, c):
    """The dielectric constant's derivative fields against its symbolic derivatives through the density's derivatives, the Born functions against
    the derivatives of -1/epsilon, and for the models that differentiate numerically the central difference quotients of one function."""
    f = free(M, "waterElectroStateJohnsonNorton"); w = lambda x: mk("fld", sym("wt"), x)
    I, v = run_free(M, c, f, by_ptype(f, Temperature=T, WaterThermoState=sym("wt"), int=sym("state")))
    tt = {w("density"): w("densityT"), w("densityT"): w("densityTT"), w("densityP"): w("densityTP")}; pt = {w("density"): w("densityP"), w("densityT"): w("densityTP"), w("densityP"): w("densityPP")}
    B = ("bornZ", "bornY", "bornQ", "bornX", "bornU", "bornN")
    d = {x: nf(I.getf(v, x)) for x in list(EPAIRS) + ["epsilon"] + list(B)}
    for x, (y, s) in EPAIRS.items():
        q = pdiff(d[y], T if s == "T" else P, tt if s == "T" else pt)
        c.ob(peq(d[x], q), "waterElectroStateJohnsonNorton:" + x, loc(f), "%s is d(%s)/d%s" % (x, y, s), "difference: " + pshow(padd(d[x], q, -1))[:400])
    # the Born functions in terms of the fields
    sub_ = {}
    fields = {x: sym("e:" + x) for x in list(EPAIRS) + ["epsilon"]}
    byp = {}
    for x in fields: byp[I.getf(v, x)] = fields[x]
    e = {}
    for x in B: e[x] = nf(rewrite(I.getf(v, x), lambda t: byp.get(t)))
    for x in fields: e[x] = nf(fields[x])
    if all(not any(depends(z, T) for m in e[x] for z, _ in m) for x in B): born(c, "waterElectroStateJohnsonNorton", loc(f), e, None, B)
    else: born(c, "waterElectroStateJohnsonNorton", loc(f), d, None, B)
    # the published record of the same model, from the solvent's densities
    z = lambda x: mk("fld", sym("ps"), x)
    tt = {z("density"): z("densityT"), z("densityT"): z("densityTT"), z("densityP"): z("densityTP")}; pt = {z("density"): z("densityP"), z("densityT"): z("densityTP"), z("densityP"): z("densityPP")}
    g = model_fn(M, "WaterJNreaktoro", "electroPropertiesSolvent")
    I = Interp(M, opaque=lambda q: "waterSaturated" in q["n"]); r = I.run(g, this=instance(M, "WaterJNreaktoro", sym("S")), args=by_ptype2(g, [T, P], PropertiesSolvent=sym("ps"), int=sym("state")), facts=[lnot(cmp_("==", P, ZERO))])
    c.analysed.update({q["fn"]["f"] for q in I.events if q.get("fn")})
    d = {x: nf(I.getf(r, x)) for x in list(EPAIRS) + ["epsilon"] + list(B)}
    for x, (y, s) in EPAIRS.items():
        q = pdiff(d[y], T if s == "T" else P, tt if s == "T" else pt)
        c.ob(peq(d[x], q), "WaterJNreaktoro:" + x, loc(g), "%s is d(%s)/d%s for the solvent's density" % (x, y, s), "difference: " + pshow(padd(d[x], q, -1))[:400])
    byp = {}; 
    for x in fields: byp[I.getf(r, x)] = fields[x]
    e2 = {x: nf(rewrite(I.getf(r, x), lambda t: byp.get(t))) for x in B}
    for x in fields: e2[x] = nf(fields[x])
    if any(depends(w_, T) for x in B for m in e2[x] for w_, _ in m): e2 = d
    born(c, "WaterJNreaktoro", loc(g), e2, None, B)
    # the models that differentiate numerically
    for cls in ("WaterElectroSverjensky2014", "WaterElectroFernandez1997"):
        g = model_fn(M, cls, "electroPropertiesSolvent"); asked = []
        inner = {q["u"] for q in M.fn.values() if not q.get("cls") and len(q["params"]) == 2 and "Temperature" in q["params"][0]["t"] and "ThermoScalar" in q["params"][1]["t"] and "ThermoScalar" in q["rt"]}
        def hook(I, n, fn_, args, obj):
            if n["k"] == "Call" and n.get("u") in inner:
                return mk("fn", "EPS:" + n["f"], *[unnf(nf(I.ev(x))) for x in kids(n)])
            if n["k"] not in ("MCall", "Call") or not n.get("rt", n.get("t", "")).endswith("PropertiesSolvent") or n.get("t", "").endswith("ElectroPropertiesSolvent"): return None
            v = [I.ev(x) for x in kids(n)[(1 if n["k"] == "MCall" else 0):][:2] if x is not None]
            t = mk("fn", "SOLVENT", unnf(nf(v[0])), unnf(nf(v[1]))); asked.append(t); return t
        I = Interp(M, hook=hook, opaque=opaque_db); r = I.run(g, this=instance(M, cls, sym("S")), args=[T, P] + [sym("state")] * (len(g["params"]) - 2))
        c.analysed.update({q["fn"]["f"] for q in I.events if q.get("fn")})
        canon1 = lambda t: rewrite(t, lambda x: mk("fn", "SOLVENT", unnf(nf(x[2])), unnf(nf(x[3]))) if x[:2] == ("fn", "SOLVENT") else None)
        def canon(t):
            t = canon1(t)
            return rewrite(t, lambda x: mk("fn", x[1], *[unnf(nf(y)) for y in x[2:]]) if x[0] == "fn" and x[1].startswith("EPS:") else None)
        have = {x: I.getf(r, x) for x in ("epsilon", "epsilonT", "epsilonTT", "epsilonP", "epsilonPP", "bornZ", "bornY", "bornQ", "bornX")}
        ok = any(x[:2] == ("fn", "SOLVENT") and x[2] == T and x[3] == P for x in subterms(have["epsilon"]))
        c.ob(ok, cls + ":epsilon", loc(g), "%s: the dielectric constant is that of the density at the given temperature and pressure" % cls, tshow(have["epsilon"])[:300])
        at = lambda a, b: canon(rewrite(have["epsilon"], lambda x: a if x == T else b if x == P else None))
        ok = any(x[:2] == ("fn", "SOLVENT") and x[2] == T and x[3] == P for x in subterms(have["epsilon"]))
        c.ob(ok, cls + ":epsilon", loc(g), "%s: the dielectric constant is that of the density at the given temperature and pressure" % cls, tshow(have["epsilon"])[:300])
        Ts = sorted({x[2] for x in asked if x[3] == P and x[2] != T}, key=str); Ps = sorted({x[3] for x in asked if x[2] == T and x[3] != P}, key=str)
        if len(Ts) != 2 or len(Ps) != 2: c.ob(False, cls + ":points", loc(g), "%s: the solvent is asked for two temperatures and two pressures around the given ones" % cls, str([tshow(x) for x in asked])); continue
        bar = num(100000)
        for w, (a, b), k in (("T", Ts, ONE), ("P", Ps, bar)):
            x0 = T if w == "T" else P
            c.ob(peq(padd(nf(a), nf(b)), pscale(nf(x0), 2)), cls + ":centre" + w, loc(g), "%s: the two %ss lie symmetrically around the given one" % (cls, "temperature" if w == "T" else "pressure"), tshow(a) + ", " + tshow(b))
            ea, eb = (at(a, P), at(b, P)) if w == "T" else (at(T, a), at(T, b))
            h = div(sub(a, b), k)
            q1 = div(sub(ea, eb), h); q2 = div(sub(add(ea, eb), mul(num(2), have["epsilon"])), powt(div(h, num(2)), num(2)))
            for nm, q in (("epsilon" + w, q1), ("epsilon" + w * 2, q2)):
                A, Bq = nf(canon(have[nm])), nf(canon(q))
                c.ob(peq(A, Bq), cls + ":" + nm, loc(g), "%s: %s is the central difference quotient of epsilon" % (cls, nm), "difference: " + pshow(padd(A, Bq, -1))[:400])
        byp = {have[x]: sym("e:" + x) for x in have if x[0] == "e"}
        e = {x: nf(sym("e:" + x)) for x in have if x[0] == "e"}
        for x in ("bornZ", "bornY", "bornQ", "bornX"): e[x] = nf(rewrite(have[x], lambda t: byp.get(t)))
        for x in ("bornZ", "bornY", "bornQ", "bornX"):
            if any(depends(w_, T) for m in e[x] for w_, _ in m):          # not in terms of the fields themselves: compare the expanded terms
                e = {y: nf(canon(have[y])) for y in have}; break
        born(c, cls, loc(g), e, None, ("bornZ", "bornY", "bornQ", "bornX"), scale=dict(epsilonP=Fr(1, 100000)))

def by_ptype2(f, dbl, **kinds):
    out = []; dbl = list(dbl)
    for p in f["params"]:
        t = p["t"].replace("const ", "").replace("&", "").strip()
        if t == "double": out.append(dbl.pop(0)); continue
        for k, v in kinds.items():
            if k in t: out.append(v); break
        else: raise AnalysisError("unexpected parameter %s of %s" % (t, f["f"]))
    return out
def opaque_db(q): return q.get("cls", "").split("::")[-1] in ("Database", "ThermoEngine")

@rule("T09")
def T09(M, c):
    """The ideal gas record of water as terms of T: each field against the symbolic temperature derivative of the others."""
    f = model_fn(M, "WaterIdealGasWoolley")
    I = Interp(M); r = I.run(f, this=instance(M, "WaterIdealGasWoolley", sym("S")), args=[T, P] + [sym("arg")] * (len(f["params"]) - 2))
    c.analysed.update({q["fn"]["f"] for q in I.events if q.get("fn")})
    G, H, S, C, V, U, A, Cv = [nf(I.getf(r, x)) for x in SP]; nT = nf(T); k = "WaterIdealGasWoolley:"
    def ob(key, a, b, text): c.ob(peq(a, b), k + key, loc(f), text, "difference: " + pshow(padd(a, b, -1))[:400])
    dT = lambda p: pdiff(p, T, {})
    ob("S", S, pscale(dT(G), -1), "S = -dG/dT"); ob("Cp", C, dT(H), "Cp = dH/dT"); ob("CpS", C, pmul(nT, dT(S)), "Cp = T dS/dT")
    ob("G", G, padd(H, pmul(nT, S), -1), "G = H - TS"); ob("A", A, padd(U, pmul(nT, S), -1), "A = U - TS"); ob("Cv", Cv, dT(U), "Cv = dU/dT")
    e = padd(H, U, -1); ob("U", e, pmul(nT, dT(e)), "H - U is proportional to T"); ob("R", padd(C, Cv, -1), dT(e), "Cp - Cv is the same gas constant")
