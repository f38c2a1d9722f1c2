"""Rules on the engine's settings: conventions, solvent, pressure correction of reactions, the forms of a query."""
from registry import rule
from model import *
from gsa import *
from fractions import Fraction as F
from rules.engine import *
from rules.cache import leaves

T, P = sym("T"), sym("P")
RN = list(TPR)

def react(M, c, R, this):
    f = M.one("ThermoFun::ThermoEngine::thermoPropertiesReaction", lambda f: any("Reaction" in p["t"] for p in f["params"]))
    I = Interp(M, opaque=lambda g: "Database::" in g["f"], hook=chain(subst_hook({"ThermoPropertiesSubstance": "SUBSTANCE", "PropertiesSolvent": "SOLVENT"}), opaque_models))
    v = I.run(f, this=this, args=[T, P, R]); c.analysed.update({e["fn"]["f"] for e in I.events if e["fn"]})
    return f, I, v

def reaction(M, g=None, t=None, p=None):
    R = with_getter(M, sym("R"), REA + "methodGenEOS", enumval(M, G, g) if g else ZERO)
    R = with_getter(M, R, REA + "method_T", enumval(M, TM, t) if t else ZERO)
    return with_getter(M, R, REA + "method_P", enumval(M, PM, p) if p else ZERO)

ALLP = ["CPM_OFF", "CPM_ONE", "CPM_TWO", "CPM_TRI", "CPM_VBM", "CPM_CEH", "CPM_GAS", "CPM_PRSV", "CPM_HKF", "CPM_AKI", "CPM_INK"]

@rule("E11")
def E11(M, c):
    """Value-graph terms of a reaction's properties under every pressure method against those without one."""
    this = with_path(M, base_this(M, fallback_to_reference_properties=FALSE), settings_path(M, "conventions"), M_conv(M))
    R8 = num(F(831451, 100000)); n = 0
    for t in [x for x in RT if x != "CTM_MRB"]:
        g = None
        f, I, v0 = react(M, c, reaction(M, g, t, "CPM_OFF"), this)
        b = {x: I.getf(v0, x) for x in RN + ["ln_equilibrium_constant", "log_equilibrium_constant"]}
        for p in ("CPM_NUL", "CPM_CON"):
            Rr = reaction(M, g, t, p); f, I, v = react(M, c, Rr, this); n += 1
            Pr = getter(M, REA + "referenceP", Rr)
            VP = mul(b["reaction_volume"], div(sub(P, Pr), num(100000)))
            # the term of the model evaluation mentions the pressure method only in the record it is given
            back = lambda x: rewrite(x, lambda y: v0 if y == v_model else None)
            v_model = model_of(v)[1]; m0 = model_of(v0)[1]
            got = {x: rewrite(I.getf(v, x), lambda y: m0 if y == v_model else None) for x in b}
            def same(x, want, text):
                c.ob(equal(got[x], want) is True, "%s:%s:%s" % (t, p, x), loc(f), text, "computed: " + tshow(got[x])[:400])
            Gx, Hx = add(b["reaction_gibbs_energy"], VP), add(b["reaction_enthalpy"], VP)
            same("reaction_gibbs_energy", Gx, "the Gibbs energy of reaction grows by V (P - Pr)")
            same("reaction_enthalpy", Hx, "the enthalpy of reaction grows by V (P - Pr)")
            same("reaction_volume", b["reaction_volume"], "the volume of reaction is constant")
            for x in ("reaction_heat_capacity_cp", "reaction_heat_capacity_cv"): same(x, b[x], "%s does not depend on pressure" % x)
            S = div(sub(Hx, Gx), T); U = sub(Hx, mul(div(P, num(100000)), b["reaction_volume"]))
            same("reaction_entropy", S, "T S = H - G"); same("reaction_internal_energy", U, "U = H - P V"); same("reaction_helmholtz_energy", sub(U, mul(T, S)), "A = U - T S")
            lnk = sub(got["ln_equilibrium_constant"], b["ln_equilibrium_constant"]); lgk = sub(got["log_equilibrium_constant"], b["log_equilibrium_constant"])
            c.ob(equal(lnk, neg(div(VP, mul(R8, T)))) is True, "%s:%s:lnK" % (t, p), loc(f), "ln K changes by -V (P - Pr) / (R T)", tshow(lnk)[:300])
            c.ob(approx_ratio(lgk, div(VP, mul(R8, T)), -0.4342944819032518), "%s:%s:logK" % (t, p), loc(f), "log K changes by -V (P - Pr) / (R T ln 10)", tshow(lgk)[:300])
    for t in ("CTM_LGK", "CTM_DMD"):
        f, I, v0 = react(M, c, reaction(M, None, t, "CPM_OFF"), this); m0 = model_of(v0)[1]
        for p in ALLP:
            f, I, v = react(M, c, reaction(M, None, t, p), this); n += 1
            c.ob(model_of(v)[0] == model_of(v0)[0] and v[0] == v0[0] == "call", "none:%s:%s" % (t, p), loc(f), "no pressure correction is made with %s" % p, tshow(v)[:300])
    for p in ("CPM_NUL", "CPM_CON"):
        f, I, v = react(M, c, reaction(M, None, "CTM_MRB", p), this); n += 1
        c.ob(v[0] == "call" and model_of(v)[0] == "ReactionRyzhenkoBryzgalin", "mrb:" + p, loc(f), "the Ryzhenko-Bryzgalin model, which depends on pressure itself, is not corrected again", tshow(v)[:300])
    for p in [None, "CPM_NUL", "CPM_CON", "CPM_VKE"]:
        for t in (None, "CTM_LGK"):
            Rr = reaction(M, "CTPM_CON", t, p); f, I, v = react(M, c, Rr, this); n += 1
            c.ob(v == getter(M, REA + "thermoReferenceProperties", Rr), "constant:%s:%s" % (p, t), loc(f), "a reaction of constant properties has its reference properties whatever its other methods", tshow(v)[:300])
    c.need(n, "combinations of methods", 40)

def is_triple(t):
    """the triple point record that the database's conventions name"""
    if t[0] == "call" and str(t[1]).split("::")[-1] == "at" and len(t) == 4: t = ("idx", t[2], t[3])
    if t[0] != "idx": return False
    d = [y for y in subterms(t[1]) if y == mk("str", "NEA_HGK")] or "waterTripleData" in str(t[1])[:200]
    r = t[2]
    return bool(d) and r[0] == "fld" and r[2] == "water_triple_point_reference" and not any(y[0] == "rec" for y in subterms(r))

@rule("E12")
def E12(M, c):
    """Value-graph terms of a substance's properties under each convention, in every capitalisation, against those without."""
    comp = with_getter(M, sym("S"), SUB + "thermoCalculationType", enumval(M, "ThermoFun::SubstanceThermoCalculationType::type", "DCOMP"))
    comp = with_getter(M, comp, SUB + "symbol", mk("str", "X"))
    cl = lambda S, x: with_getter(M, S, SUB + "substanceClass", enumval(M, "ThermoFun::SubstanceClass::type", x))
    def meth(S, g=None, t=None, p=None):
        S = with_getter(M, S, SUB + "methodGenEOS", enumval(M, G, g) if g else ZERO)
        S = with_getter(M, S, SUB + "method_T", enumval(M, TM, t) if t else ZERO)
        return with_getter(M, S, SUB + "method_P", enumval(M, PM, p) if p else ZERO)
    solids = {"mineral": meth(cl(comp, "COMPONENT"), "CTPM_CPT", None, "CPM_VKE"), "aqueous solute": meth(cl(comp, "AQSOLUTE"), "CTPM_HKF", None, "CPM_VKE"), "gas": meth(cl(comp, "GASFLUID"), "CTPM_CPT", None, "CPM_PRSV"), "vapour": meth(cl(comp, "GASFLUID"), "CTPM_HKF", None, "CPM_GAS")}
    waters = {t: meth(cl(comp, "AQSOLVENT"), None, t, "CPM_VKE") for t in WAT}
    conv = settings_path(M, "conventions"); base = base_this(M, fallback_to_reference_properties=FALSE)
    dconv = settings_path(M, "database")
    def run(S, apparent, water):
        th = with_path(M, with_path(M, base, conv + ("apparent_properties",), mk("str", apparent)), conv + ("water_properties",), mk("str", water))
        f, I, v = run_substance(M, S, this=th, tags={"ThermoPropertiesSubstance": "SUBSTANCE", "ThermoPropertiesReaction": "REACTION", "PropertiesSolvent": "SOLVENT", "ElectroPropertiesSolvent": "ELECTRO"}); c.analysed.update({e["fn"]["f"] for e in I.events if e["fn"]})
        return f, I, v
    import gsa
    gsa.UNROLL = max(gsa.UNROLL, 40)      # names of conventions are compared letter by letter
    n = 0
    A0, W0 = "BENSON_HELGESON", "GEOCHEMICAL"
    # what a new engine and database use
    for cls, fl, want in (("EngineConventions", "apparent_properties", A0), ("EngineConventions", "water_properties", W0), ("DatabaseConventions", "water_triple_point_reference", "HKF_HGK_1974")):
        d = Interp(M).getf(mk("zero", "ThermoFun::" + cls), fl)
        c.ob(d == mk("str", want), "default:" + fl, "ThermoFun", "by default %s is %s" % (fl, want), tshow(d))
    forms = lambda x: [x, x.lower(), x.title(), x.swapcase()[:3] + x[3:]]
    near = lambda x: [x[:-1], x + "X", x.replace("_", " "), "", x[:-1] + "x"]
    for k, S in solids.items():
        f, I, v0 = run(S, A0, W0)
        for w in ("STEAM_TABLES", W0):
            for a in forms("BERMAN_BROWN") + near("BERMAN_BROWN"):
                if w == "STEAM_TABLES" and a not in ("BERMAN_BROWN", ""): continue
                f, I, v = run(S, a, w); n += 1; on = a.upper() == "BERMAN_BROWN"
                for x in TPR.values():
                    p, q = I.getf(v, x), I.getf(v0, x)
                    if on and x == "gibbs_energy":
                        el = [t for t in subterms(p) if t[0] == "call" and str(t[1]).endswith("elementalEntropyFormula")]
                        ok = len(set(el)) == 1 and equal(p, sub(q, mul(getter(M, SUB + "referenceT", S), el[0]))) is True and getter(M, SUB + "formula", S) in el[0]
                        c.ob(ok, "berman:%s" % k, loc(f), "Berman-Brown Gibbs energies (%s) are less by the reference temperature times the entropy of the elements in the formula" % k, tshow(p)[:300])
                    else: c.ob(equal(p, q) is True, "berman:%s:%s:%s" % (k, a, x), loc(f), "with the convention '%s', %s of a %s is what the models computed" % (a, x, k), tshow(p)[:300])
    TR = {"gibbs_energy": "Gtr", "enthalpy": "Htr", "entropy": "Str", "internal_energy": "Utr", "helmholtz_energy": "Atr"}
    for k, S in waters.items():
        f, I, v0 = run(S, A0, W0)
        if k != "CTM_WZD": c.ob(any(x[0] == "fld" and x[2] == "water_triple_point_reference" and not any(y[0] == "rec" for y in subterms(x)) for x in model_of(v0)[1][5:]), "triple:" + k, loc(f), "water's properties refer to the triple point that the database names", tshow(v0)[:200])
        for a in ("BERMAN_BROWN", A0):
            for w in forms("STEAM_TABLES") + near("STEAM_TABLES"):
                if a == "BERMAN_BROWN" and w not in ("STEAM_TABLES", ""): continue
                f, I, v = run(S, a, w); n += 1; on = w.upper() == "STEAM_TABLES"
                for x in TPR.values():
                    p, q = I.getf(v, x), I.getf(v0, x)
                    if on and x in TR:
                        ws = {t for t in subterms(p) if t[0] == "fld" and t[2] == TR[x] and is_triple(t[1])}
                        ok = len(ws) == 1 and equal(p, sub(q, list(ws)[0])) is True
                        c.ob(ok, "steam:%s:%s" % (k, x), loc(f), "steam table %s of water is less by the value at the triple point of the database's reference" % x, tshow(p)[:300])
                    else: c.ob(equal(p, q) is True, "steam:%s:%s:%s" % (k, w, x), loc(f), "with the convention '%s', %s of water is what the model computed" % (w, x), tshow(p)[:300])
    # the hydrogen ion and reaction-defined substances are not converted
    for what, S in (("H+", with_getter(M, solids["aqueous solute"], SUB + "symbol", mk("str", "H+"))),):
        for a in (A0, "BERMAN_BROWN"):
            f, I, v = run(S, a, "STEAM_TABLES"); n += 1
            for x in TPR.values(): c.ob(I.getf(v, x) == ZERO, "proton:%s" % x, loc(f), "%s of the hydrogen ion is zero under every convention" % x, tshow(I.getf(v, x))[:200])
        f, I, v = run_substance(M, S, this=base, raw=True)
        for x in TPR.values():
            t = I.getf(v, x); st = I.getf(I.getf(t, "sta"), "first") if t[0] == "rec" else None
            if st is not None and st[0] == "fld" and st[1][0] == "pair": st = st[1][1]
            c.ob(t[0] == "rec" and I.getf(t, "val") == ZERO and st is not None and st[0] == "num" and st != ZERO, "proton-defined:%s" % x, loc(f), "%s of the hydrogen ion is a defined value, zero" % x, tshow(t)[:200])
    rd = with_getter(M, solids["mineral"], SUB + "thermoCalculationType", enumval(M, "ThermoFun::SubstanceThermoCalculationType::type", "REACDC"))
    f, I, v0 = run(rd, A0, W0); f, I, v = run(rd, "BERMAN_BROWN", "STEAM_TABLES"); n += 1
    strip = lambda t: rewrite(t, lambda y: mk("sym", "CONVENTIONS") if y[0] == "rec" and y[1] == sym("this") else None)
    for x in TPR.values(): c.ob(not any(t[0] == "call" and str(t[1]).endswith("elementalEntropyFormula") for t in subterms(I.getf(v, x))) and not any(isinstance(t, tuple) and t[0] == "fld" and t[2] in TR.values() for t in subterms(I.getf(v, x))), "reacdc:" + x, loc(f), "properties derived from a reaction of converted substances are not converted again", tshow(I.getf(v, x))[:300])
    c.need(n, "conventions and substances", 60)

SOLV = {"CTPM_HKF": ("here", "electro"), "CTPM_HKFR": ("here", "electro"), "CTPM_HP98": ("ref", "here"), "CTPM_AN91": ("ref", "here")}
RSOLV = ["CTM_DMD", "CTM_DKR", "CTM_MRB"]
TAGS = {"ThermoPropertiesSubstance": "SUBSTANCE", "ThermoPropertiesReaction": "REACTION", "PropertiesSolvent": "SOLVENT", "ElectroPropertiesSolvent": "ELECTRO"}

@rule("E13")
def E13(M, c):
    """Value-graph terms of the solvent properties every model is given, of the choice of the solvent, and of the solvent's state."""
    comp = with_getter(M, sym("S"), SUB + "thermoCalculationType", enumval(M, "ThermoFun::SubstanceThermoCalculationType::type", "DCOMP"))
    comp = with_getter(M, comp, SUB + "symbol", mk("str", "X"))
    aq = enumval(M, "ThermoFun::SubstanceClass::type", "AQSOLVENT")
    solute = with_getter(M, comp, SUB + "substanceClass", enumval(M, "ThermoFun::SubstanceClass::type", "AQSOLUTE"))
    this = base_this(M, fallback_to_reference_properties=FALSE)
    this = with_path(M, this, settings_path(M, "conventions"), M_conv(M))
    def meth(S, g=None, t=None, p=None):
        S = with_getter(M, S, SUB + "methodGenEOS", enumval(M, G, g) if g else ZERO)
        S = with_getter(M, S, SUB + "method_T", enumval(M, TM, t) if t else ZERO)
        return with_getter(M, S, SUB + "method_P", enumval(M, PM, p) if p else ZERO)
    I0 = Interp(M); PREF = settings_path(M, "preferences"); n = 0
    want = sym("this")
    for x in PREF + ("solvent_symbol",): want = I0.getf(want, x)
    dbp = settings_path(M, "database"); db = sym("this")
    for x in dbp: db = I0.getf(db, x)
    def solvent(t, key, where):
        """the solvent evaluated is the one set, or if that is not stored an aqueous solvent of the database"""
        has = [k for k in conds_in(t) if k[0] == "cmp" and any(y[0] == "call" and str(y[1]).endswith("containsSubstance") and y[-1] == want for y in subterms(k))]
        a, b = t, t
        for k in has:
            pos = k[1] == "!="
            a = assume(a, k, pos); b = assume(b, k, not pos)
        c.ob(a == want, key + ":set", where, "the solvent that is set is used if the database has it", tshow(a)[:300])
        if t == want: c.fail(key + ":other", where, "without the set solvent in the database, an aqueous solvent of the database is used"); return
        cl = [k for k in subterms(b) if k[0] == "cmp" and k[1] in ("==", "!=") and aq in k[2:] and any(y[0] == "idx" for y in subterms(k))]
        def put(t, val): return rewrite(t, lambda y: (TRUE if (y[1] == "==") == val else FALSE) if y in cl else None)
        first = lambda t: any(y[0] == "fld" and y[2] == "first" and y[1][0] == "idx" for y in subterms(t))
        on, off = simplify(put(b, True)), simplify(put(b, False))
        c.ob(bool(cl) and first(on) and not first(off), key + ":other", where, "without the set solvent in the database, an aqueous solvent of the database is used", tshow(b)[:300])
    def simplify(t): return rewrite(t, lambda y: (y[2] if y[1] == TRUE else y[3]) if y[0] == "ite" and y[1] in (TRUE, FALSE) else None)
    M1 = num(-1)
    def evaluated(t, tag, Tt, Pt, key, where, what):
        ok = t[0] == "call" and t[1] == tag and t[2] == Tt and all(x == Pt for x in t[3:-2]) and len(t) >= 6
        c.ob(ok, key, where, what, tshow(t)[:300])
        if ok:
            solvent(t[-2], key, where)
            c.ob(t[-1] == M1, key + ":state", where, "the state of the solvent is left to its record", tshow(t[-1])[:100])
    for g, need in SOLV.items():
        f, I, v = run_substance(M, meth(solute, g, None, "CPM_VKE"), this=this, tags=TAGS); c.analysed.update({e["fn"]["f"] for e in I.events if e["fn"]}); n += 1
        a = [x for x in model_of(v)[1][3:] if x[0] == "call" and x[1] in ("SOLVENT", "ELECTRO")]
        c.ob(len(a) == 2, g + ":given", loc(f), "%s is given the solvent's properties" % g, tshow(v)[:300])
        if len(a) != 2: continue
        for x, k in zip(a, need):
            if k == "here": evaluated(x, "SOLVENT", T, P, g + ":here", loc(f), "%s uses the solvent at the given T and P" % g)
            elif k == "electro": evaluated(x, "ELECTRO", T, P, g + ":electro", loc(f), "%s uses the solvent's dielectric properties at the given T and P" % g)
            else:
                r = [y for y in subterms(x[2]) if y[0] == "call" and str(y[1]).endswith("getSubstance")]
                ok = bool(r) and x[2] == getter(M, SUB + "referenceT", r[0]) and x[3] == getter(M, SUB + "referenceP", r[0]) and r[0][-1] == x[-2]
                c.ob(ok, g + ":reference", loc(f), "%s uses the solvent at its reference temperature and pressure" % g, tshow(x)[:300])
                if ok: evaluated(x, "SOLVENT", x[2], x[3], g + ":ref", loc(f), "%s uses the solvent at its reference temperature and pressure" % g)
    for t in RSOLV:
        f, I, v = react(M, c, reaction(M, None, t, "CPM_OFF"), this); n += 1
        a = [x for x in model_of(v)[1][3:] if x[0] == "call" and x[1] == "SOLVENT"]
        c.ob(len(a) == 1, t + ":given", loc(f), "%s is given the solvent's properties" % t, tshow(v)[:300])
        for x in a: evaluated(x, "SOLVENT", T, P, t + ":here", loc(f), "%s uses the solvent at the given T and P" % t)
    # the state of the solvent: the one asked for, else that of the record
    wat = with_getter(M, comp, SUB + "substanceClass", aq)
    gas = enumval(M, "ThermoFun::AggregateState::type", "GAS"); liq = enumval(M, "ThermoFun::AggregateState::type", "AQUEOUS")
    for name in ("propertiesSolvent", "electroPropertiesSolvent"):
        for t in WAT:
            for g in (ELE if name[0] == "e" else (None,)):
                if name[0] == "e" and t != "CTM_WAT" and g != "CTPM_WJNR": continue
                S = meth(wat, g, t, "CPM_VKE")
                f, I, v = run_substance(M, S, this=this, name=name, args=[None, None, S, sym("state")], tags={"PropertiesSolvent": "SOLVENT", "ElectroPropertiesSolvent": "ELECTRO"}); n += 1
                m = model_of(v)[1]
                ag = getter(M, SUB + "aggregateState", S)
                st = [x for x in m[5:] if x[0] == "ite" or x == sym("state")]
                c.ob(bool(st), "state:%s:%s:%s" % (name, t, g), loc(f), "%s passes the state of the solvent to its model" % name, tshow(m)[:200])
                sols = [x for x in m[5:] if x[0] == "call" and str(x[1]).startswith("MODEL:")]
                for x in sols:
                    c.ob(x[3] == T and x[4] == P and x[1] == "MODEL:%s::propertiesSolvent" % WAT[t], "given:%s:%s:%s" % (name, t, g), loc(f), "the dielectric model is given the solvent's properties at the same T and P", tshow(x)[:200])
                    st += [y for y in x[5:] if y[0] == "ite" or y == sym("state")]
                for x in st:
                    for val in (-1, 0, 1, 2, 7):
                        for agg, lv in ((gas, 1), (liq, 0)):
                            r = rewrite(x, lambda y: num(val) if y == sym("state") else agg if y == ag else None)
                            r = simplify(rewrite(r, lambda y: cmp_(y[1], y[2], y[3]) if y[0] == "cmp" and isnum(y[2]) and isnum(y[3]) else None))
                            c.ob(r == num(val if val in (0, 1) else lv), "state:%s:%s:%s:%d:%d" % (name, t, g, val, lv), loc(f), "the state evaluated is the one asked for (0 liquid, 1 vapour), or if none is that of the solvent's record", tshow(r)[:200])
    c.need(n, "models given solvent properties", 12)

FORMS = {"thermoPropertiesSubstance": ("Substance", "apply"), "electroPropertiesSolvent": ("Substance", "state"), "propertiesSolvent": ("Substance", "state"), "thermoPropertiesReaction": ("Reaction", None), "thermoPropertiesReactionFromReactants": ("Reaction", None)}

@rule("E14")
def E14(M, c):
    """Value-graph terms of every query by symbol, through the bound functions, against the query by record of the stored record."""
    from rules.cache import Engine
    E = Engine(M); icls = E.typeat(E.db[:-1]); n = 0
    isrec = lambda f: f.get("cls") == icls and f["n"] in FORMS and any("Substance" in p["t"] or "Reaction" in p["t"] for p in f["params"])
    def hook(I, nd, f, args, obj):
        if f == "()" and "std::function" in (obj.get("t") or ""):
            l = I.lv(obj)
            if l is None: return None
            p = tuple(x for k, x in l[1] if k == "f")
            return mk("call", "FN:" + (p[-1] if p else "?"), *[I.ev(x) for x in args])
        fd = M.fn.get(nd.get("u"))
        if nd["k"] == "MCall" and fd is not None and isrec(fd):
            a = [I.ev(x) for x in kids(nd)[1:]]
            return mk("call", "EVAL:" + fd["n"], *[("record",) + (x,) if not isinstance(x, tuple) else x for x in a])
        return None
    dbop = lambda g: "Database::" in g["f"] or g["n"] == "fromEquation"
    # the bound functions
    ctor = [f for f in M.fn.values() if f.get("cls") == icls and f["n"] == icls.split("::")[-1] and len(f["params"]) == 1 and "Database" in f["params"][0]["t"] and not f.get("dep")]
    if len(ctor) != 1: raise AnalysisError("anchor vanished: the engine's constructor from a database")
    I = Interp(M, hook=hook, opaque=lambda g: dbop(g) or g["n"].startswith("memoize")); I.run(ctor[0], this=mk("zero", icls), args=[sym("db")]); th = I.this()
    bound = {}
    for p in E.fn:
        v = th
        for x in p[len(E.db) - 1:]: v = I.getf(v, x)
        ls = [l for _, l in leaves(v)]; lams = {y for l in ls for y in subterms(l) if y[0] == "lam" and y[1] in I.lams}
        c.ob(len(lams) == 1, "bound:" + p[-1], loc(ctor[0]), "one evaluation is bound to the engine's function %s" % p[-1], tshow(v)[:200])
        if len(lams) != 1: continue
        node, vals, refs, own, owner = I.lams[lams.pop()[1]]
        J = Interp(M, hook=hook, opaque=dbop); J.lams = I.lams; J.facts = type(J.facts)(); J.events = []; binds = []
        A = [sym("A%d" % i) for i in range(len(node["params"]))]
        for i, q in enumerate(node["params"]):
            if q.get("ref"): J.env[("p", "A%d" % i)] = A[i]; binds.append((q, mk("&", ("p", "A%d" % i), ())))
            else: binds.append((q, A[i]))
        J.env[("this",)] = sym("impl")
        fake = {"f": icls + "::lambda", "n": "lambda", "params": node["params"], "c": node["c"], "file": owner["file"] if owner else "", "l": node["l"], "u": "lam:" + p[-1], "rr": None, "rt": None}
        bound[p[-1]] = (J.rv(J.run_fn(fake, own, binds, None, caps=(dict(vals), refs))), len(A), "%s:%s" % (rel(fake["file"]), node["l"]))
        c.analysed.add(fake["f"] + ":" + p[-1])
    for name, (kind, extra) in FORMS.items():
        fr = M.one("ThermoFun::ThermoEngine::" + name, lambda f: any(("::" + kind) in p["t"] for p in f["params"]))
        fs = M.one("ThermoFun::ThermoEngine::" + name, lambda f: any("string" in p["t"] for p in f["params"])); n += 2
        c.analysed.update((fr["f"], fs["f"]))
        X, R = sym("X"), sym("R")
        J = Interp(M, hook=hook, opaque=dbop); r = J.run(fr, this=sym("this"), args=[T, P, R, X][:len(fr["params"])])
        pref = sym("this")
        for x in settings_path(M, "preferences") + ("apply_pressure_correction_to_gas_props",): pref = J.getf(pref, x)
        ex = {"apply": [pref], "state": [X], None: []}[extra]
        c.ob(r == mk("call", "EVAL:" + name, T, P, R, *ex), "record:" + name, loc(fr), "%s of a record evaluates that record at the given T and P%s" % (name, {"apply": ", with the engine's setting for gases", "state": " and state", None: ""}[extra]), tshow(r)[:300])
        J = Interp(M, hook=hook, opaque=dbop); s = J.run(fs, this=sym("this"), args=[T, P, R, X][:len(fs["params"])])
        if s[0] == "call" and str(s[1]).startswith("FN:") and s[1][3:] in bound:
            body, k, where = bound[s[1][3:]]; a = s[2:]
            c.ob(len(a) == k, "arity:" + name, loc(fs), "the bound function takes what is passed")
            s = rewrite(body, lambda y: a[int(y[1][1:])] if y[0] == "sym" and str(y[1])[:1] == "A" and str(y[1])[1:].isdigit() and int(y[1][1:]) < len(a) else None)
        want = None
        def stored(t): return t[0] == "call" and str(t[1]).split("::")[-1] == "get" + kind and t[-1] == R
        def good(t): return t[0] == "call" and t[1] == "EVAL:" + name and t[2] == T and t[3] == P and stored(t[4]) and list(t[5:]) == ex
        if name == "thermoPropertiesReaction":
            has = [k for k in conds_in(s) if any(y[0] == "call" and str(y[1]).endswith("containsReaction") and y[-1] == R for y in subterms(k))]
            a, b = s, s
            for k in has:
                if k[0] == "cmp": a = assume(a, k, k[1] == "!="); b = assume(b, k, k[1] == "==")
            c.ob(bool(has) and good(a), "symbol:" + name, loc(fs), "%s by symbol evaluates the record stored under it" % name, tshow(a)[:300])
            eqn = [k for k in conds_in(b) if any(y == mk("str", "=") or y == num(61) for y in subterms(k))]
            x, y = b, b
            for k in eqn: x = assume(x, k, k[0] == "cmp" and k[1] == "!="); y = assume(y, k, not (k[0] == "cmp" and k[1] == "!="))
            ok = x[0] == "call" and x[1] == "EVAL:" + name and x[2] == T and x[3] == P and any(t[0] in ("mut", "out") and str(t[1]).endswith("fromEquation") and R in t for t in subterms(x[4]))
            c.ob(bool(eqn) and ok, "equation:" + name, loc(fs), "a symbol that is not stored and holds an equation is evaluated as that reaction", tshow(x)[:300])
            c.ob(good(y), "absent:" + name, loc(fs), "any other symbol is looked up", tshow(y)[:300])
        else: c.ob(good(s), "symbol:" + name, loc(fs), "%s by symbol evaluates the record stored under it" % name, tshow(s)[:300])
    c.need(n, "forms of queries", 10)
