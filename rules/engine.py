"""Rules on ThermoEngine: how substance, reaction and solvent properties are combined."""
from registry import rule
from model import *
from gsa import *

TPR = {"reaction_gibbs_energy": "gibbs_energy", "reaction_enthalpy": "enthalpy", "reaction_entropy": "entropy",
       "reaction_volume": "volume", "reaction_heat_capacity_cp": "heat_capacity_cp", "reaction_heat_capacity_cv": "heat_capacity_cv",
       "reaction_internal_energy": "internal_energy", "reaction_helmholtz_energy": "helmholtz_energy"}

def api(M, name, last):
    """the public member function of ThermoEngine whose last parameters mention `last`"""
    return M.one("ThermoFun::ThermoEngine::" + name, lambda f: any(last in p["t"] for p in f["params"]) )

def is_substance_eval(f):
    return f["rt"].endswith("ThermoPropertiesSubstance") and "Engine" in f["f"] and "reacDC" not in f["n"]

def subst_hook(tr, entry=None):
    """Evaluations of one substance (direct, or through the memoized function objects) become an opaque term of
    their arguments; tr: result type -> tag"""
    def hook(I, n, f, args, obj):
        if n["k"] not in ("Call", "MCall", "OpCall"): return None
        tag = tr.get((n.get("t") or "").replace("const ", "").replace("ThermoFun::", ""))
        if tag is None: return None
        fd = I.M.fn.get(n.get("u"))
        if f == "()": 
            if "std::function" not in (obj.get("t") or ""): return None
            an = args
        elif fd is not None and fd.get("cls", "").startswith("ThermoFun::ThermoEngine") and "ubstance" in fd["n"] and "reacDC" not in fd["n"] and "allback" not in fd["n"]:
            an = kids(n)[1:] if n["k"] == "MCall" else kids(n)
        elif fd is not None and fd.get("cls", "").startswith("ThermoFun::ThermoEngine") and tag == "REACTION": an = kids(n)[1:]
        else: return None
        a = [I.ev(x) for x in an if x is not None]
        if entry is not None and entry in a: return None
        I.emit("call", n, f=tag, args=a, fdef=None)
        return mk("call", tag, *a)
    return hook

def per_item(t):
    """(domain, item property term, factors) when t is a sum over the items of a map"""
    try: p = nf(t)
    except TooBig: return None
    if len(p) != 1: return None
    (m, c), = p.items()
    if len(m) != 1 or m[0][1] != 1: return None
    a = atomof(m[0][0])
    if a[0] != "sumd": return None
    return c, a[1], a[2]

@rule("E05")
def E05(M, c):
    """Each reaction property computed from the reactants is normalised to a value-graph term and compared with
    sum(coefficient * property of that substance at the same T, P) over all reactants; ln K and log K against -G/(RT) and lnK/ln 10."""
    f = api(M, "thermoPropertiesReactionFromReactants", "Reaction")
    I = Interp(M, opaque=lambda g: "Database::" in g["f"], hook=subst_hook({"ThermoPropertiesSubstance": "SUBSTANCE"}))
    v = I.run(f, args=[sym("T"), sym("P"), sym("R")])
    c.analysed.update({e["fn"]["f"] for e in I.events if e["fn"]})
    where = loc(f)
    # the substance evaluation and the coefficient, read off the volume sum
    ref = None; used = None
    for prop in ("reaction_volume", "reaction_gibbs_energy", "reaction_enthalpy"):
        r = per_item(I.getf(v, prop))
        if r is None: continue
        k, dom, inner = r
        at = [atomof(x) for x, e in inner if e == 1]
        ev = [a for a in at if a[0] == "fld" and a[2] == TPR[prop]]
        co = [a for a in at if a[0] == "fld" and a[2] == "second"]
        if len(inner) == 2 and len(ev) == 1 and len(co) == 1:
            ref = (dom, ev[0][1], co[0]); break
    if ref is None:
        c.fail("sum-shape", where, "no reaction property is a sum over the reactants of coefficient times substance property",
               tshow(I.getf(v, "reaction_volume"))[:800]); return
    dom, S, coef = ref
    it = ("iter",) + dom[1:]
    # the sum ranges over all reactants and each term is evaluated for that reactant
    m = coef[1]
    c.ob(m[0] == "idx" and m[2] == it and dom[1] == ZERO and dom[2] == I.size(m[1]) and "reactants" in tshow(m[1]), "domain", where,
         "the sum runs over every reactant of the reaction")
    name = mk("fld", m, "first")
    ok = any(x == name for x in subterms(S)) and any(x == sym("T") for x in subterms(S)) and any(x == sym("P") for x in subterms(S))
    c.ob(ok, "evaluation", where, "each term is the property of that reactant at the given T and P", tshow(S)[:400])
    nonempty = cmp_("<", ZERO, dom[2])
    for rp, sp in TPR.items():
        exp = mk("sumd", dom, mul(mk("fld", S, sp), coef))
        got = assume(I.getf(v, rp), nonempty, True)
        c.ob(equal(got, exp) is True, "sum:" + rp, where, "%s = sum over reactants of coefficient * %s" % (rp, sp), "computed: " + tshow(got)[:700])
    G = I.getf(v, "reaction_gibbs_energy")
    R = num(Fr("8.31451"))
    lnk = assume(I.getf(v, "ln_equilibrium_constant"), nonempty, True); G = assume(G, nonempty, True)
    c.ob(equal(lnk, neg(div(G, mul(R, sym("T"))))) is True, "lnK", where, "ln K = -dG/(R T)", "computed: " + tshow(lnk)[:600])
    lgk = assume(I.getf(v, "log_equilibrium_constant"), nonempty, True)
    c.ob(approx_ratio(lgk, lnk, 0.4342944819032518), "logK", where, "log K = ln K / ln 10", "computed: " + tshow(lgk)[:600])

def approx_ratio(a, b, k, tol=1e-6):
    """a = k*b as terms, k compared to tol"""
    try: x, y = nf(a), nf(b)
    except TooBig: return False
    if set(x) != set(y) or not x: return False
    return all(abs(float(x[m]) - k * float(y[m])) <= tol * abs(k * float(y[m])) for m in x)

def getter(M, q, selfv=None):
    """the term a const accessor returns for the object `self`"""
    f = M.one(q, lambda f: f.get("const") and not f["params"])
    return Interp(M).run(f, this=selfv or sym("self"))

def with_getter(M, v, q, val):
    """v with the value that accessor q reads replaced by val"""
    t = getter(M, q)
    path = []
    while t[0] == "fld": path.append(t[2]); t = t[1]
    if t != sym("self"): raise AnalysisError("accessor %s is not a plain field" % q)
    I = Interp(M)
    def go(x, p):
        if not p: return val
        return I.setf(x, p[0], go(I.getf(x, p[0]), p[1:]))
    return go(v, path[::-1])

def enumval(M, q, name):
    for e in M.enum:
        if e == q:
            for x in M.enum[e]["e"]:
                if x["n"] == name: return num(x["v"])
    raise AnalysisError("anchor vanished: enumerator %s::%s" % (q, name))

def settings_path(M, which):
    """field path of the object behind ThermoEngine::preferences()/conventions()/database()"""
    f = M.one("ThermoFun::ThermoEngine::" + which, lambda f: f.get("const") and not f["params"])
    t = Interp(M).run(f, this=sym("this")); p = []
    while t[0] == "fld": p.append(t[2]); t = t[1]
    if t != sym("this") or not p: raise AnalysisError("ThermoEngine::%s() is not a plain accessor" % which)
    return tuple(reversed(p))

def with_path(M, v, path, val):
    I = Interp(M)
    def go(x, p): return val if not p else I.setf(x, p[0], go(I.getf(x, p[0]), p[1:]))
    return go(v, path)

def opaque_models(I, n, f, args, obj):
    """model evaluations (members of the substance / solvent / reaction model classes) become opaque"""
    if n["k"] != "MCall": return None
    fd = I.M.fn.get(n.get("u"))
    if fd is None or not fd.get("cls") or fd["cls"].startswith("ThermoFun::ThermoEngine"): return None
    rt = (n.get("t") or "").replace("ThermoFun::", "")
    if rt not in ("ThermoPropertiesSubstance", "ThermoPropertiesReaction", "ElectroPropertiesSolvent", "PropertiesSolvent"): return None
    if not kids(n)[1:]: return None
    a = [I.ev(kids(n)[0])] + [I.ev(x) for x in kids(n)[1:]]
    cls = fd["cls"].split("::")[-1]
    I.emit("call", n, f="MODEL:" + cls + "::" + fd["n"], args=a, fdef=fd)
    return mk("call", "MODEL:" + cls + "::" + fd["n"], *a)

def chain(*hooks):
    def h(I, n, f, args, obj):
        for x in hooks:
            r = x(I, n, f, args, obj)
            if r is not None: return r
        return None
    return h

def base_this(M, **pref):
    t = sym("this"); pp = settings_path(M, "preferences")
    for k, v in pref.items(): t = with_path(M, t, pp + (k,), v)
    return t

def run_substance(M, S, this=None, name="thermoPropertiesSubstance", tags=None, args=None, raw=False):
    f = api(M, name, "const ThermoFun::Substance")
    I = Interp(M, raw_ts=raw, opaque=lambda g: "Database::" in g["f"], hook=chain(subst_hook(tags or {"ThermoPropertiesSubstance": "SUBSTANCE", "ThermoPropertiesReaction": "REACTION"}, S), opaque_models))
    v = I.run(f, this=this, args=[sym("T"), sym("P")] + (args or [None, None, S])[2:])
    return f, I, v

SUB = "ThermoFun::Substance::"; REA = "ThermoFun::Reaction::"

@rule("E06")
def E06(M, c):
    """The properties of a substance defined through a reaction, as value-graph terms, against
    (reaction property - sum over the other reactants of coefficient*property) / own coefficient, for all eight properties,
    and the constant-volume pressure term against V_ref (P - P_ref) in bar."""
    redc = enumval(M, "ThermoFun::SubstanceThermoCalculationType::type", "REACDC")
    S0 = with_getter(M, sym("S"), SUB + "thermoCalculationType", redc)
    this = base_this(M, fallback_to_reference_properties=FALSE)
    I0 = Interp(M)
    def run(S):
        f, I, v = run_substance(M, S, this=this)
        c.analysed.update({e["fn"]["f"] for e in I.events if e["fn"]})
        return f, I, v
    S = with_getter(M, S0, SUB + "method_P", ZERO)
    f, I, v = run(S)
    where = loc(f)
    symb = getter(M, SUB + "symbol", S); rsym = getter(M, SUB + "reactionSymbol", S)
    fixed = [(cmp_("==", symb, mk("str", "H+")), False), (cmp_("==", I.size(rsym), ZERO), False)]
    def under(t):
        for k, val in fixed: t = assume(t, k, val)
        return t
    get = lambda r, x: under(I.getf(r, x))
    calls = [e for e in I.events if e["kind"] == "call"]
    R = [e for e in calls if e["f"] == "REACTION"]; SS = [e for e in calls if e["f"] == "SUBSTANCE" and e["loops"]]
    if not R or not SS:
        c.fail("shape", where, "the reaction's properties or those of its other reactants are never evaluated"); return
    Rt = mk("call", "REACTION", *R[0]["args"]); St = mk("call", "SUBSTANCE", *SS[0]["args"])
    c.ob(sym("T") in R[0]["args"] and sym("P") in R[0]["args"] and rsym in R[0]["args"], "reaction", loc(f, R[0]["node"]), "the reaction named by the substance is evaluated at the given T and P", tshow(Rt)[:300])
    dom = SS[0]["loops"][-1]; it = ("iter",) + dom[1:]
    items = {x for x in subterms(St) if x[0] == "idx" and x[2] == it}
    if len(items) != 1: c.fail("shape", where, "the other reactants are not taken from one map of reactants", tshow(St)[:400]); return
    item = items.pop(); cont = item[1]
    c.ob(dom[1] == ZERO and dom[2] == I.size(cont) and sym("T") in SS[0]["args"] and sym("P") in SS[0]["args"] and mk("fld", item, "first") in SS[0]["args"], "reactants",
         loc(f, SS[0]["node"]), "every other reactant of that reaction is evaluated at the given T and P", tshow(St)[:300])
    c.ob(any(x == rsym for x in subterms(cont)), "reactants-of", where, "the reactants are those of the reaction the substance names", tshow(cont)[:300])
    own = mk("idx", cont, symb)
    same = cmp_("==", mk("fld", item, "first"), symb)
    for rp, sp in TPR.items():
        exp = div(add(mk("fld", Rt, rp), mk("sumd", dom, ite(same, ZERO, neg(mul(mk("fld", St, sp), mk("fld", item, "second")))))), own)
        got = get(v, sp)
        c.ob(equal(got, exp) is True, "inverse:" + sp, where, "%s = (reaction %s - sum over other reactants) / own coefficient" % (sp, sp), "computed: " + tshow(got)[:700])
    # constant molar volume pressure correction
    con = enumval(M, "ThermoFun::MethodCorrP_Thrift::type", "CPM_CON")
    S2 = with_getter(M, S0, SUB + "method_P", con)
    f, I2, v2 = run(S2)
    hit = [e for e in I2.events if e["kind"] == "call" and str(e["f"]).startswith("MODEL:ConMolVol")]
    c.ob(len(hit) >= 1, "const-volume", where, "a constant-volume substance gets the constant molar volume pressure correction")
    for e in hit:
        a = e["args"]
        c.ob(a[1] == sym("T") and a[2] == sym("P"), "const-volume-args", loc(f, e["node"]), "the correction is made at the given T and P", tshow(mk("call", e["f"], *a[1:3])))

@rule("E10")
def E10(M, c):
    """The value-graph term of every returned property is 'fallback enabled and status undefined ? reference value : computed value'."""
    for pm in ("CPM_CEH", "CPM_VBE"):
        S = sym("S")
        S = with_getter(M, S, SUB + "method_P", enumval(M, "ThermoFun::MethodCorrP_Thrift::type", pm))
        S = with_getter(M, S, SUB + "methodGenEOS", enumval(M, "ThermoFun::MethodGenEoS_Thrift::type", "CTPM_CPT"))
        S = with_getter(M, S, SUB + "thermoCalculationType", enumval(M, "ThermoFun::SubstanceThermoCalculationType::type", "DCOMP"))
        S = with_getter(M, S, SUB + "substanceClass", enumval(M, "ThermoFun::SubstanceClass::type", "COMPONENT"))
        ref = getter(M, SUB + "thermoReferenceProperties", S)
        offs = run_substance(M, S, this=base_this(M, fallback_to_reference_properties=FALSE))
        ons = run_substance(M, S, this=base_this(M, fallback_to_reference_properties=TRUE))
        f, I, voff = offs; von = ons[2]
        c.analysed.update({e["fn"]["f"] for e in I.events if e["fn"]})
        where = loc(f)
        hp = cmp_("==", getter(M, SUB + "symbol", S), mk("str", "H+"))
        for p in TPR.values():
            a = assume(I.getf(voff, p), hp, False); b = assume(I.getf(von, p), hp, False)
            exp = mk("ite", cmp_("==", I.getf(I.getf(a, "sta"), "first"), ZERO), I.getf(ref, p), a)
            c.ob(equal(assume(b, hp, False), exp) is True, "fallback:%s:%s" % (pm, p), where,
                 "with the fallback on, %s is the reference value exactly when its status is undefined" % p, "computed: " + tshow(b)[:600])
            c.ob(not any(x == I.getf(ref, p) for x in subterms(a)) , "nofallback:%s:%s" % (pm, p), where, "with the fallback off, %s is what the models computed" % p, "computed: " + tshow(a)[:500])

G, TM, PM = "ThermoFun::MethodGenEoS_Thrift::type", "ThermoFun::MethodCorrT_Thrift::type", "ThermoFun::MethodCorrP_Thrift::type"
GEN = {"CTPM_CPT": "EmpiricalCpIntegration", "CTPM_HKF": "SoluteHKFgems", "CTPM_HKFR": "SoluteHKFreaktoro", "CTPM_HP98": "SoluteHollandPowell98", "CTPM_AN91": "SoluteAnderson91"}
COR_T = {"CTM_CHP": "HPLandau", "CTM_CST": "EntropyCpIntegration"}
COR_P = {"CPM_AKI": "SoluteAkinfievDiamondEOS", "CPM_CEH": "MinMurnaghanEOSHP98", "CPM_VBE": "MinBerman88", "CPM_VBM": "MinBMGottschalk", "CPM_CORK": "GasCORK",
         "CPM_PRSV": "GasPRSV", "CPM_EMP": "GasCGF", "CPM_SRK": "GasSRK", "CPM_PR78": "GasPR78", "CPM_STP": "GasSTP", "CPM_OFF": "IdealGasLawVol", "CPM_CON": "ConMolVol"}
WAT = {"CTM_WAT": "WaterHGK", "CTM_WAR": "WaterHGKreaktoro", "CTM_WWP": "WaterWP95reaktoro", "CTM_WZD": "WaterZhangDuan2005"}
ELE = {"CTPM_WJNR": "WaterJNreaktoro", "CTPM_WJNG": "WaterJNgems", "CTPM_WSV14": "WaterElectroSverjensky2014", "CTPM_WF97": "WaterElectroFernandez1997"}
RT = {"CTM_LGX": "Reaction_LogK_fT", "CTM_LGK": "Reaction_LogK_fT", "CTM_EK0": "Reaction_LogK_fT", "CTM_EK1": "Reaction_LogK_fT", "CTM_EK2": "Reaction_LogK_fT", "CTM_EK3": "Reaction_LogK_fT",
      "CTM_DMD": "ReactionDolejsManning10", "CTM_DKR": "ReactionFrantzMarshall", "CTM_MRB": "ReactionRyzhenkoBryzgalin"}
RP = {"CPM_VKE": "Reaction_Vol_fT", "CPM_VBE": "Reaction_Vol_fT"}

def model_of(t):
    """class of the outermost model evaluation the term selects from"""
    while t[0] in ("fld", "rec"): t = t[1]
    if t[0] == "call" and str(t[1]).startswith("MODEL:"): return t[1][6:].split("::")[0], t
    return None, t

@rule("E07")
def E07(M, c):
    """Constant propagation of every method identifier through the engine's dispatch: the returned property record is the term
    of the model class confirmed for that identifier, evaluated with the given T and P and chained on the previous stage; then every
    model class is followed to the implementation it evaluates."""
    comp = with_getter(M, sym("S"), SUB + "thermoCalculationType", enumval(M, "ThermoFun::SubstanceThermoCalculationType::type", "DCOMP"))
    comp = with_getter(M, comp, SUB + "symbol", mk("str", "X"))
    solid = with_getter(M, comp, SUB + "substanceClass", enumval(M, "ThermoFun::SubstanceClass::type", "COMPONENT"))
    solv = with_getter(M, comp, SUB + "substanceClass", enumval(M, "ThermoFun::SubstanceClass::type", "AQSOLVENT"))
    this = base_this(M, fallback_to_reference_properties=FALSE)
    conv = settings_path(M, "conventions")
    this = with_path(M, this, conv, M_conv(M))
    def sub(S, g=None, t=None, p=None):
        S = with_getter(M, S, SUB + "methodGenEOS", enumval(M, G, g) if g else ZERO)
        S = with_getter(M, S, SUB + "method_T", enumval(M, TM, t) if t else ZERO)
        return with_getter(M, S, SUB + "method_P", enumval(M, PM, p) if p else ZERO)
    def evaluate(S, name="thermoPropertiesSubstance", args=None):
        f, I, v = run_substance(M, S, this=this, name=name, args=args, tags={"ThermoPropertiesSubstance": "SUBSTANCE", "PropertiesSolvent": "SOLVENT", "ElectroPropertiesSolvent": "ELECTRO"})
        c.analysed.update({e["fn"]["f"] for e in I.events if e["fn"]})
        return f, I, v
    n = 0
    def expect(f, I, v, want, key, prev=None):
        w = sub_any(v)
        cls, t = model_of(w)
        ok = cls == want and t[3] == sym("T") and t[4] == sym("P")
        if ok and prev is not None:      # the previous stage's record is handed on, from the model confirmed for it
            pc, pt = model_of(prev); ok = any((model_of(x)[0], model_of(x)[1][3:5]) == (pc, pt[3:5]) for x in t[2:] if model_of(x)[0])
        c.ob(ok, key, loc(f), "%s is evaluated by %s at the given T and P" % (key, want), "computed: " + tshow(w)[:500])
    def sub_any(v):
        # every property field comes from the same model record
        if v[0] == "rec" and v[1][0] == "call": return v
        return v
    for g, want in GEN.items():
        f, I, v = evaluate(sub(solid, g, None, "CPM_VKE")); expect(f, I, v, want, g); n += 1
    for t, want in COR_T.items():
        for g in ("CTPM_CPT", "CTPM_HKF"):
            if t == "CTM_CST" and g == "CTPM_CPT": continue
            f, I, v0 = evaluate(sub(solid, g, None, "CPM_VKE"))
            f, I, v = evaluate(sub(solid, g, t, "CPM_VKE")); expect(f, I, v, want, "%s after %s" % (t, g), v0 if t != "CTM_CST" else None); n += 1
    for p, want in COR_P.items():
        f, I, v0 = evaluate(sub(solid, "CTPM_CPT", None, "CPM_VKE"))
        f, I, v = evaluate(sub(solid, "CTPM_CPT", None, p)); expect(f, I, v, want, p, v0); n += 1
    # all three stages, in the order general, temperature, pressure
    f, I, v1 = evaluate(sub(solid, "CTPM_CPT", "CTM_CHP", "CPM_VKE")); f, I, v = evaluate(sub(solid, "CTPM_CPT", "CTM_CHP", "CPM_CEH"))
    expect(f, I, v, "MinMurnaghanEOSHP98", "temperature stage before pressure stage", v1)
    for t, want in WAT.items():
        f, I, v = evaluate(sub(solv, None, t, "CPM_VKE")); expect(f, I, v, want, "substance " + t); n += 1
        f, I, v = evaluate(sub(solv, None, t, "CPM_VKE"), "propertiesSolvent", [None, None, sub(solv, None, t, "CPM_VKE"), None]); expect(f, I, v, want, "solvent " + t); n += 1
    for g, want in ELE.items():
        S = sub(solv, g, "CTM_WAT", None)
        f, I, v = evaluate(S, "electroPropertiesSolvent", [None, None, S, None]); expect(f, I, v, want, g); n += 1
    fr = M.one("ThermoFun::ThermoEngine::thermoPropertiesReaction", lambda f: any("Reaction" in p["t"] for p in f["params"]))
    def react(g=None, t=None, p=None):
        R = with_getter(M, sym("R"), REA + "methodGenEOS", enumval(M, G, g) if g else ZERO)
        R = with_getter(M, R, REA + "method_T", enumval(M, TM, t) if t else ZERO)
        R = with_getter(M, R, REA + "method_P", enumval(M, PM, p) if p else ZERO)
        I = Interp(M, opaque=lambda g: "Database::" in g["f"], hook=chain(subst_hook({"ThermoPropertiesSubstance": "SUBSTANCE", "PropertiesSolvent": "SOLVENT"}), opaque_models))
        v = I.run(fr, this=this, args=[sym("T"), sym("P"), R]); c.analysed.update({e["fn"]["f"] for e in I.events if e["fn"]})
        return fr, I, v
    for t, want in RT.items():
        f, I, v = react(None, t, "CPM_OFF"); expect(f, I, v, want, "reaction " + t); n += 1
    f, I, v = react("CTPM_REA", None, "CPM_OFF"); expect(f, I, v, "Reaction_LogK_fT", "reaction CTPM_REA"); n += 1
    for p, want in RP.items():
        f, I, v = react(None, "CTM_LGK", p); expect(f, I, v, want, "reaction " + p); n += 1
    c.need(n, "method identifiers", 40)
    # which implementation a model class evaluates
    impl_files(M, c)

def M_conv(M):
    """default conventions: no conversion"""
    v = mk("zero", "ThermoFun::EngineConventions"); I = Interp(M)
    if "ThermoFun::EngineConventions" not in M.rec: raise AnalysisError("anchor vanished: EngineConventions")
    return v

# class -> source file of the model it stands for
IMPL = {"SoluteHKFgems": "SoluteHKFgems.cpp", "SoluteHKFreaktoro": "SoluteHKFreaktoro.cpp", "SoluteHollandPowell98": "SoluteHollandPowell98.cpp", "SoluteAnderson91": "SoluteAnderson91.cpp",
        "SoluteAkinfievDiamondEOS": "SoluteADgems.cpp", "EmpiricalCpIntegration": "EmpiricalCpIntegration.cpp", "EntropyCpIntegration": "StandardEntropyCpIntegration.cpp", "HPLandau": "SolidHPLandau.cpp",
        "MinMurnaghanEOSHP98": "SolidMurnaghanHP98.cpp", "MinBerman88": "SolidBerman88.cpp", "MinBMGottschalk": "SolidBMGottschalk.cpp", "GasCORK": "GasCORK.cpp", "GasPRSV": "GasPRSV.cpp", "GasCGF": "GasCGF.cpp",
        "GasSRK": "GasSRK.cpp", "GasPR78": "GasPR78.cpp", "GasSTP": "GasSTP.cpp", "WaterHGK": "WaterHGK-JNgems.cpp", "WaterHGKreaktoro": "WaterHGKreaktoro.cpp", "WaterWP95reaktoro": "WaterWP95reaktoro.cpp",
        "WaterZhangDuan2005": "WaterZhangDuan2005.cpp", "WaterJNgems": "WaterHGK-JNgems.cpp", "WaterJNreaktoro": "WaterJN91reaktoro.cpp", "WaterElectroSverjensky2014": "WaterElectroSverjensky2014.cpp",
        "WaterElectroFernandez1997": "WaterElectroFernandez1997.cpp", "WaterIdealGasWoolley": "WaterIdealGasWolley.cpp", "Reaction_LogK_fT": "LogK_function_of_T.cpp", "ReactionDolejsManning10": "DolejsManning2010.cpp",
        "ReactionFrantzMarshall": "FrantzMarshall.cpp", "ReactionRyzhenkoBryzgalin": "RyzhenkoBryzgalyn.cpp", "Reaction_Vol_fT": "Volume_function_of_T.cpp"}

def callees(M, f):
    for n in walk(f["c"][0] if f.get("c") and f["c"][0] else {"k": "none"}):
        u = n.get("u")
        if u and u in M.fn and n["k"] in ("Call", "MCall", "OpCall", "Construct", "Ref"): yield M.fn[u], n

def impl_files(M, c):
    import os
    files = {b: a for a, b in IMPL.items()}
    n = 0
    for cls, want in IMPL.items():
        ms = [f for f in M.fn.values() if f.get("cls") == "ThermoFun::" + cls and f["rt"].split("::")[-1] in ("ThermoPropertiesSubstance", "ThermoPropertiesReaction", "ElectroPropertiesSolvent", "PropertiesSolvent") and f.get("access") == "public"]
        if not ms: raise AnalysisError("anchor vanished: model class %s" % cls)
        for m in ms:
            n += 1
            seen = set(); st = [m]; hit = set(); own = os.path.basename(m["file"])
            while st:
                x = st.pop()
                if x["u"] in seen: continue
                seen.add(x["u"])
                b = os.path.basename(x["file"])
                if b in files and b != own:
                    hit.add(b); continue      # a model implementation: its own helpers do not count
                st.extend(g for g, _ in callees(M, x))
            ok = want in hit or own == want
            c.ob(ok and not (hit - {want}), "impl:%s::%s" % (cls, m["n"]), loc(m), "%s::%s evaluates the model implemented in %s" % (cls, m["n"], want), "it reaches: " + ", ".join(sorted(hit)))
    c.need(n, "model class members", 30)
