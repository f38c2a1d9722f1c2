"""Rules on the models of substances: pressure corrections, validity limits, coefficient reads."""
import re, itertools
from registry import rule
from model import *
from gsa import *
from terms import *
from fractions import Fraction as F
from rules.engine import *
from rules.thermo import run_model, model_fn, instance, by_type, T, P, PB, BAR, SP
from rules.cache import leaves


GASES = ["GasCORK", "GasPRSV", "GasCGF", "GasSRK", "GasPR78", "GasSTP"]
CHECK = "checkCalcMethodBounds"

def fluid_code(f): return "s_solmod" in f["file"]
def no_messages(I, n, f, args, obj):
    """messages attached to results are another property's business"""
    if n["k"] in ("Call", "MCall") and n.get("fn") in (CHECK, "setMessage"): return ZERO
    return None

@rule("M02")
def M02(M, c):
    """Value-graph terms of the pressure corrections of gases and constant-volume substances, the fluid equations of state being opaque."""
    S = sym("S"); tps = sym("tps"); I0 = Interp(M)
    before = {x: I0.getf(tps, x) for x in SP}
    Pr = div(getter(M, SUB + "referenceP", S), BAR)
    def same(what, cls, f, got, want, text):
        c.ob(equal(got, want) is True, "%s:%s" % (cls, what), loc(f), "%s: %s" % (cls, text), "computed %s, expected %s" % (tshow(got)[:220], tshow(want)[:220]))
    def energies(cls, f, v, p, case=""):
        same("U" + case, cls, f, v["internal_energy"], sub(v["enthalpy"], mul(p, v["volume"])), "internal energy is enthalpy minus P times volume")
        same("A" + case, cls, f, v["helmholtz_energy"], sub(v["internal_energy"], mul(T, v["entropy"])), "Helmholtz energy is internal energy minus T times entropy")
    # constant molar volume
    V0 = I0.getf(getter(M, SUB + "thermoReferenceProperties", S), "volume")
    f, I, v, r = run_model(M, "ConMolVol", ["T", "P", "tps"], S=S, hook=no_messages, c=c)
    r = dict(zip(SP, r))
    nd = [k for k in conds_in(r["volume"])]
    c.ob(len(nd) == 1 and "volume" in str(nd[0]) and "sta" in str(nd[0]), "ConMolVol:guard", loc(f), "the constant volume correction applies exactly when the reference volume is defined", "; ".join(tshow(k) for k in nd)[:300])
    if len(nd) == 1:
        k = nd[0]; undefd = (cmp_("==", V0_sta(M, S), ZERO), True)
        on = k != undefd[0] and lnot(k) != undefd[0]
        t = {x: assume(y, undefd[0], False) for x, y in r.items()}; e = {x: assume(y, undefd[0], True) for x, y in r.items()}
        c.ob(not on, "ConMolVol:guard", loc(f), "the constant volume correction applies exactly when the reference volume is defined", tshow(k)[:300])
        dV = mul(V0, sub(PB, Pr))
        same("V", "ConMolVol", f, t["volume"], V0, "volume is the reference volume")
        same("G", "ConMolVol", f, t["gibbs_energy"], add(before["gibbs_energy"], dV), "Gibbs energy grows by V (P - Pr)")
        same("H", "ConMolVol", f, t["enthalpy"], add(before["enthalpy"], dV), "enthalpy grows by V (P - Pr)")
        for x in ("entropy", "heat_capacity_cp", "heat_capacity_cv"): same(x, "ConMolVol", f, t[x], before[x], x + " is unchanged")
        energies("ConMolVol", f, t, PB)
        for x in SP: same("without:" + x, "ConMolVol", f, e[x], before[x], "without a reference volume %s is unchanged" % x)
    # fluids
    n = 0
    for cls in GASES + ["IdealGasLawVol"]:
        f, I, v, r = run_model(M, cls, ["T", "P", "tps", "apply"], S=S, opaque=fluid_code, hook=no_messages, c=c); n += 1
        r = dict(zip(SP, r)); ap = cmp_("==", sym("apply"), ZERO)
        zero = [cmp_("==", PB, ZERO), cmp_("==", P, ZERO), cmp_("<=", P, ZERO)]
        for case, isz in (("", False), (":zero", True)):
            if isz and cls == "IdealGasLawVol": continue
            def under(t, a):
                t = assume(t, ap, not a)
                for z in zero: t = assume(t, z, isz)
                if isz: t = rewrite(t, lambda x: ZERO if x == P or x == PB else None)
                return t
            off = {x: under(y, False) for x, y in r.items()}; on = {x: under(y, True) for x, y in r.items()}
            p = ZERO if isz else PB      # without a pressure the fluid is evaluated just above zero
            if cls == "IdealGasLawVol":
                gas = cmp_("==", getter(M, SUB + "substanceClass", S), enumval(M, "ThermoFun::SubstanceClass::type", "GASFLUID"))
                gs = lambda t, a: assume(t, gas, a)
                R = num(F(831451, 100000))
                same("V", cls, f, gs(off["volume"], True), mul(div(T, PB), R), "the volume of a gas is R T / P")
                for a in (True, False):
                    for x in ("gibbs_energy", "enthalpy") + (() if a else ("volume",)): same("off:" + x, cls, f, gs(off[x], a), before[x], "%s is unchanged" % x)
            else:
                dep = {x: sub(off[x], before[x]) if x != "volume" else off[x] for x in ("enthalpy", "entropy", "volume")}
                for x, i in (("enthalpy", 2), ("entropy", 3), ("volume", 4)):
                    b = [t for t in subterms(off[x]) if t[0] == "idx" and isnum(t[2]) and t[2] == num(i)]
                    c.ob(any(equal(dep[x], t) is True for t in b), "%s:%s%s" % (cls, x, case), loc(f), "%s: %s is the fluid model's %s" % (cls, x, "volume" if x == "volume" else "departure added to the temperature stage's"), tshow(off[x])[:300])
                same("G" + case, cls, f, off["gibbs_energy"], before["gibbs_energy"], "the Gibbs energy stays that of the standard state")
            for x in ("heat_capacity_cp", "heat_capacity_cv"): same(x + case, cls, f, off[x], before[x], x + " is unchanged"); same("on:" + x + case, cls, f, on[x], before[x], x + " is unchanged")
            for x in ("volume", "entropy"): same("on:" + x + case, cls, f, on[x], off[x], "correcting to pressure leaves %s" % x)
            dV = mul(on["volume"], sub(p, Pr))
            for x in ("gibbs_energy", "enthalpy"): same("on:" + x + case, cls, f, on[x], add(off[x], dV), "corrected to pressure, %s grows by V (P - Pr)" % x)
            energies(cls, f, on, p, case)
    c.need(n, "fluid models", 7)

def V0_sta(M, S):
    I = Interp(M, raw_ts=True)
    return I.getf(I.getf(I.getf(getter(M, SUB + "thermoReferenceProperties", S), "volume"), "sta"), "first")

LIMITED = GASES + ["MinBerman88", "MinBMGottschalk", "MinMurnaghanEOSHP98", "HPLandau", "SoluteHKFgems", "SoluteHKFreaktoro", "SoluteAkinfievDiamondEOS"]

@rule("M04")
def M04(M, c):
    """Value-graph terms of what each model compares with the validity limits and of the record that carries the message; the comparison itself; the records a message reaches."""
    n = 0
    for cls in LIMITED:
        f = model_fn(M, cls)
        names = ["T", "P"] + ["a%d" % i for i in range(2, len(f["params"]))]
        S = sym("S")
        op = lambda g: g["n"] in (CHECK, "setMessage") or fluid_code(g)
        this = instance(M, cls, S)
        I = Interp(M, opaque=lambda g: op(g) or opaque_numeric(g, f)); v = I.run(f, this=this, args=by_type(f, names))
        c.analysed.update({e["fn"]["f"] for e in I.events if e.get("fn")})
        ev = [e for e in I.events if e["kind"] == "call" and str(e["f"]).endswith("::" + CHECK)]
        c.ob(bool(ev), cls + ":checked", loc(f), "%s checks its validity limits" % cls); n += 1
        for e in ev:
            a = e["args"]; where = loc(e["fn"], e["node"])
            zero = [cmp_("==", PB, ZERO), cmp_("==", P, ZERO)]
            p = a[3]
            for z in zero: p = assume(p, z, False)
            c.ob(equal(a[2], T) is True, cls + ":T", where, "%s compares the temperature in K with the limits" % cls, tshow(a[2])[:200])
            c.ob(equal(p, P) is True, cls + ":P", where, "%s compares the pressure in Pa with the limits" % cls, tshow(a[3])[:200])
            c.ob(whole_substance(a[0], S), cls + ":record", where, "%s checks the limits of the substance it evaluates" % cls, tshow(a[0])[:200])
        # the record that received the message is the one returned
        for pc, leaf in leaves(v):
            if leaf[0] == "noreturn": continue
            carried = any(t[0] in ("out", "mut") and str(t[1]).endswith("::" + CHECK) for t in subterms(leaf))
            if carried: 
                over = later_fields(leaf)
                c.ob(not over, cls + ":kept", loc(f), "%s keeps the message on the properties it returns" % cls, ", ".join(over))
                continue
            reached = any(set(pc) & {lnot(x) for x in e["pc"]} for e in ev)
            c.ob(reached, cls + ":returned", loc(f), "%s returns the properties that carry the message" % cls, "when " + (", ".join(tshow(x)[:80] for x in pc) or "always"))
    c.need(n, "models with validity limits", len(LIMITED))
    for kind, par in (("Substance", "ThermoPropertiesSubstance"), ("Reaction", "ThermoPropertiesReaction")):
        f = M.one("ThermoFun::%s::%s" % (kind, CHECK)); S = sym("S")
        I = Interp(M, opaque=lambda g: g["n"] == "setMessage"); I.run(f, this=S, args=[sym("name"), T, P, sym("r")])
        ev = [e for e in I.events if e["kind"] == "call" and str(e["f"]).endswith("setMessage")]
        g = lambda m: getter(M, "ThermoFun::%s::%s" % (kind, m), S)
        lim = [cmp_("<", g("upperT"), T), cmp_("<", g("upperP"), P), cmp_(">", g("lowerT"), T), cmp_(">", g("lowerP"), P)]
        c.ob(len(ev) == 1 and I.out(f["params"][3]["n"])[0] in ("ite", "out", "mut"), kind + ":message", loc(f), "%s sets the message once" % f["f"])
        if len(ev) == 1:
            cond = TRUE
            for x in ev[0]["pc"]: cond = land(cond, x)
            import itertools as it
            ok = True
            for vals in it.product((True, False), repeat=4):
                t = cond
                for k, val in zip(lim, vals):
                    for kk in (k, swapped(k)): t = assume(t, kk, val)
                if t != (TRUE if any(vals) else FALSE): ok = False
            c.ob(ok, kind + ":limits", loc(f), "%s sets the message exactly when T or P is outside its limits" % f["f"], tshow(cond)[:300])
            st = ev[0]["args"]
            c.ob(sym("r") in [a for a in st if isinstance(a, tuple)], kind + ":target", loc(f), "the message goes to the record passed", "")
    for f in M.named("ThermoFun::setMessage"):
        if len(f["params"]) != 3 or f.get("dep"): continue
        cls = f["params"][2]["t"].replace("&", "").strip()
        I = Interp(M, raw_ts=True); I.run(f, args=[sym("s"), sym("m"), sym("r")]); out = I.out(f["params"][2]["n"]); k = 0
        for fl in M.rec[cls]["fields"]:
            if "Scalar" not in fl["t"] or "equilibrium" in fl["n"]: continue
            st = I.getf(I.getf(sym("r"), fl["n"]), "sta"); new = I.getf(I.getf(I.getf(out, fl["n"]), "sta"), "second"); old = I.getf(st, "second")
            same_ = cmp_("==", I.getf(st, "first"), sym("s")); k += 1
            on = assume(assume(new, same_, True), swapped(same_), True); off = assume(assume(new, same_, False), swapped(same_), False)
            c.ob(off == old and on != old and sym("m") in list(subterms(on)) and old in list(subterms(on)), "%s:%s" % (cls.split("::")[-1], fl["n"]), loc(f),
                 "the message is appended to %s exactly when it has the given status" % fl["n"], tshow(new)[:300])
        for fl in M.rec[cls]["fields"]:
            for path in (("val",), ("err",), ("ddt",), ("ddp",), ("sta", "first")):
                a, b = I.getf(out, fl["n"]), I.getf(sym("r"), fl["n"])
                for q in path: a, b = I.getf(a, q), I.getf(b, q)
                c.ob(a == b, "%s:%s:%s" % (cls.split("::")[-1], fl["n"], path[-1]), loc(f), "a message leaves the %s of %s alone" % (path[-1], fl["n"]), tshow(a)[:200])
        c.need(k, "properties a message reaches (%s)" % cls.split("::")[-1], 8)

def swapped(k):
    return mk("cmp", {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(k[1], k[1]), k[3], k[2]) if k[0] == "cmp" else k

def opaque_numeric(g, f):
    """helpers of a model that only compute numbers"""
    c = g.get("cls") or ""
    if g["u"] == f["u"] or c.startswith(("ThermoFun::Substance", "Reaktoro_")) or "Reaktoro_" in g["f"] or c == f.get("cls") or c.startswith(f.get("cls") or "?"): return False
    return not any("ThermoPropertiesSubstance" in p["t"] or "Substance" in p["t"] for p in g["params"])

def whole_substance(t, S):
    from rules.data import whole
    t = whole(t)
    while t[0] == "ptr" or t[0] == "mut": t = t[1] if t[0] == "ptr" else t[2]
    return t == S or S in list(subterms(t))

def later_fields(t):
    """members replaced after the message was attached"""
    out = []
    while t[0] == "rec":
        out += [a for a, b in t[2] if not any(x[0] in ("out", "mut") and str(x[1]).endswith("::" + CHECK) for x in subterms(b))]; t = t[1]
    return out if t[0] in ("out", "mut") else []

# ------------------------------------------------------------- coefficient reads
def vec(n, name): return mk("list", *[sym("%s%d" % (name, i)) for i in range(n)])
LIM = [(0, 400), (400, 500), (500, 600), (600, 700)]
def shapes(field, alone):
    """(name, value) of a record's list of this kind, from none to more than any model reads"""
    if field == "temperature_intervals":
        iv = lambda *ks: mk("list", *[mk("list", *[num(x) for x in LIM[k]]) for k in ks])
        return [("no intervals", mk("list")), ("an interval without limits", mk("list", mk("list"))), ("one interval", iv(0)), ("two intervals", iv(0, 1)), ("three intervals", iv(0, 1, 2)), ("four intervals", iv(0, 1, 2, 3)), ("intervals with a gap", iv(0, 2)),
                ("an interval with one limit", mk("list", mk("list", num(0)))), ("two intervals, one without limits", mk("list", mk("list", num(0), num(400)), mk("list")))]
    if field == "Cp_coeff":
        cp = lambda *ns: mk("list", *[vec(n, "c%d_" % i) for i, n in enumerate(ns)])
        return [("no coefficients", mk("list")), ("an empty set", cp(0)), ("one set", cp(3)), ("two sets", cp(10, 2)), ("three sets", cp(2, 5, 3)), ("four sets", cp(3, 3, 3, 3)), ("sets of 20", cp(20, 20))]
    if field == "phase_transition_prop":
        pt = lambda *ns: mk("list", *[mk("list", *([num(LIM[i][1])] + [sym("p%d_%d" % (i, j)) for j in range(1, n)])) if n else mk("list") for i, n in enumerate(ns)])
        return [("no transitions", mk("list")), ("an empty transition", pt(0)), ("one transition", pt(2)), ("two transitions", pt(4, 1)), ("three transitions", pt(4, 4, 4))]
    return [("%d values" % n, vec(n, field + "_")) for n in (range(0, 14) if alone else (0, 1, 2, 4, 7, 13))]

@rule("M03")
def M03(M, c):
    """Every read of a list by every model, on records with each number of coefficients, intervals and transitions."""
    n = 0; seen = set()
    subj = {"Substance": (SUB + "thermoParameters", "ThermoFun::ThermoParametersSubstance"), "Reaction": (REA + "thermoParameters", "ThermoFun::ThermoParametersReaction")}
    for f in sorted((f for f in M.fn.values() if f.get("cls") and f["n"] == f["cls"].split("::")[-1] and not f.get("dep") and len(f["params"]) == 1), key=lambda f: f["f"]):
        kind = f["params"][0]["t"].replace("const ", "").replace("&", "").strip().replace("ThermoFun::", "")
        if kind not in subj or not any(w in f["file"] for w in ("ThermoModels",)): continue
        acc, rec = subj[kind]; cls = f["cls"].split("::")[-1]
        vecs = {x["n"]: x["t"] for x in M.rec[rec]["fields"] if "vector<" in x["t"]}
        names = set(vecs)
        meths = [g for g in M.fn.values() if g.get("cls") == f["cls"] and g.get("access") == "public" and not g.get("dep") and g is not f and g["params"] and g["n"] != f["n"]]
        opaque = lambda g: fluid_code(g) and not re.search(r"FugPure$", g["f"]) or "/Solvent/" in g["file"] or "Database::" in g["f"] or "::units::" in g["f"]
        for g in sorted(meths, key=lambda g: g["u"]):
            def run(params, Tv):
                S = with_getter(M, sym("S"), acc, params)
                this = instance(M, cls, S)
                I = Interp(M, opaque=opaque, hook=no_messages); I.run(g, this=this, args=[Tv] + [None] * 8)
                c.analysed.update({e["fn"]["f"] for e in I.events if e["fn"]})
                return I
            base = mk("sym", "S.params")
            reads = set()
            I = run(base, sym("T"))
            used = {e["fn"]["f"] for e in I.events if e["fn"]}
            for h in M.fn.values():
                if h["f"] in used or h is g:
                    for x in walk(h):
                        if x.get("k") == "Member" and x.get("fc") == rec and x.get("n") in names: reads.add(x["n"])
            if not reads: continue
            fl = sorted(reads); num_T = bool(reads & {"Cp_coeff"})
            for combo in itertools.product(*[shapes(x, len(fl) == 1) for x in fl]):
                p = base; I0 = Interp(M)
                for x, (nm, v) in zip(fl, combo): p = I0.setf(p, x, v)
                for Tv in ([num(t) for t in (-10, 350, 450, 650, 800)] if num_T else [sym("T")]):
                    I = run(p, Tv); n += 1
                    for e in I.events:
                        if e["kind"] != "index" or e["via"] == "at" or any(q == FALSE for q in e["pc"]): continue
                        b, i = e["base"], e["idx"]
                        if b[0] == "list" and isnum(i):
                            ok = 0 <= i[1] < len(b) - 1
                            key = "%s::%s:%s:%s" % (cls, g["n"], e["fn"]["n"], (e["node"] or {}).get("l"))
                            if not ok and key in seen: continue
                            if not ok: seen.add(key); c.ob(False, "%s::%s:%s:%d" % (cls, g["n"], e["fn"]["n"], len(seen)), loc(e["fn"], e["node"]), "%s reads a list of its record only as far as it goes" % cls, "with %s it reads entry %d of %d" % (", ".join(nm for nm, _ in combo), i[1], len(b) - 1))
            c.ob(True, "%s::%s" % (cls, g["n"]), loc(g), "%s reads the lists %s of its record only as far as they go" % (cls, ", ".join(fl)))
    c.need(n, "records evaluated", 100)
