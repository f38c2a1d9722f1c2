"""Rules on reading records from JSON."""
import re
from registry import rule
from model import *
from gsa import *
import jsondoc as J
from rules.engine import G, TM, PM, enumval
from rules.data import the, const

NS = "ThermoFun::"
S = sym

# --------------------------------------------------------------------- units
BASE = {"J": ({"J": 1}, 1.0), "kJ": ({"J": 1}, 1e3), "cal": ({"J": 1}, 4.184), "mol": ({"mol": 1}, 1.0), "K": ({"K": 1}, 1.0), "g": ({"g": 1}, 1.0), "kg": ({"g": 1}, 1e3),
        "bar": ({"bar": 1}, 1.0), "kbar": ({"bar": 1}, 1e3), "cm": ({"cm": 1}, 1.0), "cm3": ({"cm": 3}, 1.0), "degC": ({"degC": 1}, 1.0), "1": ({}, 1.0), "m": ({"cm": 1}, 100.0)}

def unit(s):
    """(dimensions, factor) of a unit expression, or None"""
    toks = re.findall(r"[A-Za-z]+\d?|\d+(?:\.\d+)?|[()*/^]|-", s)
    pos = [0]
    def peek(): return toks[pos[0]] if pos[0] < len(toks) else None
    def take(): pos[0] += 1; return toks[pos[0] - 1]
    def atom():
        t = take()
        if t == "(":
            r = prod()
            if take() != ")": raise ValueError
            return r
        if t not in BASE: raise ValueError
        d, f = BASE[t]; return dict(d), f
    def power():
        d, f = atom()
        while peek() == "^":
            take(); sg = 1
            if peek() == "-": take(); sg = -1
            e = sg * float(take()); d = {k: v * e for k, v in d.items()}; f = f ** e
        return d, f
    def prod():
        d, f = power()
        while peek() in ("*", "/"):
            sg = 1 if take() == "*" else -1
            e, g = power()
            for k, v in e.items(): d[k] = d.get(k, 0) + sg * v
            f = f * g if sg > 0 else f / g
        return d, f
    try:
        d, f = prod()
        if pos[0] != len(toks): return None
        return {k: v for k, v in d.items() if v}, f
    except (ValueError, IndexError): return None

def same_unit(a, b):
    if a == b: return True
    x, y = unit(a), unit(b)
    return x is not None and y is not None and x[0] == y[0] and abs(x[1] / y[1] - 1) < 1e-9

def is_value(t, x, frm, to):
    """t is x converted from one unit to another"""
    if t == x: return same_unit(frm, to)
    if t[0] != "call" or not str(t[1]).endswith("units::convert") or len(t) != 5 or t[2] != x or t[3][0] != "str" or t[4][0] != "str": return False
    return same_unit(t[3][1], frm) and same_unit(t[4][1], to)

# ------------------------------------------------------------------- parsing
KIND = {"Element": "parseElement", "Substance": "parseSubstance", "Reaction": "parseReaction"}

class Parser:
    def __init__(self, M, c):
        self.M, self.c = M, c; self.acc = {}; self.n = 0; self.where = {}
        for k in KIND: 
            self.acc[k] = sorted({m["n"] for m in M.rec[NS + k]["methods"] if m.get("const") and not m.get("params") and any(f.get("const") and not f["params"] for f in M.named(NS + k + "::" + m["n"]))})
    def fn(self, kind): return the(self.M, NS + KIND[kind], lambda f: len(f["params"]) == 1)
    def parse(self, kind, doc):
        """(values shown by the accessors of the record read from a document, interpreter)"""
        f = self.fn(kind); self.where[kind] = loc(f)
        def hook(I, n, g, args, o):
            if g == NS + "Reaction::fromEquation": I.emit("call", n, f=g, args=[I.ev(x) for x in kids(n)[1:]], fdef=None, obj=None); return mk("none")
            return jh(I, n, g, args, o)
        jh = J.json_hook(lambda t: doc)
        I = Interp(self.M, raw_ts=True, opaque=lambda g: "::units::" in g["f"] or (not g["file"].endswith(("ParseJsonToData.cpp", "Substance.cpp", "Reaction.cpp", "Element.cpp", ".h", ".hpp"))), hook=hook)
        v = I.run(f); self.n += 1
        self.c.analysed.update({e["fn"]["f"] for e in I.events if e["fn"]})
        v = rewrite(v, lambda y: ZERO if y[0] == "sym" and str(y[1]).startswith("exc@") else None)
        return v, I
    def show(self, kind, v):
        out = {}
        for a in self.acc[kind]:
            f = self.M.one(NS + kind + "::" + a, lambda f: f.get("const") and not f["params"])
            out[a] = Interp(self.M, raw_ts=True).run(f, this=v)
        return out

I0 = None
def fld(M, v, *p):
    I = Interp(M, raw_ts=True)
    for x in p: v = I.getf(v, x)
    return v

def num_(x): return J.num_(S(x))
def txt(x): return J.str_(S(x))
def quant(x, u=None, e=None):
    d = {"values": J.arr(num_(x))}
    if u is not None: d["units"] = J.arr(J.str_(u))
    if e is not None: d["errors"] = J.arr(num_(e))
    return J.objd(d)

# key -> (accessor, document, check of the value)
def plain(acc, doc, want): return acc, doc, lambda M, t: t == want
def quantity(acc, unit_, other): return acc, quant("X", other), lambda M, t: is_value(t, S("X"), other, unit_)

FIELDS = {
 "Element": {"name": plain("name", txt("X"), S("X")), "symbol": plain("symbol", txt("X"), S("X")), "number": plain("number", num_("X"), S("X")),
   "entropy": quantity("entropy", "J/(mol*K)", "cal/(mol*K)"), "heat_capacity": quantity("heatCapacity", "J/(mol*K)", "cal/(mol*K)"), "atomic_mass": quantity("molarMass", "g/mol", "kg/mol"),
   "volume": quantity("volume", "J/bar", "kJ/bar"), "class_": plain("class_", J.objd({"4": J.str_("CHARGE")}), num(4)), "isotope_mass": plain("isotopeMass", num_("X"), S("X"))},
 "Substance": {"name": plain("name", txt("X"), S("X")), "symbol": plain("symbol", txt("X"), S("X")), "formula": plain("formula", txt("X"), S("X")), "formula_charge": plain("charge", num_("X"), S("X")),
   "mass_per_mole": quantity("molarMass", "g/mol", "kg/mol"), "aggregate_state": plain("aggregateState", J.objd({"4": J.str_("AS_AQUEOUS")}), num(4)), "class_": plain("substanceClass", J.objd({"2": J.str_("SC_AQSOLUTE")}), num(2)),
   "Tst": plain("referenceT", num_("X"), S("X")), "Pst": plain("referenceP", num_("X"), S("X"))},
 "Reaction": {"name": plain("name", txt("X"), S("X")), "symbol": plain("symbol", txt("X"), S("X")), "equation": plain("equation", txt("X"), S("X")), "Tst": plain("referenceT", num_("X"), S("X")), "Pst": plain("referenceP", num_("X"), S("X"))}}
LIMITS = {"lowerT": "lowerT", "upperT": "upperT"}
REF = {"Substance": {"sm_heat_capacity_p": ("heat_capacity_cp", "J/(mol*K)", "cal/(mol*K)"), "sm_gibbs_energy": ("gibbs_energy", "J/mol", "cal/mol"), "sm_enthalpy": ("enthalpy", "J/mol", "cal/mol"), "sm_entropy_abs": ("entropy", "J/(mol*K)", "cal/(mol*K)"), "sm_volume": ("volume", "J/bar", "kJ/bar")},
       "Reaction": {"logKr": ("log_equilibrium_constant", "1", "1"), "drsm_heat_capacity_p": ("reaction_heat_capacity_cp", "J/(mol*K)", "cal/(mol*K)"), "drsm_gibbs_energy": ("reaction_gibbs_energy", "J/mol", "cal/mol"), "drsm_enthalpy": ("reaction_enthalpy", "J/mol", "cal/mol"), "drsm_entropy": ("reaction_entropy", "J/(mol*K)", "cal/(mol*K)"), "drsm_volume": ("reaction_volume", "J/bar", "kJ/bar")}}
RPROP = "thermoReferenceProperties"

def clean_bad(t):
    """a part of the term that stands for a value never set, an absent key or an entry beyond the end"""
    for x in subterms(t):
        if x[0] == "undef": return x
        if x[0] == "idx" and x[1][0] in ("list", "jobj", "jnull", "jnum", "jstr"): return x
    return None

@rule("D01")
def D01(M, c):
    """Value-graph terms of the records that documents of every shape are read into, with symbolic leaves."""
    P = Parser(M, c)
    for kind in KIND:
        def bare(v): return {a: t for a, t in P.show(kind, v).items()}
        v, I = P.parse(kind, J.obj()); d0 = bare(v)
        f = P.where[kind]; ref = d0.get(RPROP)
        for a, t in d0.items():
            b = clean_bad(t)
            c.ob(b is None, "%s:default:%s" % (kind, a), f, "%s of %s read from a record that does not give it has a default, not an indeterminate value" % (a, kind), tshow(b)[:200] if b else "")
        def same(kind, v, skip, key, what):
            t = P.show(kind, v)
            for a in t:
                if a in skip or a == RPROP or RPROP in t and d0[a] == ref and t[a] == t[RPROP]: continue
                x, y = t[a], d0[a]
                c.ob(x == y, key + ":other:" + a, f, "%s leaves %s of a %s as it is" % (what, a, kind), tshow(x)[:200])
            return t
        st0 = {p: [fld(M, ref, p, q) for q in ("val", "err")] + [fld(M, ref, p, "sta", "first")] for p in [x[0] for x in REF.get(kind, {}).values()]}
        fields = dict(FIELDS[kind])
        for k, (acc, doc, good) in fields.items():
            for nest in (False, True):
                d = J.objd({k: doc}); d = J.objd({"properties": d}) if nest else d
                v, I = P.parse(kind, d)
                t = same(kind, v, {acc}, "%s:%s" % (kind, k), "the key '%s'" % k)
                c.ob(good(M, t[acc]), "%s:%s:%s" % (kind, k, "nested" if nest else "flat"), f, "a %s's %s is read from its key '%s'%s, in its unit" % (kind, acc, k, " under 'properties'" if nest else ""), tshow(t[acc])[:200])
                if k == "equation" and not nest:
                    ev = [e for e in I.events if e["kind"] == "call" and e.get("f") == NS + "Reaction::fromEquation"]
                    c.ob(len(ev) == 1 and S("X") in ev[0]["args"], kind + ":equation:reactants", f, "the reactants of a reaction are those of its equation", "%d calls" % len(ev))
            empty = [J.NULL]
            if isinstance(doc, tuple) and doc[0] == "jobj" and k not in ("class_", "aggregate_state"):
                empty += [J.objd({"values": J.arr(J.NULL)}), J.objd({"values": J.arr()}), J.objd({"values": J.NULL}), J.objd({"units": J.arr(J.str_("1"))}), J.objd({"values": J.arr(J.NULL), "units": J.arr()})]
                canon = [y for y in (quant("X"), J.objd({"values": J.arr(num_("X")), "units": J.arr()}), J.objd({"values": J.arr(num_("X")), "units": J.arr(J.NULL)}))]
                for y in canon:
                    v, I = P.parse(kind, J.objd({k: y})); t = P.show(kind, v)[acc]
                    c.ob(t == S("X") or (t[0] == "call" and str(t[1]).endswith("units::convert") and t[2] == S("X") and t[3] == t[4]), "%s:%s:no-unit" % (kind, k), f, "%s given without a unit is taken to be in the unit used" % k, tshow(t)[:200])
            for y in empty:
                v, I = P.parse(kind, J.objd({k: y})); t = P.show(kind, v)[acc]
                b = clean_bad(t)
                c.ob(t == d0[acc] and b is None, "%s:%s:none" % (kind, k), f, "%s stays the default when '%s' gives no value" % (acc, k), tshow(t)[:200])
                bad = [e for e in I.events if e["kind"] == "index" and e["idx"] == ZERO and e["base"] == mk("list") and not infeasible(e)]
                c.ob(not bad, "%s:%s:beyond" % (kind, k), f, "reading '%s' never looks at the first entry of an empty list" % k)
        if kind != "Element":
            for k, acc in LIMITS.items():
                v, I = P.parse(kind, J.objd({"limitsTP": J.objd({k: num_("X")})}))
                t = P.show(kind, v)
                if acc in t:
                    same(kind, v, {acc}, "%s:limitsTP.%s" % (kind, k), "the limit '%s'" % k)
                    c.ob(t[acc] == S("X"), "%s:limitsTP.%s" % (kind, k), f, "a %s's %s is read from its key 'limitsTP.%s'" % (kind, acc, k), tshow(t[acc])[:200])
                else:
                    ev = v if any(y == S("X") for y in subterms(v)) else None
                    c.ob(ev is not None, "%s:limitsTP.%s" % (kind, k), f, "a %s's %s is read from its key 'limitsTP.%s'" % (kind, acc, k))
            docs = []
            for k, (p, u, o) in REF[kind].items():
                docs.append((k, p, quant("X", o, "E"), o, u, True, True)); docs.append((k, p, quant("X", None, "E"), u, u, True, True)); docs.append((k, p, quant("X", o), o, u, True, False))
                docs.append((k, p, J.objd({"values": J.arr(J.NULL), "errors": J.arr(num_("E")), "units": J.arr(J.str_(o))}), o, u, False, True))
                for y in (J.NULL, J.obj(), J.objd({"values": J.arr(), "errors": J.arr(), "units": J.arr()}), J.objd({"values": J.NULL}), J.objd({"values": J.arr(J.NULL), "errors": J.arr(J.NULL), "units": J.arr(J.NULL)})): docs.append((k, p, y, u, u, False, False))
            for k, p, y, frm, u, hv, he in docs:
                v, I = P.parse(kind, J.objd({k: y})); t = same(kind, v, {RPROP}, "%s:%s" % (kind, k), "the key '%s'" % k)[RPROP]
                for q in st0:
                    a, e, s = fld(M, t, q, "val"), fld(M, t, q, "err"), fld(M, t, q, "sta", "first")
                    if q != p: c.ob([a, e, s] == st0[q] or (a, e) == tuple(st0[q][:2]) and s == enumval(M, "Reaktoro_::Status", "notdefined"), "%s:%s:%s" % (kind, k, q), f, "the key '%s' leaves %s undefined" % (k, q), tshow(a)[:200]); continue
                    c.ob(is_value(a, S("X"), frm, u) if hv else a == st0[q][0], "%s:%s:value" % (kind, k), f, "the reference %s is read from '%s', in its unit, or has its default" % (p, k), tshow(a)[:200])
                    c.ob(is_value(e, S("E"), frm, u) if he else e == st0[q][1], "%s:%s:error" % (kind, k), f, "the uncertainty of the reference %s is read from '%s', in its unit, or has its default" % (p, k), tshow(e)[:200])
                    c.ob(s == enumval(M, "Reaktoro_::Status", "read" if hv else "notdefined"), "%s:%s:status" % (kind, k), f, "the reference %s is marked as read exactly when '%s' gives a value" % (p, k), tshow(s)[:200])
                bad = [e for e in I.events if e["kind"] == "index" and e["idx"] == ZERO and e["base"] == mk("list") and not infeasible(e)]
                c.ob(not bad, "%s:%s:beyond" % (kind, k), f, "reading '%s' never looks at the first entry of an empty list" % k)
    # what defines a substance's properties
    dc, rd = enumval(M, NS + "SubstanceThermoCalculationType::type", "DCOMP"), enumval(M, NS + "SubstanceThermoCalculationType::type", "REACDC")
    meth = J.arr(J.obj(method=J.objd({"34": J.str_("mv_constant")})))
    for key, d, want in (("none", {}, dc), ("reaction", {"reaction": txt("X")}, rd), ("null", {"reaction": J.NULL}, dc), ("methods", {"reaction": txt("X"), "TPMethods": meth}, dc), ("method", {"TPMethods": meth}, dc)):
        v, I = P.parse("Substance", J.objd(d)); t = P.show("Substance", v)
        c.ob(t["thermoCalculationType"] == want, "Substance:calculation:" + key, P.where["Substance"], "a substance's properties are derived from a reaction exactly when the record names one and no methods", tshow(t["thermoCalculationType"])[:200])
        if "reaction" in d and d["reaction"] != J.NULL: c.ob(t["reactionSymbol"] == S("X"), "Substance:reaction:" + key, P.where["Substance"], "the defining reaction is the one the record names", tshow(t["reactionSymbol"])[:200])
    # reactants
    rs = J.arr(J.obj(symbol=J.str_("A"), coefficient=num_("a")), J.obj(symbol=J.str_("B"), coefficient=num_("b")), J.obj(symbol=J.NULL, coefficient=num_("c")), J.obj(symbol=J.str_("D"), coefficient=J.NULL), J.obj(symbol=J.str_("E")), J.obj(coefficient=num_("f")))
    v, I = P.parse("Reaction", J.obj(reactants=rs)); t = P.show("Reaction", v)["reactants"]
    got = entries(t)
    c.ob(got == {"A": S("a"), "B": S("b")}, "Reaction:reactants", P.where["Reaction"], "a reaction's reactants are those of the record that have a symbol and a coefficient", tshow(t)[:200])
    c.need(P.n, "documents", 120)

def entries(t):
    out = {}
    def go(t):
        if t[0] == "upd": go(t[1]); out[t[2][1] if t[2][0] == "str" else t[2]] = t[3]
        elif t[0] == "list":
            for e in t[1:]: out[e[1][1] if e[0] == "pair" and e[1][0] == "str" else e] = e[2] if e[0] == "pair" else None
        else: out[t] = None
    go(t); return out

def infeasible(e): return any(p == FALSE for p in e["pc"])

# ---------------------------------------------------------------- methods
SM = {0: (G, "CTPM_CPT"), 1: (TM, "CTM_FEI"), 2: (G, "CTPM_HKF"), 3: (G, "CTPM_HKFR"), 4: (PM, "CPM_AKI"), 5: (TM, "CTM_CHP"), 6: (TM, "CTM_BER"), 8: (PM, "CPM_GAS"), 9: (PM, "CPM_PRSV"), 10: (PM, "CPM_EMP"), 11: (PM, "CPM_SRK"),
      12: (PM, "CPM_STP"), 13: (PM, "CPM_PR78"), 14: (PM, "CPM_CORK"), 25: (G, "CTPM_WJNR"), 26: (G, "CTPM_WJNG"), 27: (G, "CTPM_WSV14"), 28: (G, "CTPM_WF97"), 29: (TM, "CTM_WAT"), 30: (TM, "CTM_WAS"), 31: (TM, "CTM_WAR"),
      32: (TM, "CTM_WWP"), 33: (TM, "CTM_WZD"), 34: (PM, "CPM_CON"), 35: (PM, "CPM_VKE"), 36: (PM, "CPM_VBE"), 37: (PM, "CPM_VBM"), 38: (PM, "CPM_CEH"), 39: (PM, "CPM_VTA"), 40: (PM, "CPM_OFF"), 41: (G, "CTPM_HP98"), 42: (G, "CTPM_AN91"), 43: (TM, "CTM_CST")}
RM = {0: (G, "CTPM_REA"), 1: (G, "CTPM_SOR"), 2: (G, "CTPM_ISO"), 3: (TM, "CTM_LGK"), 4: (TM, "CTM_EK0"), 5: (TM, "CTM_EK1"), 6: (TM, "CTM_EK2"), 7: (TM, "CTM_EK3"), 8: (TM, "CTM_IKZ"), 9: (TM, "CTM_DKR"), 10: (TM, "CTM_MRB"), 11: (G, "CTPM_CPT"), 12: (PM, "CPM_VKE"), 13: (PM, "CPM_CON"), 14: (TM, "CTM_DMD")}
ACC = {G: "methodGenEOS", TM: "method_T", PM: "method_P"}
R5 = ["J/(mol*K)", "J/(mol*K^2)", "(J*K)/mol", "J/(mol*K^0.5)", "J/(mol*K^3)"]
COEF = {
 "Substance": {"eos_hkf_coeffs": ("HKF_parameters", ["cal/(mol*bar)", "cal/mol", "(cal*K)/(mol*bar)", "(cal*K)/mol", "cal/(mol*K)", "(cal*K)/mol", "cal/mol"], False),
   "eos_akinfiev_diamond_coeffs": ("Cp_nonElectrolyte_coeff", ["1", "(cm^3)/g", "(cm^3*K^0.5)/g"], False), "eos_gas_crit_props": ("critical_parameters", ["K", "bar", "1", "1"], False),
   "m_heat_capacity_ft_coeffs": ("Cp_coeff", R5 + ["J/(mol*K^4)", "J/(mol*K^5)", "(J*K^2)/mol", "J/mol", "J/(mol*K^1.5)", "J/(mol*K)"], True), "m_phase_trans_props": ("phase_transition_prop", ["K", "J/(mol*K)", "J/mol", "J/bar", "K/bar"], True),
   "m_landau_phase_trans_props": ("m_landau_phase_trans_props", ["degC", "J/(mol*K)", "J/bar"], False), "solute_holland_powell98_coeffs": ("solute_holland_powell98_coeff", ["kJ/(mol*K^2)"], False), "m_volume_fpt_coeffs": ("volume_coeff", ["1/K", "1/K^2", "1/K^3", "1/bar", "1/bar^2"], False),
   "eos_birch_murnaghan_coeffs": ("volume_BirchM_coeff", None, False)},
 "Reaction": {"logk_ft_coeffs": ("reaction_logK_fT_coeff", ["1", "1/K", "K", "1", "K^2", "1/K^2", "K^0.5"], False), "dr_heat_capacity_ft_coeffs": ("reaction_Cp_fT_coeff", R5, False), "dr_volume_fpt_coeffs": ("reaction_V_fT_coeff", ["1/K", "1/K^2", "1/K^3", "1/bar", "1/bar^2"], False),
   "dr_ryzhenko_coeffs": ("reaction_RB_coeff", ["1", "1", "1"], False), "dr_marshall_franck_coeffs": ("reaction_FM_coeff", ["1", "K", "K^2", "K^3", "1", "K", "K^2"], False), "dr_dolejs_manning10_coeffs": ("reaction_DM10_coeff", ["kJ/mol", "J/(mol*K)", "J/(mol*K)", "J/(mol*K^2)", "J/(mol*K)"], False)}}
PARAM = "thermoParameters"

def other_unit(u):
    for a, b in (("kJ", "J"), ("cal", "J"), ("J", "cal")):
        if re.search(r"\b%s\b" % a, u): return re.sub(r"\b%s\b" % a, b, u, 1)
    return u

@rule("D02")
def D02(M, c):
    """Value-graph terms of the methods and coefficients of records read from documents with each method and coefficient set."""
    P = Parser(M, c)
    for kind, tab, enum in (("Substance", SM, "SubstanceTPMethodType"), ("Reaction", RM, "ReactionTPMethodType")):
        en = next((M.enum[e]["e"] for e in M.enum if e == NS + enum), None)
        if en is None: raise AnalysisError("anchor vanished: " + enum)
        val = {x["v"]: x["n"] for x in en}
        v, I = P.parse(kind, J.obj()); d0 = P.show(kind, v); where = P.where[kind]
        def doc(k, **kw): return J.obj(method=J.objd({str(k): J.str_(val.get(k, "?"))}), **kw)
        for k in sorted(val):
            v, I = P.parse(kind, J.obj(TPMethods=J.arr(doc(k)))); t = P.show(kind, v)
            for slot, acc in ACC.items():
                want = enumval(M, slot, tab[k][1]) if k in tab and tab[k][0] == slot else d0[acc]
                c.ob(t[acc] == want, "%s:%s:%s" % (kind, val[k], acc), where, "the method '%s' of a %s sets exactly the setting of its model" % (val[k], kind), tshow(t[acc])[:200])
            c.ob(all(t[a] == d0[a] for a in t if a not in ACC.values() and a not in (RPROP, PARAM)), "%s:%s:others" % (kind, val[k]), where, "a method changes nothing else of a %s" % kind)
        # several methods in one record, in any order
        some = [k for k in sorted(tab)]
        gs, ts, ps = ([k for k in some if tab[k][0] == s] for s in (G, TM, PM))
        for ks in ((gs[0], ts[0], ps[0]), (ps[-1], gs[-1], ts[-1]), (ts[1], ps[1], gs[1])):
            v, I = P.parse(kind, J.obj(TPMethods=J.arr(*[doc(k) for k in ks]))); t = P.show(kind, v)
            for k in ks: c.ob(t[ACC[tab[k][0]]] == enumval(M, *tab[k]), "%s:several:%s" % (kind, val[k]), where, "each of the methods a record lists is set", tshow(t[ACC[tab[k][0]]])[:200])
        # coefficients
        for key, (field, units, nested) in COEF[kind].items():
            n = len(units) if units else 2
            m = 0 if key != "m_phase_trans_props" else 0
            X = [S("x%d" % i) for i in range(n)]
            shapes = [("unit", [other_unit(u) for u in units] if units else ["1"] * n), ("none", None)] if units else [("none", None)]
            if units and n > 1: shapes += [("short", [other_unit(units[0])])]
            for what, us in shapes:
                d = {"values": J.arr(*[J.num_(x) for x in X])}
                if us is not None: d["units"] = J.arr(*[J.str_(u) for u in us])
                v, I = P.parse(kind, J.obj(TPMethods=J.arr(doc(m, **{key: J.objd(d)})))); t = fld(M, P.show(kind, v)[PARAM], field)
                if nested: t = t[1] if t[0] == "list" and len(t) == 2 else mk("none")
                frm = units and ([other_unit(u) for u in units] if what == "unit" else units if what == "none" else us + units[1:])
                ok = t[0] == "list" and len(t) - 1 == n and all(is_value(t[1 + i], X[i], frm[i], units[i]) if units else X[i] in subterms(t[1 + i]) for i in range(n))
                c.ob(ok, "coeff:%s%s" % (key, ":" + what if units else ""), where, "the coefficients '%s' reach the model's parameters (%s) in their order and units" % (key, field), tshow(t)[:300])
                tp, t0 = P.show(kind, v)[PARAM], d0[PARAM]
                for f in [x["n"] for x in M.rec[NS + "ThermoParameters" + kind]["fields"]]:
                    if f == field or f == "temperature_intervals" and kind == "Substance" and m == 0: continue
                    a = fld(M, tp, f)
                    c.ob(not any(x in subterms(a) for x in X), "coeff:%s:only:%s" % (key, f), where, "the coefficients '%s' go nowhere else" % key, tshow(a)[:200])
            for y in (J.NULL, J.obj(), J.objd({"values": J.NULL}), J.objd({"values": J.arr()}), J.objd({"values": J.arr(), "units": J.arr()})):
                v, I = P.parse(kind, J.obj(TPMethods=J.arr(doc(m, **{key: y})))); t = fld(M, P.show(kind, v)[PARAM], field)
                c.ob(t in (mk("list"), mk("list", mk("list"))), "coeff:%s:absent" % key, where, "without values there are no coefficients", tshow(t)[:200])
    # intervals of heat capacity keep their order, limits and coefficients together
    seg = [J.obj(method=J.objd({"0": J.str_("cp_ft_equation")}), limitsTP=J.obj(lowerT=num_("l%d" % i), upperT=num_("u%d" % i)), m_heat_capacity_ft_coeffs=J.objd({"values": J.arr(num_("c%d" % i))}), m_phase_trans_props=J.objd({"values": J.arr(num_("t%d" % i))})) for i in range(3)]
    v, I = P.parse("Substance", J.obj(TPMethods=J.arr(*seg))); t = P.show("Substance", v)[PARAM]; where = P.where["Substance"]
    iv = fld(M, t, "temperature_intervals")
    c.ob(iv == mk("list", *[mk("list", S("l%d" % i), S("u%d" % i)) for i in range(3)]), "intervals:limits", where, "the temperature intervals of the heat capacity are those of the record, in order", tshow(iv)[:300])
    for f, x, u in (("Cp_coeff", "c", "J/(mol*K)"), ("phase_transition_prop", "t", "K")):
        w = fld(M, t, f)
        ok = w[0] == "list" and len(w) == 4 and all(w[1 + i][0] == "list" and len(w[1 + i]) == 2 and is_value(w[1 + i][1], S("%s%d" % (x, i)), u, u) for i in range(3))
        c.ob(ok, "intervals:" + f, where, "the coefficients of each interval are those of the record, in order", tshow(w)[:300])
    v, I = P.parse("Substance", J.obj(TPMethods=J.arr(*[J.obj(method=J.objd({"34": J.str_("mv_constant")}), limitsTP=J.obj(lowerT=num_("l"), upperT=num_("u")))])))
    iv = fld(M, P.show("Substance", v)[PARAM], "temperature_intervals")
    c.ob(iv == mk("list"), "intervals:other", where, "limits of other methods are no heat capacity interval", tshow(iv)[:200])
    # expansivity and compressibility
    for key, field, u, o in (("m_expansivity", "isobaric_expansivity", "1/K", "1/K"), ("m_compressibility", "isothermal_compresibility", "kbar", "bar")):
        d = {"TPMethods": J.arr(J.obj(method=J.objd({"38": J.str_("mv_eos_murnaghan_hp98")})))}
        v, I = P.parse("Substance", J.objd({**d, key: quant("X", o)})); t = fld(M, P.show("Substance", v)[PARAM], field)
        c.ob(is_value(t, S("X"), o, u), "coeff:" + key, where, "'%s' reaches the model's parameters in its unit" % key, tshow(t)[:200])
        v, I = P.parse("Substance", J.objd(d)); t = fld(M, P.show("Substance", v)[PARAM], field)
        c.ob(t == ZERO, "coeff:%s:absent" % key, where, "an absent '%s' is zero" % key, tshow(t)[:200])
    # every coefficient set that a model reads is filled from the record
    for kind in ("Substance", "Reaction"):
        rec = NS + "ThermoParameters" + kind; read = {}
        for f in M.fn.values():
            if not re.search(r"/(Substances|Reactions)/", f["file"]) or f.get("dep"): continue
            for n in walk(f):
                if n.get("k") == "Member" and n.get("fc") == rec and n.get("n"): read.setdefault(n["n"], loc(f))
        fill = {x[0] for x in COEF[kind].values()} | ({"temperature_intervals", "isobaric_expansivity", "isothermal_compresibility"} if kind == "Substance" else set())
        for x, w in sorted(read.items()):
            c.ob(x in fill, "read:" + x, w, "the parameters '%s' that a model reads are among those checked here" % x)
    c.need(P.n, "documents", 120)
