"""Rule on the conversion of units."""
import math
from registry import rule
from model import *
from gsa import *

UN = "ThermoFun::units::"
# name: (factor to the base units, dimensions); base units m, kg, s, A, mol, K, cd, radian, sr, eq
def _table():
    t = {}
    def put(f, d, *names):
        for n in names: t[n] = (float(f), d)
    L, M_, TI, A, N, K = {"m": 1}, {"kg": 1}, {"s": 1}, {"A": 1}, {"mol": 1}, {"K": 1}
    put(1, {}, "1"); put(1e-2, {}, "%%", "percent"); put(1e-3, {}, "%%%%", "permil"); put(1e-6, {}, "ppm"); put(1e-9, {}, "ppb")
    put(1e-3, M_, "g", "gram", "grams"); put(1, M_, "kg", "kilogram", "kilograms"); put(1e-6, M_, "mg"); put(1e-9, M_, "ug"); put(1e-12, M_, "ng"); put(1e3, M_, "tonne")
    put(.45359237, M_, "lb", "lbm"); put(1.660538921e-27, M_, "amu"); put(907.18474, M_, "ton")
    put(1, L, "m", "meter", "meters"); put(1e3, L, "km"); put(1e-2, L, "cm"); put(1e-3, L, "mm"); put(1e-6, L, "um"); put(1e-9, L, "nm"); put(1e-10, L, "Angstrom")
    put(.0254, L, "in", "inch", "inches"); put(2.54e-5, L, "mil"); put(.3048, L, "ft", "feet", "foot"); put(.9144, L, "yd", "yard", "yards"); put(1609.344, L, "mi", "mile", "miles")
    put(1852, L, "nauticalmile"); put(9460730472580800, L, "lightyear"); put(149597870700, L, "au")
    put(1, TI, "s", "second", "seconds"); put(1e-3, TI, "ms"); put(1e-6, TI, "us"); put(1e-9, TI, "ns"); put(60, TI, "minute", "minutes"); put(3600, TI, "hour", "hours")
    put(86400, TI, "day", "days"); put(604800, TI, "week", "weeks"); put(86400 * 365.2422 / 12, TI, "month", "months"); put(86400 * 365.2422, TI, "year", "years")
    put(1, A, "A", "ampere", "amperes")
    for p, f in (("M", 1e6), ("k", 1e3), ("m", 1e-3), ("u", 1e-6), ("n", 1e-9), ("p", 1e-12)): put(f, A, p + "A")
    put(1, N, "mol", "mole", "moles"); put(1e-3, N, "mmol"); put(1e-6, N, "umol")
    put(1, {"cd": 1}, "cd", "candela"); R = {"radian": 1}; put(1, R, "radian"); put(1e-3, R, "mradian"); put(1e-6, R, "uradian"); put(math.pi / 180, R, "deg", "degree", "degrees")
    put(1, {"sr": 1}, "sr", "steradian")
    L2, L3 = {"m": 2}, {"m": 3}
    for n, f in (("m", 1), ("mm", 1e-3), ("cm", 1e-2), ("in", .0254), ("ft", .3048)):
        put(f ** 2, L2, n + "2", n + "^2"); put(f ** 3, L3, n + "3", n + "^3")
    put(1e4, L2, "hectare", "hectares"); put(4046.8564, L2, "acre", "acres"); put(1e-28, L2, "barn", "barns")
    put(1e-3, L3, "l", "L", "liter", "liters"); put(1e-6, L3, "ml", "mL", "cc"); put(1e-9, L3, "ul", "uL"); put(4.54609e-3, L3, "gal", "gallon", "gallons"); put(4.54609e-3 / 4, L3, "quart")
    V = {"m": 1, "s": -1}; put(1, V, "mps"); put(.01, V, "cmps"); put(.44704, V, "mph"); put(1852 / 3600, V, "knot"); put(.3048, V, "fps")
    AC = {"m": 1, "s": -2}; put(1, AC, "mpss"); put(.3048, AC, "fpss"); put(9.80665, AC, "gravity")
    FQ = {"s": -1}; put(1, FQ, "Hz", "hertz"); put(1e3, FQ, "kHz"); put(1e6, FQ, "MHz"); put(1e9, FQ, "GHz"); put(1 / 60, FQ, "rpm")
    Q = {"m": 3, "s": -1}; g, c = 4.54609e-3, .3048 ** 3
    put(g, Q, "gps"); put(g / 60, Q, "gpm"); put(g / 3600, Q, "gph"); put(c, Q, "cfs"); put(c / 60, Q, "cfm"); put(1e-3, Q, "lps"); put(1e-3 / 60, Q, "lpm")
    FO = {"kg": 1, "m": 1, "s": -2}; lbf = .45359237 * 9.80665
    put(1, FO, "N", "newton", "newtons"); put(1e3, FO, "kN"); put(lbf, FO, "lbf"); put(1e-5, FO, "dyne", "dynes")
    PR = {"kg": 1, "m": -1, "s": -2}; psi = lbf / .0254 ** 2
    put(1, PR, "Pa", "pascal", "pascals"); put(1e3, PR, "kPa"); put(1e6, PR, "MPa"); put(1e9, PR, "GPa"); put(101325, PR, "atm"); put(133.322387, PR, "mmHg"); put(101325 / 760, PR, "torr")
    put(3386.3886, PR, "inHg"); put(psi, PR, "psi"); put(1e3 * psi, PR, "kpsi"); put(1e6 * psi, PR, "Mpsi"); put(psi / 144, PR, "psf"); put(1e5, PR, "bar"); put(1e8, PR, "kbar")
    put(249.08891, PR, "inH2O"); put(12 * 249.08891, PR, "ftH2O")
    E = {"kg": 1, "m": 2, "s": -2}; eV = 1.60217657e-19
    put(1, E, "J", "joule", "joules"); put(1e3, E, "kJ"); put(1e6, E, "MJ"); put(1e-7, E, "erg"); put(4.184, E, "cal", "calorie", "calories"); put(4184, E, "kcal")
    put(eV, E, "eV"); put(1e3 * eV, E, "keV"); put(1e6 * eV, E, "MeV"); put(1e9 * eV, E, "GeV"); put(1055.05585, E, "btu")
    put(1, {"kg": 1, "m": 2, "s": -3}, "W", "watts")
    C = {"A": 1, "s": 1}; put(1, C, "C", "coulomb", "coulombs"); put(1e-3, C, "mC")
    VO = {"kg": 1, "m": 2, "s": -3, "A": -1}; put(1, VO, "V", "volt", "volts"); put(1e-3, VO, "mV")
    put(1, {"kg": 1, "m": 2, "s": -3, "A": -2}, "ohm", "ohms"); put(1, {"kg": -1, "m": -2, "s": 3, "A": 2}, "S", "siemens")
    FA = {"kg": -1, "m": -2, "s": 4, "A": 2}; put(1, FA, "F", "farad", "farads"); put(1e-12, FA, "pF"); put(1e-9, FA, "nF"); put(1e-6, FA, "uF"); put(1e-3, FA, "mF")
    put(1, {"kg": 1, "m": 2, "s": -2, "A": -1}, "Wb", "weber", "webers"); TE = {"kg": 1, "s": -2, "A": -1}; put(1, TE, "T", "tesla", "teslas"); put(1e-4, TE, "gauss")
    H = {"kg": 1, "m": 2, "s": -2, "A": -2}; put(1, H, "H", "henry"); put(1e-3, H, "mH"); put(1e-6, H, "uH")
    for p, f in (("", 1), ("m", 1e-3), ("u", 1e-6), ("n", 1e-9)):
        put(f, {"mol": 1, "kg": -1}, p + "molal"); put(f * 1e3, {"mol": 1, "m": -3}, p + "molar"); put(f, {"eq": 1}, p + "eq")
    for e in (2, 3, 4, 5, .5, 1.5): put(1, {"K": e}, "K^%g" % e)
    for e in (2, 3, 4, 5, .5): put(1e5 ** e, {k: v * e for k, v in PR.items()}, "bar^%g" % e)
    put(1, K, "K")
    return t
TABLE = _table()

# value in K = a * value + b
TEMP = {"K": (1, 0), "kelvin": (1, 0), "degC": (1, 273.15), "celsius": (1, 273.15), "degF": (5 / 9, 459.67 * 5 / 9), "fahrenheit": (5 / 9, 459.67 * 5 / 9), "degR": (5 / 9, 0), "rankine": (5 / 9, 0)}

def expression(dims):
    """a unit expression in base units with these (whole) dimensions, and None where it cannot be written"""
    up, down = [], []
    for k, v in sorted(dims.items()):
        if v != int(v): return None
        (up if v > 0 else down).extend([k] * abs(int(v)))
    return "*".join(up or ["1"]) + "".join("/" + k for k in down)

def affine(v, x=None):
    """(a, b) with v = a * x + b by evaluating the closed term at three points; None if it is not that"""
    def ev(t, xv):
        k = t[0]
        if t == sym("x"): return xv
        if isnum(t): return float(t[1])
        a = [ev(s, xv) for s in t[1:] if isinstance(s, tuple)]
        if k == "+": return math.fsum(a)
        if k == "-" and len(a) == 2: return a[0] - a[1]
        if k == "neg": return -a[0]
        if k == "*": return math.prod(a)
        if k == "/": return a[0] / a[1]
        if k == "pow": return a[0] ** a[1]
        raise ValueError(k)
    try:
        y = [ev(v, p) for p in (0.0, 1.0, 1000.0)]
    except (ValueError, ZeroDivisionError, OverflowError): return None
    a, b = y[1] - y[0], y[0]
    return (a, b) if abs(a * 1000 + b - y[2]) <= 1e-9 * max(abs(y[2]), abs(b), 1e-300) else None

def factor_of(v):
    """v = a * x exactly: the factor, from the closed term"""
    r = affine(v)
    return r[0] if r and r[1] == 0 else None

COMPOSITE = [("J/mol/K", "cal/mol/K", 1 / 4.184), ("J/(mol*K)", "cal/(mol*K)", 1 / 4.184), ("J/(mol*K)", "J/mol/K", 1), ("J/mol*K", "J*K/mol", 1), ("cal/(mol*(K*bar))", "J/mol/K/Pa", 4.184e-5),
    ("J/(mol/K)", "J*K/mol", 1), ("(J*m)/(s*s)", "J*m/s/s", 1), ("(cal)", "J", 4.184), ("((kJ))/((mol))", "J/mol", 1e3), ("cm3/mol", "J/mol/bar", 0.1), ("J/bar", "cm3", 10), ("m*(kg/(s*s))", "N", 1),
    ("kJ/(mol*K^2)", "cal/mol/K^2", 1e3 / 4.184), ("J/(mol*K^0.5)", "cal/mol/K^0.5", 1 / 4.184), ("1/kbar", "1/bar", 1e-3), ("1/bar", "1/Pa", 1e-5), ("J*K^0.5/mol", "cal*K^0.5/mol", 1 / 4.184),
    ("g/cm3", "kg/m3", 1e3), ("bar*cm3", "J", .1), ("kg/m^3", "g/cc", 1e-3), ("1/(s)", "Hz", 1), ("ppm*kg", "mg", 1), ("bar^2", "bar*bar", 1), ("bar^0.5*bar^0.5", "bar", 1), ("K^1.5", "K*K^0.5", 1),
    ("1/K^2", "1/(K*K)", 1), ("J/(mol*K^3)", "J/mol/(K^2)/K", 1), ("mol/molal", "kg", 1)]
WRONG = [("J", "K"), ("J/mol", "J"), ("J/mol/K", "J/mol"), ("Pa", "J"), ("K", "bar"), ("degC", "J"), ("K^0.5", "K"), ("K^0.5", "1"), ("K^0.5", "K^1.5"), ("K^1.5", "K"), ("bar^0.5", "1"), ("bar^2", "K^2"), ("bar^0.5", "K^0.5"),
    ("T", "Wb"), ("J/(mol*K)", "J/mol*K"), ("J/mol*K", "J/mol/K"), ("m/(s*s)", "m/s*s"), ("s", "1/s"), ("mol", "kg"), ("m", "m2"), ("J/(mol*K^0.5)", "J/mol"), ("1/bar", "bar"), ("1", "K"), ("J/J", "J")]
BAD = ["", "furlong", "/K", "*K", "J/", "J*", "J//mol", "()", "J(mol)", "(J", "J)", "J/(mol", "J/mol)", "*", "/", "(", ")", "J/()", "j", "Kelvin", "J mol", "(*K)", "J/(/K)"]
WITH = {"J(mol)": "J"}

@rule("D03")
def D03(M, c):
    """Closed terms of a conversion of every unit against an independent table of SI factors and dimensions."""
    conv = M.one(UN + "convert"); able = M.one(UN + "convertible"); c.analysed.update({conv["f"], able["f"]})
    lost = []
    def run(f, a, b, val=True):
        I = Interp(M); I.recursion = 40; I.concrete = True; I.maxdepth = 120
        ar = [mk("str", a), mk("str", b)]
        v = I.run(f, args=[sym("x")] + ar if val else ar)
        c.analysed.update({e["fn"]["f"] for e in I.events if e["fn"]})
        # following a null pointer or reading past the end of the text
        bad = [e for e in I.events if e["kind"] == "fault"]
        if bad: return ("sym", "%s in %s (%s)" % (bad[0]["value"][1], bad[0]["fn"]["f"], loc(bad[0]["fn"], bad[0]["node"])))
        thrown[0] = any(e["kind"] == "throw" for e in I.events)
        return v
    thrown = [False]
    w = loc(conv); n = 0
    def exact(a, b, want, key, text):
        v = run(conv, a, b); g = factor_of(v)
        c.ob(g is not None and abs(g / want - 1) < 1e-5 and not thrown[0], key, w, text, "1 %s gives %s %s, it is %.8g" % (a, "%.8g" % g if g is not None else tshow(v)[:200], b, want))
        return v
    def raises(a, b, key, text):
        v = run(conv, a, b)
        c.ob(v[0] == "noreturn", key, w, text, "the conversion of %r to %r gives %s" % (a, b, tshow(v)[:200]))
    # every unit by itself
    for u, (f, d) in TABLE.items():
        e = expression(d)
        if e is None: continue
        exact(u, e, f, "unit:" + u, "one %s is %.8g %s" % (u, f, e)); n += 1
    c.need(n, "units", 150)
    for a, b, f in COMPOSITE:
        exact(a, b, f, "expression:%s>%s" % (a, b), "%s is converted to %s" % (a, b))
        exact(b, a, 1 / f, "expression:%s>%s" % (b, a), "%s is converted to %s" % (b, a))
    # temperatures
    for a in TEMP:
        for b in TEMP:
            v = run(conv, a, b); g = affine(v)
            want = (TEMP[a][0] / TEMP[b][0], (TEMP[a][1] - TEMP[b][1]) / TEMP[b][0])
            c.ob(g is not None and not thrown[0] and abs(g[0] / want[0] - 1) < 1e-9 and abs(g[1] - want[1]) < 1e-9, "temperature:%s>%s" % (a, b), w, "temperatures on one scale are converted to the other with its zero",
                 "%s to %s gives %s, it is %.6g x + %.6g" % (a, b, g or tshow(v)[:200], want[0], want[1]))
    # what cannot be converted raises
    for a, b in WRONG:
        raises(a, b, "mismatch:%s>%s" % (a, b), "units of different dimensions are not converted"); raises(b, a, "mismatch:%s>%s" % (b, a), "units of different dimensions are not converted")
    for a in BAD:
        for p, q in ((a, a), (a, WITH.get(a, "J/mol")), (WITH.get(a, "J/mol"), a)): raises(p, q, "malformed:%s>%s" % (p, q), "text that is not a unit is not converted")
    # the question whether it can be
    for a, b in [(x, y) for x, y, _ in COMPOSITE] + [("K", "degC"), ("bar", "Pa"), ("degF", "celsius")]:
        v = run(able, a, b, False); c.ob(v == TRUE, "convertible:%s>%s" % (a, b), loc(able), "units that can be converted are said to be convertible", tshow(v)[:200])
    for a, b in WRONG:
        v = run(able, a, b, False); c.ob(v == FALSE or v[0] == "noreturn", "convertible:%s>%s" % (a, b), loc(able), "units that cannot be converted are not said to be convertible", tshow(v)[:200])
