"""Rules on thermodynamic scalars: every operation is run symbolically on raw fields and compared with calculus."""
from registry import rule
from model import *
from gsa import *
from terms import *

L, R = sym("l"), sym("r")
def _v(x): return mk("fld", x, "val")
LV, RV = _v(L), _v(R)
LN10 = num(Fr("2.302585092994046"))
# operation -> (value, scalar operands)
OPS = {
 "op_plus": (LV, "l"), "op_minus": (neg(LV), "l"),
 "add_ss": (add(LV, RV), "lr"), "add_ds": (add(L, RV), "r"), "add_sd": (add(LV, R), "l"),
 "sub_ss": (sub(LV, RV), "lr"), "sub_ds": (sub(L, RV), "r"), "sub_sd": (sub(LV, R), "l"),
 "mul_ss": (mul(LV, RV), "lr"), "mul_ds": (mul(L, RV), "r"), "mul_sd": (mul(LV, R), "l"),
 "div_ss": (div(LV, RV), "lr"), "div_ds": (div(L, RV), "r"), "div_sd": (div(LV, R), "l"),
 "pow_sd": (powt(LV, R), "l"), "pow_ss": (powt(LV, RV), "lr"),
 "fn_sqrt": (powt(LV, num(Fr(1, 2))), "l"), "fn_exp": (fn("exp", LV), "l"), "fn_log": (fn("log", LV), "l"), "fn_log10": (div(fn("log", LV), LN10), "l"),
 "iadd_ss": (add(LV, RV), "lr"), "isub_ss": (sub(LV, RV), "lr"), "imul_ss": (mul(LV, RV), "lr"), "idiv_ss": (div(LV, RV), "lr"),
 "iadd_sd": (add(LV, R), "l"), "isub_sd": (sub(LV, R), "l"), "imul_sd": (mul(LV, R), "l"), "idiv_sd": (div(LV, R), "l"),
}
NAME = {"op_plus": "+x", "op_minus": "-x", "pow_sd": "pow(x, number)", "pow_ss": "pow(x, y)", "fn_sqrt": "sqrt(x)", "fn_exp": "exp(x)", "fn_log": "log(x)", "fn_log10": "log10(x)"}
def nm(o):
    if o in NAME: return NAME[o]
    b, k = o.split("_"); a = {"s": "x", "d": "number"}[k[0]]; c = {"s": "y", "d": "number"}[k[1]]
    return "%s %s %s" % (a, {"add": "+", "sub": "-", "mul": "*", "div": "/"}[b[-3:]] + ("=" if b[0] == "i" else ""), c)

_cache = {}
def op(M, c, name):
    f = M.one("vf::" + name); I = Interp(M, raw_ts=True); v = I.run(f)
    fs = [e["fn"] for e in I.events if e.get("fn")]
    callee = [g for g, _ in callees_in(M, f)]
    for g in callee: c.analysed.add(g["f"] + " (" + loc(g) + ")")
    where = loc(callee[0]) if callee else loc(f)
    return I, v, where
def callees_in(M, f):
    for n in walk(f["c"][0]):
        u = n.get("u")
        if u and u in M.fn and M.fn[u]["f"].startswith("Reaktoro_::") and n["k"] in ("Call", "MCall", "OpCall", "Construct") and n.get("ctor") not in ("copy", "move"): yield M.fn[u], n

def nonzero(t):
    """t away from the isolated points where an operation treats a zero operand specially"""
    for _ in range(20):
        cs = [x for x in conds_in(t) if ZERO in x and "==" in x]
        if not cs: return t
        for k in cs: t = assume(t, k, False)
    return t

def deriv(t, s):
    """derivative of a term built from + - * / pow exp log, by the textbook rules"""
    if t == s: return ONE
    k = t[0]
    if k in ("num", "sym", "fld"): return ZERO
    if k == "+": return add(deriv(t[1], s), deriv(t[2], s))
    if k == "*": return add(mul(deriv(t[1], s), t[2]), mul(t[1], deriv(t[2], s)))
    if k == "/": return div(sub(mul(deriv(t[1], s), t[2]), mul(t[1], deriv(t[2], s))), mul(t[2], t[2]))
    if k == "-": return sub(deriv(t[1], s), deriv(t[2], s))
    if k == "neg": return neg(deriv(t[1], s))
    if k == "pow":
        a, b = t[1], t[2]
        return mul(t, add(mul(deriv(b, s), fn("log", a)), mul(b, div(deriv(a, s), a))))
    if k == "fn" and t[1] == "exp": return mul(t, deriv(t[2], s))
    if k == "fn" and t[1] == "log": return div(deriv(t[2], s), t[2])
    raise AnalysisError("no derivative rule for " + tshow(t))

def square(t):
    if t[0] == "abs": return square(t[1])
    if t[0] == "fn" and t[1] in ("abs", "fabs"): return square(t[2])
    if t[0] == "neg": return square(t[1])
    if t[0] == "pow" and t[2] == num(Fr(1, 2)): return t[1]
    if t[0] == "*": return mul(square(t[1]), square(t[2]))
    if t[0] == "/": return div(square(t[1]), square(t[2]))
    if t[0] == "call" and "hypot" in str(t[1]): 
        r = ZERO
        for x in t[2:]: r = add(r, mul(x, x))
        return r
    return mul(t, t)

@rule("S01")
def S01(M, c):
    """Every arithmetic operation, power, root, exponential and logarithm of thermodynamic scalars is evaluated symbolically on the raw
    fields; value and both partial derivatives are compared with the chain rule of calculus."""
    for o, (val, ops) in OPS.items():
        I, v, where = op(M, c, o)
        got = I.getf(v, "val")
        c.ob(equal(nonzero(got), val) is True, "val:" + o, where, "value of %s" % nm(o), "computed: " + tshow(got))
        for d, dn in (("ddt", "temperature"), ("ddp", "pressure")):
            exp = ZERO
            for x in ops:
                s = {"l": L, "r": R}[x]
                exp = add(exp, mul(deriv(val, _v(s)), mk("fld", s, d)))
            got = I.getf(v, d)
            c.ob(equal(nonzero(got), exp) is True, "%s:%s" % (d, o), where, "%s derivative of %s follows the chain rule" % (dn, nm(o)), "computed: " + tshow(got)[:500])
    for o, n in (("set_d", "assigning a number"), ("make_d", "construction from a number"), ("make_0", "default construction"), ("make_T", "a temperature"), ("make_P", "a pressure")):
        I, v, where = op(M, c, o)
        e = {"val": R if o == "set_d" else ZERO if o == "make_0" else L, "ddt": ONE if o == "make_T" else ZERO, "ddp": ONE if o == "make_P" else ZERO}
        for d, x in e.items():
            got = I.getf(v, d)
            c.ob(equal(got, x) is True, "%s:%s" % (d, o), where, "%s of %s" % (d, n), "computed: " + tshow(got))
    for o, s in (("set_s", R), ("set_T", R), ("copy_s", L)):
        I, v, where = op(M, c, o)
        for d in ("val", "ddt", "ddp"):
            got = I.getf(v, d)
            c.ob(equal(got, mk("fld", s, d)) is True, "%s:%s" % (d, o), where, "copying keeps %s" % d, "computed: " + tshow(got))
    for b, sg in (("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">="), ("eq", "=="), ("ne", "!=")):
        for k in ("ss", "ds", "sd"):
            I, v, where = op(M, c, b + "_" + k)
            x = LV if k[0] == "s" else L; y = RV if k[1] == "s" else R
            c.ob(v == cmp_(sg, x, y) or v == cmp_({"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(sg, sg), y, x), "cmp:%s_%s" % (b, k), where, "%s compares the values" % sg, "computed: " + tshow(v))
    c.need(len(OPS), "operations", 28)

@rule("S02")
def S02(M, c):
    """For every operation, the term of the result's status is 0 (undefined) exactly when the status of some operand is 0."""
    sta = lambda x: mk("fld", mk("fld", x, "sta"), "first")
    n = 0
    for o, (val, ops) in OPS.items():
        I, v, where = op(M, c, o)
        got = I.getf(I.getf(v, "sta"), "first")
        S = [sta({"l": L, "r": R}[x]) for x in ops]
        # enumerate which operands are undefined
        for mask in range(1 << len(S)):
            t = got
            for i, s in enumerate(S):
                z = bool(mask >> i & 1)
                t = decide(t, s, z)
            und = mask != 0
            if t[0] == "num": ok = (t == ZERO) == und
            else: ok = (not und) and t in S      # an operand's own defined status
            n += 1
            c.ob(ok, "sta:%s:%d" % (o, mask), where, "%s is %s when %s" % (nm(o), "undefined" if und else "defined", "an operand is undefined" if und else "all operands are defined"), "status: " + tshow(got))
    for o, exp in (("set_d", False), ("make_d", True), ("make_0", True), ("make_T", False), ("make_P", False)):
        I, v, where = op(M, c, o); t = I.getf(I.getf(v, "sta"), "first"); n += 1
        c.ob(t[0] == "num" and (t == ZERO) == exp, "sta:" + o, where, "%s: status %s" % (o, "undefined" if exp else "defined"), "status: " + tshow(t))
    for o, s in (("set_s", R), ("set_T", R), ("copy_s", L)):
        I, v, where = op(M, c, o); t = I.getf(I.getf(v, "sta"), "first"); n += 1
        c.ob(t == sta(s), "sta:" + o, where, "copying keeps the status", "status: " + tshow(t))
        e = I.getf(v, "err"); c.ob(e in (mk("fld", s, "err"), fn("abs", mk("fld", s, "err"))), "err:" + o, where, "copying keeps the error", "error: " + tshow(e))
    c.need(n, "status cases", 60)

def decide(t, s, undefined):
    """t with every comparison of the status s against an enumerator decided; a defined status is any non-zero value"""
    if undefined:
        t = rewrite(t, lambda x: ZERO if x == s else None)
        return t
    for k in list(conds_in(t)):
        if s in k and ZERO in k: t = assume(t, k, "!=" in k)
    return t

@rule("S03")
def S03(M, c):
    """For every operation the square of the propagated error is compared with the sum of squares of partial derivative times operand
    error (first-order propagation of independent errors), away from zero operands."""
    for o, (val, ops) in OPS.items():
        I, v, where = op(M, c, o)
        got = nonzero(I.getf(v, "err"))
        exp = ZERO
        for x in ops:
            s = {"l": L, "r": R}[x]
            d = mul(deriv(val, _v(s)), mk("fld", s, "err")); exp = add(exp, mul(d, d))
        c.ob(equal(plain_abs(square(got)), exp) is True, "err:" + o, where, "error of %s is the first-order propagated error" % nm(o), "computed: " + tshow(got)[:500])
        pos = nonneg(got)
        c.ob(pos or got in (mk("fld", L, "err"), mk("fld", R, "err")), "sign:" + o, where, "the error of %s is not negative" % nm(o), "computed: " + tshow(got)[:300])

def plain_abs(t):
    """|x|^2k = x^2k"""
    try: p = nf(t)
    except TooBig: return t
    for m in p:
        for a, e in m:
            x = atomof(a)
            if x[0] == "fn" and x[1] == "abs" and not (isinstance(e, (int, Fr)) and Fr(e).denominator == 1 and Fr(e).numerator % 2 == 0): return t
    return rewrite(t, lambda x: x[2] if x[0] == "fn" and x[1] == "abs" else None)

def nonneg(t):
    if t[0] == "abs" or t[0] == "fn" and t[1] in ("abs", "fabs"): return True
    if t[0] == "pow" and t[2] == num(Fr(1, 2)): return True
    if t[0] == "num": return t[1] >= 0
    if t[0] in ("*", "+", "/"): return nonneg(t[1]) and nonneg(t[2])
    return t[0] == "fld" and t[2] == "err"
