"""Water's equations against the publications they implement."""
from fractions import Fraction as Fr
from registry import rule
from model import *
from gsa import *
from terms import *
from rules.engine import *
from rules.thermo import *
from rules.water import run_free, by_ptype, opaque_db, D

n_ = lambda s: num(Fr(str(s)))
def tot(xs):
    r = ZERO
    for x in xs: r = add(r, x)
    return r
def prod(*xs):
    r = ONE
    for x in xs: r = mul(r, x)
    return r
def L(s): return [Fr(x) for x in s.split()]
lg = lambda x: fn("log", x)
ex = lambda x: fn("exp", x)
pw = lambda x, e: powt(x, num(Fr(e)))

# Wagner, Pruss (2002), J. Phys. Chem. Ref. Data 31, 387-535, tables 6.1 and 6.2 (IAPWS-95)
WP_N0 = L("-8.32044648201 6.6832105268 3.00632 0.012436 0.97315 1.27950 0.96956 0.24873")
WP_G0 = L("1.28728967 3.53734222 7.74073708 9.24437796 27.5075105")
WP_C = [0] * 7 + [1] * 15 + [2] * 20 + [3] * 4 + [4] + [6] * 4
WP_D = L("1 1 1 2 2 3 4 1 1 1 2 2 3 4 4 5 7 9 10 11 13 15 1 2 2 2 3 4 4 4 5 6 6 7 9 9 9 9 9 10 10 12 3 4 4 5 14 3 6 6 6 3 3 3")
WP_T = L("-0.5 0.875 1 0.5 0.75 0.375 1 4 6 12 1 5 4 2 13 9 3 4 11 4 13 1 7 1 9 10 10 3 7 10 10 6 10 10 1 2 3 4 8 6 9 8 16 22 23 23 10 50 44 46 50 0 1 4")
WP_N = L("""0.12533547935523e-1 0.78957634722828e1 -0.87803203303561e1 0.31802509345418 -0.26145533859358 -0.78199751687981e-2 0.88089493102134e-2
 -0.66856572307965 0.20433810950965 -0.66212605039687e-4 -0.19232721156002 -0.25709043003438 0.16074868486251 -0.40092828925807e-1 0.39343422603254e-6
 -0.75941377088144e-5 0.56250979351888e-3 -0.15608652257135e-4 0.11537996422951e-8 0.36582165144204e-6 -0.13251180074668e-11 -0.62639586912454e-9
 -0.10793600908932 0.17611491008752e-1 0.22132295167546 -0.40247669763528 0.58083399985759 0.49969146990806e-2 -0.31358700712549e-1 -0.74315929710341
 0.47807329915480 0.20527940895948e-1 -0.13636435110343 0.14180634400617e-1 0.83326504880713e-2 -0.29052336009585e-1 0.38615085574206e-1
 -0.20393486513704e-1 -0.16554050063734e-2 0.19955571979541e-2 0.15870308324157e-3 -0.16388568342530e-4 0.43613615723811e-1 0.34994005463765e-1
 -0.76788197844621e-1 0.22446277332006e-1 -0.62689710414685e-4 -0.55711118565645e-9 -0.19905718354408 0.31777497330738 -0.11841182425981
 -0.31306260323435e2 0.31546140237781e2 -0.25213154341695e4 -0.14874640856724 0.31806110878444""")
TC, DC, PC = n_("647.096"), n_("322"), n_("22064000")

def wagner_pruss():
    d, t = div(D, DC), div(TC, T); q = lambda x: num(x); g = WP_N0
    s = [lg(d), q(g[0]), mul(q(g[1]), t), mul(q(g[2]), lg(t))]
    s += [mul(q(g[3 + k]), lg(sub(ONE, ex(neg(mul(q(WP_G0[k]), t)))))) for k in range(5)]
    for i in range(54):
        x = prod(q(WP_N[i]), pw(d, WP_D[i]), pw(t, WP_T[i]))
        if 7 <= i < 51: x = mul(x, ex(neg(pw(d, WP_C[i]))))
        if i >= 51:
            b, ga = ((150, "1.21"), (150, "1.21"), (250, "1.25"))[i - 51]
            x = mul(x, ex(sub(neg(mul(num(20), pw(sub(d, ONE), 2))), mul(num(b), pw(sub(t, n_(ga)), 2)))))
        s.append(x)
    d2, t2 = pw(sub(d, ONE), 2), pw(sub(t, ONE), 2)
    for i, (b, C_, F) in ((54, ("0.85", 28, 700)), (55, ("0.95", 32, 800))):
        th = add(sub(ONE, t), mul(n_("0.32"), pw(d2, Fr(1, 2) / Fr("0.3"))))
        De = add(pw(th, 2), mul(n_("0.2"), pw(d2, "3.5")))
        s.append(prod(q(WP_N[i]), pw(De, b), d, ex(sub(neg(mul(num(C_), d2)), mul(num(F), t2)))))
    return prod(n_("461.51805"), T, tot(s))

# Kestin, Sengers, Kamgar-Parsi, Levelt Sengers (1984), J. Phys. Chem. Ref. Data 13, 175-183: the equation of Haar, Gallagher and Kell (1984), in reduced form
K_A0 = L("""-0.130840393653e2 -0.857020420940e2 0.765192919131e-2 -0.620600116069 -0.106924329402e2 -0.280671377296e1 0.119843634845e3 -0.823907389256e2
 0.555864146443e2 -0.310698122980e2 0.136200239305e2 -0.457116129409e1 0.115382128188e1 -0.214242224683 0.282800597384e-1 -0.250384152737e-2 0.132952679669e-3 -0.319277411208e-5""")
K_A1 = L("0.15383053e1 -0.81048367 -0.68305748e1 0 0.86756271")
K_A20 = "4.2923415"
K_Y = L("0.59402227e-1 -0.28128238e-1 0.56826674e-3 -0.27987451e-3")
K_A3 = L("""-0.76221190138079e1 0.32661493707555e2 0.11305763156821e2 -0.10015404767712e1 0.12830064355028e3 -0.28371416789846e3 0.24256279839182e3 -0.99357645626725e2
 -0.12275453013171e4 0.23077622506234e4 -0.16352219929859e4 0.58436648297764e3 0.42365441415641e4 -0.78027526961828e4 0.38855645739589e4 -0.91225112529381e3
 -0.90143895703666e4 0.15196214817734e5 -0.39616651358508e4 -0.72027511617558e3 0.11147126705990e5 -0.17412065252210e5 0.99918281207782e3 0.33504807153854e4
 -0.64752644922631e4 0.98323730907847e4 0.83877854108422e3 -0.27919349903103e4 0.11112410081192e4 -0.17287587261807e4 -0.36233262795423e3 0.61139429010144e3
 0.32968064728562e2 0.10411239605066e3 -0.38225874712590e2 -0.20307478607599e3""")
K_K = [k for k in (1, 2, 3, 4, 5, 6, 7, 9) for _ in range(4)] + [3, 3, 1, 5]
K_L = [1, 2, 4, 6] * 8 + [0, 3, 3, 3]
K_4 = [(2, 0, 34, 20000, "1.0038928", "0.98876821", "-0.32329494e-2"), (2, 2, 40, 20000, "1.0038928", "0.98876821", "-0.24139355e-1"),
       (2, 0, 30, 40000, "1.0038928", "0.99124013", "0.79027651e-3"), (4, 0, 1050, 25, "4.8778492", "0.41713659", "-0.13362857e1")]
def hgk():
    t, r = div(T, n_("647.27")), div(D, n_("317.763")); q = num
    s = [mul(add(q(K_A0[0]), mul(q(K_A0[1]), t)), lg(t))] + [mul(q(K_A0[i]), pw(t, i - 4)) for i in range(2, 18)]
    s += [prod(r, q(K_A1[i]), pw(t, 1 - i)) for i in range(5)]
    y = mul(r, tot([q(K_Y[0]), mul(q(K_Y[1]), lg(t)), mul(q(K_Y[2]), pw(t, -3)), mul(q(K_Y[3]), pw(t, -5))])); x = div(ONE, sub(ONE, y))
    s.append(prod(n_(K_A20), t, tot([lg(mul(r, x)), mul(q(Fr(-130, 3)), x), mul(q(Fr(169, 6)), pw(x, 2)), mul(q(Fr(-14)), y)])))
    z = sub(ONE, ex(neg(mul(n_("0.317763"), r))))
    s += [prod(q(K_A3[i]), pw(t, -K_L[i]), pw(z, K_K[i])) for i in range(36)]
    for m, k, a, b, ri, ti, A in K_4:
        de, ta = div(sub(r, n_(ri)), n_(ri)), div(sub(t, n_(ti)), n_(ti))
        s.append(prod(n_(A), pw(de, k), ex(sub(neg(mul(num(a), pw(de, m))), mul(num(b), pw(ta, 2))))))
    return mul(n_("69595.89"), tot(s))

# Woolley (1980), in Haar, Gallagher, Kell (1984): A/RT of the ideal gas
W_C = L("""0.19730271018e2 0.209662681977e2 -0.483429455355 0.605743189245e1 0.2256023885e2 -0.987532442e1 -0.43135538513e1 0.458155781 -0.47754901883e-1
 0.41238460633e-2 -0.27929052852e-3 0.14481695261e-4 -0.56473658748e-6 0.16200446e-7 -0.3303822796e-9 0.451916067368e-11 -0.370734122708e-13 0.137546068238e-15""")
def woolley():
    h = div(T, num(100)); q = num
    return neg(tot([mul(add(div(q(W_C[0]), h), q(W_C[1])), lg(h))] + [mul(q(W_C[i]), pw(h, i - 5)) for i in range(2, 18)]))

# Johnson, Norton (1991), Amer. J. Sci. 291, 541-648
J_A = L("0.1470333593e2 0.2128462733e3 -0.1154445173e3 0.1955210915e2 -0.8330347980e2 0.3213240048e2 -0.6694098645e1 -0.3786202045e2 0.6887359646e2 -0.2729401652e2")
def johnson_norton(dens):
    t, r = div(T, n_("298.15")), div(dens, num(1000)); a = [None] + [num(x) for x in J_A]
    k = [ONE, div(a[1], t), tot([div(a[2], t), a[3], mul(a[4], t)]), tot([div(a[5], t), mul(a[6], t), mul(a[7], pw(t, 2))]), tot([div(a[8], pw(t, 2)), div(a[9], t), a[10]])]
    return tot([mul(k[i], pw(r, i)) for i in range(5)])

# Fernandez, Goodwin, Lemmon, Levelt Sengers, Williams (1997), J. Phys. Chem. Ref. Data 26, 1125-1166
F_N = L("0.978224486826 -0.957771379375 0.237511794148 0.714692244396 -0.298217036956 -0.108863472196 0.949327488264e-1 -0.980469816509e-2 0.165167634970e-4 0.937359795772e-4 -0.12317921872e-9")
F_I = [1, 1, 1, 2, 3, 3, 4, 5, 6, 7, 10]
F_J = L("0.25 1 2.5 1.5 1.5 2.5 2 2 5 0.5 10")
def fernandez(t, rho):
    r, h = div(rho, n_("322")), div(TC, t)
    g = tot([ONE, prod(n_("0.196096504426e-2"), r, pw(sub(div(t, num(228)), ONE), "-1.2"))] + [prod(num(F_N[i]), pw(r, F_I[i]), pw(h, F_J[i])) for i in range(11)])
    Na, M_, e0 = n_("6.0221367e23"), n_("0.018015268"), n_("8.854187817e-12")
    A = div(prod(Na, pw(n_("6.138e-30"), 2), rho, g), prod(M_, e0, n_("1.380658e-23"), t))
    B = div(prod(Na, n_("1.636e-40"), rho), prod(num(3), M_, e0))
    root = pw(tot([num(9), mul(num(2), A), mul(num(18), B), pw(A, 2), prod(num(10), A, B), mul(num(9), pw(B, 2))]), Fr(1, 2))
    return div(tot([ONE, A, mul(num(5), B), root]), sub(num(4), mul(num(4), B)))

# Sverjensky, Harrison, Azzolini (2014), Geochim. Cosmochim. Acta 129, 125-145 (degC, g/cm3)
def sverjensky(t, rho):
    s = pw(t, Fr(1, 2))
    f = lambda a, b, c_: tot([mul(n_(a), t), mul(n_(b), s), n_(c_)])
    return mul(ex(f("-8.016651e-05", "-6.871618e-02", "4.747973")), powt(rho, f("-1.576377e-03", "6.810288e-02", "7.548755e-01")))

# Wagner, Pruss (2002), equations 2.5 to 2.7
th = sub(ONE, div(T, TC))
def ser(cs): return tot([mul(n_(c_), pw(th, e)) for c_, e in cs])
def sat_p(): return mul(PC, ex(mul(div(TC, T), ser([("-7.85951783", 1), ("1.84408259", "1.5"), ("-11.7866497", 3), ("22.6807411", "3.5"), ("-15.9618719", 4), ("1.80122502", "7.5")]))))
def sat_l(): return mul(DC, add(ONE, ser([("1.99274064", "1/3"), ("1.09965342", "2/3"), ("-0.510839303", "5/3"), ("-1.75493479", "16/3"), ("-45.5170352", "43/3"), ("-6.74694450e5", "110/3")])))
def sat_v(): return mul(DC, ex(ser([("-2.03150240", "2/6"), ("-2.68302940", "4/6"), ("-5.38626492", "8/6"), ("-17.2991605", "18/6"), ("-44.7586581", "37/6"), ("-63.9201063", "71/6")])))

@rule("T10")
def T10(M, c):
    """The value-graph terms of water's equations, with every constant they compute with, against terms written from the publications."""
    def ob(key, where, a, b, text, tol=1e-8):
        a, b = nf(a), nf(b)
        c.ob(peq(a, b, tol), key, where, text, "difference: " + pshow(padd(a, b, -1))[:400])
    for nm, want, src in (("waterHelmholtzStateWagnerPruss", wagner_pruss, "Wagner and Pruss (2002)"), ("waterHelmholtzStateHGK", hgk, "Haar, Gallagher and Kell (1984)")):
        f = free(M, nm); I, v = run_free(M, c, f, [T, D])
        ob(nm, loc(f), I.getf(v, "helmholtz"), want(), "%s: the Helmholtz energy is that of %s" % (nm, src))
    for nm, want, x in (("waterSaturatedPressureWagnerPruss", sat_p, "saturation pressure"), ("waterSaturatedLiquidDensityWagnerPruss", sat_l, "saturated liquid density"), ("waterSaturatedVapourDensityWagnerPruss", sat_v, "saturated vapour density")):
        f = free(M, nm); I, v = run_free(M, c, f, [T])
        a, b = v, want()
        if "Liquid" not in nm: a, b = lg(a), lg(b)          # the exponents of exponentials
        ob(nm, loc(f), a, b, "%s is the %s of Wagner and Pruss (2002)" % (nm, x), 1e-6)
    f = free(M, "waterElectroStateJohnsonNorton")
    I, v = run_free(M, c, f, by_ptype(f, Temperature=T, WaterThermoState=sym("wt"), int=sym("state")))
    ob("johnson-norton", loc(f), I.getf(v, "epsilon"), johnson_norton(mk("fld", sym("wt"), "density")), "the dielectric constant is that of Johnson and Norton (1991)")
    for cls, want, src, tol in (("WaterElectroFernandez1997", fernandez, "Fernandez et al. (1997)", 1e-8), ("WaterElectroSverjensky2014", sverjensky, "Sverjensky et al. (2014)", 1e-6)):
        g = model_fn(M, cls, "electroPropertiesSolvent"); dens = None
        def hook(I, n, fn_, args, obj):
            t = n.get("rt", n.get("t", ""))
            if n["k"] not in ("MCall", "Call") or not t.endswith("PropertiesSolvent") or n.get("t", "").endswith("ElectroPropertiesSolvent"): return None
            v = [I.ev(x) for x in kids(n)[(1 if n["k"] == "MCall" else 0):][:2] if x is not None]
            return mk("fn", "SOLVENT", unnf(nf(v[0])), unnf(nf(v[1])))
        I = Interp(M, hook=hook, opaque=opaque_db); r = I.run(g, this=instance(M, cls, sym("S")), args=[T, P] + [sym("state")] * (len(g["params"]) - 2))
        c.analysed.update({q["fn"]["f"] for q in I.events if q.get("fn")})
        rho = mk("fld", mk("fn", "SOLVENT", T, P), "density")
        w = want(T, rho) if want is fernandez else want(sub(T, n_("273.15")), div(rho, num(1000)))
        ob(cls, loc(g), I.getf(r, "epsilon"), w, "%s: the dielectric constant is that of %s" % (cls, src), tol)
    f = model_fn(M, "WaterIdealGasWoolley")
    I = Interp(M); r = I.run(f, this=instance(M, "WaterIdealGasWoolley", sym("S")), args=[T, P] + [sym("arg")] * (len(f["params"]) - 2))
    c.analysed.update({q["fn"]["f"] for q in I.events if q.get("fn")})
    G, Cp, Cv = [nf(I.getf(r, x)) for x in ("gibbs_energy", "heat_capacity_cp", "heat_capacity_cv")]
    R = padd(Cp, Cv, -1)
    ok = len(R) == 1 and () in R and abs(R[()] - Fr("8.3145")) < Fr("0.0003")
    c.ob(ok, "woolley:R", loc(f), "the gas constant of the ideal gas is the molar one", pshow(R)[:200])
    e = padd(G, pmul(R, pmul(nf(T), nf(woolley()))), -1)
    c.ob(peq(pdiff(e, T, {}), {}), "woolley", loc(f), "the Gibbs energy of ideal gas water is Woolley's, up to a constant", "difference: " + pshow(e)[:300])

# Tanger, Helgeson (1988), Shock et al. (1992), Johnson, Oelkers, Helgeson (1992); calories, bar, K
BORN_REF = (("-0.1278034682e-1", "-0.5798650444e-4"), ("-1.278055636e-02", "-5.795424563e-05"))    # Z and Y at 298.15 K and 1 bar, as two programs computed them
def hkf_G(ref, G0, S0, a1, a2, a3, a4, c1, c2, w, wr, Z):
    th_, ps = num(228), num(2600); Tr, Pr = n_("298.15"), ONE
    d, dr = sub(T, th_), sub(Tr, th_); dP = sub(PB, Pr); lP = lg(div(add(ps, PB), add(ps, Pr)))
    return tot([G0, neg(mul(S0, sub(T, Tr))), neg(mul(c1, tot([mul(T, lg(div(T, Tr))), neg(T), Tr]))), mul(a1, dP), mul(a2, lP),
        neg(mul(c2, sub(mul(sub(div(ONE, d), div(ONE, dr)), div(sub(th_, T), th_)), mul(div(T, mul(th_, th_)), lg(div(mul(Tr, d), mul(T, dr))))))),
        mul(div(ONE, d), add(mul(a3, dP), mul(a4, lP))), neg(mul(w, add(Z, ONE))), mul(wr, add(n_(ref[0]), ONE)), prod(wr, n_(ref[1]), sub(T, Tr))])
def shock_g(tc, pb, r, f1, f4):
    a = tot([n_("-2.037662"), mul(n_("5.747e-3"), tc), mul(n_("-6.557892e-6"), pw(tc, 2))])
    b = tot([n_("6.107361"), mul(n_("-1.074377e-2"), tc), mul(n_("1.268348e-5"), pw(tc, 2))])
    x, y = div(sub(tc, num(155)), num(300)), sub(num(1000), pb)
    f = mul(add(pw(x, "4.8"), mul(n_(f1), pw(x, 16))), add(mul(n_("-0.1504956e-9"), pw(y, 3)), mul(n_(f4), pw(y, 4))))
    return mul(a, powt(sub(ONE, r), b)), f
ETA = n_("166027")

@rule("T11")
def T11(M, c):
    """The value-graph terms of the HKF models' solvent function, Born coefficient and Gibbs energy, case by case, against terms written from the publications."""
    S = sym("S"); n = 0
    rho = mk("fld", sym("ps"), "density"); r = div(rho, num(1000))
    dens = [nf(sub(ONE, r)), nf(sub(r, ONE))]
    def noabs(z):
        if z[0] == "fn" and z[1] == "abs":
            q = nf(z[2])
            if peq(q, dens[0]): return z[2]
            if peq(q, dens[1]): return neg(z[2])
    for nm, args in (("gShok2", [sub(T, KC), PB, sym("ps")]), ("functionG", [T, PB, sym("ps")])):
        f = free(M, nm); I, v = run_free(M, c, f, args)
        (g1, g2), (_, g3) = [shock_g(sub(T, KC), PB, r, *x) for x in (("36.66666", "5.017997e-14"), ("36.6666", "5.01799e-14"))]; got = {"0": 0, "I": 0, "II": 0}
        for asg, tc in consistent_cases([rewrite(I.getf(v, "g"), noabs)]):
            if on_point(asg): continue
            t = nf(tc[0]); n += 1
            k = "0" if not t else "I" if peq(t, nf(g1), 1e-6) else "II" if peq(t, nf(sub(g1, g2)), 1e-6) or peq(t, nf(sub(g1, g3)), 1e-6) else None      # printed with 6 and 7 digits
            if k: got[k] += 1
            c.ob(k is not None, nm, loc(f), "%s: g is the function of Shock et al. (1992) when %s" % (nm, cname(asg)[:200]), "difference from region I: " + pshow(padd(t, nf(g1), -1))[:300])
        c.ob(got["I"] > 0 and got["II"] > 0, nm + ":regions", loc(f), "%s: both regions of Shock et al. (1992) occur" % nm, str(got))
    chg = getter(M, "ThermoFun::Substance::charge", S); zz = sym("z")
    hkf = Interp(M).getf(getter(M, "ThermoFun::Substance::thermoParameters", S), "HKF_parameters"); h = [mk("idx", hkf, num(i)) for i in range(7)]
    def posabs(t):
        if t[0] == "fn" and t[1] == "abs":
            q = nf(t[2])
            if len(q) == 1 and list(q)[0] and all(atomof(a) == zz for a, e in list(q)[0]): return t[2] if list(q.values())[0] > 0 else neg(t[2])
    for nm in ("omeg92", "speciesElectroStateHKF"):
        f = free(M, nm); I, v = run_free(M, c, f, [sym("g"), S]); g = mk("fld", sym("g"), "g"); hit = 0
        for val in (zz, neg(zz)):
            w = rewrite(rewrite(I.getf(v, "w"), lambda y: val if y == chg else None), posabs)
            re = add(div(mul(val, val), add(div(h[6], ETA), div(val, n_("3.082")))), mul(zz, g))
            want = nf(mul(ETA, sub(div(mul(val, val), re), div(val, add(n_("3.082"), g))))); plain = nf(h[6])
            for asg, tc in consistent_cases([w]):
                t = nf(tc[0]); n += 1; e = peq(t, want, 1e-6); hit += e
                c.ob(e or peq(t, plain), nm, loc(f), "%s: the Born coefficient follows from the effective radius when %s" % (nm, cname(asg)[:200]), pshow(t)[:400])
        c.ob(hit >= 2, nm + ":charged", loc(f), "%s: ions of either sign have the Born coefficient of their effective radius" % nm, str(hit))
    for nm, t in (("thermoPropertiesAqSoluteHKFgems", sub(T, KC)), ("thermoPropertiesAqSoluteHKFreaktoro", T)):
        f = free(M, nm); I, v = run_free(M, c, f, [t, PB, S, sym("aes"), sym("wes"), sym("wp")])
        ref = getter(M, "ThermoFun::Substance::thermoReferenceProperties", S); cal = n_("4.184")
        got = nf(I.getf(v, "gibbs_energy")); n += 1
        want = [nf(mul(cal, hkf_G(b, div(I.getf(ref, "gibbs_energy"), cal), div(I.getf(ref, "entropy"), cal), *h[:6], mk("fld", sym("aes"), "w"), h[6], mk("fld", sym("wes"), "bornZ")))) for b in BORN_REF]
        c.ob(any(peq(got, x, 1e-6) for x in want), nm, loc(f), "%s: G is that of the revised Helgeson-Kirkham-Flowers equations" % nm, "difference: " + pshow(padd(got, want[0], -1))[:400])
    c.need(n, "cases", 8)

# Zhang, Duan (2005), Phys. Earth Planet. Inter. 149, 335-354
Z_A = L("0 3.49824207e-1 -2.91046273 2.00914688 1.12819964e-1 7.48997714e-1 -8.7320704e-1 1.70609505e-2 -1.46355822e-2 5.79768283e-2 -8.41246372e-4 4.95186474e-3 -9.16248538e-3 -1.00358152e-1 -1.82674744e-3")
Z_V = n_("55.9480373")
def zhang_duan(v):
    """compressibility at temperature T and reduced volume v"""
    t = div(T, n_("647.25")); g = mul(n_("1.05999998e-2"), pw(v, -2)); q = num
    k = [tot([q(Z_A[i]), mul(q(Z_A[i + 1]), pw(t, -2)), mul(q(Z_A[i + 2]), pw(t, -3))]) for i in (1, 4, 7, 10)]
    return tot([ONE] + [mul(x, pw(v, -e)) for x, e in zip(k, (1, 2, 4, 5))] + [mul(add(mul(div(q(Z_A[13]), t), pw(v, -2)), prod(q(Z_A[14]), t, pw(v, -4))), ex(neg(g)))])

@rule("T12")
def T12(M, c):
    """The fixed point of the volume iteration as a value-graph term, substituted into the published equation of state; the solvent record, for a
    volume whose density is any quadratic in temperature and pressure (for which central differences are exact), against its derivatives."""
    import gsa
    f = free(M, "waterMolarVolume"); u, gsa.UNROLL = gsa.UNROLL, 0         # the iteration is one step from any volume
    try: I, v = run_free(M, c, f, [T, P, sym("v0")])
    finally: gsa.UNROLL = u
    ph = {x for x in subterms(v) if x[0] == "phi"}
    if len(ph) != 1 or peq(nf(v), nf(list(ph)[0])): raise AnalysisError("the volume iteration of Zhang and Duan's equation is not understood")
    x = list(ph)[0]; w = sym("vr")
    pres = div(prod(n_("83.14467"), T, zhang_duan(w)), mul(w, Z_V))
    at = rewrite(v, lambda y: w if y == x else None)
    res = nf(sub(rewrite(at, lambda y: pres if y == P else None), w))
    c.ob(peq(res, {}, 1e-8), "equation", loc(f), "the volume at which the iteration stays is that of Zhang and Duan (2005)", "step: " + pshow(res)[:400])
    d = [sym("d%d" % i) for i in range(6)]
    def dens(t, p): return tot([d[0], mul(d[1], t), mul(d[2], p), mul(d[3], mul(t, t)), mul(d[4], mul(p, p)), prod(d[5], t, p)])
    mass = n_("18.01528"); n = 0; dif = lambda x, s: unnf(pdiff(nf(x), s, {}))
    def hook(I, k, fn_, args, obj):
        if k["k"] == "Call" and k.get("u") == f["u"]:
            a = [I.ev(y) for y in kids(k) if y is not None]
            a = [y for y in a if y is not None][-3:]
            return div(mul(mass, num(1000)), mul(Z_V, dens(a[0], mul(a[1], num(100000)))))
    rho = dens(T, P); rT, rP, rTT, rPP = dif(rho, T), dif(rho, P), dif(dif(rho, T), T), dif(dif(rho, P), P)
    want = [("density", rho), ("densityT", rT), ("densityP", rP), ("densityTT", rTT), ("densityPP", rPP), ("Alpha", neg(div(rT, rho))), ("Beta", div(rP, rho)), ("dAldT", sub(pw(div(rT, rho), 2), div(rTT, rho)))]
    g = model_fn(M, "WaterZhangDuan2005", "propertiesSolvent")
    I = Interp(M, hook=hook); r = I.run(g, this=instance(M, "WaterZhangDuan2005", sym("S")), args=[T, P, sym("state")])
    c.analysed.update({q["fn"]["f"] for q in I.events if q.get("fn")})
    # the molar mass of the code, so that the rest compares exactly
    k0 = nf(div(I.getf(r, "density"), rho))
    ok = len(k0) == 1 and () in k0 and abs(k0[()] - 1) < Fr("1e-5")
    c.ob(ok, "mass", loc(g), "the density is that of the volume, in kg/m3", pshow(k0)[:400])
    k0 = k0[()] if ok else Fr(1)
    for nm, e in want:
        if nm.startswith("density"): e = mul(num(k0), e)
        a, b = nf(I.getf(r, nm)), nf(e); n += 1
        c.ob(peq(a, b), nm, loc(free(M, "propertiesWaterZhangDuan2005")), "%s follows from the volume, per K and Pa" % nm, "difference: " + pshow(padd(a, b, -1))[:400])
    g = model_fn(M, "WaterZhangDuan2005", "thermoPropertiesSubstance")
    I = Interp(M, hook=hook); r = I.run(g, this=instance(M, "WaterZhangDuan2005", sym("S")), args=[T, P, sym("state")])
    a, b = nf(I.getf(r, "volume")), nf(div(mul(mass, num(100)), rho))
    c.ob(peq(a, b, 1e-5), "volume", loc(g), "the molar volume is that of the equation, in J/bar", "difference: " + pshow(padd(a, b, -1))[:400])
    c.need(n, "fields of the solvent record", 8)
