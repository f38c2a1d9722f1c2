"""Value-graph terms and their algebraic normal form.

A term is an interned tuple.  nf() maps a numeric term to a sum of monomials
over atoms with rational coefficients, so that two expressions which compute
the same value by a different arrangement of +,-,*,/,pow,exp,log have the same
normal form.  diff() differentiates a normal form structurally."""
from fractions import Fraction as Fr
import math

TOP = ("top",)

def num(v):
    if isinstance(v, bool): v = int(v)
    if isinstance(v, int): return ("num", Fr(v))
    if isinstance(v, Fr): return ("num", v)
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v): return ("sym", "float:%r" % v)
        return ("num", Fr(v))
    raise TypeError(v)

def numtxt(txt, v):
    t = txt.rstrip("fFlL").replace("'", "")
    try:
        return ("num", Fr(t))
    except Exception:
        return num(float(v))

ZERO, ONE = num(0), num(1)
def isnum(t): return t[0] == "num"
def sym(s): return ("sym", s)

_tab = {}
def mk(*t):
    return _tab.setdefault(t, t)

def add(a, b):
    if isnum(a) and isnum(b): return num(a[1] + b[1])
    if a == ZERO: return b
    if b == ZERO: return a
    return mk("+", a, b)
def neg(a):
    if isnum(a): return num(-a[1])
    return mk("neg", a)
def sub(a, b):
    if isnum(a) and isnum(b): return num(a[1] - b[1])
    if b == ZERO: return a
    if a == b and a != TOP: return ZERO
    return mk("-", a, b)
def mul(a, b):
    if isnum(a) and isnum(b): return num(a[1] * b[1])
    if a == ZERO or b == ZERO: return ZERO
    if a == ONE: return b
    if b == ONE: return a
    return mk("*", a, b)
def div(a, b):
    if isnum(a) and isnum(b) and b[1] != 0: return num(a[1] / b[1])
    if b == ONE: return a
    return mk("/", a, b)
def powt(a, b):
    if b == ZERO: return ONE
    if b == ONE: return a
    if isnum(a) and isnum(b) and b[1].denominator == 1 and abs(b[1]) < 60 and (a[1] != 0 or b[1] > 0):
        return num(a[1] ** int(b[1]))
    return mk("pow", a, b)
def fn(name, *args):
    if name == "sqrt": return powt(args[0], num(Fr(1, 2)))
    if name == "pow": return powt(*args)
    if name in ("abs", "fabs"): name = "abs"
    if name == "log10": return div(fn("log", args[0]), num(math.log(10.0))) if not isnum(args[0]) else num(math.log10(float(args[0][1])))
    if all(isnum(a) for a in args):
        try:
            r = {"exp": math.exp, "log": math.log, "sin": math.sin, "cos": math.cos, "tan": math.tan, "abs": abs}[name](*[float(a[1]) for a in args])
            if name == "abs": return num(abs(args[0][1]))
            return num(r)
        except Exception:
            pass
    return mk("fn", name, *args)

NOT = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}
def lnot(c):
    if c == ("bool", True): return ("bool", False)
    if c == ("bool", False): return ("bool", True)
    if c[0] == "not": return c[1]
    if c[0] == "cmp" and c[1] in NOT: return mk("cmp", NOT[c[1]], c[2], c[3])
    return mk("not", c)
def land(a, b):
    if a == ("bool", True): return b
    if b == ("bool", True): return a
    if ("bool", False) in (a, b): return ("bool", False)
    if a == b: return a
    return mk("and", a, b)
def lor(a, b):
    if a == ("bool", False): return b
    if b == ("bool", False): return a
    if ("bool", True) in (a, b): return ("bool", True)
    if a == b: return a
    return mk("or", a, b)

def cmp_(op, a, b):
    if isnum(a) and isnum(b):
        x, y = a[1], b[1]
        return ("bool", {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y, "!=": x != y}[op])
    if a[0] in ("str", "enum") and b[0] == a[0] and op in ("==", "!="):
        return ("bool", (a == b) == (op == "=="))
    if a == b and a != TOP and a[0] not in ("top",):
        if op in ("==", "<=", ">="): return ("bool", True)
        if op in ("!=", "<", ">"): return ("bool", False)
    # a key is in a map once or not at all
    if a[0] == "count" and isnum(b):
        if b == ZERO and op == ">" or b == ONE and op in (">=", "=="): return mk("cmp", "!=", a, ZERO)
        if b == ZERO and op == "<=" or b == ONE and op in ("<", "!="): return mk("cmp", "==", a, ZERO)
    # canonical orientation: constants on the right
    if isnum(a) and not isnum(b):
        flip = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
        return mk("cmp", flip[op], b, a)
    return mk("cmp", op, a, b)

def ite(c, a, b):
    if c == ("bool", True): return a
    if c == ("bool", False): return b
    if a == b: return a
    if c[0] == "not": return ite(c[1], b, a)
    if c[0] == "cmp" and c[1] in ("!=", ">=", ">") and not (a[0] == "rec" or b[0] == "rec"):
        return ite(lnot(c), b, a)
    # same condition nested
    if a[0] == "ite" and a[1] == c: a = a[2]
    if b[0] == "ite" and b[1] == c: b = b[3]
    if a == b: return a
    return mk("ite", c, a, b)

def subterms(t):
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if not x or id(x) in seen: continue
        seen.add(id(x))
        if isinstance(x[0], tuple): st.extend(y for y in x if isinstance(y, tuple)); continue   # members of a record
        yield x
        for y in x[1:]:
            if isinstance(y, tuple): st.append(y)

def conds_in(t):
    out = []; seen = set(); st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or id(x) in seen: continue
        seen.add(id(x))
        if x and x[0] == "ite" and x[1] not in out: out.append(x[1])
        for y in x:
            if isinstance(y, tuple): st.append(y)
    return out

def rewrite(t, f, memo=None):
    """Bottom-up rewriting with f(term)->term or None."""
    memo = {} if memo is None else memo
    def go(x):
        if not isinstance(x, tuple) or not x: return x
        k = id(x)
        if k in memo: return memo[k][1]
        if isinstance(x[0], tuple): y = tuple(go(a) if isinstance(a, tuple) else a for a in x); memo[k] = (x, y); return y   # members of a record
        if x[0] in ("num", "sym", "str", "bool", "enum", "top"): y = x
        else: y = rebuild(x, [go(a) if isinstance(a, tuple) else a for a in x[1:]])
        z = f(y) if isinstance(y, tuple) else None
        r = y if z is None else z
        memo[k] = (x, r)
        return r
    return go(t)

def rebuild(x, a):
    k = x[0]
    try:
        if k == "+": return add(*a)
        if k == "-": return sub(*a)
        if k == "*": return mul(*a)
        if k == "/": return div(*a)
        if k == "neg": return neg(*a)
        if k == "pow": return powt(*a)
        if k == "ite": return ite(*a)
        if k == "cmp": return cmp_(*a)
        if k == "not": return lnot(*a)
        if k == "and": return land(*a)
        if k == "or": return lor(*a)
        if k == "fn": return fn(*a)
    except TypeError:
        pass
    return mk(k, *a)

def assume(t, c, val):
    """Replaces condition c (and its negation) by a truth value."""
    nc = lnot(c)
    def f(x):
        if x == c: return ("bool", val)
        if x == nc: return ("bool", not val)
        return None
    return rewrite(t, f)

# ---------------------------------------------------------------- normal form
_atoms = {}; _atomlist = []
def atom(t):
    n = _atoms.get(t)
    if n is None:
        n = len(_atomlist); _atoms[t] = n; _atomlist.append(t)
    return n
def atomof(n): return _atomlist[n]
NEG1 = atom(("neg1",))
def fixneg(p):
    """integer powers of the formal factor -1 become signs"""
    if not any(x == NEG1 for m in p for x, e in m): return p
    r = {}
    for m, c in p.items():
        d = dict(m); e = d.pop(NEG1, Fr(0)); n = e.numerator // e.denominator
        if n % 2: c = -c
        if e - n: d[NEG1] = e - n
        k = tuple(sorted(d.items())); v = r.get(k, 0) + c
        if v == 0: r.pop(k, None)
        else: r[k] = v
    return r

EPS = Fr(1, 10**9)
MAXMON = 6000
LAZY = [False]
def lazy(on):
    """integer powers of sums stay unexpanded (comparison expands them): for models with high powers"""
    LAZY[0] = on; _nf.clear()
class TooBig(Exception): pass

def pkey(p): return tuple(sorted(p.items()))
def pconst(c): return {(): c} if c != 0 else {}
def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v == 0: r.pop(m, None)
        else: r[m] = v
    return r
def mmul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for x, e in b:
        v = d.get(x, 0) + e
        if v == 0: d.pop(x, None)
        else: d[x] = v
    return tuple(sorted(d.items()))
def pmul(a, b):
    if len(a) * len(b) > MAXMON * 4: raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n); v = r.get(k, 0) + c * d
            if v == 0: r.pop(k, None)
            else: r[k] = v
    if len(r) > MAXMON: raise TooBig()
    return r
def pscale(a, c): return {m: v * c for m, v in a.items()} if c != 0 else {}

def cpow(c, e):
    if e.denominator == 1:
        return c ** int(e) if c != 0 or e >= 0 else None
    if c > 0:
        v = float(c) ** float(e)
        fr = Fr(v).limit_denominator(10**12)
        return fr if abs(float(fr) - v) <= 1e-13 * abs(v) else Fr(v)
    return None

def ppow(a, e):
    """a ** e for rational e"""
    if not a: return {} if e > 0 else {((atom(("inf",)), Fr(1)),): Fr(1)}
    if len(a) == 1:
        (m, c), = a.items()
        k = cpow(c, e)
        if k is not None:
            return {tuple(sorted((x, n * e) for x, n in m)): k}
    if e == 1: return a
    if not LAZY[0] and e.denominator == 1 and 0 < e <= 6 and len(a) ** int(e) <= MAXMON:
        r = a
        for _ in range(int(e) - 1): r = pmul(r, a)
        return r
    # over a common denominator, and without common factors
    f, a = split(a)
    if f:
        k = {tuple(sorted((x, n * e) for x, n in f)): Fr(1)}
        return pmul(k, ppow(a, e))
    # sum as an atom, normalised to a leading coefficient of +-1
    ks = sorted(a.items())
    lead = ks[0][1]
    b = pscale(a, 1 / lead)
    if e.denominator == 1: 
        k = cpow(lead, e)
        return {((atom(("sum", pkey(b))), e),): k} if len(b) > 1 else {(): k}
    # (-1)^e is kept as a formal factor
    k = cpow(abs(lead), e)
    m = {} if lead > 0 else {NEG1: e}
    if len(b) > 1: m[atom(("sum", pkey(b)))] = e
    return {tuple(sorted(m.items())): k}

def split(p):
    """(monomial f, q) with p = f*q, q without negative powers of sums and without common factors"""
    den = {}
    for m in p:
        for x, e in m:
            if e < 0 and e.denominator == 1 and atomof(x)[0] == "sum": den[x] = min(den.get(x, 0), e)
    q = p
    if den:
        try: q = clear_round(p, den)
        except TooBig: den = {}
    if not q: return (), {}
    com = None
    for m in q:
        d = dict(m)
        if com is None: com = d
        else:
            com = {x: min(com.get(x, 0), d.get(x, 0)) for x in set(com) | set(d) if min(com.get(x, 0), d.get(x, 0)) != 0}
    com = {x: e for x, e in (com or {}).items() if e != 0}
    # negative powers that occur in some monomials only
    for m in q:
        for x, e in m:
            if e < 0: com[x] = min(com.get(x, 0), e)
    if com:
        inv = tuple(sorted((x, -e) for x, e in com.items()))
        q = {mmul(m, inv): c for m, c in q.items()}
    f = mmul(tuple(sorted(com.items())), tuple(sorted(den.items())))
    return f, q

def clear_round(p, worst):
    q = {}
    for m, c in p.items():
        d = dict(m); term = {tuple(z for z in m if z[0] not in worst): c}
        for x, w in worst.items():
            n = d.get(x, 0) - w
            if n:
                inner = dict(atomof(x)[1])
                if n.denominator == 1 and n > 0:
                    for _ in range(int(n)): term = pmul(term, inner)
                else: term = pmul(term, {((x, n),): Fr(1)})
        q = padd(q, term)
    return q

def pexp(p):
    """exp of a polynomial as a product of exp(monomial)^coef"""
    r = {(): Fr(1)}
    for m, c in p.items():
        if m == ():
            r = pscale(r, Fr(math.exp(float(c)))) if abs(c) < 700 else pmul(r, {((atom(("expc", c)), Fr(1)),): Fr(1)})
        elif len(m) == 1 and m[0][1] == 1 and atomof(m[0][0])[0] == "log":
            base = atomof(m[0][0])[1]
            if isinstance(base, int): r = pmul(r, {((base, c),): Fr(1)})
            else: r = pmul(r, ppow(dict(base), c))
        else:
            r = pmul(r, {((atom(("exp", m)), c),): Fr(1)})
    return r

def plog(p):
    if len(p) == 1:
        (m, c), = p.items()
        if c > 0:
            r = pconst(Fr(math.log(float(c)))) if c != 1 else {}
            for x, e in m:
                ax = atomof(x)
                if ax[0] == "exp": r = padd(r, {ax[1]: e})
                else: r = padd(r, {((atom(("log", x)), Fr(1)),): e})
            return r
    if not p: return {((atom(("log0",)), Fr(1)),): Fr(1)}
    f, q = split(p)
    if len(q) == 1: return padd(plog({f: Fr(1)}), plog(q)) if f else {((atom(("log", pkey(q))), Fr(1)),): Fr(1)}
    c = abs(sorted(q.items())[0][1])
    if f or c != 1:
        r = plog({f: c})
        return padd(r, {((atom(("log", pkey(pscale(q, 1 / c)))), Fr(1)),): Fr(1)})
    return {((atom(("log", pkey(p))), Fr(1)),): Fr(1)}

_nf = {}
def nf(t):
    r = _nf.get(t)
    if r is None:
        r = _nf[t] = _nf1(t)
    return r

def _nf1(t):
    k = t[0]
    if k == "num": return pconst(t[1])
    if k == "bool": return pconst(Fr(int(t[1])))
    if k == "+": return padd(nf(t[1]), nf(t[2]))
    if k == "-": return padd(nf(t[1]), nf(t[2]), -1)
    if k == "neg": return pscale(nf(t[1]), Fr(-1))
    if k == "*": return pmul(nf(t[1]), nf(t[2]))
    if k == "/": return pmul(nf(t[1]), ppow(nf(t[2]), Fr(-1)))
    if k == "pow":
        e = nf(t[2]); b = nf(t[1])
        if not e: return pconst(Fr(1))
        if len(e) == 1 and () in e: return ppow(b, e[()])
        return pexp(pmul(e, plog(b)))
    if k == "fn":
        if t[1] == "exp": return pexp(nf(t[2]))
        if t[1] == "log": return plog(nf(t[2]))
        return {((atom(("fn", t[1]) + tuple(pkey(nf(a)) for a in t[2:])), Fr(1)),): Fr(1)}
    if k == "sumd":
        # linear: constant factors and factors that do not depend on the index go outside
        it = ("iter",) + t[1][1:]
        r = {}
        for m, c in nf(t[2]).items():
            inn = tuple(x for x in m if depends(atomof(x[0]), it)); out = tuple(x for x in m if x not in inn)
            a = {((atom(("sumd", t[1], inn)), Fr(1)),): Fr(1)}
            r = padd(r, pmul({out: c}, a))
        return r
    if k == "ite":
        return {((atom(("ite", t[1], pkey(nf(t[2])), pkey(nf(t[3])))), Fr(1)),): Fr(1)} if False else {((atom(t), Fr(1)),): Fr(1)}
    return {((atom(t), Fr(1)),): Fr(1)}

def coef_close(a, b, tol=1e-8):
    a, b = float(a), float(b)
    return abs(a - b) <= tol * max(abs(a), abs(b), 1e-300)

def clear_den(p):
    """Multiplies by powers of the sum atoms until each occurs with an exponent in [0, 1) only."""
    for _ in range(12):
        worst = {}; trig = set()
        for m in p:
            for x, e in m:
                if atomof(x)[0] == "sum":
                    worst[x] = min(worst.get(x, Fr(0)), e)
                    if e < 0 or e >= 1: trig.add(x)
        if not trig: return p
        worst = {x: worst[x] for x in trig}
        q = {}
        for m, c in p.items():
            d = dict(m); term = {tuple(z for z in m if z[0] not in worst): c}
            for x, w in worst.items():
                n = d.get(x, Fr(0)) - w
                k = n.numerator // n.denominator
                inner = dict(atomof(x)[1])
                for _ in range(int(k)): term = pmul(term, inner)
                if n - k: term = pmul(term, {((x, n - k),): Fr(1)})
            q = padd(q, term)
        p = q
    return p

def clear_mag(a, b):
    """clear_den of a - b with, per monomial, the magnitude of what was added up: {monomial: (coefficient, magnitude)}"""
    p = {m: (c, abs(c)) for m, c in a.items()}
    for m, c in b.items(): o = p.get(m, (0, 0)); p[m] = (o[0] - c, o[1] + abs(c))
    def addto(q, m, v):
        o = q.get(m)
        q[m] = v if o is None else (o[0] + v[0], o[1] + v[1])
    def mul2(a, b):
        if len(a) * len(b) > MAXMON * 4: raise TooBig()
        r = {}
        for m, x in a.items():
            for n, y in b.items(): addto(r, mmul(m, n), (x[0] * y[0], x[1] * y[1]))
        return r
    for _ in range(12):
        worst = {}; trig = set()
        for m in p:
            for x, e in m:
                if atomof(x)[0] == "sum":
                    worst[x] = min(worst.get(x, Fr(0)), e)
                    if e < 0 or e >= 1: trig.add(x)
        if not trig: break
        worst = {x: worst[x] for x in trig}
        q = {}
        for m, c in p.items():
            d = dict(m); term = {tuple(z for z in m if z[0] not in worst): c}
            for x, w in worst.items():
                n = d.get(x, Fr(0)) - w
                k = n.numerator // n.denominator
                inner = {a: (b, abs(b)) for a, b in dict(atomof(x)[1]).items()}
                for _ in range(int(k)): term = mul2(term, inner)
                if n - k: term = mul2(term, {((x, n - k),): (Fr(1), Fr(1))})
            for a, b in term.items(): addto(q, a, b)
            if len(q) > MAXMON * 4: raise TooBig()
        p = q
    r = {}
    for m, (c, g) in p.items():
        d = dict(m); e = d.pop(NEG1, Fr(0)); n = e.numerator // e.denominator
        if n % 2: c = -c
        if e - n: d[NEG1] = e - n
        addto(r, tuple(sorted(d.items())), (c, g))
    return r

def peq(a, b, tol=1e-8):
    """Equality of normal forms: coefficients compared to a relative 1e-8, cancellation residues to 1e-11 of what cancelled."""
    a, b = fixneg(a), fixneg(b)
    if a == b: return True
    if all(coef_close(a.get(m, Fr(0)), b.get(m, Fr(0)), tol) for m in set(a) | set(b)): return True
    lim = Fr(max(tol / 10, 1e-9))
    def zero(a, b):
        try: j = clear_mag(a, b)
        except TooBig: return False
        return all(abs(c) <= g * lim for c, g in j.values())
    # products of different exponentials are independent: settle each on its own first
    ga = {}
    for k, p in ((0, a), (1, b)):
        for m, c in p.items():
            s = tuple((x, e) for x, e in m if atomof(x)[0] == "exp") + tuple(x for x, e in m if atomof(x)[0] == "sum" and any(atomof(y)[0] == "exp" for q, _ in atomof(x)[1] for y, _ in q))
            ga.setdefault(s, ({}, {}))[k][m] = c
    if len(ga) > 1:
        left = [g for g in ga.values() if not zero(*g)]
        if not left: return True
        a = {m: c for g in left for m, c in g[0].items()}; b = {m: c for g in left for m, c in g[1].items()}
    return zero(a, b)

def _canon_ite(t):
    return t

def equal(a, b, maxc=10):
    """Equality of two numeric terms; splits on the conditions inside them."""
    if a == b: return True
    cs = conds_in(a) + [c for c in conds_in(b)]
    uniq = []
    for c in cs:
        if c not in uniq and lnot(c) not in uniq: uniq.append(c)
    def go(x, y, rest):
        if x == y: return True
        rest = [c for c in rest]
        cx = conds_in(x) + conds_in(y)
        if not cx:
            try: return peq(nf(x), nf(y))
            except TooBig: return None
        c = cx[0]
        # pick an outermost condition
        if len(rest) > maxc: return None
        for v in (True, False):
            r = go(assume(x, c, v), assume(y, c, v), rest + [c])
            if r is not True: return r
        return True
    return go(a, b, [])

# ------------------------------------------------------------ differentiation
def depends(at, s):
    """Does an atom (term or nf atom) mention symbol s (a term)?"""
    st = [at]; seen = set()
    while st:
        x = st.pop()
        if x == s: return True
        if isinstance(x, int): x = atomof(x)
        if isinstance(x, tuple):
            if id(x) in seen: continue
            seen.add(id(x))
            if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], Fr):
                st.append(atomof(x[0])); continue
            st.extend(y for y in x if isinstance(y, (tuple,)) )
    return False

def pdiff(p, s, table=None):
    """d p / d s.  table maps an atom term to the term of its derivative."""
    r = {}
    for m, c in p.items():
        for i, (x, e) in enumerate(m):
            da = adiff(x, s, table)
            if not da: continue
            rest = list(m[:i]) + ([(x, e - 1)] if e != 1 else []) + list(m[i + 1:])
            r = padd(r, pmul({tuple(rest): c * e}, da))
    return r

_ad = {}
def adiff(x, s, table):
    t = atomof(x)
    if t == s: return pconst(Fr(1))
    if table and t in table: return nf(table[t])
    if t[0] == "neg1": return {}
    if t[0] == "sum": return pdiff(dict(t[1]), s, table)
    if t[0] == "exp": return pmul({((x, Fr(1)),): Fr(1)}, pdiff({t[1]: Fr(1)}, s, table))
    if t[0] == "log":
        if isinstance(t[1], int): return pmul(adiff(t[1], s, table), {((t[1], Fr(-1)),): Fr(1)})
        inner = dict(t[1]); return pmul(pdiff(inner, s, table), ppow(inner, Fr(-1)))
    if not depends(t, s): return {}
    return {((atom(("D", t, s)), Fr(1)),): Fr(1)}

def pshow(p, limit=40):
    def at(x):
        t = atomof(x)
        if t[0] == "sum": return "(" + pshow(dict(t[1])) + ")"
        if t[0] == "exp": return "exp(" + pshow({t[1]: Fr(1)}) + ")"
        if t[0] == "log": return "log(" + (at(t[1]) if isinstance(t[1], int) else pshow(dict(t[1]))) + ")"
        if t[0] == "fn": return "%s(%s)" % (t[1], ", ".join(pshow(dict(a)) for a in t[2:]))
        return tshow(t)
    out = []
    for m, c in sorted(p.items())[:limit]:
        f = []
        fc = "%.10g" % float(c)
        if fc != "1" or not m: f.append(fc)
        for x, e in m: f.append(at(x) if e == 1 else "%s^%s" % (at(x), e))
        out.append("*".join(f))
    s = " + ".join(out) or "0"
    return s + (" ..." if len(p) > limit else "")

def tshow(t, d=0):
    if not isinstance(t, tuple): return str(t)
    if not t: return "()"
    if d > 12: return "..."
    k = t[0]; S = lambda x: tshow(x, d + 1)
    if k == "num": return "%.10g" % float(t[1])
    if k == "sym": return str(t[1])
    if k in ("str",): return '"%s"' % (t[1],)
    if k == "bool": return str(t[1]).lower()
    if k in ("+", "-", "*", "/"): return "(%s %s %s)" % (S(t[1]), k, S(t[2]))
    if k == "neg": return "-%s" % S(t[1])
    if k == "pow": return "%s^%s" % (S(t[1]), S(t[2]))
    if k == "fld": return "%s.%s" % (S(t[1]), t[2])
    if k == "idx": return "%s[%s]" % (S(t[1]), S(t[2]))
    if k == "cmp": return "%s %s %s" % (S(t[2]), t[1], S(t[3]))
    if k == "not": return "!(%s)" % S(t[1])
    if k == "ite": return "(%s ? %s : %s)" % (S(t[1]), S(t[2]), S(t[3]))
    if k == "fn": return "%s(%s)" % (t[1], ", ".join(S(a) for a in t[2:]))
    if k == "call": return "%s(%s)" % (str(t[1]).split("::")[-1], ", ".join(S(a) for a in t[2:]))
    if k == "enum": return str(t[1]).split("::")[-1]
    return "%s(%s)" % (k, ", ".join(S(a) for a in t[1:]))
