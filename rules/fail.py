"""Rules on failures: how they surface."""
from registry import rule
from model import *
from gsa import *
from terms import *
from rules.own import clean

ENDS = {"exit", "_exit", "_Exit", "quick_exit", "abort", "terminate", "raise", "kill", "longjmp", "__builtin_trap", "__builtin_abort", "__assert_fail", "unreachable", "__builtin_unreachable", "at_quick_exit", "set_terminate", "execv", "execl", "execvp"}
STDEXC = {"std::" + x for x in ("exception", "runtime_error", "logic_error", "domain_error", "invalid_argument", "length_error", "out_of_range", "range_error", "overflow_error", "underflow_error", "bad_alloc",
          "bad_cast", "bad_function_call", "bad_optional_access", "bad_variant_access", "bad_any_cast", "system_error", "ios_base::failure", "filesystem::filesystem_error", "regex_error", "nested_exception")} - {"std::nested_exception"}

class Calls:
    """call graph over the definitions of the library; a method call also reaches the overriders of the method"""
    def __init__(self, M):
        self.M = M; self.sub = {}
        for n, r in M.rec.items():
            for b in r["bases"]: self.sub.setdefault(b.split("<")[0].strip(), set()).add(n)
        self.methods = {}
        for f in M.fn.values():
            if f.get("cls"): self.methods.setdefault((f["cls"], f["n"]), []).append(f)
        self.memo = {}
    def below(self, cls):
        out = set(); st = [cls]
        while st:
            x = st.pop()
            for y in self.sub.get(x, ()):
                if y not in out: out.add(y); st.append(y)
        return out
    def of(self, f):
        """functions f may call (or names), lambdas inside included"""
        k = f["u"]
        if k in self.memo: return self.memo[k]
        fs = []
        for n in fnodes(f):
            t = n["k"]
            u = n.get("u")
            if u in self.M.fn:
                g = self.M.fn[u]; fs.append(g)
                if g.get("cls") and t == "MCall":
                    for d in self.below(g["cls"]): fs += [h for h in self.methods.get((d, g["n"]), []) if len(h["params"]) == len(g["params"])]
            elif t == "MCall" and n.get("mc"):
                for d in self.below(n["mc"]): fs += self.methods.get((d, n.get("fn")), [])
            if t in ("Construct", "Var", "CXXTemporaryObjectExpr", "CXXNewExpr", "CXXDeleteExpr", "CXXBindTemporaryExpr"):
                pass
        self.memo[k] = fs
        return fs
    def reach(self, roots):
        par = {f["u"]: None for f in roots}; st = list(roots); fn = {f["u"]: f for f in roots}
        while st:
            x = st.pop()
            for g in self.of(x):
                if g["u"] not in par: par[g["u"]] = x["u"]; fn[g["u"]] = g; st.append(g)
        return fn, par
    def path(self, fn, par, u):
        out = []
        while u is not None: out.append(fn[u]["f"].replace("ThermoFun::", "")); u = par[u]
        return " <- ".join(out)

def fnodes(f):
    for b in (f.get("c") or []):
        if b is not None: yield from walk(b)
    for i in (f.get("inits") or []):
        for b in (i.get("c") or []):
            if b is not None: yield from walk(b)

def isexc(M, t, seen=()):
    t = clean(t).replace("const ", "").rstrip("& ").strip()
    if t in STDEXC or t.startswith("nlohmann::") and t.endswith(("exception", "error", "iterator", "out_of_range")): return True
    r = M.rec.get(t)
    return bool(r) and t not in seen and any(isexc(M, b, seen + (t,)) for b in r["bases"])

def public(M):
    """operations a user can call: public members and free functions of the library's namespaces"""
    for f in M.fn.values():
        if f.get("dep") or not f.get("c"): continue
        if f["f"].startswith(("ThermoFun::", "Reaktoro_::")) and (not f.get("cls") or f.get("access") == "public" and not f["cls"].endswith("::Impl")): yield f

@rule("X01")
def X01(M, c):
    """Throw sites, catch handlers and process-ending calls over the call graph; gated terms of the error helpers."""
    G = Calls(M); n = 0; nc = 0
    lib = [f for f in M.fn.values() if not f.get("dep") and f.get("c") and "python/" not in f["file"]]
    for f in lib:
        for x in fnodes(f):
            if x["k"] == "CXXThrowExpr":
                k = [y for y in kids(x) if y is not None]; n += 1; c.analysed.add(f["f"])
                if not k: c.ob(True, "throw:" + f["f"], loc(f, x), "%s rethrows" % f["f"]); continue
                e = k[0]
                while e["k"] in ("Cast", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr") and kids(e): e = kids(e)[0]
                t = e.get("cls") or e.get("t") or e.get("rt") or ""
                c.ob(isexc(M, t), "throw:" + f["f"], loc(f, x), "%s throws a standard exception" % f["f"].replace("ThermoFun::", ""), "thrown: " + clean(t)[:120])
            elif x["k"] == "CXXCatchStmt":
                nc += 1; ct = clean(x.get("ct", "..."))
                json = "nlohmann" in ct
                re = any(y["k"] == "CXXThrowExpr" for b in kids(x) if b is not None for y in walk(b)) or any(helper(M, y) for b in kids(x) if b is not None for y in walk(b))
                c.ob(json or re, "catch:" + f["f"], loc(f, x), "%s does not swallow failures of evaluations" % f["f"].replace("ThermoFun::", ""), "catches " + (ct or "everything"))
    c.need(n, "throw sites", 25); c.need(nc, "catch handlers", 6)
    roots = list(public(M)); fn, par = G.reach(roots); c.need(len(roots), "public operations", 500); c.need(len(fn), "functions reachable from them", 800)
    bad = []
    for u, f in fn.items():
        if not f.get("c"): continue
        for x in fnodes(f):
            if x["k"] == "Call" and str(x.get("f") or x.get("fn")).split("::")[-1] in ENDS and not M.fn.get(x.get("u")): bad.append((f, x, u))
    c.ob(not bad, "ends", loc(*bad[0][:2]) if bad else "ThermoFun", "no public operation ends the process", "; ".join("%s calls %s (%s)" % (f["f"], x.get("fn") or x.get("f"), G.path(fn, par, u)[:160]) for f, x, u in bad)[:500])
    # destructors must not throw
    for f in lib:
        if not f["n"].startswith("~"): continue
        r, p = G.reach([f])
        t = [(g, x) for g in r.values() for x in fnodes(g) if x["k"] == "CXXThrowExpr"]
        c.ob(not t, "dtor:" + f["f"], loc(f), "%s cannot throw, which would end the process" % f["f"], "; ".join(g["f"] for g, _ in t)[:300])
    # the helpers
    def leaf(t, s): return any(x == s for x in subterms(t))
    f = M.one("ThermoFun::internal::message"); I = Interp(M); ex = sym("exception"); r = I.run(f, args=[ex, sym("file"), sym("line")]); c.analysed.add(f["f"])
    for w in ("error", "reason"): c.ob(said(r, I.getf(ex, w)), "message:" + w, loc(f), "the message of a failure says its " + w, tshow(r)[:200])
    for h, par_ in HELPERS.items():
        f = M.one("ThermoFun::" + h); I = Interp(M); A = [sym(p["n"] or "x%d" % i) for i, p in enumerate(f["params"])]
        if h == "funErrorIf":
            for cond, want in ((True, True), (False, False)):
                I = Interp(M); r = I.run(f, args=[TRUE if cond else FALSE] + A[1:])
                c.ob((r == ("noreturn",)) == want, "helper:%s:%s" % (h, cond), loc(f), "funErrorIf raises exactly if its condition holds")
            A = [TRUE] + A[1:]; I = Interp(M)
        r = I.run(f, args=A); c.analysed.add(f["f"])
        c.ob(r == ("noreturn",), "helper:" + h, loc(f), "%s never returns" % h)
        ev = [e for e in I.events if e["kind"] == "throw"]
        for i in par_: c.ob(bool(ev) and all(said(e["value"], A[i]) for e in ev), "helper:%s:%d" % (h, i), loc(f), "the failure raised by %s names its %s" % (h, f["params"][i]["n"]), tshow(ev[0]["value"])[:200] if ev else "")

HELPERS = {"errorMethodNotFound": (0, 1), "errorReactionNotDefined": (0,), "errorSolventNotDefined": (1,), "errorModelParameters": (0, 1), "errorSameSymbol": (0, 1), "errorNotMatchingLevel": (0, 1), "funError": (0, 1), "funErrorIf": (1, 2)}
def helper(M, y):
    return y["k"] == "Call" and str(y.get("f")).replace("ThermoFun::", "") in HELPERS and y.get("fn") != "funErrorIf"

def said(t, s):
    """the text t contains s whatever the branch taken"""
    k = t[0]
    if t == s: return True
    if k == "ite": return said(t[2], s) and said(t[3], s)
    if k in ("cat", "strm"): return any(said(x, s) for x in t[1:])
    if k == "new": return any(isinstance(x, tuple) and said(x, s) for x in t[2:])
    if k == "call" and str(t[1]).split("::")[-1] in ("str", "to_string", "operator+"): return any(isinstance(x, tuple) and said(x, s) for x in t[2:])
    return False
