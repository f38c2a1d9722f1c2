"""Rule on state shared by evaluations: what lives longer than an object."""
import re
from registry import rule
from model import *
from rules.own import clean
from rules.effect import MUTALG

READ = {"at", "front", "back", "data", "get"}                       # hand out a reference into the object
PURE = {"size", "count", "contains", "empty", "find", "begin", "end", "cbegin", "cend", "c_str", "length", "compare", "substr", "lower_bound", "upper_bound", "load", "str", "max_size", "capacity", "index", "has_value"}
UNSAFE = {"rand", "srand", "strtok", "setlocale", "localtime", "gmtime", "ctime", "asctime", "tmpnam", "strerror", "setenv", "putenv", "unsetenv", "mblen", "mbtowc", "wctomb", "lgamma", "gamma", "drand48", "srand48", "srandom", "random",
          "signal", "chdir", "umask", "fesetround", "feenableexcept", "set_terminate", "set_new_handler", "std::locale::global"}
PASS = {"Member", "ArraySubscriptExpr", "Cast", "ParenExpr", "CXXBindTemporaryExpr", "MaterializeTemporaryExpr", "ExprWithCleanups"}

def pointer_to_mutable(t):
    t = clean(t or "") if t else ""
    return bool(re.search(r"\*$", t.strip())) and not t.strip().startswith("const ")

def use(M, chain):
    """chain: the ancestors of a reference to a variable, outermost first, the reference last. None when the variable cannot change through this use, else how it can."""
    i = len(chain) - 1
    t = chain[i].get("t", "")
    while i > 0:
        x, p = chain[i], chain[i - 1]; k = p.get("k"); c = p.get("c") or []; first = bool(c) and c[0] is x
        op = p.get("op", "")
        if t.startswith("const ") and not t.endswith("*"): return None
        if k in PASS or k == "ConditionalOperator" and not first:
            if k == "ArraySubscriptExpr" and not first: return None
            if k == "Member" and p.get("arrow") and "*" in t and "[" not in t: return None       # what a pointer variable points to is not the variable
            i -= 1; t = p.get("t", ""); continue
        if k == "BinOp" and op == "=" or k == "CompAssign": return "assigned" if first else None
        if k == "UnOp" and op in ("++", "--"): return "counted"
        if k == "UnOp" and op == "&": return None if "const " in (p.get("t") or "") else "handed out by address"
        if k == "OpCall" and first:
            if op == "[]": i -= 1; t = p.get("t", ""); continue
            if op in ("=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>=", "++", "--"): return "assigned"
            if op in ("->", "*"): return None if "spdlog::logger" in (chain[-1].get("t") or "") else "changed through the pointer it holds"
        if k == "MCall" and first:
            fd = M.fn.get(p.get("u"))
            if fd and fd.get("const") or p.get("const") or p.get("fn") in PURE: return None
            if p.get("fn") in READ: i -= 1; t = p.get("t", ""); continue
            return "changed by " + str(p.get("fn"))
        if k in ("Call", "MCall", "OpCall", "Construct", "CXXTemporaryObjectExpr"):
            fd = M.fn.get(p.get("u")); args = c[1:] if k == "MCall" else c
            j = next((n for n, a in enumerate(args) if a is x), None)
            if fd is not None and j is not None:
                ps = fd["params"][1:] if False else fd["params"]
                if j < len(ps):
                    if ps[j].get("ref") == "r": return "handed to %s by reference" % fd["n"]
                    if ("[" in t) and pointer_to_mutable(ps[j].get("t")): return "handed to %s by pointer" % fd["n"]
                return None
            if p.get("fn") in MUTALG | {"swap", "move", "getline", "tie", "ref", "memset", "memcpy", "strcpy", "sscanf"} and first or p.get("fn") in ("swap", "tie", "ref", "getline"): return "handed to " + str(p.get("fn"))
            return None
        if k == "Var":
            if p.get("ref") == "r" and not (p.get("t") or "").startswith("const "): return "bound to the reference " + p.get("n", "")
            if "[" in t and pointer_to_mutable(p.get("t")): return None if not written_through(chain, p) else "changed through " + p.get("n", "")
            return None
        if k == "CXXForRangeStmt": 
            v = next((y for y in walk(p) if y.get("k") == "Var"), {})
            return "changed by a loop over its entries" if v.get("ref") == "r" and not (v.get("t") or "").startswith("const ") else None
        if k == "ReturnStmt":
            f = chain[0].get("__fn")
            return "handed out by reference" if f and f.get("rr") == "r" else None
        return None
    return None

def written_through(chain, var):
    f = chain[0].get("__fn"); d = var.get("d")
    return any(n.get("k") in ("BinOp", "CompAssign") and (n.get("op") == "=" or n.get("k") == "CompAssign") and any(y.get("d") == d for y in walk(n["c"][0])) and n["c"][0].get("k") != "Ref" for b in f.get("c") or [] if b for n in walk(b))

@rule("X02")
def X02(M, c):
    """Every use, in every function of the library, of a variable that outlives an evaluation and is shared by threads; calls of library functions with hidden shared state."""
    shared = {}; uses = {}
    for g in M.glob.values():
        if "/ThermoFun/" not in g["file"] or g.get("const") or g.get("tls"): continue
        shared.setdefault((g["n"], g["file"].split("/ThermoFun/", 1)[1].replace("Batch/../", "")), g)
    calls = 0
    for f in sorted(M.fn.values(), key=lambda f: f["u"]):
        if "/ThermoFun/" not in f["file"]: continue
        c.analysed.add(f["f"])
        def rec(n, par):
            nonlocal calls
            if not isinstance(n, dict): return
            here = par + [n]
            if n.get("k") == "Var" and n.get("static") and not f.get("dep"):
                own = {x.get("d") for x in walk(n) if x.get("k") in ("Var", "ParmVar") and "d" in x} | {q["d"] for x in walk(n) if x.get("k") == "LambdaExpr" for q in x.get("params") or [] if "d" in q}
                bad = [x for x in walk(n) if x is not n and (x.get("k") == "Ref" and "d" in x and not x.get("g") and x["d"] not in own or x.get("k") in ("This", "CXXThisExpr"))]
                c.ob(not bad, "first:%s:%s" % (f["f"], n.get("n")), loc(f, n), "%s in %s does not keep what its first use happened to be called with" % (n.get("n"), f["f"]), bad and "set from " + ", ".join(sorted({str(x.get("n") or "this") for x in bad})))
            if n.get("k") == "Ref" and n.get("g") and n.get("repo") and not n.get("tls") and not n.get("gconst"):
                w = use(M, here)
                uses.setdefault(n["g"] + (":" + f["f"] if n.get("slocal") else ""), []).append((f, n, w))
            elif n.get("k") in ("Call", "MCall") and n.get("u") not in M.fn:
                calls += 1
                nm = n.get("fn") or ""; q = n.get("f") or nm
                if (nm in UNSAFE and q in (nm, "std::" + nm)) or q in UNSAFE:
                    c.ob(False, "call:%s:%s" % (f["f"], nm), loc(f, n), "%s does not use %s, whose hidden state all threads share" % (f["f"], nm))
            for x in n.get("c") or []: rec(x, here)
        root = {"__fn": f, "k": "fn"}
        for b in (f.get("c") or []):
            if b is not None: rec(b, [root])
        for i in f.get("inits") or []:
            for b in i.get("c") or []:
                if b is not None: rec(b, [root])
    for g, us in sorted(uses.items()):
        bad = [(f, n, w) for f, n, w in us if w]
        for f, n, w in bad[:1]:
            c.ob(False, "variable:" + g, loc(f, n), "%s, which every thread shares, is not changed by evaluations" % g, "%s in %s (%d such uses)" % (w, f["f"], len(bad)))
        if not bad: c.ob(True, "variable:" + g, loc(us[0][0], us[0][1]), "%s, which every thread shares, is not changed by evaluations" % g)
    c.ob(True, "calls", "ThermoFun", "none of the %d calls of other libraries has hidden state that threads share" % calls)
    c.need(len(uses), "shared variables in use", 1)
    c.need(len(shared), "variables that outlive evaluations", 1)
