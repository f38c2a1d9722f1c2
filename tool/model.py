"""Merged whole-program model with indexes, walkers and a printer."""
import sys, os
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts
from facts import AnalysisError, REPO, VERIF

def walk(n):
    """All nodes of a tree, pre-order (iterative)."""
    st = [n]
    while st:
        x = st.pop()
        if x is None: continue
        if "k" in x: yield x       # parameters and initialisers are not expressions themselves
        for k in ("c", "inits", "params", "insts"):
            v = x.get(k)
            if isinstance(v, list):
                for y in reversed(v):
                    if isinstance(y, dict): st.append(y)

def kids(n):
    return n.get("c") or []

class Model:
    def __init__(self):
        self.tus = facts.extract()
        self.fn = {}; self.rec = {}; self.enum = {}; self.glob = {}; self.files = set(); self.tu_of = {}
        for m in self.tus:
            for f in m["functions"]:
                u = f["u"]
                if u not in self.fn: self.fn[u] = f
            for r in m["records"]:
                if r["n"] not in self.rec or (len(r["fields"]) > len(self.rec[r["n"]]["fields"])): self.rec[r["n"]] = r
            for e in m["enums"]: self.enum.setdefault(e["n"], e)
            for g in m["globals"]: self.glob.setdefault(g["n"] + "@" + g["file"] + ":" + str(g["l"]), g)
            self.files.update(m["files"])
        self.byname = {}
        for f in self.fn.values(): self.byname.setdefault(f["f"], []).append(f)
        self.globn = {}
        for g in self.glob.values(): self.globn.setdefault(g["n"], []).append(g)
    def written_globals(self):
        """names of globals that some function assigns, takes the address of, or hands out by reference"""
        if hasattr(self, "_wg"): return self._wg
        out = set()
        def root(n):
            while n is not None:
                if n.get("k") == "Ref": return n.get("g")
                if n["k"] in ("Member", "ArraySubscriptExpr", "Cast", "ParenExpr") or n["k"] == "OpCall" and n.get("op") == "[]" or n["k"] == "UnOp" and n.get("op") == "*": n = (n.get("c") or [None])[0]
                else: return None
            return None
        READ = ("at", "size", "begin", "end", "cbegin", "cend", "find", "count", "empty", "c_str", "data", "length", "front", "back")
        for f in self.fn.values():
            if not f.get("c"): continue
            for b in f["c"]:
                if b is None: continue
                for n in walk(b):
                    k = n.get("k"); c = n.get("c") or []
                    t = None
                    if k == "BinOp" and n.get("op") == "=" or k == "CompAssign" or k == "UnOp" and n.get("op") in ("++", "--", "&"): t = [c[0]]
                    elif k == "OpCall" and (n.get("op", "").endswith("=") and n["op"] not in ("==", "!=", "<=", ">=") or n.get("op") in ("++", "--", "<<", ">>")): t = [c[0]]
                    elif k in ("Call", "MCall", "Construct", "OpCall"):
                        fd = self.fn.get(n.get("u"))
                        t = []
                        if k == "MCall" and n.get("fn") not in READ and not (fd and fd.get("const")): t.append(c[0] if c else None)
                        if fd: t += [a for a, p in zip(c[1:] if k == "MCall" else c, fd["params"]) if p.get("ref") == "r"]
                    for x in t or []:
                        g = root(x) if x is not None else None
                        if g: out.add(g)
        self._wg = out
        return out
    def funcs(self, prefix=None, **kw):
        for f in self.fn.values():
            if f.get("dep"): continue
            yield f
    def named(self, q):
        return self.byname.get(q, [])
    def one(self, q, pred=None):
        c = [f for f in self.named(q) if not f.get("dep") and (pred is None or pred(f))]
        if not c: raise AnalysisError("anchor vanished: no definition of %s" % q)
        if len(c) > 1: raise AnalysisError("anchor ambiguous: %d definitions of %s" % (len(c), q))
        return c[0]
    def record(self, q):
        if q not in self.rec: raise AnalysisError("anchor vanished: no record %s" % q)
        return self.rec[q]
    def global_(self, q):
        if q not in self.globn: raise AnalysisError("anchor vanished: no global %s" % q)
        return self.globn[q][0]

def rel(p):
    return os.path.relpath(p, REPO) if p.startswith(REPO) else p

def loc(f, n=None):
    return "%s:%s" % (rel(f["file"]), (n or f).get("l"))

def show(n, d=0):
    """Source-like rendering used in reports."""
    if n is None: return "-"
    k = n["k"]; c = kids(n)
    s = lambda i: show(c[i], d + 1) if i < len(c) else "?"
    if k in ("BinOp", "CompAssign"): return "(%s %s %s)" % (s(0), n["op"], s(1))
    if k == "UnOp": return "(%s%s)" % ((s(0), n["op"]) if n.get("post") else (n["op"], s(0)))
    if k == "OpCall":
        if n["op"] == "()": return "%s(%s)" % (s(0), ", ".join(show(x) for x in c[1:]))
        if n["op"] == "[]": return "%s[%s]" % (s(0), s(1))
        return "(%s %s %s)" % (s(0), n["op"], s(1)) if len(c) > 1 else "(%s%s)" % (n["op"], s(0))
    if k == "Ref": return n.get("n", "?")
    if k == "Member": return "%s.%s" % (s(0), n["n"]) if c and c[0] and c[0]["k"] != "CXXThisExpr" else n["n"]
    if k == "Call": return "%s(%s)" % (n.get("fn", "(*)"), ", ".join(show(x) for x in c))
    if k == "MCall": return "%s.%s(%s)" % (s(0) if c and c[0] and c[0]["k"] != "CXXThisExpr" else "this", n.get("fn", "?"), ", ".join(show(x) for x in c[1:]))
    if k == "Construct":
        if n.get("ctor") in ("copy", "move") and len(c) == 1: return s(0)
        return "%s{%s}" % (n["cls"].split("::")[-1], ", ".join(show(x) for x in c))
    if k in ("IntegerLiteral", "FloatingLiteral", "CXXBoolLiteralExpr"): return str(n.get("txt", n.get("v")))
    if k == "StringLiteral": return '"%s"' % n["v"]
    if k == "ArraySubscriptExpr": return "%s[%s]" % (s(0), s(1))
    if k == "Cast": return s(0)
    if k == "Var": return "%s %s%s" % (n["t"], n["n"], (" = " + s(0)) if c else "")
    if k == "ConditionalOperator": return "(%s ? %s : %s)" % (s(0), s(1), s(2))
    return "%s(%s)" % (k, ", ".join(show(x, d + 1) if isinstance(x, dict) else "-" for x in c)) if c else k

if __name__ == "__main__":
    M = Model()
    print(len(M.fn), "functions", len(M.rec), "records", len(M.enum), "enums", len(M.glob), "globals", len(M.files), "files")
    q = sys.argv[1] if len(sys.argv) > 1 else None
    if q:
        import json
        for f in M.fn.values():
            if q in f["f"] and not f.get("dep"):
                print(f["f"], loc(f)); print(show(f["c"][0])[:3000])
