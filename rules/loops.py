"""Rule on termination: every loop has a bound, every recursion descends."""
import re
from registry import rule
from model import *
from rules.own import clean
from rules.fail import Calls, fnodes

ASSIGN = ("=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>=")
CONSTM = {"size", "count", "contains", "empty", "find", "begin", "end", "cbegin", "cend", "rbegin", "rend", "at", "front", "back", "length", "c_str", "data", "substr", "compare", "lower_bound", "upper_bound", "str", "peek", "good", "eof", "capacity", "get", "first", "second", "array_size", "items"}
INT = re.compile(r"^(const )?(unsigned |signed |long |short )*(int|long|short|char|bool|size_t|unsigned|std::size_t|std::size_type|int64_t|uint32_t|uint64_t)$")

def strip(n):
    while n is not None and n.get("k") in ("Cast", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr") and len(n.get("c") or []) == 1: n = n["c"][0]
    return n
def place(n):
    """the variable or field an lvalue is (part of)"""
    n = strip(n)
    if n is None: return None
    k = n["k"]
    if k == "Ref": return ("g", n["g"]) if n.get("g") else ("d", n["d"]) if "d" in n else None
    if k == "Member": 
        if n.get("fc"): return ("f", n["fc"], n["n"])
        return place((n.get("c") or [None])[0])
    if k == "ArraySubscriptExpr" or k == "OpCall" and n.get("op") in ("[]", "*", "->") or k == "UnOp" and n.get("op") == "*" or k == "MCall":
        p = place((n.get("c") or [None])[0])
        return p if p is None or p[0] == "e" else ("e", p)
    return None
def root(p): return p[1] if p and p[0] == "e" else p

class Writes:
    def __init__(self, M): self.M = M; self.memo = {}; self.calls = Calls(M)
    def direct(self, nodes, via=True):
        """places written by these statements themselves, and functions called"""
        out = []; fs = []
        for b in nodes:
            if b is None: continue
            for n in walk(b):
                k = n.get("k"); c = n.get("c") or []; op = n.get("op", "")
                if k == "BinOp" and op == "=" or k == "CompAssign" or k == "UnOp" and op in ("++", "--", "&") or k == "OpCall" and (op in ASSIGN or op in ("++", "--", "<<", ">>")):
                    if c: out.append((place(c[0]), n))
                if k in ("Call", "MCall", "OpCall", "Construct", "CXXTemporaryObjectExpr"):
                    fd = self.M.fn.get(n.get("u")); args = c[1:] if k == "MCall" else c
                    if fd is not None:
                        fs.append(fd)
                        for a, p in zip(args, fd["params"]):
                            if p.get("ref") == "r": out.append((place(a), n))
                    if k == "MCall" and c and not n.get("mconst") and n.get("fn") not in CONSTM and fd is None: out.append((place(c[0]), n))
                    if fd is None and n.get("fn") in ("swap", "getline", "erase", "tie", "sort", "reverse"): out += [(place(a), n) for a in args]
        return out, fs
    def never_returns(self, u, depth=4):
        f = self.M.fn.get(u)
        if f is None or depth == 0: return False
        for b in f.get("c") or []:
            for s in kids(b) if b and b["k"] == "CompoundStmt" else []:
                if any(x.get("k") == "ReturnStmt" for x in walk(s)): return False
                t = strip(s)
                if t and (t["k"] in ("CXXThrowExpr", "Throw") or t["k"] == "Call" and self.never_returns(t.get("u"), depth - 1)): return True
        return False
    def throws_if(self, u):
        """the function does not return when its first argument holds"""
        f = self.M.fn.get(u)
        if f is None or not f["params"]: return False
        for b in f.get("c") or []:
            for s in kids(b) if b and b["k"] == "CompoundStmt" else []:
                if s["k"] != "IfStmt": return False
                cd = strip(s["c"][2])
                th = s["c"][3]; th = [strip(x) for x in (kids(th) if th["k"] == "CompoundStmt" else [th])]
                return place(cd) == ("d", f["params"][0]["d"]) and any(t and (t["k"] in ("CXXThrowExpr", "Throw") or t["k"] == "Call" and self.never_returns(t.get("u"))) for t in th)
        return False
    def of(self, f):
        """fields and globals a call of f may write"""
        st = [f]; seen = {f["u"]}; out = set()
        if f["u"] in self.memo: return self.memo[f["u"]]
        while st:
            g = st.pop()
            w, fs = self.direct([b for b in g.get("c") or []])
            out |= {p for p, _ in w if p and root(p)[0] != "d"}
            for h in self.calls.of(g):
                if h["u"] not in seen: seen.add(h["u"]); st.append(h)
        self.memo[f["u"]] = out
        return out

def conj(n):
    n = strip(n)
    if n is None: return []
    if n["k"] == "BinOp" and n.get("op") == "&&": return conj(n["c"][0]) + conj(n["c"][1])
    return [n]
def disj(n):
    n = strip(n)
    if n is None: return []
    if n["k"] == "BinOp" and n.get("op") == "||": return disj(n["c"][0]) + disj(n["c"][1])
    return [n]
def leaves_loop(s, top=True):
    """this statement always leaves the loop"""
    if s is None: return False
    k = s["k"]
    if k in ("ReturnStmt", "GotoStmt") or k == "BreakStmt" and top: return True
    if k in ("CXXThrowExpr", "Throw"): return True
    if k in ("ExprWithCleanups",): return leaves_loop(s["c"][0], top)
    if k == "CompoundStmt": return any(leaves_loop(x, top) for x in kids(s))
    if k == "IfStmt": return s["c"][4] is not None and leaves_loop(s["c"][3], top) and leaves_loop(s["c"][4], top)
    return False
NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}
FLIP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}

def num_of(n):
    n = strip(n)
    if n is None: return None
    if "cv" in n:
        try: return float(n["cv"])
        except ValueError: return None
    if n["k"] in ("IntegerLiteral", "FloatingLiteral"):
        try: return float(n.get("v"))
        except (TypeError, ValueError): return None
    if n["k"] == "UnOp" and n.get("op") == "-":
        v = num_of(n["c"][0]); return None if v is None else -v
    return None

def linear(n):
    """(place, node) of a counter: v, v + const, const + v, v++, ++v"""
    n = strip(n)
    if n is None: return None
    if n["k"] in ("Ref", "Member"):
        p = place(n); return (p, n) if p else None
    if n["k"] == "UnOp" and n.get("op") in ("++", "--"): return linear(n["c"][0])
    if n["k"] == "OpCall" and n.get("op") in ("++", "--"): return linear(n["c"][0])
    if n["k"] == "BinOp" and n.get("op") in ("+", "-"):
        if num_of(n["c"][1]) is not None: return linear(n["c"][0])
        if n["op"] == "+" and num_of(n["c"][0]) is not None: return linear(n["c"][1])
    return None

class Loop:
    def __init__(self, W, f, n):
        self.W = W; self.f = f; self.n = n; k = n["k"]; c = n["c"]
        if k == "ForStmt": self.init, self.cond, self.inc, self.body = (c + [None] * 4)[:4]
        elif k == "WhileStmt": self.init = self.inc = None; self.cond, self.body = c[0], c[-1]
        else: self.init = self.inc = None; self.body, self.cond = c[0], c[1]
        self.w, fs = W.direct([self.cond, self.inc, self.body])
        self.far = set()
        for g in fs: self.far |= W.of(g)
        self.local = {("d", x["d"]) for b in (self.body,) if b for x in walk(b) if x.get("k") == "Var" and "d" in x}
    def written(self, p): return p is None or p in self.far or any(q == p or q is None for q, _ in self.w if q is not None)
    def invariant(self, e):
        lens = {id(strip(x["c"][0])) for x in walk(e) if x.get("k") == "MCall" and x.get("fn") in ("size", "length", "empty", "end", "rows", "cols") and x.get("c")}
        for x in walk(e):
            k = x.get("k")
            if k in ("Ref", "Member"):
                p = place(x)
                if p is None: continue
                if p in self.local or self.written(p): return False
                if self.written(("e", p)) and id(x) not in lens: return False
            if k == "Ref" and x.get("vk") == "fn": continue
            if k == "Call" and x.get("u") not in self.W.M.fn and x.get("fn") not in ("fabs", "abs", "min", "max", "sqrt", "log", "exp", "pow", "size", "end", "strlen"): return False
            if k in ("Call", "MCall") and x.get("u") in self.W.M.fn:
                pass
        return True
    def positive(self, e):
        """the function leaves unless e is positive (for the values with which the loop goes on)"""
        p = place(e)
        if p is None or not self.invariant(e): return False
        for b in self.f.get("c") or []:
            if b is None: continue
            for x in walk(b):
                if x is self.n: return False
                g = None
                if x.get("k") == "IfStmt" and leaves_loop(x["c"][3], False): g = x["c"][2]
                elif x.get("k") == "Call" and x.get("c") and self.W.throws_if(x.get("u")): g = x["c"][0]
                if g is None: continue
                for d in disj(g):
                    ok = False; rest = []
                    for y in conj(d):
                        y = strip(y)
                        if y["k"] == "UnOp" and y.get("op") == "!":
                            z = strip(y["c"][0])
                            if z["k"] == "BinOp" and z.get("op") == ">" and place(z["c"][0]) == p and (num_of(z["c"][1]) or 0) == 0 and num_of(z["c"][1]) is not None: ok = True; continue
                        if y["k"] == "BinOp" and y.get("op") == "<=" and place(y["c"][0]) == p and num_of(y["c"][1]) == 0: ok = True; continue
                        rest.append(y)
                    # without the check the loop runs once: its bound is one of the other operands
                    lim = [place(z["c"][1]) for z in conj(self.cond) if z and z["k"] == "BinOp" and z.get("op") in ("<", "<=")]
                    if ok and all(y["k"] == "BinOp" and y.get("op") == "<" and place(y["c"][1]) in lim for y in rest) and len(rest) <= 1: return True
        return False
    def step(self, n, p):
        """+1/-1/0(other) when n writes p, None when it does not"""
        k = n.get("k"); c = n.get("c") or []; op = n.get("op", "")
        if k in ("UnOp", "OpCall") and op in ("++", "--") and place(c[0]) == p: return 1 if op == "++" else -1
        if k in ("CompAssign", "OpCall", "BinOp") and op in ("+=", "-=") and place(c[0]) == p:
            v = num_of(c[1])
            if v is None and op == "+=" and self.positive(c[1]): return 1
            return 0 if v is None or v == 0 else (1 if (v > 0) == (op == "+=") else -1)
        if (k == "BinOp" or k == "OpCall") and op == "=" and place(c[0]) == p:
            r = strip(c[1])
            if r and r["k"] == "BinOp" and r.get("op") in ("+", "-"):
                a, b = r["c"]
                if place(a) == p and r["op"] == "+" and num_of(b) is None and self.positive(b): return 1
                if place(a) == p and num_of(b): return 1 if (num_of(b) > 0) == (r["op"] == "+") else -1
                if r["op"] == "+" and place(b) == p and num_of(a): return 1 if num_of(a) > 0 else -1
            if r and any(x.get("k") in ("MCall", "Call") and x.get("fn") in ("erase", "next") for x in walk(r)): return 1
            return 0
        return None
    def must(self, s, p, d):
        """every way through s that stays in the loop steps p in direction d: True; False when some way may not; 'continue' handled as not"""
        if s is None: return False
        k = s["k"]
        if k == "CompoundStmt":
            for x in kids(s):
                if self.must(x, p, d): return True
                if self.skips(x): return False
            return False
        if k == "IfStmt":
            i, cv, cond, th, el = s["c"]
            if cond is not None and self.always(cond, p, d): return True
            t = leaves_loop(th) or self.must(th, p, d)
            e = el is not None and (leaves_loop(el) or self.must(el, p, d))
            return bool(t and e)
        if k in ("ForStmt", "WhileStmt", "CXXForRangeStmt", "SwitchStmt", "CXXTryStmt"): return False
        if k == "DoStmt": return self.must(s["c"][0], p, d)
        return self.always(s, p, d)
    def always(self, e, p, d):
        """evaluating this expression steps p"""
        st = [e]
        while st:
            x = st.pop()
            if not isinstance(x, dict): continue
            if self.step(x, p) == d: return True
            k = x.get("k")
            if k == "LambdaExpr": continue
            c = x.get("c") or []
            if k == "BinOp" and x.get("op") in ("&&", "||") or k == "ConditionalOperator": st += c[:1]
            else: st += [y for y in c if y]
        return False
    def skips(self, s):
        """may jump to the next iteration"""
        if s is None or not isinstance(s, dict): return False
        k = s.get("k")
        if k == "ContinueStmt": return True
        if k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt", "LambdaExpr"): return False
        return any(self.skips(x) for x in s.get("c") or [] if x)
    def bounds(self):
        """(comparison, negated?) that must hold for another iteration"""
        out = [(x, False) for x in conj(self.cond)]
        st = kids(self.body) if self.body is not None and self.body["k"] == "CompoundStmt" else [self.body]
        for s in st:
            if s is not None and s["k"] == "IfStmt" and leaves_loop(s["c"][3]): out += [(x, True) for x in disj(s["c"][2])]
            elif s is not None and s["k"] == "IfStmt" and s["c"][4] is not None and leaves_loop(s["c"][4]): out += [(x, False) for x in conj(s["c"][2])]
            if self.skips(s): break
        return out
    def scan(self):
        """(i = s.find(x, i)) != npos, each time s.replace(i, x.length(), y) and i += y.length(): what remains of s behind i gets shorter by x"""
        def same(a, b): return place(a) is not None and place(a) == place(b)
        for x in conj(self.cond):
            if x is None or x["k"] not in ("BinOp",) or x.get("op") != "!=": continue
            a = strip(x["c"][0])
            if a["k"] != "BinOp" or a.get("op") != "=" or not any(y.get("n") == "npos" for y in walk(x["c"][1])): continue
            i = place(a["c"][0]); f = strip(a["c"][1])
            if f["k"] != "MCall" or f.get("fn") != "find" or len(f["c"]) < 3 or place(f["c"][2]) != i: continue
            src, key = f["c"][0], f["c"][1]
            if not self.invariant(key): continue
            body = [strip(y) for y in (kids(self.body) if self.body["k"] == "CompoundStmt" else [self.body])]
            allw = [n for q, n in self.w if q in (i, place(src)) and n is not a]
            rep = [y for y in body if y["k"] == "MCall" and y.get("fn") == "replace" and same(y["c"][0], src) and len(y["c"]) == 4 and place(y["c"][1]) == i]
            adv = [y for y in body + [strip(self.inc)] if y and y["k"] == "CompAssign" and y.get("op") == "+=" and place(y["c"][0]) == i]
            if len(rep) != 1 or len(adv) != 1 or len(allw) != 2: continue
            n = strip(rep[0]["c"][2]); m = strip(adv[0]["c"][1])
            if not (n["k"] == "MCall" and n.get("fn") in ("length", "size") and same(n["c"][0], key)): continue
            if not (m["k"] == "MCall" and m.get("fn") in ("length", "size") and same(m["c"][0], rep[0]["c"][3])): continue
            return key
        return None
    def advances(self):
        """(i = s.find(x, i)) != npos over a text left alone, and i moves on each time; or reading a stream to its end"""
        for x in conj(self.cond):
            if x is None: continue
            if any(y.get("k") == "Call" and y.get("fn") == "getline" and y.get("u") not in self.W.M.fn for y in walk(x)) or x["k"] in ("OpCall", "MCall") and any(y.get("op") == ">>" and "istream" in (y.get("t") or "") for y in walk(x)): return True
            if x["k"] != "BinOp" or x.get("op") != "!=": continue
            a = strip(x["c"][0])
            if a["k"] != "BinOp" or a.get("op") != "=" or not any(y.get("n") == "npos" for y in walk(x["c"][1])): continue
            i = place(a["c"][0]); f = strip(a["c"][1])
            if f["k"] != "MCall" or not (f.get("fn") or "").startswith("find") or len(f["c"]) < 3: continue
            l = linear(f["c"][2])
            if not l or not all(place(y) and not self.written(place(y)) and not self.written(("e", place(y))) for y in f["c"][:1]): continue
            off = strip(f["c"][2]); plus = off["k"] == "BinOp" and off.get("op") == "+" or any(y["k"] == "UnOp" and y.get("op") == "++" for y in walk(off) if "k" in y)
            if l[0] == i:
                others = [n for q, n in self.w if q == i and n is not a]
                if plus and not others: return True
                if others and all(self.ahead(n, i, f["c"][1]) for n in others) and (self.mustp(lambda n: self.ahead(n, i, f["c"][1])) or plus): return True
            else:
                # a start that is set behind each find
                v = l[0]; others = [n for q, n in self.w if q == v]
                if others and not [n for q, n in self.w if q == i and n is not a] and all(self.behind(n, v, i, f["c"][1]) for n in others) and self.mustp(lambda n: self.behind(n, v, i, f["c"][1])): return True
        return False
    def amount(self, e, key):
        """a positive constant or the length of the text searched for"""
        e = strip(e)
        if e is None: return False
        if (num_of(e) or 0) > 0: return True
        return e["k"] == "MCall" and e.get("fn") in ("length", "size") and place(e["c"][0]) == place(key) and (self.nonempty(key) or "literal" in (key.get("k") or "").lower())
    def ahead(self, n, i, key):
        k = n.get("k"); op = n.get("op")
        if k == "UnOp" and op == "++": return True
        if k == "CompAssign" and op == "+=": return self.amount(n["c"][1], key)
        return self.behind(n, i, i, key)
    def behind(self, n, v, i, key):
        if n.get("k") != "BinOp" or n.get("op") != "=" or place(n["c"][0]) != v: return False
        r = strip(n["c"][1])
        return r["k"] == "BinOp" and r.get("op") == "+" and (place(r["c"][0]) == i and self.amount(r["c"][1], key) or place(r["c"][1]) == i and self.amount(r["c"][0], key))
    def mustp(self, ok):
        if self.inc is not None and any(ok(y) for y in walk(self.inc)): return True
        for s in (kids(self.body) if self.body["k"] == "CompoundStmt" else [self.body]):
            if s["k"] in ("BinOp", "UnOp", "CompAssign", "ExprWithCleanups") and ok(strip(s)): return True
            if self.skips(s): return False
        return False
    def nonempty(self, key):
        """the function has left when this string is empty"""
        for b in self.f.get("c") or []:
            for s in kids(b) if b and b["k"] == "CompoundStmt" else []:
                if any(x is self.n for x in walk(s)): return False
                if s["k"] == "IfStmt" and leaves_loop(s["c"][3], False):
                    for d in disj(s["c"][2]):
                        if d["k"] == "MCall" and d.get("fn") == "empty" and place(d["c"][0]) == place(key): return True
        return False
    def bounded(self):
        """None when the number of iterations is bounded, else why not"""
        if self.cond is not None and num_of(self.cond) == 0: return None
        why = []
        if self.cond is not None and self.advances(): return None
        key = self.scan()
        if key is not None:
            if self.nonempty(key): return None
            why.append("an empty search text is found at every place")
        if self.n["k"] == "WhileStmt" and leaves_loop(self.body) and not self.skips(self.body): return None
        for x, neg in self.bounds():
            x = strip(x)
            while x["k"] == "UnOp" and x.get("op") == "!": neg = not neg; x = strip(x["c"][0])
            cmps = []
            if x["k"] in ("BinOp", "OpCall", "Rewritten") and x.get("op") in NEG and len(x.get("c") or []) >= 2:
                op = NEG[x["op"]] if neg else x["op"]
                cmps = [(x["c"][0], op, x["c"][1]), (x["c"][1], FLIP[op], x["c"][0])]
            elif x["k"] == "Rewritten" and x.get("c"):
                y = strip(x["c"][0]); m = neg
                while y["k"] == "UnOp" and y.get("op") == "!": m = not m; y = strip(y["c"][0])
                if y.get("op") in NEG and len(y.get("c") or []) >= 2:
                    op = NEG[y["op"]] if m else y["op"]
                    cmps = [(y["c"][0], op, y["c"][1]), (y["c"][1], FLIP[op], y["c"][0])]
            elif linear(x): cmps = [(x, "==" if neg else "!=", None)]
            if neg and x["k"] == "MCall" and x.get("fn") == "empty" and x.get("c"):
                q = place(x["c"][0]) if x["c"][0].get("k") in ("Ref", "Member") else root(place(x["c"][0]))
                muts = [y.get("fn") for z in (self.cond, self.inc, self.body) if z for y in walk(z) if y.get("k") == "MCall" and y.get("c") and root(place(y["c"][0])) == q and not y.get("mconst")]
                pops = {"pop_back", "pop_front", "pop"}
                if q and q not in self.far and ("e", q) not in self.far and not any(w == q and y.get("k") != "MCall" for w, y in self.w) and all(m in pops | CONSTM or m.startswith("operator") for m in muts):
                    st = kids(self.body) if self.body["k"] == "CompoundStmt" else [self.body]
                    for y in st:
                        if any(z.get("k") == "MCall" and z.get("fn") in pops and root(place(z["c"][0])) == q for z in walk(y)) and y["k"] in ("MCall", "ExprWithCleanups"): return None
                        if self.skips(y): break
                why.append("the container is not emptied"); continue
            for a, op, b in cmps:
                l = linear(a)
                if not l: continue
                p, node = l
                t = clean(node.get("t") or "")
                real = t in ("double", "float", "long double") or "ThermoScalar" in t
                if p in self.local: why.append("%s starts anew in every iteration" % node.get("n")); continue
                if b is not None and not self.invariant(b):
                    # `it != c.end()` while entries are erased through the iterator itself
                    if not (op == "!=" and any(y.get("fn") == "end" for y in walk(b)) and not any(y.get("fn") in ("insert", "emplace", "push_back", "emplace_back") for z in (self.body,) if z for y in walk(z))):
                        why.append("the bound of %s changes" % node.get("n")); continue
                for d in ((1,) if op in ("<", "<=") else (-1,) if op in (">", ">=") else (1, -1) if op == "!=" else ()):
                    if real and op == "!=": continue
                    if d < 0 and op == ">=" and t.startswith("unsigned") and num_of(b) == 0: why.append("the unsigned %s is never negative" % node.get("n")); continue
                    ws = [self.step(y, p) for q, y in self.w if q == p]
                    if p in self.far or any(s != d for s in ws): why.append("%s is also changed otherwise" % node.get("n") if ws else "nothing steps %s" % node.get("n")); continue
                    if not ws: why.append("nothing steps %s" % node.get("n")); continue
                    # an empty step in a condition, the increment or on every way through the body
                    if self.cond is not None and any(self.always(y, p, d) for y in conj(self.cond)): return None
                    if self.inc is not None and self.always(self.inc, p, d): return None
                    if self.must(self.body, p, d): return None
                    why.append("some way through the body does not step %s" % node.get("n"))
        return "; ".join(dict.fromkeys(why)) or "no counter bounds it"

@rule("X03")
def X03(M, c):
    """A bound for every loop: a condition that needs a counter short of an unchanging limit, and a step towards it on every way through the body; cycles of the call graph."""
    W = Writes(M); n = 0
    for f in sorted(M.fn.values(), key=lambda f: (f["file"], f["l"], f["u"])):
        if "/ThermoFun/" not in f["file"] or f.get("dep"): continue
        k = 0
        for b in f.get("c") or []:
            if b is None: continue
            for x in walk(b):
                if x.get("k") == "CXXForRangeStmt":
                    n += 1; k += 1
                    p = place(x["c"][1]); w = None
                    if p is not None and p[0] != "e":
                        ws, fs = W.direct([x["c"][2]])
                        # members that add or remove entries; not writing or clearing the entries themselves
                        bad = [y.get("fn") for q, y in ws if q == p and (y.get("k") == "MCall" and not (y.get("fn") or "").startswith("operator") or y.get("k") in ("BinOp", "OpCall") and y.get("op") == "=")]
                        far = p[0] != "d" and p in set().union(*[W.of(g) for g in fs]) if fs else False
                        w = "the body changes the container the loop goes through (%s)" % ", ".join(map(str, bad)) if bad else "a function called in the body changes the container the loop goes through" if far else None
                    c.ob(w is None, "%s:%d" % (f["f"], k), loc(f, x), "the loop in %s ends" % f["f"], w)
                if x.get("k") in ("ForStmt", "WhileStmt", "DoStmt"):
                    n += 1; k += 1; c.analysed.add(f["f"])
                    w = Loop(W, f, x).bounded()
                    c.ob(w is None, "%s:%d" % (f["f"], k), loc(f, x), "the loop in %s ends" % f["f"], w)
    c.need(n, "loops", 100)
