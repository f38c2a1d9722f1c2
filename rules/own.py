"""Rules on ownership: copies of the engine and of the data classes never share mutable state with the object they came from."""
from registry import rule
from model import *
from gsa import *
import re

def targs(t):
    """template arguments of a canonical type"""
    i = t.find("<")
    if i < 0: return []
    out, d, cur = [], 0, ""
    for ch in t[i + 1:t.rindex(">")]:
        if ch == "<" or ch == "(": d += 1
        if ch == ">" or ch == ")": d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def clean(t):
    t = t.strip()
    while True:
        u = re.sub(r"^(const|volatile|struct|class) ", "", t)
        u = re.sub(r"\s*(const|&|&&)$", "", u).strip()
        if u == t: return t
        t = u

def pointerish(t):
    """a value of this type leads to an object it does not contain"""
    t = clean(t)
    if t.endswith("*"): return "a raw pointer"
    for s, w in (("std::shared_ptr", "a shared pointer"), ("std::__shared_ptr", "a shared pointer"), ("std::weak_ptr", "a weak pointer"), ("std::unique_ptr", "an owning pointer"),
                 ("std::function", "a function object bound to another object"), ("std::reference_wrapper", "a reference")):
        if t.startswith(s): return w
    if "(lambda" in t: return "a closure"
    return None

PLAIN = re.compile(r"^(unsigned |signed |long |short )*(int|long|short|char|double|float|bool|size_t|wchar_t|std::size_t)$")

class Own:
    def __init__(self, M):
        self.M = M; self.memo = {}; self.out = []; self.done = set(); self.functions = set(); self.types = set(); self.seen = {}
    def bad(self, key, where, text):
        if (key, where) not in {(k, w) for k, w, _ in self.out}: self.out.append((key, where, text))

    # ---------------------------------------------------------------- types
    def type_ok(self, t, op, path, where):
        """copying (op: 'ctor' or 'assign') a value of type t leaves nothing shared"""
        raw = t; amp = t.strip().endswith("&")
        t = clean(t)
        if amp: self.bad("share:" + path, where, "%s is a reference: the copy and the original name the same object" % path); return
        w = pointerish(t)
        if w: 
            if t.startswith("std::unique_ptr"): return      # not copyable: a member-wise copy would not compile
            if re.match(r"^const char \*$", raw.strip()): return
            self.bad("share:" + path, where, "%s is %s that a member-wise copy shares with the original" % (path, w)); return
        if t in self.M.rec: self.class_ok(t, op); return
        if t.startswith("std::"):
            if t.startswith("std::basic_string"): return
            for a in targs(t):
                if a.startswith("std::allocator") or a.startswith("std::less") or a.startswith("std::hash") or a.startswith("std::equal_to") or a.startswith("std::char_traits"): continue
                self.type_ok(a, op, path, where)
                if op == "assign": self.type_ok(a, "ctor", path, where)
    def class_ok(self, cls, op):
        if (cls, op) in self.done: return
        self.done.add((cls, op)); self.types.add(cls)
        r = self.M.rec[cls]; where = cls
        cand = [m for m in r["methods"] if (m.get("ctor") == "copy" if op == "ctor" else m.get("assign") == "copy")]
        if op == "ctor": cand = [m for m in cand if not m.get("template")]
        user = [m for m in cand if m.get("user") and not m.get("defaulted") and not m.get("deleted")]
        if any(m.get("deleted") for m in cand): return
        if not user:
            for b in r.get("bases") or []: 
                b = b["n"] if isinstance(b, dict) else b
                if clean(b) in self.M.rec: self.class_ok(clean(b), op)
            for f in r["fields"]:
                if f.get("static"): continue
                self.type_ok(f["t"], op, "%s::%s" % (cls.replace("ThermoFun::", ""), f["n"]), "%s:%s" % (rel(r["file"]) if r.get("file") else cls, f.get("l")))
            return
        for m in user:
            f = self.M.fn.get(m["u"])
            if f is None: raise AnalysisError("anchor vanished: no definition of the copy %s of %s" % (op, cls))
            p = f["params"][0]
            if not p.get("ref"):
                self.functions.add(f["f"]); self.class_ok(cls, "ctor"); continue      # by value: the copy has been made, its parts may be taken over
            self.function(f, frozenset([p["d"]]), False)
            if op == "ctor":
                w = {i["n"] for i in f.get("inits") or [] if "n" in i}
                if any(i.get("deleg") for i in f.get("inits") or []): continue

    # ------------------------------------------------------------ functions
    def function(self, f, params, this):
        """follows everything reachable through the tainted parameters; returns whether the result leads into them"""
        k = (f["u"], params, this)
        if k in self.seen: return self.seen[k]
        self.seen[k] = False
        self.functions.add(f["f"])
        a = Flow(self, f, set(params), this)
        for _ in range(3):
            n = len(a.taint); a.run()
            if len(a.taint) == n: break
        self.seen[k] = a.ret
        return a.ret

ASG = {"="}
class Flow:
    def __init__(self, O, f, taint, this):
        self.O = O; self.M = O.M; self.f = f; self.taint = taint; self.this = this; self.ret = False; self.locals = set()
        for b in (f.get("c") or []):
            if b is None: continue
            for n in walk(b):
                if n["k"] == "Var": self.locals.add(n["d"])
        for p in f.get("params", []):
            if not p.get("ref"): self.locals.add(p["d"])
    def where(self, n): return loc(self.f, n)
    def run(self):
        for i in self.f.get("inits") or []:
            for x in i.get("c") or []:
                if x is None: continue
                self.visit(x)
                self.store(x, i.get("n", "base"), x)
        for b in self.f.get("c") or []:
            if b is not None: self.visit(b)
    def store(self, v, name, n):
        """v becomes part of an object that outlives the copy"""
        if self.rooted(v):
            w = pointerish(v.get("t", ""))
            if w: self.O.bad("share:%s:%s" % (self.f["f"].replace("ThermoFun::", ""), name), self.where(n), "%s keeps %s taken from the object being copied: %s" % (name, w, show(v)[:120]))
            elif n["k"] in ("InitListExpr",): pass
    def is_local(self, n):
        while n is not None and n["k"] in ("Member", "ArraySubscriptExpr", "Cast", "ParenExpr") or n is not None and n["k"] == "OpCall" and n["op"] in ("[]",):
            n = kids(n)[0] if kids(n) else None
        return n if n is not None and n["k"] == "Ref" and n.get("d") in self.locals else None
    def rooted(self, n):
        if n is None: return False
        k = n["k"]; c = kids(n)
        if k == "Ref": return n.get("d") in self.taint
        if k == "CXXThisExpr": return self.this
        if k == "Member": return bool(c) and self.rooted(c[0])
        if k in ("Cast", "ParenExpr", "ArraySubscriptExpr", "UnOp", "ExprWithCleanups", "MaterializeTemporaryExpr"): return any(self.rooted(x) for x in c[:1])
        if k == "ConditionalOperator": return self.rooted(c[1]) or self.rooted(c[2])
        if k == "BinOp": return n["op"] == "," and self.rooted(c[1]) or n["op"] in ("+", "-") and any(self.rooted(x) and pointerish(x.get("t", "")) for x in c)
        if k == "OpCall":
            if n["op"] in ("*", "->", "[]"): return bool(c) and self.rooted(c[0])
            if n["op"] == "=": return bool(c) and self.rooted(c[0])
            return False
        if k in ("MCall", "Call"):
            fd = self.M.fn.get(n.get("u"))
            obj = c[0] if k == "MCall" else None; args = c[1:] if k == "MCall" else c
            if fd is not None and fd.get("c"):
                ps = frozenset(p["d"] for p, a in zip(fd["params"], args) if a is not None and self.rooted(a) and (p.get("ref") or pointerish(p["t"])))
                th = obj is not None and self.rooted(obj)
                if not ps and not th: return False
                return self.O.function(fd, ps, th)
            if obj is not None and self.rooted(obj): return True
            if n.get("f") in ("std::move", "std::forward", "std::ref", "std::cref", "std::as_const", "std::addressof", "std::__addressof", "std::get"): return any(self.rooted(a) for a in args if a)
            return any(a is not None and self.rooted(a) and pointerish(a.get("t", "")) for a in args)
        if k in ("Construct", "InitListExpr"):
            if k == "Construct" and n.get("repo") and n.get("ctor") in ("copy", "move"): return False
            return bool(pointerish(n.get("t", ""))) and any(a is not None and self.rooted(a) and pointerish(a.get("t", "")) for a in c)
        if k == "LambdaExpr": return any(x["k"] == "Ref" and x.get("d") in self.taint or x["k"] == "CXXThisExpr" and self.this for x in walk(n))
        return False
    def copies(self, v, n, op):
        """a record value taken out of the object is copied"""
        t = clean(v.get("t", ""))
        if t in self.M.rec and self.rooted(v): self.O.class_ok(t, op)
    def visit(self, n):
        for x in walk(n):
            k = x["k"]; c = kids(x)
            if k == "Var":
                if c and c[0] is not None:
                    v = c[0]
                    isref = x.get("ref") or x.get("t", "").strip().endswith("&")
                    if self.rooted(v) and (isref or pointerish(x.get("t", "")) or pointerish(v.get("t", ""))): self.taint.add(x["d"])
                    elif not isref: self.copies(v, x, "ctor")
            elif k == "CXXForRangeStmt":
                rng = [y for y in c if y is not None]
                # the loop variable of a range of the object refers into it
                for y in rng:
                    if y["k"] != "CompoundStmt" and any(self.rooted(z) for z in walk(y) if z["k"] in ("Ref", "Member", "MCall", "OpCall", "Call")):
                        for z in walk(x):
                            if z["k"] == "Var" and z.get("t", "").strip().endswith(("&", "*")): self.taint.add(z["d"])
                        break
            elif k in ("BinOp", "OpCall") and x.get("op") == "=" and len(c) == 2:
                l, v = c
                if self.rooted(v):
                    loc_ = self.is_local(l)
                    if pointerish(v.get("t", "")) or pointerish(l.get("t", "")):
                        if loc_ is not None: self.taint.add(loc_["d"])
                        elif not self.rooted(l): self.store(v, show(l)[:60], x)
                    else: self.copies(v, x, "assign")
            elif k == "Construct":
                if x.get("ctor") in ("copy", "move") and c and clean(x.get("t", "")) in self.M.rec and c[0] is not None: self.copies(c[0], x, "ctor")
                else:
                    fd = self.M.fn.get(x.get("u"))
                    self.call(x, fd, None, c)
            elif k == "Call": self.call(x, self.M.fn.get(x.get("u")), None, c)
            elif k == "MCall":
                self.call(x, self.M.fn.get(x.get("u")), c[0] if c else None, c[1:])
            elif k == "ReturnStmt":
                if c and c[0] is not None and self.rooted(c[0]):
                    if pointerish(c[0].get("t", "")) or self.f.get("rr") or self.f.get("rt", "").strip().endswith(("&", "*")): self.ret = True
                    else: self.copies(c[0], x, "ctor")
    def call(self, n, fd, obj, args):
        if fd is not None and fd.get("c"):
            ps = frozenset(p["d"] for p, a in zip(fd["params"], args) if a is not None and self.rooted(a) and (p.get("ref") or pointerish(p["t"])))
            if fd.get("implicit") or fd.get("defaulted"): return
            if ps or obj is not None and self.rooted(obj): self.O.function(fd, ps, obj is not None and self.rooted(obj))
            return
        for a in args:
            if a is None or not self.rooted(a): continue
            if pointerish(a.get("t", "")):
                if obj is not None and not n.get("mconst") and not self.rooted(obj):
                    lo = self.is_local(obj)
                    if lo is not None: self.taint.add(lo["d"])
                    else: self.store(a, show(obj)[:60], n)
                elif n.get("fn") in ("swap", "exchange"):
                    for o in args:
                        if o is not None and not self.rooted(o) and self.is_local(o) is None: self.store(a, show(o)[:60], n)
            else: self.copies(a, n, "ctor")

def copy_members(M, cls):
    r = M.record(cls)
    return [m for m in r["methods"] if m.get("ctor") == "copy" or m.get("assign") == "copy"]

def independent(M, c, classes, extra=()):
    O = Own(M)
    for cls in classes:
        M.record(cls)
        for op in ("ctor", "assign"): O.class_ok(cls, op)
    for f, ps in extra: O.function(f, frozenset(ps), False)
    c.analysed.update(O.functions)
    for k, w, t in O.out: c.fail(k, w, t)
    for t in sorted(O.types):
        c.ob(True, "type:" + t, t, "copying %s shares nothing" % t) if not any(t.split("::")[-1] in k for k, _, _ in O.out) else None
    c.need(len(O.types), "types followed", 4)
    c.need(len(O.functions), "copy functions followed", 1)
    return O

DATA = ["ThermoFun::Database", "ThermoFun::Element", "ThermoFun::Substance", "ThermoFun::Reaction"]

def content(M, c, cls, fields=None):
    """after copy construction and assignment every field equals that of the original"""
    r = M.record(cls)
    for m in r["methods"]:
        if not (m.get("user") and not m.get("defaulted") and not m.get("deleted")): continue
        if not (m.get("ctor") == "copy" or m.get("assign") == "copy"): continue
        f = M.fn.get(m["u"])
        if f is None: continue
        I = Interp(M); other = sym("other")
        I.run(f, this=mk("zero", cls) if m.get("ctor") else sym("this"), args=[other])
        th = I.this()
        for fl in r["fields"]:
            if fields and fl["n"] not in fields: continue
            got = I.getf(th, fl["n"]); want = I.getf(other, fl["n"])
            inner = clean(fl["t"]); ta = targs(inner)
            if inner.startswith(("std::shared_ptr", "std::unique_ptr")) and ta and clean(ta[0]) in M.rec:
                # the object pointed to: compared field by field unless it is copied as a whole
                icls = clean(ta[0]); ok = True; why = ""
                got = unpath(got)
                if not same(got, want):
                    for g in M.rec[icls]["fields"]:
                        a, b = I.getf(got, g["n"]), I.getf(want, g["n"])
                        if fields is not None and g["n"] not in fields: continue
                        if not same(a, b): ok = False; why = "%s: %s" % (g["n"], tshow(a)[:200])
                c.ob(ok, "content:%s:%s" % (cls.split("::")[-1], m["n"] if m.get("assign") else "copy"), loc(f), "the copy of a %s has the contents of the original" % cls.split("::")[-1], why)
            else:
                c.ob(same(got, want), "content:%s:%s:%s" % (cls.split("::")[-1], m["n"], fl["n"]), loc(f), "the copy's %s is the original's" % fl["n"], tshow(got)[:300])

def unpath(t):
    return t
def same(a, b):
    if a == b: return True
    if a[0] == "ite": return same(a[2], b) and same(a[3], b) or is_self(a)
    return equal(a, b) is True
def is_self(a): return False

@rule("D07")
def D07(M, c):
    """Ownership analysis of every copy constructor and copy assignment of the data classes, through the types of all members and through helper functions: no pointer,
    reference or closure taken from the original is kept; value-graph comparison of the copy's contents with the original's."""
    independent(M, c, DATA)
    for cls in DATA: content(M, c, cls)

@rule("E01")
def E01(M, c):
    """Ownership analysis of the engine's constructors and assignment: no pointer, reference or closure taken from the other engine or from the caller's database is kept;
    value-graph comparison of the copied settings and database with the original's."""
    E = "ThermoFun::ThermoEngine"
    ext = []
    for f in M.fn.values():
        if f.get("dep") or not f.get("c"): continue
        if f["f"] in (E + "::ThermoEngine",) and f["params"] and f["params"][0].get("ref") and "ThermoEngine" not in f["params"][0]["t"]: ext.append((f, [f["params"][0]["d"]]))
    c.need(len(ext), "constructors from a database")
    independent(M, c, [E, "ThermoFun::Database"], ext)
    I = Interp(M)
    content_engine(M, c, E)

def run_copies(I, n, f, args, obj):
    """copy constructors written out in the engine are followed, not taken as copies"""
    if not str(f).startswith("copy:ThermoFun::ThermoEngine"): return None
    fd = I.M.fn.get(n.get("u"))
    if fd is None or n.get("implicit") or not fd.get("c") or fd.get("defaulted"): return None
    return I.construct(fd, f[5:], kids(n), n)

def content_engine(M, c, E):
    from rules.engine import settings_path
    r = M.record(E); n = 0
    for m in r["methods"]:
        if m.get("ctor") != "copy" and m.get("assign") != "copy": continue
        if m.get("defaulted") or m.get("deleted"): continue
        f = M.fn.get(m["u"])
        if f is None: raise AnalysisError("anchor vanished: definition of the copy of ThermoEngine")
        I = Interp(M, hook=run_copies); other = sym("other")
        I.run(f, this=mk("zero", E) if m.get("ctor") else sym("this"), args=[other], facts=[])
        th = I.this(); n += 1
        for acc in ("database", "preferences", "conventions"):
            g = M.one(E + "::" + acc, lambda f: f.get("const") or acc == "database")
            def read(obj):
                J = Interp(M); v = J.run(g, this=obj); return v
            a, b = strip_self(read(th)), read(other)
            c.ob(same(a, b), "content:%s:%s" % ("assign" if m.get("assign") else "copy", acc), loc(f), "the copied engine's %s is the original's" % acc, tshow(a)[:400])
    c.need(n, "copy operations of the engine", 2)
    # an engine made from a database starts with that database
    for f in M.named(E + "::ThermoEngine"):
        if f["params"] and clean(f["params"][0]["t"]) == "ThermoFun::Database":
            I = Interp(M); I.run(f, this=mk("zero", E), args=[sym("db")])
            J = Interp(M); g = M.one(E + "::database"); v = J.run(g, this=I.this())
            c.ob(v == sym("db"), "content:database", loc(f), "an engine made from a database holds the contents of that database", tshow(v)[:300])

def strip_self(t):
    """the branch for another object of a guarded assignment"""
    while t[0] == "ite":
        k = t[1]
        t = t[3] if "this" in str(k) and "==" in str(k) else t[2] if "!=" in str(k) else t[2]
        if True: break
    return t
