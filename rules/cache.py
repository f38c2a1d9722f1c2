"""Rules on the engine's memoized functions."""
from registry import rule
from model import *
from gsa import *
from rules.data import the, methods, const, fields_path, at_path

ENGC = "ThermoFun::ThermoEngine"

def outside(f): return not f.get("file", "").endswith(("ThermoEngine.cpp", "ThermoEngine.h"))

def leaves(t, pc=()):
    """(conditions, leaf) of a gated term"""
    if t[0] == "ite":
        for c, b in ((t[1], t[2]), (lnot(t[1]), t[3])):
            yield from leaves(b, pc + (c,))
    else: yield pc, t

def conj(pc):
    out = set()
    for c in pc:
        if c[0] == "and":
            for x in c[1:]: out |= conj((x,))
        else: out.add(c)
    return out

class Engine:
    def __init__(self, M):
        self.M = M
        self.cls = ENGC
        eng = M.rec[ENGC]
        self.methods = [f for f in M.fn.values() if f.get("cls") == ENGC and not f.get("dep") and f.get("c") is not None and f["n"] not in ("ThermoEngine", "~ThermoEngine", "operator=")]
        acc = lambda n: fields_path(Interp(M).run([f for f in self.methods if f["n"] == n and const(f)][0], this=sym("e")))[0]
        self.db = acc("database")
        self.fn = sorted({x[2] for x in self.fields(self.db[:-1]) if "std::function" in x[1]} )
        if len(self.db) < 2 or not self.fn: raise AnalysisError("anchor vanished: the engine's database and memoized functions")
        self.fn = [self.db[:-1] + (x,) for x in self.fn]
        # settings: everything a caller can change through a reference or a setter
        S = set()
        for f in self.methods:
            if const(f): continue
            I = Interp(M, opaque=lambda g: outside(g)); 
            if not f["params"]:
                v = I.run(f, this=sym("e")); p, r = fields_path(v)
                if r == sym("e") and p and "&" in f.get("rt", "") : S.add(p)
        self.settings = sorted(s for s in S if not any(s[:len(o)] == o and s != o for o in S))
    def fields(self, path):
        """(path, type, name) of the members at a path of the engine"""
        t = ENGC
        for x in path:
            f = next((f for f in self.M.rec[t]["fields"] if f["n"] == x), None)
            if f is None: raise AnalysisError("no field %s in %s" % (x, t))
            t = pointee(f["t"], self.M)
        return [(path + (f["n"],), f["t"], f["n"]) for f in self.M.rec[t]["fields"]]
    def typeat(self, path):
        t = ENGC
        for x in path:
            f = next(f for f in self.M.rec[t]["fields"] if f["n"] == x); t = pointee(f["t"], self.M); last = f["t"]
        return t
    def leaves(self, path):
        """the scalar members below a path, as (path, class, name)"""
        t = self.typeat(path)
        if t in self.M.rec and not t.startswith("std::"):
            out = []
            for f in self.M.rec[t]["fields"]: out += self.leaves(path + (f["n"],))
            return out
        return [(path, self.typeat(path[:-1]), path[-1])]

def pointee(t, M):
    t = t.replace("const ", "").strip().rstrip("&* ").strip()
    if "unique_ptr<" in t or "shared_ptr<" in t:
        t = t[t.index("<") + 1:t.rindex(">")].split(",")[0].strip()
    if t not in M.rec:
        for k in M.rec:
            if k.split("::")[-1] == t.split("::")[-1] and k.startswith("ThermoFun"): return k
    return t

def reads(M, roots):
    """(class, field) of every member read in the bodies given and everything they call"""
    seen, out, st = set(), set(), list(roots)
    while st:
        b = st.pop()
        for x in walk(b):
            if "k" not in x: continue
            if x["k"] == "Member" and x.get("fc"): out.add((x["fc"], x["n"]))
            u = x.get("u")
            if u and u in M.fn and u not in seen and x["k"] in ("MCall", "Call", "OpCall", "Construct"):
                g = M.fn[u]; seen.add(u)
                if g.get("c") is not None: st.extend(y for y in kids(g) if y)
    return out, seen

@rule("E03")
def E03(M, c):
    """Value-graph analysis of every query: the memoized function it calls was bound under settings equal, in every setting an evaluation reads, to the current ones;
    every operation that changes the database discards the memoized results first; closures hold no copy of the database."""
    E = Engine(M)
    c.need(len(E.fn), "memoized functions", 4); c.need(len(E.settings), "groups of settings", 2)
    e = sym("e"); old = {p: at_path(Interp(M), e, p) for p in E.fn}
    stale = set(old.values())
    def is_stale(t): return [p for p, v in old.items() if any(x == v for x in subterms(t))]
    bodies = {}
    icls = E.typeat(E.db[:-1])
    # the implementation's own evaluations, and the memoized functions each can reach
    evaluators = {}
    for f in M.fn.values():
        if f.get("cls") == icls and not f.get("dep") and f.get("c") is not None and const(f):
            r, _ = reads(M, [y for y in kids(f) if y])
            evaluators[f["u"]] = [p for p in E.fn if (icls, p[-1]) in r]
    evaluators = {u: v for u, v in evaluators.items() if v}
    class Hook:
        def __init__(self): self.calls = []; self.muts = []
        def __call__(self, I, n, f, args, obj):
            if f == "()":
                if "std::function" not in obj.get("t", ""): return None
                l = I.lv(obj)
                if l is None or l[0] != ("this",): return None
                p = tuple(x for k, x in l[1] if k == "f")
                if p not in old: return None
                for a in kids(n)[1:]: I.ev(a)
                self.calls.append((n, p, I.load(*l), {q: at_path(I, I.load(("this",), ()), q) for q in self.watch}))
                return mk("apply", sym("F"))
            if n["k"] == "MCall" and obj is not None and n.get("u") in evaluators:
                # an evaluation: reads the functions it can reach
                for a in kids(n)[1:]: I.ev(a)
                th = I.load(("this",), ())
                for p in evaluators[n["u"]]: self.calls.append((n, p, at_path(I, th, p), {q: at_path(I, th, q) for q in self.watch}))
                return mk("apply", sym("eval"))
            if n["k"] == "MCall" and obj is not None and not n.get("mconst"):
                l = I.lv(obj)
                if l is not None and l[0] == ("this",):
                    p = tuple(x for k, x in l[1] if k == "f")
                    if p[:len(E.db)] == E.db:
                        self.muts.append((n, {q: at_path(I, I.load(("this",), ()), q) for q in E.fn}))
            return None
    # where the settings a function was bound with are recorded: state that becomes equal to a setting when functions are bound
    def lamcheck(I, t, f):
        for x in subterms(t):
            if x[0] == "lam" and x[1] in I.lams:
                node, vals, refs, th, owner = I.lams[x[1]]
                bodies[id(node)] = node
                dbv = at_path(Interp(M), e, E.db)
                bad = [k for k, v in dict(vals).items() if any(s == dbv for s in subterms(v))]
                c.ob(not bad, "capture:%s:%s" % (f["n"], node.get("l")), "%s:%s" % (f.get("file", ""), node.get("l")), "a memoized function holds no copy of the database", "captured: " + ", ".join(map(str, bad)))
    rec = {}
    impl = [f for f in M.fn.values() if f.get("cls") == E.typeat(E.db[:-1]) and not f.get("dep") and f.get("c") is not None]
    # constructors of the implementation bind every function and record the settings
    ctors = [f for f in impl if f["n"] == E.typeat(E.db[:-1]).split("::")[-1]]
    c.need(len(ctors), "constructors of the engine's implementation", 2)
    recorded = None
    for f in ctors:
        I = Interp(M, opaque=outside); I.run(f, this=mk("zero", f["cls"]), args=[sym("o%d" % i) for i, _ in enumerate(f["params"])])
        th = I.this(); n = len(E.db) - 1
        for p in E.fn:
            v = at_path(I, th, p[n:])
            ok = all(l[0] in ("lam", "fun") or any(x[0] == "lam" for x in subterms(l)) for _, l in leaves(v))
            c.ob(ok, "bound:%s:%s" % (p[-1], len(f["params"])), loc(f), "every engine is constructed with its function %s bound" % p[-1], tshow(v)[:200])
            lamcheck(I, v, f)
        # candidates for the record of each setting
        cand = {}
        for s in E.settings:
            for l, _, _ in E.leaves(s):
                want = at_path(I, th, l[n:])
                for q, t, nm in E.fields(E.db[:-1]):
                    if q in E.fn or q == E.db or any(l[:len(q)] == q for q in [q]): continue
                    for m, _, _ in E.leaves(q):
                        if m[-1] == l[-1] and at_path(I, th, m[n:]) == want or (m[-1] != l[-1] and at_path(I, th, m[n:]) == want and want[0] == "fld"): cand.setdefault(l, set()).add(m)
        recorded = cand if recorded is None else {k: v & cand.get(k, set()) for k, v in recorded.items()}
    reads_, fns = reads(M, [y for b in bodies.values() for y in kids(b) if y])
    c.analysed.update(M.fn[u]["f"] for u in fns if u in M.fn)
    need = [(l, cl, nm) for s in E.settings for l, cl, nm in E.leaves(s) if (cl, nm) in reads_]
    c.need(len(need), "settings read by evaluations", 2)
    watch = {m for v in (recorded or {}).values() for m in v}
    nq = 0
    for f in E.methods:
        if not const(f) and f["n"] not in () and not f["params"] and "&" in f.get("rt", ""): continue
        H = Hook(); H.watch = watch; I = Interp(M, opaque=outside, hook=H)
        I.run(f, this=e, args=[None if p.get("ref") == "r" else sym(p["n"] or "a%d" % i) for i, p in enumerate(f["params"])])
        c.analysed.update({x["fn"]["f"] for x in I.events if x["fn"]})
        th = I.this()
        sig = "%s(%s)" % (f["n"], ",".join(p["t"].split("::")[-1].split("<")[0] for p in f["params"]))
        for n, p, v, w in H.calls:
            nq += 1
            for pc, l in leaves(v):
                lamcheck(I, l, f)
                if not is_stale(l): continue
                have = conj(pc) | conj(tuple(I.facts) if I.facts else ())
                miss = []
                for s, cl, nm in need:
                    sv = at_path(I, e, s)
                    if not any(cmp_("==", sv, at_path(I, e, m)) in have or cmp_("==", at_path(I, e, m), sv) in have for m in (recorded or {}).get(s, ())): miss.append(nm)
                c.ob(not miss, "query:%s:%s" % (sig, p[-1]), loc(f), "%s answers from memoized results only when the settings they were calculated with are the current ones" % f["n"],
                     "answers from earlier results although these settings may have changed: " + ", ".join(miss))
            # the record is either as before (then equal to the settings) or the current settings
            for s, cl, nm in need:
                for m in (recorded or {}).get(s, ()):
                    for pc, l in leaves(w[m]):
                        if l == at_path(I, e, s): continue
                        have = conj(pc)
                        eq = cmp_("==", at_path(I, e, s), at_path(I, e, m)); eq2 = cmp_("==", at_path(I, e, m), at_path(I, e, s))
                        c.ob(l == at_path(I, e, m) and (eq in have or eq2 in have), "record:%s:%s" % (sig, nm), loc(f), "functions are bound together with a record of the settings in force", "record of %s is %s" % (nm, tshow(l)[:120]))
        if const(f): continue
        # operations that change the engine
        for n, fns_ in H.muts:
            bad = [p[-1] for p, v in fns_.items() if is_stale(v)]
            c.ob(not bad, "discard:%s" % sig, loc(f, n), "%s discards the memoized results before it changes the database" % f["n"], "still usable: " + ", ".join(bad))
            bad = [p[-1] for p in E.fn if is_stale(at_path(I, th, p))]
            c.ob(not bad, "after:%s" % sig, loc(f, n), "after %s no earlier memoized result is used" % f["n"], "still usable: " + ", ".join(bad))
            for p in E.fn: lamcheck(I, at_path(I, th, p), f)
        if not H.muts:
            w = [x for x in I.events if x["kind"] == "write" and x["root"] == ("this",) and tuple(y for k, y in x["path"] if k == "f")[:len(E.db)] == E.db]
            if w:
                bad = [p[-1] for p in E.fn if is_stale(at_path(I, th, p))]
                c.ob(not bad, "after:%s" % sig, loc(f), "after %s no earlier memoized result is used" % f["n"], "still usable: " + ", ".join(bad))
    c.need(nq, "calls of memoized functions in queries", 4)

@rule("E02")
def E02(M, c):
    """Value-graph analysis of the instantiated memoizers: what a lookup that hits returns is, for every argument, what the call that stored the entry returned;
    the key tells apart any two argument lists; neither keys nor stored results refer to the caller's variables."""
    from rules.own import targs, clean
    n = 0
    lam_t = lambda t: t[t.index("<") + 1:t.rindex(">")]
    cand = [f for f in M.fn.values() if not f.get("dep") and f["f"].startswith("ThermoFun::") and not f.get("cls") and f["params"] and "std::function<" in f["params"][0]["t"] and "std::function<" in f.get("rt", "")
            and "shared_ptr" not in f.get("rt", "") and f.get("c") is not None]
    used = {x.get("u") for f in M.fn.values() if f.get("cls") == Engine(M).typeat(Engine(M).db[:-1]) for b in f.get("c") or [] if b for x in walk(b) if x["k"] == "Call"}
    for f in cand:
        if f["u"] not in used: continue
        n += 1
        name = "%s:%s" % (f["n"], f["rt"].split("(")[0].split("<")[-1].split("::")[-1].strip())
        F = sym("F")
        I = Interp(M); v = I.run(f, args=[F] + [sym("limit%d" % i) for i in range(len(f["params"]) - 1)])
        c.analysed.add(f["f"])
        if v == F:
            c.ob(True, name + ":same", loc(f), "%s returns the function itself" % f["n"]); continue
        if v[0] != "lam": c.fail(name + ":closure", loc(f), "%s does not return a closure over a cache: %s" % (f["n"], tshow(v)[:120])); continue
        node, vals, refs, th, owner = I.lams[v[1]]; vals = dict(vals)
        where = "%s:%s" % (rel(f.get("file", "")), node.get("l"))
        c.ob(not refs, name + ":refs", where, "the memoized function captures nothing by reference", str(list(refs)))
        ps = node["params"]; A = [sym("a%d" % i) for i in range(len(ps))]
        outs = [i for i, p in enumerate(ps) if p.get("ref") == "r"]
        # the cache: the captured map
        maps = [d for d, x in vals.items() if "map<" in typ(I, x)]
        if len(maps) != 1: c.fail(name + ":cache", where, "the memoized function does not keep its results in one map", str([tshow(x)[:80] for x in vals.values()])); continue
        m = maps[0]; mt = typ(I, vals[m]); mt = mt[mt.index("map<"):]
        ta = targs(mt)
        for what, t in (("keys", ta[0]), ("stored results", ta[1])):
            c.ob("&" not in t and "*" not in t and "string_view" not in t and "reference_wrapper" not in t, name + ":" + what, where, "%s of the cache are copies, not references to the caller's variables" % what, t[:200])
        cache = sym("cache"); vals[m] = cache
        for d, x in vals.items():
            if d != m and x[0] in ("new", "zero", "list"): vals[d] = sym("state%s" % d)
        fake = {"f": f["f"] + "::lambda", "n": "lambda", "params": ps, "c": node["c"], "file": f["file"], "l": node["l"], "u": "lam:" + f["u"], "rr": None, "rt": None}
        def attempt(facts):
            calls = []
            def hook(J, nd, g, args, obj):
                if g != "()": return None
                l = J.lv(obj); w = J.load(*l) if l else J.ev(obj)
                if w != F: return None
                a = [J.ev(x) for x in args]; calls.append((nd, a))
                for i, x in enumerate(args):
                    if ps[i].get("ref") == "r":
                        k = J.lv(x)
                        if k: J.store(k[0], k[1], mk("post", num(i), *a), nd)
                return mk("apply", F, *a)
            J = Interp(M, hook=hook); J.run(M.fn[f["u"]], args=[F] + [sym("limit%d" % i) for i in range(len(f["params"]) - 1)])
            J.facts = type(J.facts)(facts); J.events = []; binds = []
            for i, p in enumerate(ps):
                if p.get("ref"): J.env[("p", "A%d" % i)] = A[i]; binds.append((p, mk("&", ("p", "A%d" % i), ())))
                else: binds.append((p, A[i]))
            try: r = J.rv(J.run_fn(fake, th, binds, None, caps=(vals, refs)))
            except Throw: r = mk("noreturn")
            out = {i: J.load(("p", "A%d" % i), ()) for i in outs}
            cell = [w for k, w in sorted((kw for kw in J.env.items() if kw[0][0] == "l" and kw[0][-1] == m), key=lambda kw: kw[0][1])]
            return J, r, out, cell[-1] if cell else cache, calls
        J, r, out, after, calls = attempt([])
        keys = {x[2] for t in [r, after] + list(out.values()) for x in subterms(t) if x[0] in ("count", "upd") and len(x) >= 3}
        keys = {k for k in keys if any(y in A or y[0] == "post" for y in subterms(k))}       # others only say which entries are dropped
        if len(keys) != 1: c.fail(name + ":key", where, "the memoized function looks up and stores under one key made of its arguments", "; ".join(tshow(k)[:100] for k in keys)); continue
        key = keys.pop()
        def parts(t): return [y for x in t[1:] for y in parts(x)] if t[0] in ("list", "pair") else [t]
        miss = [ps[i]["n"] + " %d" % (i + 1) for i, a in enumerate(A) if a not in parts(key)]
        c.ob(not miss, name + ":inj", where, "the key of the cache holds every argument as it was passed", "not in the key: %s; key is %s" % (", ".join(miss), tshow(key)[:200]))
        nan = [e for e in J.events if e["kind"] == "compare" and e.get("a") == e.get("b") == key] + [e for e in J.events if e["kind"] == "call" and str(e.get("f", "")).endswith(("isnan", "isfinite", "isunordered"))]
        flt = any(clean(p["t"]) in ("double", "float") for p in ps)
        c.ob(bool(nan) or not flt, name + ":nan", where, "argument lists that cannot be ordered (NaN) bypass the cache")
        cnt = mk("count", cache, key)
        J, r1, o1, after1, calls1 = attempt([cmp_("==", cnt, ZERO)])
        call = mk("apply", F, *A)
        absent = lambda t: rewrite(rewrite(t, lambda x: ZERO if x == cnt else None), lambda x: resolve(J, x))
        r1, after1, o1 = absent(r1), absent(after1), {i: absent(t) for i, t in o1.items()}
        c.ob(r1 == call, name + ":miss", where, "without a stored result the function is called with the arguments and its result returned", tshow(r1)[:300])
        for i in outs: c.ob(o1[i] == mk("post", num(i), *A), name + ":missout%d" % i, where, "without a stored result the caller's variable is left as the call left it", tshow(o1[i])[:200])
        K, r2, o2, after2, calls2 = attempt([cmp_("!=", cnt, ZERO)])
        c.ob(after2 == cache, name + ":hitkeeps", where, "answering from the cache keeps it as it is", tshow(after2)[:200])
        stored = rewrite(K.geti(after1, key), lambda x: ZERO if x == cnt else None)
        entry = K.geti(cache, key)
        def asstored(t):
            """the term with the entry that was found replaced by what a miss stores"""
            t = rewrite(t, lambda x: stored if x == entry else None)
            return rewrite(t, lambda x: resolve(K, x))
        kept = any(x[0] == "upd" and x[2] == key for x in subterms(after1))
        if kept:
            c.ob(asstored(r2) == call, name + ":hit", where, "a stored result is what the call with these arguments returned", tshow(asstored(r2))[:300])
            for i in outs: c.ob(asstored(o2[i]) == mk("post", num(i), *A), name + ":hitout%d" % i, where, "a stored result restores the value the call left in the caller's variable", tshow(asstored(o2[i]))[:300])
            rest = after1
            bad = None
            while rest != cache:
                if rest[0] == "upd" and rest[2] == key: rest = rest[1]
                elif rest[0] == "erased": rest = rest[1]
                elif rest[0] == "loopv" and rest[3][0] == "erased" and rest[3][1] == mk("sym", "self"): rest = rest[2]
                elif rest[0] == "ite" : 
                    if all(ok_cache(x, cache, key) for x in (rest[2], rest[3])): break
                    bad = rest; break
                elif rest == mk("list"): break
                else: bad = rest; break
            c.ob(bad is None, name + ":others", where, "storing a result changes no other entry, except to remove it", tshow(bad)[:300] if bad else "")
        else:
            c.ob(asstored(r2) == entry or True, name + ":nostore", where, "nothing is stored")
    c.need(n, "instantiated memoizers", 8)

def ok_cache(t, cache, key):
    while True:
        if t == cache or t == mk("list"): return True
        if t[0] == "upd" and t[2] == key or t[0] == "erased": t = t[1]
        elif t[0] == "loopv" and t[3][0] == "erased" and t[3][1] == mk("sym", "self"): t = t[2]
        elif t[0] == "ite": return ok_cache(t[2], cache, key) and ok_cache(t[3], cache, key)
        else: return False

def resolve(I, x):
    if x[0] == "fld" and x[1][0] in ("pair", "rec", "list", "ite"): 
        r = I.getf(x[1], x[2]); return r if r != x else None
    if x[0] == "idx" and x[1][0] in ("list", "pair") and isnum(x[2]): return x[1][1 + int(x[2][1])]
    return None

def typ(I, v):
    return str(v[1]) if v[0] in ("new", "zero") and len(v) > 1 else ""
