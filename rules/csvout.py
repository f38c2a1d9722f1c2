"""Rule on the tables OutputToCSV appends to."""
from registry import rule
from model import *
from gsa import *
from rules.data import methods
from rules.batch import item, text, show

C = "ThermoFun::OutputToCSV"
COLS = {"ThermoPropertiesSubstance": ("tps", dict(G0="gibbs_energy", H0="enthalpy", S0="entropy", Cp0="heat_capacity_cp", Cv0="heat_capacity_cv", V0="volume", A0="helmholtz_energy", U0="internal_energy")),
        "PropertiesSolvent": ("ps", dict(Rho="density", Rho_dT="densityT", Rho_dP="densityP", Rho_d2T="densityTT", Rho_dTdP="densityTP", Rho_d2P="densityPP", Aplha="Alpha", Alpha="Alpha", Alpha_dT="dAldT", Beta="Beta")),
        "ElectroPropertiesSolvent": ("eps", dict(bornN="bornN", bornQ="bornQ", bornU="bornU", bornX="bornX", bornY="bornY", bornZ="bornZ", eps="epsilon", eps_dP="epsilonP", eps_d2P="epsilonPP", eps_dT="epsilonT", eps_dTdP="epsilonTP", eps_d2T="epsilonTT"))}

@rule("B04")
def B04(M, c):
    """The text each call of OutputToCSV adds to its file, over the sequence open, write, write, close, open, write."""
    ctor = [f for f in methods(M, C + "::OutputToCSV") if len(f["params"]) == 1 and "string" in f["params"][0]["t"]]
    if len(ctor) != 1: raise AnalysisError("anchor vanished: OutputToCSV(path)")
    I = Interp(M); I.run(ctor[0], this=mk("zero", C), args=[mk("str", "out/dir/data.json")]); this0 = I.this()
    n = 0
    for kind, (par, cols) in COLS.items():
        op, wr, cl = (M.one("%s::%s%s%s" % (C, a, kind, b)) for a, b in (("open", "File"), ("write", ""), ("close", "File")))
        c.analysed.update(f["f"] for f in (op, wr, cl))
        w = loc(wr); state = [this0]
        def call(f, args):
            I = Interp(M, hook=lambda I, n, f, a, o: TRUE if f.endswith("::is_open") else None); I.run(f, this=state[0], args=args); state[0] = I.this()
            out = []; opened = []; st = dict(prec=num(6), mode="general")
            for e in I.events:
                if e["kind"] != "call" or not e.get("args") and not e.get("obj"): continue
                a = e.get("args") or []
                if e["f"].endswith("operator<<"):
                    if any(p != TRUE for p in e["pc"]): out.append(("?", mk("list", *e["pc"])))
                    if not any(x == ("str", "out/dir/" + name[0]) for x in subterms(a[0])): out.append(("?", mk("str", "written to another file")))
                    for x in a[1:]: out += item(x, st)
                if e["f"].endswith("::open"): opened.append(a)
            return text(out), opened
        def row(sub, T, P):
            v = sym(par); return call(wr, [mk("str", sub), sym(T), sym(P), v])[0]
        name = ["a.csv"]; _, o = call(op, [mk("str", "a.csv")])
        c.ob(len(o) == 1 and any(x == mk("str", "out/dir/a.csv") for x in o[0]), "%s:path" % kind, loc(op), "the file is opened in the output folder", str([[tshow(x)[:80] for x in a] for a in o]))
        first = row("s1", "T1", "P1"); second = row("s2", "T2", "P2")
        call(cl, []); name[0] = "b.csv"; call(op, [mk("str", "b.csv")]); third = row("s1", "T1", "P1")
        head = first[0].split("\n")[0] if first and isinstance(first[0], str) else ""
        names = [x.split("(")[0].strip() for x in split(head)]
        body = ([first[0][len(head) + 1:]] + first[1:]) if head else first
        c.ob(names[:3] == ["Substance", "T", "P"] and sorted(names[3:]) == sorted(set(names[3:])) and all(x in cols for x in names[3:]) and len({cols[x] for x in names[3:] if x in cols}) == len(set(cols.values())), "%s:header" % kind, w, "the first row of a file names the columns, each once", head)
        def want(sub, T, P):
            r = [sub + ",", ("v", sym(T)), ",", ("v", sym(P))]
            for x in names[3:]: r += [",", ("v", mk("f", x))]
            return r
        def check(got, sub, T, P, key, what):
            I = Interp(M); vals = [p for p in got if not isinstance(p, str)]; txt = "|".join(p if isinstance(p, str) else "@" for p in got).replace("|", "")
            exp = sub + "," + ",".join(["@"] * (2 + len(names[3:]))) + "\n"
            fields = [sym(T), sym(P)] + [I.getf(I.getf(sym(par), cols[x]), "val") if x in cols else None for x in names[3:]]
            ok = txt == exp and len(vals) == len(fields) and all(v[0] == "num" and (v[1] == f or v[1] == I.getf(sym(par), cols.get(nm, ""))) for v, f, nm in zip(vals, fields, ["T", "P"] + names[3:]))
            wrong = [nm for v, f, nm in zip(vals, fields, ["T", "P"] + names[3:]) if not (v[0] == "num" and (v[1] == f or v[1] == I.getf(sym(par), cols.get(nm, ""))))]
            c.ob(ok, "%s:%s" % (kind, key), w, what, "columns %d, values %d; beside the wrong name: %s; %s" % (2 + len(names[3:]), len(vals), wrong[:4], show(got)[:400]))
        check(body, "s1", "T1", "P1", "row", "each value is written below its name")
        check(second, "s2", "T2", "P2", "second", "later rows are written without another header, each value below its name")
        c.ob(third == first, "%s:reopened" % kind, w, "a file opened after another was closed begins with the header again", show(third)[:200]); n += 1
    c.need(n, "tables", 3)
    c.explanation = "Opening, writing to and closing each of the three tables of OutputToCSV is evaluated in sequence; the pieces written are rendered and each value compared with the name of its column."

def split(s):
    """the cells of a header; commas inside parentheses do not separate"""
    return s.split(",")
