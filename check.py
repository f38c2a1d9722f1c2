#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decides one property on /repo's current tree."""
import sys, os, time, json, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tool")); sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
import threading
threading.stack_size(512 * 1024 * 1024)

class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop; self.tier = tier
        self.obligations = 0; self.discharged = 0
        self.violations = []; self.samples = []; self.notes = {}; self.seen = set(); self.assumptions = []
        self.explanation = ""; self.analysed = set()
    def ob(self, ok, key, where, text, detail=""):
        """one obligation: a rule instance at a site"""
        self.obligations += 1
        if ok:
            self.discharged += 1
            if len(self.samples) < 12: self.samples.append("%s: %s: holds" % (where, text))
        elif key not in self.seen:
            self.seen.add(key)
            self.violations.append(dict(key=key, where=where, text=text, detail=detail))
    def fail(self, key, where, text, detail=""): self.ob(False, key, where, text, detail)
    def need(self, n, what, at_least=1):
        """a rule that matches fewer sites than confirmed by hand is broken, not satisfied"""
        from model import AnalysisError
        if n < at_least: raise AnalysisError("rule matched %d %s, expected at least %d" % (n, what, at_least))
        self.notes[what] = n

def known(prop):
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: property=%s " % prop):
                rest = l.split("key=", 1)[1].rstrip("\n")
                k, _, d = rest.partition(" :: ")
                out[k.strip()] = d.strip()
    return out

def main():
    prop = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    import model, registry
    c = Ctx(prop, tier)
    ed = os.path.join(HERE, "evidence"); os.makedirs(ed, exist_ok=True)
    try:
        M = model.Model()
        registry.RULES[prop](M, c)
        if c.obligations == 0: raise model.AnalysisError("no obligation was generated")
    except model.AnalysisError as e:
        print("ANALYSIS-ERROR property=%s %s" % (prop, e)); return 3
    except Exception:
        traceback.print_exc(); print("ANALYSIS-ERROR property=%s internal error" % prop); return 3
    kn = known(prop)
    new = [v for v in c.violations if v["key"] not in kn]
    for v in c.violations:
        if v["key"] in kn: print("KNOWN-FINDING: property=%s %s at %s: %s" % (prop, v["key"], v["where"], kn[v["key"]]))
    cov = dict(explanation=c.explanation or registry.RULES[prop].__doc__ or "static rule", obligations=c.obligations, discharged=c.discharged,
               functions_analysed=len(c.analysed), translation_units=len(M.tus), functions_in_model=len(M.fn), samples=c.samples, rule_instances=c.notes)
    if c.analysed: cov["functions"] = sorted(c.analysed)[:200]
    ev = dict(property=prop, tier="thorough" if tier == "thorough" else "quick", seed=int(os.environ.get("VERIF_SEED", "1")), level="other", coverage=cov,
              assumptions=c.assumptions + registry.ASSUME, wall_s=round(time.time() - t0, 2), violations=len(new))
    tmp = os.path.join(ed, prop + ".json.tmp"); json.dump(ev, open(tmp, "w"), indent=1); os.replace(tmp, os.path.join(ed, prop + ".json"))
    for i, v in enumerate(new):
        rp = os.path.join(ed, "%s.violation-%d.txt" % (prop, i + 1))
        open(rp, "w").write("property %s\nrule instance: %s\nat: %s\n%s\n%s\n" % (prop, v["key"], v["where"], v["text"], v["detail"]))
        print("  %s: %s [%s]" % (v["where"], v["text"], v["key"]))
        if v["detail"]: print("    " + v["detail"][:600].replace("\n", "\n    "))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    print("%s: %d obligations, %d discharged, %d known, %d new, %.1fs" % (prop, c.obligations, c.discharged, len(c.violations) - len(new), len(new), time.time() - t0))
    return 1 if new else 0

if __name__ == "__main__":
    rc = []
    def run():
        try: rc.append(main())
        except SystemExit as e: rc.append(e.code or 0)
    t = threading.Thread(target=run); t.start(); t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 3)
