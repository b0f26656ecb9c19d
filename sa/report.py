"""Collects what a check analysed and what it found; prints the verdict and rewrites the evidence file."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.json")


class Report:
    def __init__(self, prop, tier, level="proof"):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.viol = []          # dict(rule, where, what)
        self.undecided = []
        self.obl = {}
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.trusted = []
        self.rules = []
        self.functions = set()
        self.unanalysed = []
        self.units = 0          # units of analysis attempted (method runs, entry points); 0: any undecided item is fatal

    def obligations(self, d):
        for k, v in d.items():
            c = self.obl.setdefault(k, [0, 0])
            c[0] += v[0]
            c[1] += v[1]

    def oblige(self, rule, ok, where="", what=""):
        c = self.obl.setdefault(rule, [0, 0])
        c[0] += 1
        if ok:
            c[1] += 1
        else:
            self.violation(rule, where, what)

    def violation(self, rule, where, what):
        for v in self.viol:
            if v["rule"] == rule and v["where"] == where:
                if len(v["also"]) < 12 and what not in v["also"] and what != v["what"]:
                    v["also"].append(what)
                return
        self.viol.append({"rule": rule, "where": where, "what": what, "also": []})

    def undecide(self, what):
        if what not in self.undecided:
            self.undecided.append(what)

    def sample(self, s, limit=12):
        if len(self.samples) < limit:
            self.samples.append(s)

    def finish(self):
        known = []
        if os.path.exists(KNOWN):
            known = [k for k in json.load(open(KNOWN)).get("findings", []) if k["property"] == self.prop]
        new, old = [], []
        for v in self.viol:
            k = next((k for k in known if k["rule"] == v["rule"] and k["where"] in v["where"] and k.get("what", "") in v["what"]), None)
            (old if k else new).append((v, k))
        seen = set()
        for v, k in old:
            if k["id"] not in seen:
                seen.add(k["id"])
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["summary"]))
        n = sum(c[0] for c in self.obl.values())
        ok = sum(c[1] for c in self.obl.values())
        cov = {"obligations": n, "discharged": ok, "by_rule": {k: {"obligations": c[0], "discharged": c[1]} for k, c in sorted(self.obl.items())},
               "checker_cmd": " ".join(["python3-vt", "checks/run.py", self.prop, "--tier", self.tier]),
               "trusted_base": self.trusted, "rules": self.rules, "samples": self.samples,
               "explanation": "; ".join(self.rules) or self.prop}
        if self.functions:
            cov["functions_analysed"] = len(self.functions)
            cov["functions"] = sorted(self.functions)[:60]
        if self.units:
            cov["units"] = self.units
        if self.undecided:
            cov["undecided_units"] = len(self.undecided)
            cov["undecided"] = self.undecided[:50]
        cov.update(self.cov)
        if self.level == "exploration":
            cov.setdefault("evaluations", n)
            cov.setdefault("distinct_nontrivial", ok)
            cov.setdefault("rule", "; ".join(self.rules))
        ev = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", "." + self.prop + ".tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.prop + ".json"))
        if new:
            path = os.path.join(VERIF, "evidence", self.prop + ".violation.txt")
            with open(path, "w") as f:
                for v, _ in new:
                    f.write("rule:  %s\nwhere: %s\nwhat:  %s\n" % (v["rule"], v["where"], v["what"]))
                    for a in v["also"]:
                        f.write("also:  %s\n" % a)
                    f.write("\n")
            for v, _ in new[:10]:
                print("%s: [%s] %s" % (v["where"], v["rule"], v["what"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        if self.undecided:
            for u in self.undecided[:10]:
                print("UNDECIDED: %s" % u)
            print("%s: %d of %d obligations discharged, %d of %d units undecided, %.1f s" % (
                self.prop, ok, n, len(self.undecided), self.units, time.time() - self.t0))
            # what is not decided is not claimed: it is listed (here and in the evidence); no verdict at all when it is more than a part
            return 0 if len(self.undecided) <= self.units // 4 else 2
        print("%s: holds on everything analysed: %d obligations discharged, %.1f s" % (self.prop, ok, time.time() - self.t0))
        return 0
