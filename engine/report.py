"""Verdict plumbing: obligations, violations, known findings, evidence."""
import json
import os
import sys
import time
from .model import VERIF, AnalysisBroken

FINDINGS = os.path.join(VERIF, "known-findings.txt")


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.violations = []
        self.rules = {}          # rule -> [obligations, discharged]
        self.samples = []
        self.notes = []
        self.assume = []
        self.stats = {}
        self._keys = set()

    def ob(self, rule, ok=True, n=1, sample=None):
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += n
        if ok:
            r[1] += n
        if sample is not None and sum(1 for s in self.samples if s.startswith(rule + ":")) < 4:
            self.samples.append("%s: %s" % (rule, sample))

    def violate(self, rule, key, loc, msg, path=None):
        """key identifies the construct (no line numbers)"""
        k = rule + " " + key
        self.ob(rule, False)
        if k in self._keys:
            return
        self._keys.add(k)
        self.violations.append({"rule": rule, "key": k, "loc": loc, "msg": msg, "path": list(path or [])[:40]})

    def check(self, cond, rule, key, loc, msg, path=None, sample=None):
        if cond:
            self.ob(rule, True, sample=sample)
        else:
            self.violate(rule, key, loc, msg, path)
        return cond

    def stat(self, name, n):
        self.stats[name] = n

    def floor(self, rule, minimum, what):
        n = self.rules.get(rule, [0, 0])[0]
        if n < minimum:
            raise AnalysisBroken("rule %s matched %d instances, expected at least %d (%s)" % (rule, n, minimum, what))


def findings(prop):
    r = {}
    if os.path.exists(FINDINGS):
        for ln in open(FINDINGS):
            ln = ln.strip()
            if ln.startswith("finding:"):
                d = ln[len("finding:"):].strip()
                p, rest = d.split(None, 1)
                if p == "property=" + prop:
                    key, _, what = rest.partition(" :: ")
                    assert key.startswith("key=")
                    r[key[4:].strip()] = what.strip()
    return r


def finish(rep, meta, broken=None):
    known = findings(rep.prop)
    new = [v for v in rep.violations if v["key"] not in known]
    old = [v for v in rep.violations if v["key"] in known]
    for v in old:
        print("KNOWN-FINDING: property=%s %s [%s at %s]" % (rep.prop, known[v["key"]] or v["msg"], v["key"], v["loc"]))
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    obl = sum(r[0] for r in rep.rules.values())
    dis = sum(r[1] for r in rep.rules.values())
    cov = {"explanation": meta["explanation"], "obligations": obl, "discharged": dis,
           "rules": {k: {"obligations": v[0], "discharged": v[1]} for k, v in sorted(rep.rules.items())},
           "samples": rep.samples[:40], "notes": rep.notes}
    cov.update(rep.stats)
    doc = {"property": rep.prop, "tier": rep.tier, "seed": rep.seed, "level": "other", "coverage": cov,
           "assumptions": meta.get("assumptions", []) + rep.assume, "wall_s": round(time.time() - rep.t0, 3),
           "violations": len(new)}
    if old:
        doc["coverage"]["known_findings"] = [v["key"] for v in old]
    if broken:
        doc["coverage"]["analysis_broken"] = broken
    json.dump(doc, open(os.path.join(ev, rep.prop + ".json"), "w"), indent=1)
    if new:
        rp = os.path.join(ev, rep.prop + ".violation.txt")
        with open(rp, "w") as f:
            for v in new:
                f.write("property %s, rule %s\n  at %s\n  %s\n  construct: %s\n" % (rep.prop, v["rule"], v["loc"], v["msg"], v["key"]))
                for p in v["path"]:
                    f.write("    %s\n" % (p,))
                f.write("\n")
        for v in new[:10]:
            print("%s: %s: %s: %s" % (v["loc"], rep.prop, v["rule"], v["msg"]))
            for p in v["path"][:12]:
                print("      %s" % (p,))
        print("VIOLATION property=%s replay=%s" % (rep.prop, rp))
        return 1
    if broken:
        print("ANALYSIS BROKEN property=%s: %s" % (rep.prop, broken), file=sys.stderr)
        return 3
    print("OK property=%s obligations=%d discharged=%d known=%d wall=%.1fs" % (rep.prop, obl, dis, len(old), time.time() - rep.t0))
    return 0
