#!/usr/bin/env python3
import json
import os
import sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "mk"))
from engine import registry  # noqa
import props  # noqa
registry.load_all()
ids = [p["id"] for p in props.P]
assert len(ids) == len(set(ids))
missing = [i for i in registry.CHECKS if i not in ids]
assert not missing, missing
checks, na = [], []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(props.P, key=lambda p: p["id"]):
        d = {k: v for k, v in p.items() if not k.startswith("_")}
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
        if p["_na"]:
            assert p["id"] not in registry.CHECKS, p["id"]
            na.append({"property": p["id"], "reason": p["_na"]})
            continue
        c = registry.CHECKS[p["id"]]
        checks.append({"property": p["id"], "quick_cmd": "python3 run.py %s --tier quick" % p["id"],
                       "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": c["technique"], "level": "other",
                       "level_note": (c["note"] or "Static rule decided on the current sources: " + c["explanation"])[:900]
                       + " Assumes: " + "; ".join(c["assumptions"] or ["clang 18 parses the sources as the build does"]) + "."})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "hooks": {"guard": "", "enable": "no hooks: the checks read the sources as they are", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "All checks are static analyses of /repo's current sources (clang-based extractor + Python analyses in /verif/engine, rules in /verif/checks). "
              "Genuine defects found are repaired by fix: commits in /repo and recorded in known-findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
