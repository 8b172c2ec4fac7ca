#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough]: decide one property statically from /repo's current sources."""
import argparse
import importlib
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from engine import report, registry                      # noqa: E402
from engine.model import AnalysisBroken, extractor       # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    if a.prop == "setup":
        print(extractor())
        return 0
    if a.prop == "all":
        registry.load_all()
        rc = 0
        for p in sorted(registry.CHECKS):
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os._exit(one(p, a.tier))
            rc |= os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        return rc
    if "," in a.prop:
        rc = 0
        for p in a.prop.split(","):
            r = one(p, a.tier)
            print("RC %s=%d" % (p, r))
            rc |= r
        return rc
    return one(a.prop, a.tier)


def one(prop, tier):
    try:
        registry.load_all()
        chk = registry.CHECKS.get(prop)
        if chk is None:
            print("unknown property", prop, file=sys.stderr)
            return 2
        rep = report.Report(prop, tier, int(os.environ.get("VERIF_SEED", "1")))
        broken = None
        try:
            chk["fn"](rep, tier)
            if not rep.rules:
                broken = "no rule instance was analysed"
        except AnalysisBroken as e:
            broken = str(e)
        rc = report.finish(rep, chk, broken)
        sys.stdout.flush()
        sys.stderr.flush()
        return rc
    except Exception:
        import traceback
        traceback.print_exc()
        return 4


if __name__ == "__main__":
    sys.exit(main())
