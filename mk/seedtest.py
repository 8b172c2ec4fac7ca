#!/usr/bin/env python3
"""Development tool: confirm planted bugs. seedtest.py [-t] ID...  (-t: also build and run the repository's stable tests)
Works in a private mount namespace with a scratch copy of the repository over /repo."""
import json
import os
import shutil
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def ns(copy, cmd, timeout=900):
    try:
        return sh(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (copy, cmd)], timeout=timeout)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, "timeout")


def main():
    args = sys.argv[1:]
    tests = "-t" in args
    ids = [a for a in args if a != "-t"]
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed") or json.load(open("/opt/vp/BASELINE.json")).get("stable", []))
    for i in ids:
        d = os.path.join(V, "seeded", i)
        meta = json.load(open(d + "/meta.json"))
        work = "/tmp/seedtest_%s_%d" % (i, os.getpid())
        os.makedirs(work)
        copy = work + "/repo"
        sh(["cp", "-a", "/repo", copy])
        shutil.copytree(d, work + "/demo", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        res = []
        try:
            r = ns(copy, "bash %s/demo/demo.sh" % work, 300)
            res.append("demo-clean=%d" % r.returncode)
            if r.returncode:
                print(r.stdout[-1500:])
            r = ns(copy, "git apply %s/patch.diff" % d)
            res.append("apply=%d" % r.returncode)
            if r.returncode:
                print(r.stdout[-1500:])
                continue
            if tests:
                r = ns(copy, "bash /opt/vp/test.sh %s/out.json" % work, 900)
                o = json.load(open(work + "/out.json"))
                missing = base - set(o["passed"])
                res.append("tests-missing=%d" % len(missing))
                if missing:
                    print(sorted(missing)[:8], r.stdout[-1500:] if not o["passed"] else "")
            r = ns(copy, "bash %s/demo/demo.sh" % work, 300)
            res.append("demo-patched=%d" % r.returncode)
            env = dict(os.environ, HSM_REPO=copy)
            props = [meta["property"]] + [a for a in os.environ.get("ALSO", "").split(",") if a]
            for p in props:
                r = sh([sys.executable, V + "/run.py", p], env=env, timeout=900)
                res.append("%s=%d" % (p, r.returncode))
                if r.returncode or "VIOL" in r.stdout:
                    print("   ", "\n    ".join(r.stdout.strip().splitlines()[:3]))
        finally:
            shutil.rmtree(work, ignore_errors=True)
            print(i, meta["property"], *res, flush=True)


main()
