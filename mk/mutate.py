#!/usr/bin/env python3
"""Development tool: mutants that must be reported and refactorings that must not be.
mutate.py [-p PROPS] [-r] [NAME...]   -r: refactorings (all properties must stay quiet)"""
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "mk"))
sys.dont_write_bytecode = True


def one(job):
    name, props, edits, syntax = job
    d = "/tmp/mut_%s_%d" % (name, os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        for s in ("src", "include", "tools", "CMakeLists.txt"):
            if os.path.isdir("/repo/" + s):
                shutil.copytree("/repo/" + s, d + "/" + s)
            elif os.path.exists("/repo/" + s):
                shutil.copy("/repo/" + s, d + "/" + s)
        for f, old, new in edits:
            p = d + "/" + f
            t = open(p).read()
            if t.count(old) < 1:
                return name, ["EDIT-NOT-FOUND %r" % old[:60]], {}
            t = t.replace(old, new, 1)
            open(p, "w").write(t)
        res, out = [], {}
        if len(props) > 1:
            r = subprocess.run([sys.executable, V + "/run.py", ",".join(props)], env=dict(os.environ, HSM_REPO=d), capture_output=True, text=True)
            cur = ""
            got = {}
            for ln in (r.stdout + "\n").splitlines():
                if ln.startswith("RC "):
                    p, rc = ln[3:].split("=")
                    got[p] = (int(rc), cur[-2500:])
                    cur = ""
                else:
                    cur += ln + "\n"
            for pr in props:
                rc, txt = got.get(pr, (9, r.stderr[-1500:]))
                res.append("%s=%d" % (pr, rc))
                out[pr] = (rc, txt)
        else:
          for pr in props:
            r = subprocess.run([sys.executable, V + "/run.py", pr], env=dict(os.environ, HSM_REPO=d), capture_output=True, text=True)
            res.append("%s=%d" % (pr, r.returncode))
            out[pr] = (r.returncode, (r.stdout + r.stderr)[-2500:])
        if syntax and all(e[0].startswith(("src", "include")) for e in edits):
            fl = subprocess.run(["pkg-config", "--cflags", "glib-2.0", "glibmm-2.4", "Qt5Core"], capture_output=True, text=True).stdout.split()
            for f, _, _ in edits:
                if f.endswith(".cpp"):
                    r = subprocess.run(["g++", "-std=c++11", "-fPIC", "-fsyntax-only", "-w", "-DPLATFORM_POSIX=1", "-DHSMBUILD_DEBUGGING", "-DHSM_ENABLE_SAFE_STRUCTURE",
                                        "-DHSM_LOGGING_MODE_OFF", "-I" + d + "/include", "-I" + d + "/src", d + "/" + f] + fl, capture_output=True, text=True)
                    if r.returncode:
                        res.append("DOES-NOT-COMPILE " + r.stderr[:300])
        return name, res, out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    import mutants
    from engine import registry
    a = sys.argv[1:]
    only = None
    refac = "-r" in a
    verbose = "-v" in a
    a = [x for x in a if x not in ("-r", "-v")]
    if "-p" in a:
        i = a.index("-p")
        only = a[i + 1].split(",")
        del a[i:i + 2]
    jobs = []
    if refac:
        registry.load_all()
        allp = sorted(registry.CHECKS)
        for n, e in mutants.R.items():
            if not a or n in a:
                jobs.append((n, only or allp, e, True))
    else:
        for n, (ps, e) in mutants.M.items():
            ps = ps.split(",")
            if (not a or n in a) and (not only or set(ps) & set(only)):
                jobs.append((n, ps if not only else [p for p in ps if p in only], e, True))
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        for name, res, out in ex.map(one, jobs):
            if refac:
                ok = all(v[0] == 0 for v in out.values()) and not any("NOT" in r for r in res)
            else:
                ok = any(v[0] == 1 for v in out.values()) and not any("NOT" in r for r in res)
            bad += not ok
            print("%-5s %-34s %s" % ("ok" if ok else "BAD", name, " ".join(r for r in res if not refac or not r.endswith("=0"))), flush=True)
            if not ok or verbose:
                for p, (rc, t) in out.items():
                    if verbose or (rc not in (0,) if refac else True):
                        print("      [%s] %s" % (p, t[-900:].replace("\n", "\n        ")))
    print("%d jobs, %d bad" % (len(jobs), bad))


sys.path.insert(0, V)
main()
