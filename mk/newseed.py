"""Development tool: write /verif/seeded/<id>/ from replacements in /repo's files."""
import difflib
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN = r'''"""Builds demo.cpp with the library sources of the current directory (/repo) in a scratch folder and runs it."""
import glob
import os
import re
import subprocess
import sys
import tempfile
here = os.path.dirname(os.path.abspath(__file__))
repo = os.getcwd()
src = open(os.path.join(here, "demo.cpp")).read()


def opt(name):
    m = re.search(r"^// %s:(.*)$" % name, src, re.M)
    return os.path.expandvars(m.group(1)).split() if m else []


disp = opt("dispatchers") or ["STD"]
flags = ["-std=c++11", "-g", "-O1", "-w", "-DHSMBUILD_DEBUGGING", "-DHSM_ENABLE_SAFE_STRUCTURE", "-DHSM_LOGGING_MODE_OFF", "-DPLATFORM_POSIX=1",
         "-I" + repo + "/include", "-I" + repo + "/src", "-I" + repo + "/_build/include"] + opt("flags")
pk = {"GLib": ["glib-2.0"], "GLibmm": ["glibmm-2.4"]}
libs = ["-lpthread"]
for d in disp:
    for p in pk.get(d, []):
        o = subprocess.run(["pkg-config", "--cflags", "--libs", p], stdout=subprocess.PIPE, text=True).stdout.split()
        flags += [x for x in o if x.startswith("-I")]
        libs += [x for x in o if not x.startswith("-I")]
names = ["hsm", "HsmImpl", "HsmImplTypes", "variant", "logging", "HsmEventDispatcherBase"] + ["HsmEventDispatcher" + d for d in disp]
files = [repo + "/src/" + n + ".cpp" for n in names] + sum((sorted(glob.glob(repo + "/src/os/%s/*.cpp" % d)) for d in ("common", "stl", "posix")), [])
with tempfile.TemporaryDirectory() as t:
    objs, ps = [], []
    for f in files + [here + "/demo.cpp"]:
        o = os.path.join(t, re.sub(r"\W", "_", f) + ".o")
        objs.append(o)
        ps.append(subprocess.Popen(["g++"] + flags + ["-c", f, "-o", o]))
    if any([p.wait() for p in ps]) or subprocess.run(["g++"] + opt("flags") + objs + ["-o", t + "/demo"] + libs).returncode:
        print("demo does not build")
        sys.exit(2)
    env = dict(os.environ, TSAN_OPTIONS="halt_on_error=1:exitcode=66")
    try:
        r = subprocess.run([t + "/demo"], cwd=t, timeout=float((opt("timeout") or ["120"])[0]), env=env)
        rc = r.returncode
    except subprocess.TimeoutExpired:
        rc = 124
    print("demo result:", rc)
    sys.exit(1 if rc else 0)
'''


def newseed(id, prop, reps, demo, needs, breaks):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    byf = {}
    for f, old, new in reps:
        byf.setdefault(f, []).append((old, new))
    out = ""
    for f, l in byf.items():
        a = open("/repo/" + f).read()
        b = a
        for old, new in l:
            assert b.count(old) == 1, (id, f, b.count(old), old)
            b = b.replace(old, new)
        out += "diff --git a/%s b/%s\n" % (f, f)
        for x in difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f):
            out += x if x.endswith("\n") else x + "\n\\ No newline at end of file\n"
    open(d + "/patch.diff", "w").write(out)
    open(d + "/demo.cpp", "w").write(demo)
    open(d + "/run.py", "w").write(RUN)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/run.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
