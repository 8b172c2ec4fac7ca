"""Program model: builds the extractor, runs it over /repo's current sources, loads the facts."""
import hashlib
import json
import os
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HSM_REPO", "/repo")
LLVM = "/usr/lib/llvm-18"


class AnalysisBroken(Exception):
    """The analysis cannot decide (anchor vanished, source does not parse, ...)."""


def _cache_dir():
    for d in (os.path.join(VERIF, "build"), os.path.join(tempfile.gettempdir(), "hsmfacts.%d" % os.getuid())):
        try:
            os.makedirs(d, exist_ok=True)
            t = os.path.join(d, ".w%d" % os.getpid())
            open(t, "w").close()
            os.unlink(t)
            return d
        except OSError:
            continue
    raise AnalysisBroken("no writable cache directory")


def extractor():
    src = os.path.join(VERIF, "engine", "hsmfacts.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    d = _cache_dir()
    out = os.path.join(d, "hsmfacts-" + h)
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        cmd = ["clang++", "-std=c++17", "-O1", "-fno-rtti", "-I" + LLVM + "/include", src, "-o", tmp,
               "-L" + LLVM + "/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisBroken("extractor build failed: " + r.stderr[-2000:])
        os.replace(tmp, out)
    return out


def _pkg(*names):
    r = subprocess.run(["pkg-config", "--cflags"] + list(names), capture_output=True, text=True)
    return r.stdout.split() if r.returncode == 0 else []


BASE_FLAGS = ["-std=c++11", "-w", "-fPIC", "-resource-dir", LLVM + "/lib/clang/18"]


def config_flags(name):
    """A configuration = preprocessor view of the library that a user can build."""
    inc = ["-I" + REPO + "/include", "-I" + REPO + "/src"]
    posix = ["-DPLATFORM_POSIX=1"]
    std = ["-DHSMBUILD_DEBUGGING", "-DHSM_ENABLE_SAFE_STRUCTURE"]
    ui = _pkg("glib-2.0", "glibmm-2.4", "Qt5Core")
    if name == "posix":          # what build.sh builds
        return BASE_FLAGS + inc + posix + std + ["-DHSM_LOGGING_MODE_OFF"] + ui
    if name == "posix-trace":    # same with debug traces compiled in
        return BASE_FLAGS + inc + posix + std + ["-DHSM_LOGGING_MODE_STRICT_VERBOSE"] + ui
    if name == "posix-min":      # release flavour: no debugging, no structure checks
        return BASE_FLAGS + inc + posix + ["-DHSM_LOGGING_MODE_OFF"] + ui
    if name == "freertos":
        return BASE_FLAGS + ["-I" + VERIF + "/stubs/freertos"] + inc + ["-DPLATFORM_FREERTOS=1", "-DFREERTOS_AVAILABLE=1", "-DHSM_LOGGING_MODE_OFF", "-DSTL_AVAILABLE=0"]
    if name == "arduino":
        return BASE_FLAGS + ["-I" + VERIF + "/stubs/arduino"] + inc + ["-DPLATFORM_ARDUINO=1", "-DHSM_LOGGING_MODE_OFF"]
    raise AnalysisBroken("unknown configuration " + name)


def config_files(name):
    s = os.path.join(REPO, "src")

    def lst(d):
        d = os.path.join(s, d)
        return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".cpp")] if os.path.isdir(d) else []
    disp = {"posix": ("STD", "GLib", "GLibmm", "Qt")}.get(name.split("-")[0], None)
    if disp is None:
        disp = {"freertos": ("FreeRTOS",), "arduino": ("Arduino",)}[name]
    res = []
    for f in lst("."):
        b = os.path.basename(f)
        if b.startswith("HsmEventDispatcher") and b != "HsmEventDispatcherBase.cpp":
            known = ("STD", "GLib", "GLibmm", "Qt", "FreeRTOS", "Arduino")
            kind = b[len("HsmEventDispatcher"):-4]
            if kind in known and kind not in disp:
                continue
        res.append(f)
    for d in {"posix": ("os/common", "os/stl", "os/posix"), "freertos": ("os/common", "os/freertos"),
              "arduino": ("os/common", "os/arduino")}[name.split("-")[0]]:
        res += lst(d)
    res = [os.path.normpath(x) for x in res]
    extra = os.path.join(VERIF, "stubs", "instantiate.cpp")
    if name.startswith("posix") and os.path.exists(extra):
        res.append(extra)
    return res


class Fn:
    __slots__ = ("key", "name", "qname", "cls", "kind", "file", "line", "endline", "ret", "params", "nodes", "blocks",
                 "entry", "exit", "access", "virtual", "static", "const", "overrides", "parentFn", "noexcept",
                 "implicit", "defaulted", "tu", "parents", "roots", "ctor_target", "copyctor", "movector", "_extra")

    def __init__(self, d, tu):
        self.key = d["key"]
        self.name = d["name"]
        self.qname = d["qname"]
        self.cls = d.get("cls")
        self.kind = d["kind"]
        self.file = d["file"]
        self.line = d["line"]
        self.endline = d.get("endline", d["line"])
        self.ret = d["ret"]
        self.params = d["params"]
        self.nodes = d.get("nodes", [])
        self.blocks = {b["id"]: b for b in d.get("blocks", [])}
        self.entry = d.get("entry")
        self.exit = d.get("exit")
        self.access = d.get("access")
        self.virtual = d.get("virtual", False)
        self.static = d.get("static", False)
        self.const = d.get("const", False)
        self.overrides = d.get("overrides", [])
        self.parentFn = d.get("parentFn")
        self.noexcept = d.get("noexcept", False)
        self.implicit = d.get("implicit", False)
        self.defaulted = d.get("defaulted", False)
        self.copyctor = d.get("copyctor", False)
        self.movector = d.get("movector", False)
        self.tu = tu
        self._extra = {}
        self._index()

    def kids(self, i):
        n = self.nodes[i]
        k = n["k"]
        r = []
        if k == "Call":
            if "obj" in n:
                r.append((n["obj"], "obj"))
            if "callee" in n:
                r.append((n["callee"], "callee"))
            for j, a in enumerate(n["args"]):
                r.append((a, "arg%d" % j))
        elif k == "Construct":
            for j, a in enumerate(n["args"]):
                r.append((a, "arg%d" % j))
        elif k == "Field" or k == "Method":
            r.append((n["base"], "base"))
        elif k == "Decl":
            for v in n["vars"]:
                if v["init"] >= 0:
                    r.append((v["init"], "declinit"))
        elif k == "New":
            if n["init"] >= 0:
                r.append((n["init"], "newinit"))
        elif k == "Lambda":
            for c in n["caps"]:
                if c.get("init", -1) >= 0:
                    r.append((c["init"], "capinit"))
        elif "c" in n:
            for j, a in enumerate(n["c"]):
                r.append((a, "c%d" % j))
        return [(a, b) for a, b in r if a is not None and a >= 0]

    def _index(self):
        self.parents = {}
        self.ctor_target = {}
        for i, n in enumerate(self.nodes):
            for ch, role in (self.kids(i) if n["k"] != "Method" else ()):
                self.parents.setdefault(ch, (i, role))
            if n["k"] == "Decl":
                for v in n["vars"]:
                    if v["init"] >= 0 and not v["isref"]:
                        self.ctor_target[v["init"]] = v["id"]
        self.roots = {}
        for i in range(len(self.nodes)):
            j = i
            while j in self.parents:
                j = self.parents[j][0]
            self.roots[i] = j

    def loc(self, node=None):
        f = self.file
        if f.startswith(REPO + "/"):
            f = f[len(REPO) + 1:]
        ln = self.nodes[node]["line"] if node is not None and 0 <= node < len(self.nodes) else self.line
        return "%s:%d" % (f, ln)

    def short(self):
        q = self.qname.replace("hsmcpp::", "").replace("HierarchicalStateMachine::Impl", "Impl")
        if self.kind == "lambda":
            return "lambda@" + self.loc()
        return q

    def __repr__(self):
        return "<Fn %s>" % self.key


class Program:
    def __init__(self, tus, config):
        self.config = config
        self.fns = {}
        self.classes = {}
        self.enums = {}
        self.globals = {}
        for tu, d in tus:
            for f in d["functions"]:
                if f["key"] not in self.fns:
                    self.fns[f["key"]] = Fn(f, tu)
            for c in d["classes"]:
                self.classes.setdefault(c["name"], c)
            for e in d["enums"]:
                self.enums.setdefault(e["name"], e)
            for g in d["globals"]:
                self.globals.setdefault(g["name"], g)
        self.derived = {}
        for c in self.classes.values():
            for b in c["bases"]:
                self.derived.setdefault(b, set()).add(c["name"])
        self.overriders = {}
        for c in self.classes.values():
            for m in c["methods"]:
                for o in m["overrides"]:
                    self.overriders.setdefault(o, set()).add(m["key"])
        self.by_qname = {}
        for f in self.fns.values():
            self.by_qname.setdefault(f.qname, []).append(f)
        self.by_cls = {}
        for f in self.fns.values():
            if f.cls:
                self.by_cls.setdefault(f.cls, []).append(f)
        self.method_decl = {}
        for c in self.classes.values():
            for m in c["methods"]:
                self.method_decl[m["key"]] = (c, m)

    # ---- hierarchy
    def subclasses(self, c):
        r, todo = set(), [c]
        while todo:
            x = todo.pop()
            for y in self.derived.get(x, ()):
                if y not in r:
                    r.add(y)
                    todo.append(y)
        return r

    def superclasses(self, c):
        r, todo = [], [c]
        while todo:
            x = todo.pop(0)
            for b in self.classes.get(x, {}).get("bases", ()):
                if b not in r:
                    r.append(b)
                    todo.append(b)
        return r

    def concrete_dispatchers(self):
        return sorted(c for c in self.subclasses("hsmcpp::IHsmEventDispatcher") if not self.classes[c]["abstract"])

    def final_overrider(self, key, cls):
        """method key as declared somewhere; returns key of final overrider in class cls (or None)."""
        chain = [cls] + self.superclasses(cls)
        cand = {key}
        todo = [key]
        while todo:
            k = todo.pop()
            for o in self.overriders.get(k, ()):
                if o not in cand:
                    cand.add(o)
                    todo.append(o)
        for c in chain:
            for m in self.classes.get(c, {}).get("methods", ()):
                if m["key"] in cand:
                    return m["key"]
        return None

    def field(self, cls, name):
        for c in [cls] + self.superclasses(cls):
            for f in self.classes.get(c, {}).get("fields", ()):
                if f["name"] == name:
                    return f
        return None

    def fn(self, qname, nparams=None, required=True):
        l = [f for f in self.by_qname.get(qname, []) if nparams is None or len(f.params) == nparams]
        if not l:
            if required:
                raise AnalysisBroken("anchor function %s not found" % qname)
            return None
        return l[0]

    def fns_named(self, qname):
        return self.by_qname.get(qname, [])

    def callees(self, fn):
        """project function keys syntactically called/constructed/captured as lambda in fn."""
        r = fn._extra.get("callees")
        if r is None:
            r = set()
            for n in fn.nodes:
                if n["k"] in ("Call", "Construct") and "fn" in n:
                    r.add(n["fn"])
                elif n["k"] == "Lambda":
                    r.add(n["fn"])
                elif n["k"] == "FnRef":
                    r.add(n["fn"])
            fn._extra["callees"] = r
        return r

    def resolved_callees(self, fn):
        r = set()
        for k in self.callees(fn):
            r.add(k)
            todo = [k]
            while todo:
                x = todo.pop()
                for o in self.overriders.get(x, ()):
                    if o not in r:
                        r.add(o)
                        todo.append(o)
        return r

    def reach_pred(self, pred):
        """set of function keys that transitively contain a node satisfying pred(fn,node)."""
        direct = set()
        for f in self.fns.values():
            for n in f.nodes:
                if pred(f, n):
                    direct.add(f.key)
                    break
        rev = {}
        for f in self.fns.values():
            for c in self.resolved_callees(f):
                rev.setdefault(c, set()).add(f.key)
        seen = set(direct)
        todo = list(direct)
        while todo:
            x = todo.pop()
            for y in rev.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return seen

    def callgraph_closure(self, keys):
        seen = set()
        todo = list(keys)
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            f = self.fns.get(k)
            if f:
                todo += list(self.resolved_callees(f))
        return seen


_loaded = {}


def load(config="posix", extra=()):
    """extra: names of further translation units below /verif (instantiations of templates of the public headers)"""
    if (config, extra) in _loaded:
        return _loaded[config, extra]
    exe = extractor()
    files = config_files(config) + [os.path.join(VERIF, x) for x in extra]
    flags = config_flags(config)
    if not files:
        raise AnalysisBroken("no sources found")
    def one(f):
        cmd = [exe, f, "--root", REPO + "/src", "--root", REPO + "/include", "--root", VERIF + "/stubs/instantiate", "--"] + flags
        r = subprocess.run(cmd, capture_output=True, text=True, cwd="/")
        if r.returncode != 0 or not r.stdout.strip():
            raise AnalysisBroken("cannot analyse %s (%s): %s" % (f, config, r.stderr[-1500:]))
        return [f, json.loads(r.stdout)]
    with ThreadPoolExecutor(max_workers=8) as ex:
        tus = list(ex.map(one, files))
    p = Program(tus, config)
    _loaded[config, extra] = p
    return p


if __name__ == "__main__":
    p = load(sys.argv[1] if len(sys.argv) > 1 else "posix")
    print(len(p.fns), "functions", len(p.classes), "classes", p.concrete_dispatchers())
