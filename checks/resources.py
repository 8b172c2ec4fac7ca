"""P25: native resources of the dispatchers.  P09: worker threads."""
import functools
import re
from engine.registry import check
from engine import model
from engine.events import EvClient, Roles, BASE, iter_cmp
from engine.maps import MapClient
from engine.sim import is_ptr, Sim, State, U, TRUE, FALSE, NULL, tmpl, contains
from engine.locks import CV_WAIT, CV_NOTIFY
from checks.concurrency import ASSUME, configs, norm
from checks.transition import TECH

ACQ = {"g_io_channel_unix_new": "channel", "g_io_create_watch": "source", "g_timeout_source_new": "source", "g_timeout_source_new_seconds": "source", "g_idle_source_new": "source",
       "g_unix_fd_source_new": "source", "g_main_context_new": "context", "g_main_loop_new": "loop"}
REL = {"g_io_channel_unref", "g_source_unref", "g_main_context_unref", "g_main_loop_unref"}
REF = {"g_source_ref", "g_io_channel_ref"}
DETACH = {"g_source_destroy"}
ATTACH = {"g_source_attach"}
TAKES = {"QCoreApplication::postEvent", "std::unique_ptr::reset", "std::shared_ptr::reset"}


def strip(f, i):
    while f.nodes[i]["k"] == "Cast":
        i = f.nodes[i]["c"][0]
    return i


class Handles:
    """fields of a dispatcher that hold native resources"""

    def __init__(self, prog, cls):
        self.p, self.cls = prog, cls
        self.fns = [f for f in prog.fns.values() if f.cls == cls and f.blocks]
        ptr, kind, arrays = {}, {}, set()
        lams = [f for f in prog.fns.values() if f.kind == "lambda"]
        for f in self.fns + lams:
            for n in f.nodes:
                if n["k"] == "Call" and n.get("qn") in REL | {"pipe", "pipe2"} and n["args"]:
                    m = f.nodes[strip(f, n["args"][0])]
                    if m["k"] == "Field" and m.get("owner") == cls:
                        if n["qn"].startswith("pipe"):
                            arrays.add(m["name"])
                        else:
                            kind[m["name"]] = "source" if "source" in n["qn"] else "channel"
        self.ptr = dict(kind)
        for fl in prog.classes[cls]["fields"]:
            if norm(fl["type"]) in ("GSource *", "_GSource *", "struct _GSource *"):
                self.ptr.setdefault(fl["name"], "source")
            if norm(fl["type"]) in ("GIOChannel *", "_GIOChannel *", "struct _GIOChannel *"):
                self.ptr.setdefault(fl["name"], "channel")
            if re.match(r"int\s*\[2\]", norm(fl["type"])):
                arrays.add(fl["name"])
        self.fd = sorted(arrays)
        self.maps = {(cls, fl["name"]): "native" for fl in prog.classes[cls]["fields"] if re.match(r"std::map<int, (_?GSource|QTimer) \*", norm(fl["type"]))}

    def any(self):
        return bool(self.ptr or self.fd or self.maps)


class ResClient(MapClient):
    """marks: ('live',v) ('dead',v) ('att',v) attached to a context; ('open',v) ('closed',v) for the ends of the pipe; ('unref',k) ('bulk',) ('kept',) ('cleared',) for recorded sources"""
    count_consts = True

    def __init__(self, h, label, prog, roles):
        self.h, self.label, self.maps = h, label, h.maps
        super().__init__(prog, roles)

    def interesting(self, f, n):
        if n["k"] == "Field" and n.get("owner") == self.h.cls:
            return n["name"] in self.h.ptr or n["name"] in self.h.fd or (self.h.cls, n["name"]) in self.h.maps
        return n["k"] == "Call" and (n.get("qn") in REL or n.get("name") == "deleteLater") or n["k"] == "Call" and n.get("qn") in ACQ or n["k"] == "Call" and n.get("qn") == "close"

    def inline(self, sim, fn, call_fn):
        return fn.key in self.relevant and (fn.cls in (self.h.cls, "", None) or fn.kind == "lambda")

    def stable(self, path):
        return True

    def access(self, sim, fn, node, path, kind, st):
        if kind == "r" and path not in st.heap and norm(fn.nodes[node].get("ty", "")).replace("const", "").replace(" ", "") == self.h.cls + "*":
            st = st.copy()
            st.heap[path] = ("p", ("this",))
        return st

    def elem_of(self, path):
        if path is None:
            return None
        for i in range(1, len(path)):
            if isinstance(path[i], tuple) and path[i][0] == "[]" and self.map_of(path[:i]):
                return path[i][1]
        return None

    def elem_of_val(self, v):
        return self.elem_of(v[1][1]) if v is not None and v[0] == "s" and isinstance(v[1], tuple) and v[1][0] == "ld" else None

    def map_event(self, sim, c, st, kind, cont, k):
        if kind == "erase":
            if ("unref", k) not in st.ts:
                st = self.mark(st, ("owe", k, c.fn.key, c.node))
            st = self.mark(st, ("gone", k))
        elif kind == "next":
            st = self.mark(st, ("bulk",) if ("unref", k) in st.ts else ("kept",))
        elif kind == "clear":
            if ("kept",) in st.ts or not ({("bulk",), ("end",)} & st.ts):
                self.report("released", self.label, c.fn, c.node, "recorded event sources are forgotten without being released", st)
            st = self.mark(st, ("cleared",))
        elif kind == "end":
            st = self.mark(st, ("end",))
        if kind in ("next", "pos"):
            st = self.drop(st, lambda q: any(contains(x, k) for x in q if isinstance(x, tuple)))
        return st

    def on_call(self, sim, c):
        st, qn, n = c.st, c.qn, c.n
        r = self.map_op(sim, c)
        if r is not None:
            return r
        if qn in ("pipe", "pipe2") and c.argpaths[0] is not None:
            self.count("acquisitions", c.fn.loc(c.node))
            if any(q[0] == "open" for q in st.ts):
                self.report("released", self.label, c.fn, c.node, "the pipe is created again while it is open", st)
            ok = sim.kill_path(st, c.argpaths[0])
            fds = [("s", ("fd", k), False) for k in (0, 1)]
            for k, v in enumerate(fds):
                ok = sim.addne(ok, v, -1)
                ok.heap[c.argpaths[0] + (("[]", k),)] = v
            ok = self.mark(self.drop(ok, lambda q: q[0] == "closed"), *[("open", v) for v in fds], note=("pipe is created", c.fn, c.node))
            return [(("c", 0), ok), (("c", -1), self.mark(st, ("failed",), note=("pipe can not be created", c.fn, c.node)))]
        if qn == "close" and c.args:
            v = c.args[0]
            self.count("releases", c.fn.loc(c.node))
            if v is None or ("open", v) not in st.ts:
                self.report("released-once", self.label, c.fn, c.node, "an end of the pipe is closed although it is not open", st)
                return [(("c", 0), st)]
            return [(("c", 0), self.mark(self.drop(st, lambda q: q == ("open", v)), ("closed", v)))]
        if qn in ACQ:
            self.count("acquisitions", c.fn.loc(c.node))
            st = self.uses(sim, c, st)
            v, st = sim.fresh(st, ("res", qn, c.fn.key, c.node), False)
            good = sim.addne(st, v, 0)
            good = self.mark(self.drop(good, lambda q: v in q), ("live", v), note=("%s() succeeds" % qn, c.fn, c.node))
            outs = [(v, good)]
            if ACQ[qn] != "source" or qn == "g_io_create_watch":
                outs.append((NULL, self.mark(st, ("failed",), note=("%s() fails" % qn, c.fn, c.node))))
            return outs
        later = c.name == "deleteLater" and "obj" in n
        if later or qn in REL | DETACH | ATTACH | REF and c.args:
            v = c.obj if later else c.args[0]
            k = self.elem_of(c.objpath if later else c.argpaths[0])
            if later and k is None and self.elem_of_val(v) is None:
                k = self.elem_of(sim.loc(c.fn, n["obj"], c.depth, st))
            if later:
                qn = "g_source_unref"
            k = self.elem_of_val(v) if k is None else k
            if qn in REL:
                self.count("releases", c.fn.loc(c.node))
            if k is not None and not (v is not None and ("live", v) in st.ts):
                if qn in REL:
                    if ("unref", k) in st.ts:
                        self.report("released-once", self.label, c.fn, c.node, "an event source is released twice", st)
                    st = self.mark(self.drop(st, lambda q: q[0] == "owe" and q[1] == k), ("unref", k))
                elif ("unref", k) in st.ts:
                    self.report("not-used-after-release", self.label, c.fn, c.node, "an event source is used after it was released", st)
                return [(U, st)]
            if v is not None and (v == NULL or sim.const_of(st, v) == 0):
                if qn not in ATTACH:
                    self.report("released-once", self.label, c.fn, c.node, "%s() is called for a resource that does not exist" % qn, st)
                return [(U, st)]
            if v is None or v[0] != "s":
                return None
            if qn in REF:
                raise model.AnalysisBroken("additional references (%s) are not modelled" % qn)
            if ("dead", v) in st.ts:
                self.report("released-once" if qn in REL else "not-used-after-release", self.label, c.fn, c.node, "%s() is called for a resource that was released" % qn, st)
                return [(U, st)]
            if qn in ATTACH:
                return [(U, self.mark(st, ("att", v)))]
            if qn in DETACH:
                return [(U, self.drop(st, lambda q: q == ("att", v)))]
            if ("live", v) in st.ts:
                if ("att", v) in st.ts:
                    self.report("detached", self.label, c.fn, c.node, "an event source is released but not destroyed: its callback is still called", st)
                return [(U, self.mark(self.drop(st, lambda q: q in (("live", v), ("att", v))), ("dead", v), note=("resource is released", c.fn, c.node)))]
            return [(U, st)]
        c.st = self.uses(sim, c, st)
        return None

    def uses(self, sim, c, st):
        if c.key in self.p.fns:
            return st
        for v in c.args:
            if v is not None and {("dead", v), ("closed", v)} & st.ts:
                self.report("not-used-after-release", self.label, c.fn, c.node, "%s() uses a resource that was released" % c.name, st)
        return st

    def on_branch(self, sim, fn, node, truth, st):
        return st

    def join_key(self, st):
        return (st.ts, frozenset((k, v) for k, v in st.env.items() if v[0] in ("c", "it", "null")), frozenset((k, v) for k, v in st.heap.items() if v[0] in ("c", "null") or k[0] == "this" and len(k) == 2))

    def status(self, sim, st):
        """field -> 'none' | 'live' | 'dangling' | 'unknown'"""
        r = {}
        for nm in self.h.ptr:
            v = st.heap.get(("this", nm))
            r[nm] = "unknown" if v is None else "none" if v == NULL or sim.const_of(st, v) == 0 else "live" if ("live", v) in st.ts else "dangling" if ("dead", v) in st.ts else "unknown"
        for nm in self.h.fd:
            vs = [st.heap.get(("this", nm, ("[]", k))) for k in (0, 1)]
            x = ["open" if ("open", v) in st.ts else "closed" if ("closed", v) in st.ts else "none" if sim.const_of(st, v) == -1 else "unknown" for v in vs]
            r[nm] = "dangling" if "closed" in x else "live" if x == ["open", "open"] else "none" if x == ["none", "none"] else "unknown" if "unknown" in x else "partial"
        return r

    def finish(self, sim, f, rv, st, role, began):
        bad = lambda rule, msg: self.report(rule, self.label, f, None, msg, st)
        s = self.status(sim, st)
        for q in st.ts:
            if q[0] == "owe":
                self.report("released", self.label, self.p.fns[q[2]], q[3], "an event source is forgotten without being released", st)
            if q[0] == "unref" and ("gone", q[1]) not in st.ts:
                bad("no-dangling", "a released event source stays recorded")
            if q[0] in ("live", "open") and not any(k[0] == "this" and v == q[1] for k, v in st.heap.items()):
                bad("released", "a native resource is neither kept nor released")
        if ("bulk",) in st.ts and ("cleared",) not in st.ts:
            bad("no-dangling", "released event sources stay recorded")
        for nm, x in s.items():
            if x == "dangling":
                bad("no-dangling", "%s keeps a resource that was released" % nm)
            if x == "partial":
                bad("released", "only one end of the pipe is held")
        if any(x in ("dangling", "partial", "unknown") for x in s.values()) or not s:
            return
        vals = set(s.values())
        if role in ("stop", "dtor") and vals != {"none"}:
            bad("released", "%s still held after %s" % (", ".join(sorted(k for k, x in s.items() if x == "live")), "stop()" if role == "stop" else "destruction"))
        elif role == "start":
            r = sim.resolve(st, rv) if rv is not None else None
            if r is True and vals != {"live"}:
                bad("complete", "start() reports success although %s not created" % ", ".join(sorted(k for k, x in s.items() if x == "none")))
            if r is False and vals != {"none"} and began == "none":
                bad("released", "start() fails and leaves %s behind" % ", ".join(sorted(k for k, x in s.items() if x == "live")))
            if r is False and ("failed",) not in st.ts:
                bad("complete", "start() fails although nothing went wrong")
        elif len(vals) > 1:
            bad("complete", "only some of the dispatcher's resources are released")


RULES25 = ("released", "released-once", "no-dangling", "not-used-after-release", "detached", "complete", "heap-objects")


def new_rule(prog, bad, counts):
    """every object created with new has an owner that deletes it"""
    for f in prog.fns.values():
        for i, n in enumerate(f.nodes):
            if n["k"] != "New":
                continue
            counts.setdefault("heap_objects", set()).add(f.loc(i))
            why = owned(prog, f, i)
            if why is not None:
                bad.append(("heap-objects", "%s new %s" % (f.short(), n.get("ty", "").rstrip(" *").split("::")[-1]), f.loc(i), "%s(): %s" % (f.short(), why), []))


def variable_released(prog, f, did):
    """is the object a local variable points to deleted or handed over, by this function or by a closure in it?"""
    fam = [f] + [g for g in prog.fns.values() if g.kind == "lambda" and inside(prog, g, f)]
    for g in fam:
        for j, m in enumerate(g.nodes):
            if m["k"] == "Ref" and m.get("id") == did or m["k"] == "Ref" and m.get("outer") == did:
                k = j
                while k in g.parents and g.nodes[g.parents[k][0]]["k"] == "Cast":
                    k = g.parents[k][0]
                if k not in g.parents:
                    continue
                pi, role = g.parents[k]
                p = g.nodes[pi]
                if p["k"] == "Delete" or p["k"] == "Return":
                    return True
                if p["k"] == "Method" or p["k"] == "Call" and role == "obj":
                    q = p if p["k"] == "Call" else next((x for x in [g.nodes[g.parents[pi][0]]] if pi in g.parents), {})
                    if q.get("name") == "deleteLater" or p.get("fn", "").split("(")[0].endswith("::deleteLater"):
                        return True
                if p["k"] in ("Call", "Construct") and role.startswith("arg") and takes(prog, g, p, int(role[3:])) is None:
                    return True
                if p["k"] == "Assign" and role == "c1" and g.nodes[strip(g, p["c"][0])]["k"] in ("Field", "Call"):
                    l = g.nodes[strip(g, p["c"][0])]
                    o = g.nodes[l["obj"]] if l["k"] == "Call" and isinstance(l.get("obj"), int) and l["obj"] >= 0 else l
                    if o["k"] == "Field" and field_released(prog, o["owner"], o["name"]):
                        return True
    return False


def inside(prog, g, f):
    while g is not None and g.kind == "lambda":
        g = prog.fns.get(g.parentFn)
        if g is f:
            return True
    return False


def field_released(prog, owner, name):
    for f in prog.fns.values():
        if not any(m["k"] == "Field" and m.get("owner") == owner and m["name"] == name for m in f.nodes):
            continue
        if any(m["k"] == "Delete" or m["k"] == "Call" and m.get("name") in ("deleteLater", "reset") for m in f.nodes):
            return True
    return False


def takes(prog, f, p, argi):
    """None if the callee takes ownership of argument argi"""
    if p["k"] == "Construct":
        if tmpl(p["cls"]) in ("std::shared_ptr", "std::unique_ptr", "std::__shared_ptr"):
            return None
        return "object is handed to %s, which does not delete it" % p["cls"]
    qn = tmpl(p.get("qn", ""))
    cls = tmpl(str(p.get("cls", "")))
    if qn in TAKES or cls in ("std::unique_ptr", "std::shared_ptr", "std::__shared_ptr") and p["name"] == "reset":
        return None
    if p.get("name") == "g_source_set_callback" and len(p["args"]) == 4 or p.get("name", "").endswith("_full") and len(p["args"]) >= 4:
        nt = f.nodes[strip(f, p["args"][-1])]
        for _ in range(3):
            if nt["k"] == "Un" and nt["op"] == "&":
                nt = f.nodes[strip(f, nt["c"][0])]
        g = prog.fns.get(nt.get("fn"))
        if g is None:
            return "the data of a callback is never deleted (no destroy notification)"
        if not any(m["k"] == "Delete" for k in prog.callgraph_closure([g.key]) if k in prog.fns for m in prog.fns[k].nodes):
            return "%s() does not delete the data of the callback" % g.short()
        return None
    g = prog.fns.get(p.get("fn"))
    if g is not None and argi < len(g.params):
        if variable_released(prog, g, g.params[argi]["id"]):
            return None
    return "nothing deletes the object"


def owned(prog, f, i):
    k = i
    while k in f.parents and f.nodes[f.parents[k][0]]["k"] in ("Cast", "InitList"):
        k = f.parents[k][0]
    if k not in f.parents:
        return "object is created and never deleted"
    pi, role = f.parents[k]
    p = f.nodes[pi]
    if p["k"] == "Return":
        return None
    if p["k"] in ("Call", "Construct") and role.startswith("arg"):
        return takes(prog, f, p, int(role[3:]))
    if p["k"] == "Decl":
        for v in p["vars"]:
            if v["init"] >= 0 and strip(f, v["init"]) == i or v["init"] == k:
                if "unique_ptr" in v["ty"] or "shared_ptr" in v["ty"]:
                    return None
                return None if variable_released(prog, f, v["id"]) else "object %s is never deleted" % v["name"]
        return None
    if p["k"] == "Assign":
        l = f.nodes[strip(f, p["c"][0])]
        if l["k"] == "Ref":
            return None if variable_released(prog, f, l.get("id")) else "object is never deleted"
        o = f.nodes[l["obj"]] if l["k"] == "Call" and isinstance(l.get("obj"), int) and l["obj"] >= 0 else l
        if o["k"] == "Field":
            return None if field_released(prog, o["owner"], o["name"]) else "object is never deleted"
    return None


@functools.lru_cache(None)
def run25(config):
    prog = model.load(config)
    roles = Roles(prog)
    bad, counts, n, nroots = [], {}, 0, 0
    for cls in prog.concrete_dispatchers():
        h = Handles(prog, cls)
        if not h.any():
            continue
        probe = ResClient(h, "", prog, roles)
        for f in h.fns:
            if f.key not in probe.relevant and f.kind != "dtor" or f.kind == "ctor" or f.kind == "lambda":
                continue
            role = f.name if f.name in ("start", "stop") else f.kind
            nroots += 1
            for began in ("none", "live"):
                c = ResClient(h, "%s %s" % (cls.split("::")[-1], f.short().split("::")[-1]), prog, roles)
                st = State(ts=frozenset())
                live = began == "live"
                for nm, kind in h.ptr.items():
                    v = ("s", ("handle", nm), False)
                    st.heap[("this", nm)] = v if live else NULL
                    if live:
                        st.facts[v] = ("ne", frozenset((0,)))
                        st.ts |= {("live", v)} | ({("att", v)} if kind == "source" else set())
                for nm in h.fd:
                    for k in (0, 1):
                        v = ("s", ("fd", k), False)
                        st.heap[("this", nm, ("[]", k))] = v if live else ("c", -1)
                        if live:
                            st.facts[v] = ("ne", frozenset((-1,)))
                            st.ts |= {("open", v)}
                sim = Sim(prog, c, cls)
                args = {i: ("p", (("o", "param:%d" % i),)) for i, q in enumerate(f.params) if is_ptr(q["type"])}
                outs = sim.run(f, args=args, st=st)
                for rv, s in outs:
                    c.finish(sim, f, rv, s, role, began)
                n += len(outs)
                bad += c.bad
                for k, v in c.counts.items():
                    counts.setdefault(k, set()).update(v)
    new_rule(prog, bad, counts)
    return bad, counts, n, nroots


@check("P25", "Every path of every function of a dispatcher that touches native handles (pipe, channel, event sources), started with all of them held and with none, including every failure of a native call; "
       "plus the owner of every object created with new.", ASSUME + ["native release functions succeed"], TECH)
def p25(rep, tier):
    for config in configs(tier):
        bad, counts, n, nroots = run25(config)
        for rule in RULES25:
            mine = [b for b in bad if b[0] == rule]
            for r, key, loc, msg, path in mine:
                rep.violate(r, key + " " + msg, loc, msg, path)
            if not mine:
                rep.ob(rule, True)
        for k, v in sorted(counts.items()):
            rep.stat(k, len(v))
        rep.stat("path_classes", n)
        rep.stat("functions", nroots)
        if not rep.violations:
            for k in ("acquisitions", "releases", "heap_objects"):
                if not counts.get(k):
                    raise model.AnalysisBroken("%s of native resources not recognised" % k)
