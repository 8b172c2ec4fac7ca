"""P09: threads owned by the dispatchers."""
import functools
from engine.registry import check
from engine import model
from engine.events import EvClient, Roles, BASE
from engine.sim import Sim, State, U, TRUE, FALSE, tmpl
from engine.locks import CV_WAIT, CV_NOTIFY
from checks.concurrency import ASSUME, configs, norm
from checks.transition import TECH

THREAD = "std::thread"


def owners(prog):
    """class -> its thread fields"""
    r = {}
    for cn, c in prog.classes.items():
        if cn.startswith("hsmcpp::"):
            fs = [f["name"] for f in c.get("fields", ()) if norm(f["type"]).replace("const ", "") in (THREAD, "std::jthread")]
            if fs:
                r[cn] = fs
    return r


def wait_call(n):
    return n["k"] == "Call" and str(n.get("name", "")).startswith("wait") and "ondition" in str(n.get("cls", ""))


def notify_call(n):
    return n["k"] == "Call" and str(n.get("name", "")).startswith("notify") and "ondition" in str(n.get("cls", ""))


def cond_name(f, n):
    o = f.nodes[n["obj"]] if isinstance(n.get("obj"), int) and n["obj"] >= 0 else {}
    return (o.get("owner"), o.get("name")) if o.get("k") == "Field" else None


class ThreadClient(EvClient):
    """marks: ('joined',T) ('stopped',) stop flag set, ('wake',cond) notified since then, ('waited',) a wait was reached although the thread was told to stop"""
    eq_facts = True
    compact = True

    def __init__(self, prog, roles, cls, threads, stops, role, waits):
        self.cls, self.threads, self.stops, self.role, self.waits = cls, threads, stops, role, waits
        super().__init__(prog, roles)
        self.mains, self.closures = {}, {}

    def label(self):
        return "%s::%s" % (self.cls.split("::")[-1], self.role)

    def interesting(self, f, n):
        if n["k"] == "Field":
            return n.get("owner") == self.cls and n["name"] in self.threads or (n.get("owner"), n["name"]) in self.stops
        return wait_call(n) or notify_call(n) or n["k"] in ("Construct", "Call") and n.get("cls") == THREAD

    def inline(self, sim, fn, call_fn):
        return fn.key in self.relevant and fn.key not in self.noinline and not str(fn.cls).endswith("ConditionVariable")

    def stable(self, path):
        return True

    def mark(self, st, *items, note=None):
        return st.with_ts(st.ts | frozenset(items), note)

    def join_key(self, st):
        return (st.ts, frozenset((k, v) for k, v in st.env.items() if v[0] in ("c", "p")), frozenset((k, v) for k, v in st.heap.items() if v[0] == "c"))

    def sticky(self, k):
        return k[-1] in ("#j", "#main", "#tid")

    def get(self, st, p, what, default=None):
        return st.heap.get(p + (what,), default) if p is not None else None

    def put(self, st, p, what, v):
        st = st.copy()
        if v is None:
            st.heap.pop(p + (what,), None)
        else:
            st.heap[p + (what,)] = v
        return st

    def move(self, st, src, dst):
        j, m = self.get(st, src, "#j", FALSE), self.get(st, src, "#main")
        st = self.put(self.put(st, dst, "#j", j), dst, "#main", m)
        return self.put(self.put(st, src, "#j", FALSE), src, "#main", None)

    def entry(self, sim, c, st):
        """function that a new thread executes"""
        for i, a in enumerate(c.n["args"]):
            v = c.args[i]
            if v is not None and v[0] == "p":
                v = sim.peek(st, v[1]) or v
            if v is not None and v[0] == "lam":
                self.closures[v[1]] = v
                return v[1]
            k = a
            f = c.fn
            while f.nodes[k]["k"] in ("Cast", "Un", "InitList") or f.nodes[k]["k"] == "Construct" and len(f.nodes[k]["args"]) == 1:
                k = (f.nodes[k].get("c") or f.nodes[k].get("args"))[0]
            if f.nodes[k].get("fn") in self.p.fns:
                return f.nodes[k]["fn"]
            break
        return None

    def on_construct(self, sim, c):
        st = c.st
        if c.n["cls"] == THREAD and c.target is not None:
            if not c.n["args"]:
                return [self.put(st, c.target, "#j", FALSE)]
            if c.n.get("move") and c.argpaths[0] is not None:
                return [self.move(st, c.argpaths[0], c.target)]
            self.count("threads created", c.fn.loc(c.node))
            m = self.entry(sim, c, st)
            if m is None:
                raise model.AnalysisBroken("function of the thread created at %s not found" % c.fn.loc(c.node))
            self.mains[m] = c.fn
            if self.role == "start":
                for s in self.stops:
                    if st.heap.get(("this", s[1])) != FALSE:
                        self.report("restartable", self.label(), c.fn, c.node, "the thread is started without clearing the stop flag first: after stop() it ends at once", st)
            return [self.put(self.put(self.mark(st, note=("thread is started", c.fn, c.node)), c.target, "#j", TRUE), c.target, "#main", ("c", m))]
        if c.n["cls"] == "std::thread::id" and c.target is not None:
            if not c.n["args"]:
                return [self.put(st, c.target, "#tid", FALSE)]
            if c.argpaths[0] is not None:
                return [self.put(st, c.target, "#tid", self.get(st, c.argpaths[0], "#tid"))]
        return None

    def on_destroy(self, sim, path, rec, loc, st):
        if self.get(st, path, "#j") == TRUE:
            fn, node = loc if isinstance(loc, tuple) and hasattr(loc[0], "loc") else (self.root, None)
            self.report("never-terminates", self.label(), fn, node, "a running thread object is destroyed: the program is terminated", st)
            st = self.put(st, path, "#j", FALSE)
        return [st]

    def stop_value(self, st, truth):
        st = st.copy()
        for s in self.stops:
            st.heap[("this", s[1])] = TRUE if truth else FALSE
        return st

    def on_call(self, sim, c):
        st, n, name, qn = c.st, c.n, c.name, c.qn
        cls = n.get("cls")
        if cls == THREAD and c.objpath is not None:
            j = self.get(st, c.objpath, "#j", FALSE)
            if name == "joinable":
                return [(j, st)]
            if name == "get_id":
                return [(("p", (("t", c.depth, c.node),)), self.put(st, (("t", c.depth, c.node),), "#tid", j))]
            if name == "join":
                self.count("joins", c.fn.loc(c.node))
                if j == FALSE:
                    self.report("join-only-running", self.label(), c.fn, c.node, "a thread that was not started (or joined already) is joined: an exception is thrown", st)
                m = self.get(st, c.objpath, "#main")
                if self.role == "destructor":
                    need = self.waits.get(m[1] if m else None, set().union(*self.waits.values()) if self.waits else set())
                    if ("stopped",) not in st.ts:
                        self.report("stopped-before-join", self.label(), c.fn, c.node, "the destructor waits for a thread which was not told to stop", st)
                    for w in sorted(need):
                        if ("wake", w) not in st.ts:
                            self.report("stopped-before-join", self.label(), c.fn, c.node, "the destructor waits for a thread which may sleep on %s and was not woken up after the stop flag was set" % w[1], st)
                return [(U, self.put(st, c.objpath, "#j", FALSE))]
            if name == "detach":
                self.report("joined", self.label(), c.fn, c.node, "a thread is detached: it keeps using the dispatcher after its destruction", st)
                return [(U, self.put(st, c.objpath, "#j", FALSE))]
            if name == "operator=" and c.argpaths and c.argpaths[0] is not None:
                if j == TRUE:
                    self.report("never-terminates", self.label(), c.fn, c.node, "a thread object that still runs is overwritten: the program is terminated", st)
                return [(("p", c.objpath), self.move(st, c.argpaths[0], c.objpath))]
            if name == "swap" and c.argpaths and c.argpaths[0] is not None:
                t = (("t", c.depth, c.node), "swap")
                return [(U, self.move(self.move(self.move(st, c.argpaths[0], t), c.objpath, c.argpaths[0]), t, c.objpath))]
        if "thread::id" in str(n.get("ptys", "")) + str(cls) and n.get("op") in ("==", "!="):
            ps = ([c.objpath] if "obj" in n else []) + list(c.argpaths)
            vs = [self.get(st, p, "#tid") for p in ps]
            if None not in vs and FALSE in vs:
                eq = vs[0] == vs[1]
                return [(TRUE if eq == (n["op"] == "==") else FALSE, st)]
            return None
        o = self.owner.get(c.objpath)
        if o in self.stops:
            if name in ("operator=", "store", "exchange") and c.args:
                v, st = self.sval(sim, c, 0)
                k = sim.const_of(st, v)
                st = st.copy()
                if k is None:
                    st.heap.pop(c.objpath, None)
                else:
                    st.heap[c.objpath] = ("c", int(bool(k)))
                    if k:
                        st = self.mark(st, ("stopped",), note=("stop flag is set", c.fn, c.node))
                return [(U, st)]
            if name.startswith("operator") or name == "load":
                v = st.heap.get(c.objpath)
                return [(TRUE, st), (FALSE, st)] if v is None else [(v, st)]
        if notify_call(n):
            if ("stopped",) in st.ts:
                w = cond_name(c.fn, n)
                if w is None and self.owner.get(c.objpath):
                    w = self.owner[c.objpath]
                if w:
                    st = self.mark(st, ("wake", w))
            return [(U, st)]
        if wait_call(n):
            self.count("waits", c.fn.loc(c.node))
            w = cond_name(c.fn, n) or self.owner.get(c.objpath)
            if w is None:
                raise model.AnalysisBroken("condition waited for at %s not found" % c.fn.loc(c.node))
            self.slept.add(w)
            if self.role == "main":
                if ("told",) in st.ts and ("waited",) in st.ts:
                    self.report("notices-stop", self.cls.split("::")[-1] + " " + self.root.short(), c.fn, c.node,
                                "the thread waits again although it was told to stop before", st)
                    return []
                # stop() is called while the thread waits (or just before it)
                st = self.mark(self.stop_value(st, True), ("told",), ("waited",), note=("thread waits, stop() is called", c.fn, c.node))
            if n.get("ty") == "bool":
                return [(TRUE, st), (FALSE, st)]
            return [(U, st)]
        if c.key in self.p.fns and self.role == "main" and c.key not in self.relevant:
            return None
        return None

    def on_store(self, sim, fn, node, path, v, st):
        o = self.owner.get(path)
        if o in self.stops and v is not None and sim.const_of(st, v):
            st = self.mark(st, ("stopped",))
        return st

    slept = None
    root = None


RULES = ("never-terminates", "join-only-running", "joined", "stopped-before-join", "notices-stop", "restartable", "started")


@functools.lru_cache(None)
def run(config):
    prog = model.load(config)
    roles = Roles(prog)
    bad, counts, n, nroots = [], {}, 0, 0
    own = owners(prog)
    for cls, threads in sorted(own.items()):
        sup = set(prog.superclasses(cls)) | {cls}
        stops = {(k, f["name"]) for k in sup for f in prog.classes.get(k, {}).get("fields", ()) if norm(f["type"]) in ("std::atomic<bool>", "std::atomic_bool", "volatile bool")}
        if not stops:
            raise model.AnalysisBroken("stop flag of %s not found" % cls)
        # the flag that stop() sets
        fns = [f for f in prog.fns.values() if f.cls == cls and f.blocks and f.kind != "lambda"]
        waits, closures = {}, {}

        def go(f, role, st):
            c = ThreadClient(prog, roles, cls, threads, stops, role, waits)
            c.slept, c.root = set(), f
            sim = Sim(prog, c, cls)
            outs = sim.call_lambda(closures[f.key], 0, st, [], []) if f.key in closures else sim.run(f, args={i: ("s", ("arg", i), False) for i, q in enumerate(f.params) if not q["type"].rstrip().endswith(("*", "&"))}, st=st)
            bad.extend(c.bad)
            for k, v in c.counts.items():
                counts.setdefault(k, set()).update(v)
            return c, sim, outs

        def begin(combo, stop=None):
            st = State(ts=frozenset())
            for t, v in zip(threads, combo):
                st.heap[("this", t, "#j")] = TRUE if v else FALSE
                m = mains_of.get(t)
                if v and m is not None:
                    st.heap[("this", t, "#main")] = ("c", m)
            if stop is not None:
                for s in stops:
                    st.heap[("this", s[1])] = TRUE if stop else FALSE
            return st

        probe = ThreadClient(prog, roles, cls, threads, stops, "", waits)
        roots = [f for f in fns if f.kind != "ctor" and f.key in probe.relevant or f.kind == "dtor"]
        mains_of, mains = {}, {}
        # which function does which thread execute
        for f in roots:
            c, sim, outs = None, None, None
            save = (list(bad), {k: set(v) for k, v in counts.items()})
            c, sim, outs = go(f, f.name, begin([False] * len(threads), True))
            bad[:] = save[0]
            for _, s in outs:
                for t in threads:
                    m = s.heap.get(("this", t, "#main"))
                    if m is not None:
                        mains_of[t] = m[1]
            mains.update(c.mains)
            closures.update(c.closures)
        if not mains:
            raise model.AnalysisBroken("threads of %s are never started" % cls)
        # threads
        for m in sorted(mains):
            f = prog.fns[m]
            sleeps = set()
            for stop in (True, False):
                st = begin([True] * len(threads), stop)
                if stop:
                    st = st.with_ts(st.ts | {("told",)})
                c, sim, outs = go(f, "main", st)
                sleeps |= c.slept
                n += len(outs)
                if not outs:
                    bad.append(("notices-stop", cls.split("::")[-1] + " " + f.short(), f.loc(), "the thread function %s() never ends although it was told to stop" % f.short(), []))
                nroots += 1
            waits[m] = sleeps
        # operations
        for f in roots:
            if f.key in mains:
                continue
            role = "destructor" if f.kind == "dtor" else f.name
            nroots += 1
            for x in range(2 ** len(threads)):
                combo = [bool(x >> i & 1) for i in range(len(threads))]
                c, sim, outs = go(f, role, begin(combo, True if role == "start" else None))
                n += len(outs)
                for rv, s in outs:
                    left = [t for t in threads if s.heap.get(("this", t, "#j"), FALSE) != FALSE]
                    if role in ("destructor", "join") and left:
                        c.bad = []
                        c.report("joined", c.label(), f, None, "%s may still run when %s returns" % (", ".join(left), "the destructor" if role == "destructor" else "join()"), s)
                        bad.extend(c.bad)
                    if role == "start" and rv is not None:
                        r = sim.resolve(s, rv)
                        new = [t for t, b in zip(threads, combo) if not b and t in left]
                        c.bad = []
                        if r is True and not left:
                            c.report("started", c.label(), f, None, "start() reports success although no thread was started", s)
                        if r is False and new:
                            c.report("started", c.label(), f, None, "start() reports a failure although the thread was started", s)
                        bad.extend(c.bad)
    return own, bad, counts, n, nroots


@check("P09", "Every function of a class that owns threads, started with each of its threads running and not running: typestate of the thread objects (created, joined, overwritten, destroyed); every thread function with "
       "stop() called before it begins or during any of its waits.", ASSUME + ["std::thread construction succeeds", "a thread does not join itself"], TECH)
def p09(rep, tier):
    for config in configs(tier):
        own, bad, counts, n, nroots = run(config)
        for rule in RULES:
            mine = [b for b in bad if b[0] == rule]
            for r, key, loc, msg, path in mine:
                rep.violate(r, key, loc, msg, path)
            if not mine:
                rep.ob(rule, True)
        for k, v in sorted(counts.items()):
            rep.stat(k.replace(" ", "_"), len(v))
        rep.stat("path_classes", n)
        rep.stat("functions", nroots)
        rep.stat("thread_objects", sum(len(v) for v in own.values()))
        if not own:
            raise model.AnalysisBroken("no class owns a thread")
        if not rep.violations:
            for k in ("threads created", "joins", "waits"):
                if not counts.get(k):
                    raise model.AnalysisBroken("%s not recognised" % k)
