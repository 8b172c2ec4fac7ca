"""P07 (handlers given to the dispatcher), P08 (release), P22 (initialize)."""
import functools
from engine.registry import check
from engine import model
from engine.events import EvClient, IMPL, IFACE, FACADE, machine
from engine.sim import Sim, State, U, TRUE, FALSE, NULL, tmpl
from checks.concurrency import ASSUME, configs, norm
from checks.transition import TECH
from checks.queue import Parts

REG = {"registerEventHandler": "event", "registerTimerHandler": "timer", "registerEnqueuedEventHandler": "enqueued"}
UNREG = {"unregisterEventHandler": "event", "unregisterTimerHandler": "timer", "unregisterEnqueuedEventHandler": "enqueued"}


def invalid_id(prog):
    for f in prog.fns.values():
        for n in f.nodes:
            if n["k"] == "Ref" and n.get("name") == "INVALID_HSM_DISPATCHER_HANDLER_ID" and "cv" in n:
                return n["cv"]
    raise model.AnalysisBroken("invalid handler id not found")


class Life:
    def __init__(self, prog):
        self.p = prog
        self.x = x = Parts(prog)
        self.r = x.roles
        self.inv = invalid_id(prog)
        ref = [f["name"] for f in prog.classes[IMPL]["fields"] if norm(f["type"]).startswith("std::weak_ptr") and "IHsmEventDispatcher" in f["type"]]
        if len(ref) != 1:
            raise model.AnalysisBroken("reference to the dispatcher not found")
        self.ref = (IMPL, ref[0])
        rt = self.r.impl_of("registerTimer")
        tf = {n["name"] for n in rt.nodes if n["k"] == "Field" and n.get("owner") == IMPL and "map" in str(n.get("fty", n.get("ty", "")))}
        if len(tf) != 1:
            raise model.AnalysisBroken("registry of timers not found")
        self.timers = (IMPL, tf.pop())
        # function that starts the machine: enters the initial state
        self.start = x.starts
        self.setters = set()


class LifeClient(EvClient):
    eq_facts = True
    compact = True

    def __init__(self, life, role, kind=None):
        self.l, self.x, self.role, self.kind = life, life.x, role, kind
        super().__init__(life.p, life.r)
        self.noinline |= {life.x.post.key, life.x.dispatch.key, life.x.event_fn.key} | {f.key for f in life.start}
        self.noinline |= {f.key for f in life.p.fns.values() if f.cls == life.r.event_cls}
        if role != "release":
            self.noinline.add(life.x.release.key)

    def interesting(self, f, n):
        if n["k"] == "Field":
            o = (n.get("owner"), n["name"])
            return o in (self.l.ref, self.x.gate, self.l.timers, self.l.r.queue) or o in self.x.stops
        if n["k"] == "Call":
            return str(n.get("qn", "")).startswith(IFACE + "::") or n.get("fn") in (self.x.post.key, self.x.dispatch.key)
        return False

    def inline(self, sim, fn, call_fn):
        return machine(fn) and super().inline(sim, fn, call_fn)

    def join_key(self, st):
        return (st.ts, frozenset((k, v) for k, v in st.env.items() if v[0] in ("c", "it")), frozenset((k, v) for k, v in st.heap.items() if v[0] == "c"))

    def stable(self, path):
        return self.owner.get(path) not in self.x.stops and self.owner.get(path) != self.l.ref and super().stable(path)

    def mark(self, st, *items, note=None):
        return st.with_ts(st.ts | frozenset(items), note)

    def drop(self, st, pred):
        d = frozenset(k for k in st.ts if pred(k))
        return st.with_ts(st.ts - d) if d else st

    def on_call(self, sim, c):
        st, n, name = c.st, c.n, c.name
        o = self.owner.get(c.objpath) if c.objpath is not None else None
        qn = str(n.get("qn", ""))
        if o in self.x.stops:
            if name in ("operator=", "store", "exchange"):
                v, st = self.sval(sim, c, 0)
                v = sim.const_of(st, v)
                return [(U, self.mark(st, ("stopset",)) if v == 1 else self.drop(st, lambda k: k == ("stopset",)))]
            if ("stopset",) in st.ts:
                return [(TRUE, st)]
            return [(FALSE, self.mark(st, ("run",))), (TRUE, self.mark(self.drop(st, lambda k: k == ("run",)), ("stopped",)))]
        if o == self.l.ref:
            return self.ref(sim, c, name)
        if o == self.x.gate and name == "wait":
            v, st = self.sval(sim, c, 0)
            if sim.const_of(st, v) == 1 and ("stopset",) in st.ts:
                st = self.mark(st, ("gatewait",), note=("waits until the current event is processed", c.fn, c.node))
            return [(U, st)]
        if any(p is not None and self.owner.get(p) == self.l.r.queue for p in [c.objpath] + c.argpaths) and self.role == "release" and name in ("swap", "clear", "pop_front", "erase", "splice", "operator=") and ("nodisp",) not in st.ts and ("gatewait",) not in st.ts:
            self.report("release-waits", "queue", c.fn, c.node, "the queue is emptied before the event that is being processed is finished", st)
        if qn.startswith(IFACE + "::") or (name in REG or name in UNREG or name in ("start", "stop")) and str(n.get("cls", "")) in self.p.classes and str(n.get("cls", "")) in set(self.p.subclasses(IFACE)):
            return self.iface(sim, c, name)
        if c.key in (self.x.post.key, self.x.dispatch.key) or c.key in {f.key for f in self.l.start}:
            return self.effect(sim, c)
        if c.key == self.x.release.key:
            return [(U, self.mark(st, ("released",)))]
        if o == self.l.timers:
            return self.timer(sim, c, name)
        if name == "lock" and tmpl(qn.rsplit("::", 1)[0]) == "std::weak_ptr" and self.role == "handler":
            dst = (("t", c.depth, c.node),)
            outs = []
            for alive in (True, False):
                s = sim.kill_path(st, dst).copy()
                s.heap[dst + ("?",)] = TRUE if alive else FALSE
                if alive:
                    s.heap[dst + ("*ptr",)] = ("p", (("o", "machine"),))
                    s = self.mark(s, ("alive",))
                outs.append((("p", dst), s))
            return outs
        if name == "operator bool" and "IHsmEventDispatcher" in qn or n.get("op") in ("==", "!=") and "IHsmEventDispatcher" in str(n.get("ptys", "")) and any(c.fn.nodes[a]["k"] == "Null" for a in n["args"]):
            yes, no = (TRUE, FALSE) if n.get("op") != "==" else (FALSE, TRUE)
            outs = [(yes, self.mark(st, ("disp?",)))]
            if ("disp?",) not in st.ts:
                outs.append((no, self.mark(st, ("nodisp",))))
            return outs
        return None

    def ref(self, sim, c, name):
        st = c.st
        if name == "expired":
            return [(TRUE, self.mark(st, ("fresh",))), (FALSE, self.mark(st, ("inited",)))]
        if name in ("operator=", "swap", "reset"):
            empty = name == "reset"
            if not empty and c.argpaths and c.argpaths[0] is not None:
                t = st.heap.get(c.argpaths[0] + ("?",))
                empty = t is not None and sim.const_of(st, t) == 0
            st = self.drop(st, lambda k: k in (("dset",), ("dreset",)))
            return [(U, self.mark(st, ("dreset",) if empty else ("dset",)))]
        return None

    def timer(self, sim, c, name):
        st = c.st
        q = c.objpath
        if name == "find" and c.args:
            v, st = self.sval(sim, c, 0)
            s, st = sim.sym(c.fn, c.node, c.depth, st, False)
            s2 = st.copy()
            s2.facts[("s", ("isend", s), True)] = FALSE
            if v is not None:
                s2.heap[q + (("[]", s), "#key")] = v
            return [(("it", q, s), s2), (("it", q, ("END",)), self.mark(st, ("unknown",)))]
        if name == "count" and c.args:
            return [(TRUE, st), (FALSE, self.mark(st, ("unknown",)))]
        if name in ("operator[]", "at") and c.args:
            v, st = self.sval(sim, c, 0)
            s, st = sim.sym(c.fn, c.node, c.depth, st, False)
            st = st.copy()
            if v is not None:
                st.heap[q + (("[]", s), "#key")] = v
            return [(("p", q + (("[]", s), "second")), st)]
        return None

    def iface(self, sim, c, name):
        st = c.st
        self.count("dispatcher-calls", c.fn.loc(c.node))
        if name == "start":
            return [(TRUE, self.mark(st, ("started",))), (FALSE, self.mark(st, ("notstarted",)))]
        if name in REG:
            k = REG[name]
            if any(q[0] == "reg" and q[1] == k for q in st.ts):
                self.report("registered-once", k, c.fn, c.node, "the %s handler is registered twice" % k, st)
            self.handler(sim, c, k)
            s, st = sim.sym(c.fn, c.node, c.depth, st, False)
            ok = st.copy()
            ok.facts[s] = ("ne", frozenset([self.l.inv]))
            return [(s, self.mark(ok, ("reg", k, s), note=("%s handler is registered" % k, c.fn, c.node))), (("c", self.l.inv), self.mark(st, ("reg", k, None), note=("registration of the %s handler fails" % k, c.fn, c.node)))]
        if name in UNREG:
            k = UNREG[name]
            v, st = self.sval(sim, c, 0)
            if self.role == "release":
                f = c.argpaths[0][-1] if c.argpaths and c.argpaths[0] is not None else None
                if (v is not None and v[0] == "s" and isinstance(v[1], tuple) and v[1][0] == "ld"):
                    f = v[1][1][-1]
                if f in self.l.fields.values() and self.l.fields.get(k) != f:
                    self.report("unregister-right-handler", k, c.fn, c.node, "the %s handler is unregistered with the id of another handler" % k, st)
                    return [(U, st)]
                if ("nodisp",) in st.ts:
                    return [(U, st)]
                return [(U, self.mark(st, ("unreg", k), note=("%s handler is unregistered" % k, c.fn, c.node)))]
            regs = [q[2] for q in st.ts if q[0] == "reg" and q[1] == k]
            if regs and (regs[0] is None or v == regs[0] or v is None or sim.eqv(st, v, regs[0])):
                st = self.mark(st, ("unreg", k))
            elif regs:
                self.report("unregister-right-handler", k, c.fn, c.node, "the %s handler is unregistered with another id than the one it was registered with" % k, st)
            return [(U, st)]
        return None

    def effect(self, sim, c):
        st = c.st
        what = "start" if c.key not in (self.x.post.key, self.x.dispatch.key) else "post" if c.key == self.x.post.key else "dispatch"
        if self.role == "init":
            if what == "start":
                self.count("startup", c.fn.loc(c.node))
                if ("startup",) in st.ts:
                    self.report("startup-once", "startup", c.fn, c.node, "the initial state is entered twice", st)
                if sum(1 for k in st.ts if k[0] == "reg" and k[2] is not None) < 3 or ("dset",) not in st.ts:
                    self.report("startup-when-ready", "startup", c.fn, c.node, "the initial state is entered on a path on which the machine can not process events yet (handlers are not registered or there is no dispatcher)", st)
                return [(U, self.mark(st, ("startup",), note=("initial state is entered", c.fn, c.node)))]
            return [(U, st)]
        if self.role == "handler":
            self.count("handler-effects", c.fn.loc(c.node))
            if ("alive",) not in st.ts:
                self.report("handler-checks-owner", self.kind, c.fn, c.node, "the %s handler uses the machine on a path that does not establish that the machine still exists" % self.kind, st)
            elif ("run",) not in st.ts:
                self.report("handler-checks-release", self.kind, c.fn, c.node, "the %s handler uses the machine on a path that did not check whether it was released" % self.kind, st)
            want = {"event": "dispatch"}.get(self.kind, "post")
            if what != want:
                self.report("handler-does-its-job", self.kind, c.fn, c.node, "the %s handler performs another operation (%s)" % (self.kind, what), st)
            if what == "post":
                v, st = self.sval(sim, c, 0)
                if self.kind == "enqueued" and v != self.arg:
                    self.report("handler-does-its-job", self.kind, c.fn, c.node, "the enqueued-event handler posts another event than the enqueued one", st)
                if self.kind == "timer":
                    el = None
                    if c.argpaths[0] is not None and len(c.argpaths[0]) > 1 and c.argpaths[0][-1] == "second":
                        el = c.argpaths[0][:-1]
                    elif v is not None and v[0] == "s" and isinstance(v[1], tuple) and v[1][0] == "ld" and v[1][1][-1] == "second":
                        el = v[1][1][:-1]
                    if el is None or self.owner.get(el[:-1]) != self.l.timers or st.heap.get(el + ("#key",)) != self.arg:
                        self.report("handler-does-its-job", self.kind, c.fn, c.node, "the timer handler posts another event than the one registered for the expired timer", st)
            if ("effect",) in st.ts:
                self.report("handler-does-its-job", self.kind, c.fn, c.node, "the %s handler posts an event twice" % self.kind, st)
            return [(U, self.mark(st, ("effect",)))]
        return None

    # ------------------------------------------------------------------ closures given to the dispatcher
    def handler(self, sim, c, kind):
        lam = c.args[0] if c.args else None
        if lam is not None and lam[0] == "p":
            lam = sim.peek(c.st, lam[1])
        if (lam is None or lam[0] != "lam") and c.argpaths and c.argpaths[0] is not None:
            lam = sim.peek(c.st, c.argpaths[0])
        self.l.handlers.setdefault(kind, [])
        if lam is None or lam[0] != "lam":
            self.l.handlers[kind].append((None, c.fn, c.node))
            return
        if (lam[1], c.node) not in [(h[0], h[2]) for h in self.l.handlers[kind]]:
            self.l.handlers[kind].append((lam[1], c.fn, c.node))

    def finish(self, sim, fn, rv, st):
        v = sim.const_of(st, rv)
        has = lambda t: (t,) in st.ts
        if self.role == "init":
            regs = {k[1]: k[2] for k in st.ts if k[0] == "reg"}
            un = {k[1] for k in st.ts if k[0] == "unreg"}
            if regs and not has("fresh"):
                self.report("initialize-once", "initialize", fn, None, "handlers are registered although the machine may already be initialized", st)
            if v is None:
                self.report("result", "initialize", fn, None, "the result is not determined by what was done", st)
            elif v:
                miss = [k for k in REG.values() if regs.get(k) is None]
                if not has("fresh") or not has("started") or miss or not has("dset") or not has("startup") or un:
                    self.report("success-means-ready", "initialize", fn, None, "initialize() reports success although %s" % (
                        "the machine was already initialized" if not has("fresh") else "the dispatcher was not started" if not has("started") else
                        "the %s handler is not registered" % miss[0] if miss else "the dispatcher is not remembered" if not has("dset") else
                        "the initial state was not entered" if not has("startup") else "a handler was unregistered"), st)
            else:
                if has("startup"):
                    self.report("failure-has-no-effect", "initialize", fn, None, "initialize() reports failure although the initial state was entered", st)
                left = [k for k, s in regs.items() if s is not None and k not in un]
                if left:
                    self.report("failure-has-no-effect", "initialize", fn, None, "initialize() fails but leaves the %s handler registered" % left[0], st)
                if has("dset"):
                    self.report("failure-has-no-effect", "initialize", fn, None, "initialize() fails but the machine counts as initialized", st)
        elif self.role == "release":
            if not has("stopset"):
                self.report("release-stops", "release", fn, None, "release() does not stop the processing of events", st)
            if not has("nodisp"):
                for k in REG.values():
                    if ("unreg", k) not in st.ts:
                        self.report("release-unregisters", "release", fn, None, "release() leaves the %s handler registered" % k, st)
                if not has("dreset"):
                    self.report("release-forgets-dispatcher", "release", fn, None, "after release() the machine still counts as initialized", st)
                if not has("gatewait"):
                    self.report("release-waits", "release", fn, None, "release() does not wait (after stopping the machine) until the current event is processed", st)
        elif self.role == "handler":
            ok = has("alive") and has("run")
            if ok and not has("effect") and not (self.kind == "timer" and has("unknown")):
                self.report("handler-does-its-job", self.kind, fn, None, "the %s handler does nothing although the machine is alive" % self.kind, st)
            if v is None or bool(v) != bool(ok):
                self.report("handler-result", self.kind, fn, None, "the %s handler tells the dispatcher %s" % (self.kind, "that it is gone although the machine is alive" if ok else "that it is still usable although the machine is gone or released"), st)


RULES = {
    "P07": ("weak-capture", "handler-checks-owner", "handler-checks-release", "handler-does-its-job", "handler-result"),
    "P08": ("release-stops", "release-unregisters", "unregister-right-handler", "release-forgets-dispatcher", "release-waits", "destructor-releases", "back-reference-reset"),
    "P22": ("registered-once", "startup-once", "startup-when-ready", "initialize-once", "result", "success-means-ready", "failure-has-no-effect"),
}


def strong(ty):
    t = norm(ty)
    if "weak_ptr" in t:
        return False
    return ("HierarchicalStateMachine" in t) and ("*" in t or "&" in t or "shared_ptr" in t)


def closure_nodes(prog, key):
    """Lambda node that creates closure `key`"""
    for f in prog.fns.values():
        for n in f.nodes:
            if n["k"] == "Lambda" and n["fn"] == key:
                return f, n
    return None, None


@functools.lru_cache(None)
def run_all(config):
    prog = model.load(config)
    l = Life(prog)
    l.handlers, l.fields = {}, {}
    res, counts, n = [], {}, 0

    def go(f, role, kind=None, args=None, arg=None):
        nonlocal n
        c = LifeClient(l, role, kind)
        c.arg = arg
        sim = Sim(prog, c)
        outs = sim.run(f, args=args, st=State(ts=frozenset()))
        for rv, st in outs:
            c.finish(sim, f, rv, st)
        n += len(outs)
        res.extend((b, f) for b in c.bad)
        for k, v in c.counts.items():
            counts.setdefault((role, k), set()).update(v)
        return outs

    outs = go(l.x.init, "init")
    for rv, st in outs:
        regs = {k[2]: k[1] for k in st.ts if k[0] == "reg" and k[2] is not None}
        for p, v in st.heap.items():
            if v in regs and isinstance(p[-1], str) and len(p) == 2 and p[0] == "this":
                l.fields[regs[v]] = p[-1]
    if set(l.fields) != set(REG.values()) and not res:
        raise model.AnalysisBroken("ids of the registered handlers are not stored in the machine: %s" % l.fields)
    go(l.x.release, "release")
    caps = 0
    for kind, hs in sorted(l.handlers.items()):
        for key, f, node in hs:
            if key is None:
                # not a closure: look for a reference to the machine in the argument
                bad = False
                todo = list(f.nodes[node].get("args", ()))
                while todo:
                    i = todo.pop()
                    m = f.nodes[i]
                    if m["k"] == "This" or strong(str(m.get("ty", ""))):
                        bad = True
                    todo += [q for q in m.get("c", ()) if isinstance(q, int)] + list(m.get("args", ()))
                if bad:
                    res.append((("weak-capture", kind, f.loc(node), "the %s handler keeps a reference to the machine that does not notice its destruction" % kind, []), f))
                continue
            cf, cn = closure_nodes(prog, key)
            for cap in (cn or {}).get("caps", ()):
                caps += 1
                if cap.get("this") or strong(str(cap.get("ty", ""))) or cap.get("byref"):
                    res.append((("weak-capture", kind, f.loc(node), "the %s handler keeps %s: %s" % (
                        kind, "`this`" if cap.get("this") else "`%s`" % cap.get("name"),
                        "it is a reference to a local variable" if cap.get("byref") else "the machine would be used after its destruction or would never be destroyed"), []), f))
            g = prog.fns[key]
            arg = ("s", ("handler-argument",), False)
            go(g, "handler", kind, {0: arg} if g.params else None, arg)
    # destructors
    for cls in (IMPL, FACADE):
        d = [f for f in prog.fns.values() if f.cls == cls and f.kind == "dtor" and f.blocks]
        if not d:
            res.append((("destructor-releases", cls.rsplit("::", 1)[-1], l.x.release.loc(), "%s has no destructor that releases the machine" % cls, []), l.x.release))
        for f in d:
            c = DtorClient(l)
            sim = Sim(prog, c)
            for rv, st in sim.run(f, st=State(ts=frozenset())):
                n += 1
                if "rel" not in st.ts:
                    res.append((("destructor-releases", f.short(), f.loc(), "the destructor does not release the machine on every path", []), f))
                if cls == FACADE and "parent" not in st.ts:
                    res.append((("back-reference-reset", f.short(), f.loc(), "the implementation keeps a reference to the destroyed object", []), f))
    counts[("closures", "captures")] = set(range(caps))
    return l, res, counts, n


class DtorClient(EvClient):
    def __init__(self, l):
        self.l = l
        super().__init__(l.p, l.r)
        self.noinline.add(l.x.release.key)
        self.back = {(IMPL, f["name"]) for f in l.p.classes[IMPL]["fields"] if norm(f["type"]).replace(" ", "") == FACADE + "*"}
        self.relevant = l.p.reach_pred(lambda f, n: n["k"] == "Call" and n.get("fn") == l.x.release.key or n["k"] == "Field" and (n.get("owner"), n["name"]) in self.back)

    def inline(self, sim, fn, call_fn):
        return fn.key in self.relevant and fn.key not in self.noinline and fn.cls in (IMPL, FACADE, "", None)

    def access(self, sim, fn, node, path, kind, st):
        if kind in ("w", "rw") and self.owner.get(path) in self.back:
            return st.with_ts(st.ts | {"parent"})
        return st

    def on_call(self, sim, c):
        if c.key == self.l.x.release.key:
            return [(U, c.st.with_ts(c.st.ts | {"rel"}))]
        return None


def emit(rep, tier, prop):
    for config in configs(tier):
        l, res, counts, n = run_all(config)
        for rule in RULES[prop]:
            mine = [(b, f) for b, f in res if b[0] == rule]
            for (r, key, loc, msg, path), f in mine:
                rep.violate(r, "%s in %s" % (key, f.short()), loc, msg, path)
            if not mine:
                rep.ob(rule, True)
        for (role, k), v in sorted(counts.items()):
            rep.stat("%s_%s" % (role, k), len(v))
        rep.stat("path_classes", n)
        if not rep.violations:
            for k in (("init", "dispatcher-calls"), ("release", "dispatcher-calls"), ("init", "startup"), ("handler", "handler-effects")):
                if not counts.get(k):
                    raise model.AnalysisBroken("%s of %s not recognised" % (k[1], k[0]))


@check("P07", "Closures registered at the dispatcher: captures (no owning or raw reference to the machine), and every path of their bodies (machine alive and not released before it is used, "
       "the right operation with the right event, the right answer to the dispatcher).", ASSUME, TECH)
def p07(rep, tier):
    emit(rep, tier, "P07")


@check("P08", "Every path of release() and of the destructors: stop flag, unregistration of all three handlers with their own ids, dispatcher reference, wait for the event in progress, in this order.", ASSUME, TECH)
def p08(rep, tier):
    emit(rep, tier, "P08")


@check("P22", "Every path of initialize() with every combination of outcomes of the dispatcher's calls: success implies that everything was set up and the initial state entered exactly once; "
       "failure implies that everything was undone.", ASSUME, TECH)
def p22(rep, tier):
    emit(rep, tier, "P22")
