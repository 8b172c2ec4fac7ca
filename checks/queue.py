"""P10 (one dispatch at a time), P12 (synchronous transitions), P13 (order of the queue), P14 (clearing the queue)."""
import re
import functools
from engine.registry import check
from engine import model
from engine.events import EvClient, Roles, IMPL, IFACE, INSERT, FRONT_INS, BACK_INS, machine, iter_cmp, algo
from engine.rolesets import closure_roles, transition_root
from engine.sim import Sim, State, U, TRUE, FALSE, tmpl, contains
from checks.concurrency import ASSUME, configs, norm
from checks.transition import TECH
from checks.outcome import event_root

GUARDS = {"hsmcpp::LockGuard", "hsmcpp::UniqueLock", "std::lock_guard", "std::unique_lock", "std::scoped_lock"}


class Parts:
    """constructs shared by the rules, found by type"""

    def __init__(self, prog):
        self.p = prog
        self.roles = r = Roles(prog)
        self.event_fn, self.inner = event_root(prog, r)
        self.post = r.impl_of("transitionExWithArgsArray")
        ev = r.event_cls
        meth = [f for f in prog.fns.values() if f.cls == ev and f.blocks]
        self.m_complete, self.m_init, self.m_wait = {}, set(), set()
        for f in meth:
            if f.kind in ("ctor", "dtor") or f.name.startswith("operator"):
                continue
            cl = [prog.fns[k] for k in prog.callgraph_closure([f.key]) if k in prog.fns and prog.fns[k].cls == ev]
            notifies = any(n["k"] == "Call" and n.get("name") in ("notify", "notify_one", "notify_all") for g in cl for n in g.nodes)
            makes = any(n["k"] == "Call" and tmpl(n.get("qn", "")) == "std::make_shared" and "Condition" in str(n.get("ty", "")) for g in cl for n in g.nodes)
            if norm(f.ret).endswith("HsmEventStatus"):
                self.m_wait.add(f.key)
            elif notifies:
                i = next((i for i, p in enumerate(f.params) if norm(p["type"]).replace("&", "").strip().endswith("HsmEventStatus")), None)
                self.m_complete[f.key] = i
            elif makes:
                self.m_init.add(f.key)
        if not self.m_complete or not self.m_init or not self.m_wait:
            raise model.AnalysisBroken("synchronisation of pending events not recognised")
        self.st = {v["name"]: v["value"] for v in prog.enums["hsmcpp::HsmEventStatus"]["values"]}
        self.good = {self.st["PENDING"], self.st["DONE_OK"]}
        self.REGULAR = next(v["value"] for v in prog.enums["hsmcpp::TransitionBehavior"]["values"] if v["name"] == "REGULAR")
        self.f_behav = next(f["name"] for f in prog.classes[ev]["fields"] if norm(f["type"]).endswith("TransitionBehavior"))
        fl = [f["name"] for f in prog.classes[IMPL]["fields"] if norm(f["type"]) == "hsmcpp::AtomicFlag"]
        if len(fl) != 1:
            raise model.AnalysisBroken("dispatch gate not found")
        self.gate = (IMPL, fl[0])
        sf = [f["name"] for f in prog.classes[IMPL]["fields"] if "atomic<bool>" in norm(f["type"])]
        self.stops = {(IMPL, x) for x in sf}
        self.release = r.impl_of("release")
        self.init = r.impl_of("initialize")
        callers = [f for f in prog.fns.values() if machine(f) and self.event_fn.key in prog.callees(f) and f.key != self.event_fn.key]
        while True:
            up = [f for f in prog.fns.values() if machine(f) and f.kind != "lambda" and any(c.key in prog.callees(f) for c in callers) and f not in callers]
            up = [f for f in up if self.event_fn.key not in prog.callgraph_closure([f.key]) or True]
            up = [f for f in up if not any(prog.fns[k].kind == "lambda" for k in prog.callees(f) if k in prog.fns and any(c.key in prog.callees(prog.fns[k]) for c in callers))]
            if not up:
                break
            callers = up
        self.dispatch = callers
        if len(self.dispatch) != 1:
            raise model.AnalysisBroken("dispatching function is ambiguous: %s" % [f.short() for f in self.dispatch])
        self.dispatch = self.dispatch[0]
        self.starts = [f for f in prog.fns.values() if f.cls == IMPL and f.kind not in ("ctor", "dtor") and f.key not in prog.callgraph_closure([self.inner.key]) and
                       "CHANGED" in closure_roles(prog, r, f.key) and "EXIT" not in closure_roles(prog, r, f.key)]
        self.starts = [f for f in self.starts if not any(g.key != f.key and f.key in prog.callgraph_closure([g.key]) for g in self.starts)] or self.starts


class QueueClient(EvClient):
    """marks: ('g',guard) lock guards alive; ('gate',) dispatch gate taken; ('gatecl',) cleared, not yet notified; ('stop',) stop flag seen or set; ('run',) seen clear while gate held
    ('taken',rec) event copied from the front of the queue; ('popped',); ('disp',rec); ('res',rec,status); ('compl',rec); ('ins',) ('emit',) ('clr',) ('clrend',) ('left',)"""
    eq_facts = True
    compact = True

    def __init__(self, parts, root, role, flags=()):
        self.x = parts
        self.root, self.role, self.flags = root, role, dict(flags)
        self.seen_ops = set()
        super().__init__(parts.p, parts.roles)
        self.noinline |= {parts.event_fn.key}
        if role != "transition":
            self.noinline.add(parts.inner.key)
        if role != "post":
            # posting an event is analysed on its own
            self.noinline |= {parts.post.key}
        self.noinline |= {f.key for f in parts.p.fns.values() if f.cls == parts.roles.event_cls}

    def interesting(self, f, n):
        if n["k"] == "Field":
            o = (n.get("owner"), n["name"])
            return o == self.roles.queue or o == self.x.gate or o in self.x.stops
        if n["k"] == "Call":
            return n.get("fn") in (self.x.event_fn.key,) or n.get("fn") in self.x.m_complete or str(n.get("qn", "")).startswith(IFACE + "::")
        return False

    def inline(self, sim, fn, call_fn):
        if not machine(fn):
            return False
        if self.role == "transition" or self.role == "release":
            return super().inline(sim, fn, call_fn)
        return super().inline(sim, fn, call_fn)

    def join_key(self, st):
        return (st.ts, frozenset((k, v) for k, v in st.env.items() if v[0] in ("c", "it")))

    def sticky(self, k):
        return k[-1] in ("#role", "#sync", "#abandoned")

    def stable(self, path):
        return super().stable(path) or path[-1] == self.x.f_behav or len(path) == 1

    def mark(self, st, *items, note=None):
        return st.with_ts(st.ts | frozenset(items), note)

    def drop(self, st, pred):
        d = frozenset(k for k in st.ts if pred(k))
        return st.with_ts(st.ts - d) if d else st

    def has(self, st, tag):
        return any(k[0] == tag for k in st.ts)

    def is_queue(self, path):
        return path is not None and self.owner.get(path) == self.roles.queue

    def guarded(self, st):
        return self.has(st, "g")

    # ------------------------------------------------------------------ objects
    def on_construct(self, sim, c):
        cls = tmpl(c.n["cls"])
        if cls in GUARDS and c.args and not (c.n.get("copy") or c.n.get("move")):
            return [self.mark(c.st, ("g", c.target))]
        if cls == self.roles.event_cls:
            if len(c.args) == 1 and c.argpaths[0] is not None:
                return [self.copy_event(sim, c, c.st, c.argpaths[0], c.target)]
            st = sim.kill_path(c.st, c.target)
            return [st]
        if cls in ("std::list", "std::deque") and len(c.args) == 1 and self.is_queue(c.argpaths[0]):
            return [self.drain(sim, c, c.st, c.target, bool(c.n.get("move")))]
        return None

    def copy_event(self, sim, c, st, src, dst):
        self.lost(sim, c, st, dst, "is overwritten")
        st = self.drop(st, lambda k: len(k) > 1 and k[1] == dst)
        behav = st.heap.get(src + (self.x.f_behav,))
        sync = st.heap.get(src + ("#sync",))
        st = sim.kill_path(st, dst).copy()
        if behav is not None:
            st.heap[dst + (self.x.f_behav,)] = behav
        if sync is not None:
            st.heap[dst + ("#sync",)] = sync
        if len(src) > 1 and self.is_queue(src[:-1]):
            if st.heap.get(src + ("#front",)) != TRUE:
                self.report("fifo-consume", "queue", c.fn, c.node, "an event is taken from elsewhere than the front of the queue", st)
            st = self.mark(st, ("taken", dst), note=("event is taken from the queue", c.fn, c.node))
        else:
            for k in list(st.ts):
                if k[0] == "taken" and k[1] == src:
                    st = self.mark(self.drop(st, lambda q: q[0] == "taken" and q[1] == src), ("taken", dst))
        return st

    def lost(self, sim, c_or_loc, st, path, how, fn=None):
        f = fn or c_or_loc.fn
        node = None if fn else c_or_loc.node
        if ("taken", path) in st.ts:
            if ("disp", path) not in st.ts:
                self.report("taken-is-dispatched", "queue", f, node, "an event taken from the queue %s without being processed" % how, st)
            elif ("compl", path) not in st.ts:
                self.report("completion-after-dispatch", "event", f, node, "a processed event %s without reporting its result to a waiting thread" % how, st)

    def on_destroy(self, sim, path, rec, loc, st):
        if ("g", path) in st.ts:
            st = st.with_ts(st.ts - {("g", path), ("isempty",)})
            if not self.guarded(st):
                if ("clr",) in st.ts and ("ins",) not in st.ts and self.role == "post":
                    self.report("clear-and-append-atomic", "queue", loc[0], None, "the queue is unlocked between clearing it and appending the new event", st)
                if any(k[0] == "taken" for k in st.ts) and ("popped",) not in st.ts:
                    self.report("consume-removes", "queue", loc[0], None, "an event is taken from the queue but is still queued when the queue is unlocked", st)
                if ("popped",) in st.ts and not any(k[0] == "taken" for k in st.ts):
                    self.report("consume-removes", "queue", loc[0], None, "an event is removed from the queue without having been taken", st)
                if ("popped",) in st.ts:
                    st = self.mark(self.drop(st, lambda k: k == ("popped",)), ("consumed",))
            return [st]
        if any(k[0] == "taken" and k[1] == path for k in st.ts):
            self.lost(sim, loc, st, path, "is destroyed", fn=loc[0])
            st = self.drop(st, lambda k: len(k) > 1 and k[1] == path)
        return [st]

    def drain(self, sim, c, st, dst, moved):
        self.whole(c, st)
        st = sim.kill_path(st, dst).copy()
        st.heap[dst + ("#abandoned",)] = TRUE
        return self.mark(st, ("drained", dst), ("isempty",), note=("queue is emptied", c.fn, c.node))

    def whole(self, c, st):
        if ("stopset",) not in st.ts:
            self.report("whole-queue-on-release", "queue", c.fn, c.node, "all queued events (including parts of ongoing transitions) are dropped although the machine was not stopped", st)

    # ------------------------------------------------------------------ events
    def access(self, sim, fn, node, path, kind, st):
        o = self.owner.get(path)
        if o in self.x.stops and kind in ("w", "rw"):
            self.count("stop-flag", fn.loc(node))
        return st

    def on_call(self, sim, c):
        st, n, name, cls = c.st, c.n, c.name, str(c.n.get("cls", ""))
        op = n.get("op")
        o = self.owner.get(c.objpath) if c.objpath is not None else None
        if c.key == self.x.event_fn.key:
            return self.dispatch(sim, c)
        if o in self.x.stops:
            if name == "operator=" or name in ("store", "exchange"):
                v = c.args[0] if c.args else None
                if sim.const_of(st, v) == 1:
                    return [(v, self.mark(st, ("stopset",), ("stop",)))]
                return [(U, self.drop(st, lambda k: k in (("stopset",), ("stop",), ("run",))))]
            if ("stopset",) in st.ts:
                return [(TRUE, st)]
            return [(FALSE, self.mark(st, ("run",)) if ("gate",) in st.ts else st), (TRUE, self.mark(self.drop(st, lambda k: k == ("run",)), ("stop",)))]
        if o == self.x.gate:
            return self.gateop(sim, c, name)
        if c.key in self.x.m_complete or c.key in self.x.m_wait or c.key in self.x.m_init:
            return self.method(sim, c)
        if cls in ("hsmcpp::UniqueLock", "std::unique_lock") and name in ("lock", "unlock") and c.objpath is not None:
            if name == "lock":
                return [(U, self.mark(st, ("g", c.objpath)))]
            return [(U, s) for s in self.on_destroy(sim, c.objpath, cls, (c.fn, c.node), st)]
        if str(n.get("qn", "")).startswith(IFACE + "::") or (c.key and c.key in self.p.fns and self.p.fns[c.key].cls and self.p.fns[c.key].cls in self.disp_classes()):
            if name == "emitEvent":
                self.count("emit", c.fn.loc(c.node))
                return [(U, self.mark(self.drop(st, lambda k: k[0] == "left"), ("emit",), note=("dispatcher is notified", c.fn, c.node)))]
            v, st = sim.sym(c.fn, c.node, c.depth, st)
            return [(v, st)]
        # reference to the dispatcher
        if name == "operator bool" and "IHsmEventDispatcher" in str(n.get("qn", "")) or op in ("==", "!=") and "IHsmEventDispatcher" in str(n.get("ptys", "")) and any(c.fn.nodes[a]["k"] == "Null" for a in n["args"]):
            yes, no = (TRUE, FALSE) if op != "==" else (FALSE, TRUE)
            outs = [(yes, self.mark(st, ("disp?",)))]
            if ("disp?",) not in st.ts:
                outs.append((no, self.mark(st, ("nodisp",))))
            return outs
        if c.objpath is not None and "obj" in n and self.is_queue(c.objpath):
            return self.qop(sim, c, name)
        if cls == self.roles.event_cls and name == "operator=" and c.objpath is not None and c.argpaths and c.argpaths[0] is not None:
            return [(("p", c.objpath), self.copy_event(sim, c, st, c.argpaths[0], c.objpath))]
        if name == "swap" and any(self.is_queue(p) for p in c.argpaths + [c.objpath]):
            other = next((p for p in c.argpaths + [c.objpath] if p is not None and not self.is_queue(p)), None)
            if other is not None:
                return [(U, self.drain(sim, c, st, other, True))]
        if name == "operator=" and c.argpaths and self.is_queue(c.argpaths[0]) and c.objpath is not None:
            return [(("p", c.objpath), self.drain(sim, c, st, c.objpath, True))]
        if op in ("++", "--") and c.objpath is not None:
            it = sim.peek(st, c.objpath)
            pa = c.fn.parents.get(c.node)
            while pa is not None and c.fn.nodes[pa[0]]["k"] in ("Cast", "Construct", "Temp"):
                pa = c.fn.parents.get(pa[0])
            if pa is not None and c.fn.nodes[pa[0]]["k"] == "Call" and str(c.fn.nodes[pa[0]].get("qn", "")).endswith("::erase"):
                return None     # erase(it++): the element is dealt with by erase()
            if it is not None and it[0] == "it" and it[2] != ("END",):
                self.next_elem(sim, c, st, it[1] + (("[]", it[2]),))
                c.st = self.drop(st, lambda k: len(k) > 1 and contains(k[1], it[2]))
            return None
        ic = iter_cmp(c)
        if ic is not None:
            cont, sym, eq = ic
            if self.is_queue(cont) or st.heap.get(cont + ("#abandoned",)) == TRUE:
                known = TRUE if sym == ("END",) else st.facts.get(("s", ("isend", sym), True))
                outs = []
                if known != TRUE:
                    s2 = st.copy()
                    s2.facts[("s", ("isend", sym), True)] = FALSE
                    outs.append((FALSE if eq else TRUE, s2))
                if known != FALSE:
                    outs.append((TRUE if eq else FALSE, self.mark(st, ("clrend",) if self.is_queue(cont) else ("abend", cont))))
                return outs
        r = algo(self, sim, c, lambda cont, s: self.mark(s, ("abend", cont)) if s.heap.get(cont + ("#abandoned",)) == TRUE else self.mark(s, ("clrend",)) if self.is_queue(cont) else s)
        if r is not None:
            return r
        if self.role in ("start", "init") and c.key in self.p.fns:
            cr = closure_roles(self.p, self.roles, c.key) & {"ENTER", "EXIT", "CHANGED", "TRANS"}
            if cr and c.key not in self.relevant:
                self.count("startup-callbacks", c.fn.loc(c.node))
                if ("gate",) not in st.ts:
                    self.report("callbacks-inside-gate", "startup", c.fn, c.node, "callbacks of the initial state are executed while events can already be dispatched", st)
        return None

    def disp_classes(self):
        r = self.__dict__.get("_dc")
        if r is None:
            r = self._dc = set(self.p.subclasses(IFACE)) | {IFACE}
        return r

    def gateop(self, sim, c, name):
        st = c.st
        if name == "test_and_set":
            self.count("gate", c.fn.loc(c.node))
            if ("gate",) in st.ts:
                return [(TRUE, st)]
            return [(TRUE, self.mark(st, ("busy",))), (FALSE, self.mark(self.drop(st, lambda k: k[0] in ("run", "busy")), ("gate",), ("left", "gate"), note=("dispatch gate is taken", c.fn, c.node)))]
        if name == "clear":
            if ("gate",) not in st.ts:
                self.report("gate-owner-clears", "gate", c.fn, c.node, "the dispatch gate is opened by someone who does not own it", st)
            st = self.mark(self.drop(st, lambda k: k in (("gate",), ("run",))), ("gatecl",))
            if self.role in ("init", "start"):
                st = self.mark(st, ("left", "gate"))
            return [(U, st)]
        if name in ("notify", "notify_all"):
            return [(U, self.drop(st, lambda k: k == ("gatecl",)))]
        if name == "test":
            v, st = sim.sym(c.fn, c.node, c.depth, st, True)
            return [(v, st)]
        if name == "lock":
            return [(("p", (("t", c.depth, c.node),)), st)]
        return [(U, st)]

    def dispatch(self, sim, c):
        st = c.st
        self.count("dispatch", c.fn.loc(c.node))
        if ("gate",) not in st.ts:
            self.report("dispatch-inside-gate", "gate", c.fn, c.node, "an event is processed without owning the dispatch gate: two threads can execute transitions at the same time", st)
        elif ("run",) not in st.ts:
            self.report("no-dispatch-after-release", "gate", c.fn, c.node, "an event is processed on a path that did not check the stop flag after taking the dispatch gate", st)
        p = next((c.argpaths[i] for i, q in enumerate(self.x.event_fn.params) if norm(q["type"]).replace("&", "").strip() == self.roles.event_cls), None)
        if ("taken", p) not in st.ts or not {("popped",), ("consumed",)} & st.ts:
            self.report("fifo-consume", "dispatch", c.fn, c.node, "the processed event is not the one that was removed from the front of the queue", st)
        st = self.drop(st, lambda k: k[0] in ("res", "compl", "disp") or k in (("emit",), ("consumed",)))
        outs = []
        for v in self.x.st.values():
            outs.append((("c", v), self.mark(st, ("disp", p), ("res", p, v), ("left", "?"), note=("event is processed", c.fn, c.node))))
        return outs

    def method(self, sim, c):
        st, p = c.st, c.objpath
        if c.key in self.x.m_init:
            st = st.copy()
            if p is not None:
                st.heap[p + ("#sync",)] = TRUE
            return [(U, st)]
        if c.key in self.x.m_complete:
            i = self.x.m_complete[c.key]
            self.count("complete", c.fn.loc(c.node))
            if i is not None:
                v, st = self.sval(sim, c, i)
                v = sim.const_of(st, v)
                res = [k[2] for k in st.ts if k[0] == "res" and k[1] == p]
                if res and v != res[0]:
                    self.report("completion-status", "completion", c.fn, c.node, "the thread that waits for the event is given another status than the one of the transition", st)
                if not res and (v is None or v in self.x.good):
                    self.report("completion-status", "completion", c.fn, c.node, "an event that was not processed is reported as successful", st)
            elif any(k[0] == "res" and k[1] == p for k in st.ts):
                self.report("completion-status", "completion", c.fn, c.node, "the thread that waits for a processed event is always told that it failed", st)
            return [(U, self.mark(st, ("compl", p), note=("event is completed", c.fn, c.node)))]
        # wait
        self.count("wait", c.fn.loc(c.node))
        if ("ins",) not in st.ts:
            self.report("wait-for-queued", "wait", c.fn, c.node, "the caller waits for an event that was not queued", st)
        if ("emit",) not in st.ts:
            self.report("notify-before-wait", "wait", c.fn, c.node, "the caller waits for the event before the dispatcher was told about it", st)
        if self.role == "post" and "timeout" in self.flags and c.args:
            v, st = self.sval(sim, c, 0)
            if v is not None and v != self.flags["timeout"]:
                self.report("timeout-forwarded", "wait", c.fn, c.node, "the caller does not wait for the requested time", st)
        outs = []
        for v in self.x.st.values():
            outs.append((("c", v), self.mark(st, ("waited", v))))
        return outs

    # ------------------------------------------------------------------ queue
    def next_elem(self, sim, c, st, elem):
        """the loop leaves an element behind"""
        if self.is_queue(elem[:-1]) and self.role == "post":
            t = st.heap.get(elem + (self.x.f_behav,))
            self.count("kept", c.fn.loc(c.node))
            if sim.eqv(st, t, ("c", self.x.REGULAR)) is not False:
                self.report("clear-removes-all-pending", "queue", c.fn, c.node, "clearing the queue leaves an event in the queue that is not known to belong to an ongoing transition", st)
        if st.heap.get(elem[:-1] + ("#abandoned",)) == TRUE and ("compl", elem) not in st.ts:
            self.report("release-completes-waiters", "queue", c.fn, c.node, "an abandoned event is not completed: the thread that waits for it is never woken up", st)

    def removing(self, sim, c, st, elem, how):
        t = st.heap.get(elem + (self.x.f_behav,))
        if sim.eqv(st, t, ("c", self.x.REGULAR)) is not True:
            self.report("clear-keeps-ongoing", "queue", c.fn, c.node, "an event is dropped on a path that does not exclude that it belongs to an ongoing transition (entry point or history)", st)
        if ("compl", elem) not in st.ts:
            self.report("dropped-is-completed", "queue", c.fn, c.node, "a dropped event is not completed: the thread that waits for it is never woken up", st)
        return self.mark(st, ("clr",), note=("event is dropped (%s)" % how, c.fn, c.node))

    def qop(self, sim, c, name):
        st, n, q = c.st, c.n, c.objpath
        self.count("queue-op", c.fn.loc(c.node))
        if not self.guarded(st):
            self.count("unguarded", c.fn.loc(c.node))
        if name in ("begin", "cbegin"):
            s, st = sim.sym(c.fn, c.node, c.depth, st, False)
            st = st.copy()
            st.facts.pop(("s", ("isend", s), True), None)
            st.heap[q + (("[]", s), "#front")] = TRUE
            return [(("it", q, s), st)]
        if name in ("end", "cend"):
            return [(("it", q, ("END",)), st)]
        if name in ("front",):
            s, st = sim.sym(c.fn, c.node, c.depth, st, False)
            st = st.copy()
            st.heap[q + (("[]", s), "#front")] = TRUE
            return [(("p", q + (("[]", s),)), st)]
        if name == "back":
            s, st = sim.sym(c.fn, c.node, c.depth, st, False)
            return [(("p", q + (("[]", s),)), st)]
        if name in ("empty", "size"):
            if name == "size":
                v, st = sim.sym(c.fn, c.node, c.depth, st)
                st = self.drop(st, lambda k: k[0] == "left")
                return [(("c", 0), st), (("c", 1), self.mark(st, ("left", "more")) if self.has(c.st, "left") else st)]
            s2 = self.drop(st, lambda k: k[0] == "left")
            return [(TRUE, s2), (FALSE, self.mark(s2, ("left", "more")) if self.has(st, "left") else st)]
        if name == "pop_front":
            if self.role in ("post", "release", "transition"):
                return [(U, self.removing(sim, c, st, q + (("[]", "?"),), "pop_front"))]
            return [(U, self.mark(sim.kill_elems(st, q), ("popped",)))]
        if name in ("pop_back", "sort", "reverse", "unique", "splice", "merge", "resize", "assign"):
            self.report("fifo-consume", "queue", c.fn, c.node, "%s() changes the order of queued events or drops the newest one" % name, st)
            return [(U, sim.kill_elems(st, q))]
        if name == "remove_if":
            lam = c.args[0] if c.args else None
            if lam is not None and lam[0] == "p":
                lam = sim.peek(st, lam[1])
            if lam is None or lam[0] != "lam":
                self.report("clear-keeps-ongoing", "queue", c.fn, c.node, "events are dropped by an unknown condition", st)
                return [(U, st)]
            s, st = sim.sym(c.fn, c.node, c.depth, st, False)
            el = q + (("[]", s),)
            outs = [(U, self.mark(st, ("clrend",), ("clr",)))]
            st = st.copy()
            st.heap[("this", "#pin", "removed")] = s
            st.heap[el + (self.x.f_behav,)] = ("s", ("behaviour", s), False)
            c.st = st
            for rv, s2 in sim.call_lambda(lam, c.depth, st, [("p", el)], [el]):
                for truth in (True, False):
                    s3 = sim.assume(s2, rv, truth)
                    if s3 is None:
                        continue
                    if truth:
                        s3 = self.removing(sim, c, s3, el, "remove_if")
                    else:
                        self.next_elem(sim, c, s3, el)
            return outs
        if name == "erase" and c.args:
            v = c.args[0]
            if v is not None and v[0] == "p":
                v = sim.peek(st, v[1])
            if len(c.args) == 2:
                self.report("clear-keeps-ongoing", "queue", c.fn, c.node, "a range of queued events is dropped without regard to ongoing transitions", st)
                return [(U, st)]
            el = q + (("[]", v[2]),) if v is not None and v[0] == "it" else q + (("[]", "?"),)
            if st.heap.get(el + ("#front",)) == TRUE and any(k[0] == "taken" for k in st.ts):
                st = self.mark(st, ("popped",))
            else:
                st = self.removing(sim, c, st, el, "erase")
                st = self.drop(st, lambda k: len(k) > 1 and k[1] == el)
            st = sim.kill_path(st, el)
            s, st = sim.sym(c.fn, c.node, c.depth, st, False)
            st = st.copy()
            st.facts.pop(("s", ("isend", s), True), None)
            return [(("it", q, s), st)]
        if name == "clear":
            if ("isempty",) in st.ts and self.guarded(st):
                return [(U, st)]
            if self.has(st, "abend") or ("clrend",) in st.ts and self.role == "release":
                pass
            elif self.role == "release" or ("stopset",) in st.ts:
                self.report("release-completes-waiters", "queue", c.fn, c.node, "queued events are dropped without being completed: threads that wait for them are never woken up", st)
            self.whole(c, st)
            return [(U, self.mark(sim.kill_elems(st, q), ("drained", q), ("abend", q)))]
        if name == "swap":
            other = c.argpaths[0]
            return [(U, self.drain(sim, c, st, other, True))] if other is not None else [(U, st)]
        if name == "operator=":
            self.whole(c, st)
            return [(U, st)]
        if name in INSERT:
            return self.insert(sim, c, name, st, q)
        return None

    def insert(self, sim, c, name, st, q):
        self.count("insert", c.fn.loc(c.node))
        front = name in FRONT_INS
        if name in ("insert", "emplace"):
            v = c.args[0] if c.args else None
            if v is not None and v[0] == "p":
                v = sim.peek(st, v[1])
            front = v is not None and v[0] == "it" and st.heap.get(v[1] + (("[]", v[2]), "#front")) == TRUE
            if not front and not (v is not None and v[0] == "it" and v[2] == ("END",)):
                self.report("fifo-append", "queue", c.fn, c.node, "an event is inserted into the middle of the queue", st)
        src = c.argpaths[-1] if c.argpaths else None
        if self.role == "post":
            if front:
                self.report("fifo-append", "queue", c.fn, c.node, "a posted event overtakes the events that are already queued", st)
            if ("ins",) in st.ts:
                self.report("queued-once", "queue", c.fn, c.node, "one posted event is queued twice", st)
            if ("stop",) not in st.ts and not self.has(st, "stopchk"):
                pass
            if self.flags.get("clear") and ("clrend",) not in st.ts:
                self.report("clear-before-append", "queue", c.fn, c.node, "the queue is not (completely) cleared before the new event is appended although this was requested", st)
            if not self.flags.get("clear") and ("clr",) in st.ts:
                self.report("clear-only-on-request", "queue", c.fn, c.node, "queued events are dropped although this was not requested", st)
            sync = src is not None and st.heap.get(src + ("#sync",)) == TRUE
            if self.flags.get("sync") and not sync:
                self.report("sync-initialised", "queue", c.fn, c.node, "an event of a synchronous transition is queued without the means to wait for it", st)
            if self.has(st, "emit"):
                pass
        elif self.role in ("transition", "start", "init"):
            if not front:
                self.report("continuation-first", "queue", c.fn, c.node, "the continuation of a transition is appended behind events of the user: it is not completed before the next event", st)
            if self.role == "transition":
                t = st.heap.get(src + (self.x.f_behav,)) if src is not None else None
                if sim.eqv(st, t, ("c", self.x.REGULAR)) is not True and (src is None or st.heap.get(src + ("#sync",)) != TRUE):
                    self.report("continuation-keeps-waiter", "queue", c.fn, c.node, "the continuation of a transition is not derived from its event: a thread that waits for the event is not told about its result", st)
        return [(U, self.mark(sim.kill_elems(st, q), ("ins",), note=("event is queued", c.fn, c.node)))]

    # ------------------------------------------------------------------ end of a root
    def finish(self, sim, fn, rv, st):
        v = sim.const_of(st, rv)
        for k in st.ts:
            if k[0] == "taken":
                self.lost(sim, None, st, k[1], "is destroyed", fn=fn)
        if ("gate",) in st.ts:
            self.report("gate-always-opened", "gate", fn, None, "the dispatch gate stays closed: no event is ever processed again and release() never returns", st)
        if ("gatecl",) in st.ts:
            self.report("gate-notified", "gate", fn, None, "the dispatch gate is opened without waking up release()", st)
        if self.role in ("dispatch", "start") and self.has(st, "left") and ("stop",) not in st.ts and ("nodisp",) not in st.ts:
            self.report("remaining-events-notified", "queue", fn, None, "events may remain in the queue but the dispatcher is not asked to continue", st)
        if self.role == "post":
            ins = ("ins",) in st.ts
            waited = [k[1] for k in st.ts if k[0] == "waited"]
            if not ins:
                if not ({("stop",), ("nodisp",)} & st.ts):
                    self.report("accepted-is-queued", "queue", fn, None, "an event is not queued although the machine is initialized and not being released", st)
                if v != 0:
                    self.report("result", "result", fn, None, "an event that was not queued is reported as accepted", st)
            else:
                if ("emit",) not in st.ts:
                    self.report("queued-is-notified", "queue", fn, None, "an event is queued but the dispatcher is not told about it", st)
                if self.flags.get("sync"):
                    if not waited:
                        self.report("sync-waits", "wait", fn, None, "a synchronous transition returns without waiting for the event", st)
                    elif v is None or bool(v) != (waited[0] == self.x.st["DONE_OK"]):
                        self.report("result", "result", fn, None, "a synchronous transition returns %s although the event ended with status %s" % (
                            bool(v) if v is not None else "an unknown result", {b: a for a, b in self.x.st.items()}[waited[0]]), st)
                else:
                    if waited:
                        self.report("async-returns", "wait", fn, None, "an asynchronous transition waits", st)
                    if v != 1:
                        self.report("result", "result", fn, None, "a queued event is reported as not accepted", st)
        if self.role == "release":
            dr = [k[1] for k in st.ts if k[0] == "drained"]
            if not dr:
                self.report("release-drains", "queue", fn, None, "release() leaves events in the queue: threads that wait for them are never woken up", st)
            for p in dr:
                if ("abend", p) not in st.ts:
                    self.report("release-completes-waiters", "queue", fn, None, "release() does not complete all abandoned events", st)


RULES = {
    "P10": ("dispatch-inside-gate", "no-dispatch-after-release", "gate-owner-clears", "gate-always-opened", "gate-notified", "callbacks-inside-gate"),
    "P12": ("completion-after-dispatch", "completion-status", "sync-initialised", "sync-waits", "async-returns", "result", "wait-for-queued", "notify-before-wait", "timeout-forwarded",
            "continuation-keeps-waiter", "dropped-is-completed", "release-completes-waiters", "release-drains", "unlock-publishes", "wait-returns-status"),
    "P13": ("fifo-append", "fifo-consume", "consume-removes", "taken-is-dispatched", "continuation-first", "queued-once", "accepted-is-queued", "queued-is-notified",
            "remaining-events-notified", "whole-queue-on-release"),
    "P14": ("clear-before-append", "clear-only-on-request", "clear-keeps-ongoing", "clear-removes-all-pending", "clear-and-append-atomic"),
}


class MethodClient(EvClient):
    """the methods of a pending event that publish and read its status"""
    eq_facts = True

    def __init__(self, parts, status):
        self.x = parts
        self.status = status
        super().__init__(parts.p, parts.roles)
        self.sfield = next(f["name"] for f in parts.p.classes[parts.roles.event_cls]["fields"] if "HsmEventStatus" in f["type"])

    def interesting(self, f, n):
        return f.cls == self.roles.event_cls

    def stable(self, path):
        return super().stable(path) or len(path) == 2

    def on_construct(self, sim, c):
        if tmpl(c.n["cls"]) in GUARDS and c.args:
            return [c.st.with_ts(c.st.ts | {("g", c.target)})]
        return None

    def on_destroy(self, sim, path, rec, loc, st):
        return [st.with_ts(st.ts - {("g", path)})]

    def access(self, sim, fn, node, path, kind, st):
        return st

    def is_status(self, sim, st, path):
        return path is not None and self.sfield in path

    def on_call(self, sim, c):
        st, name = c.st, c.name
        cls = str(c.n.get("cls", ""))
        if name in ("notify", "notify_one", "notify_all"):
            return [(U, st.with_ts(st.ts | {("notified",)}))]
        if cls in ("hsmcpp::UniqueLock", "std::unique_lock") and name in ("lock", "unlock"):
            return [(U, st.with_ts(st.ts | {("g", c.objpath)} if name == "lock" else st.ts - {("g", c.objpath)}))]
        if name in ("wait", "wait_for") and "Condition" in cls or name in ("wait", "wait_for") and cls.startswith("std::condition"):
            ts = set(st.ts)
            if cls.startswith("hsmcpp::"):
                ts -= {("g", c.argpaths[0])}
            lam = next((a for a in c.args if a is not None and a[0] == "lam"), None)
            lam = lam or next((sim.peek(st, p) for p in c.argpaths if p is not None and (sim.peek(st, p) or ("",))[0] == "lam"), None)
            ts.add(("waited", name, None))
            if name == "wait_for" and len(c.args) > 1:
                v, st = self.sval(sim, c, 1)
                ts.discard(("waited", name, None))
                ts.add(("waited", name, v))
            s = sim.kill_path(st, ("this",) + (self.sfield,)) if False else st.copy()
            for k in [k for k in s.heap if self.sfield in k and k[-1] != "?"]:
                del s.heap[k]
            v, s = sim.sym(c.fn, c.node, c.depth, s.with_ts(frozenset(ts)))
            return [(v, s)]
        return None


def methods(rep_bad, x):
    """status published by completion, before the notification and under the lock; waiting honours the timeout"""
    p, ev = x.p, x.roles.event_cls
    sf = next(f["name"] for f in p.classes[ev]["fields"] if "HsmEventStatus" in f["type"])
    n = 0
    for key, i in x.m_complete.items():
        f = p.fns[key]
        for nm, val in x.st.items():
            if i is None and nm != "PENDING":
                continue
            c = MethodClient(x, val)
            sim = Sim(p, c)
            outs = sim.run(f, args={i: ("c", val)} if i is not None else None, st=State(ts=frozenset()))
            n += len(outs)
            for rv, st in outs:
                stored = [(k, v) for k, v in st.heap.items() if sf in k and k[-1] not in ("?", "*ptr") and k[-1] == "*"]
                issync = ("notified",) in st.ts or stored
                sv = sim.const_of(st, stored[0][1]) if stored else None
                if i is None:
                    if issync and (sv is None or sv in x.good or ("notified",) not in st.ts):
                        rep_bad.append(("unlock-publishes", "%s" % f.short(), f.loc(), "the waiting thread is not told that its event failed", []))
                    continue
                if not issync:
                    # only a path on which the event is not synchronous may do nothing
                    if not any(k[-1] == "?" and st.facts.get(v) == FALSE or v == FALSE for k, v in st.heap.items() if k[-1] == "?"):
                        rep_bad.append(("unlock-publishes", "%s" % f.short(), f.loc(), "completing a synchronous event does nothing", []))
                    continue
                if sv != val:
                    rep_bad.append(("unlock-publishes", "%s" % f.short(), f.loc(), "status %s is not published to the waiting thread" % nm, []))
                if nm != "PENDING" and ("notified",) not in st.ts:
                    rep_bad.append(("unlock-publishes", "%s" % f.short(), f.loc(), "the waiting thread is not woken up when the event ends with %s" % nm, []))
    for key in x.m_wait:
        f = p.fns[key]
        ti = next((i for i, q in enumerate(f.params) if norm(q["type"]) == "int"), None)
        tv = ("s", ("timeout",), False)
        c = MethodClient(x, None)
        sim = Sim(p, c)
        for rv, st in sim.run(f, args={ti: tv} if ti is not None else None, st=State(ts=frozenset())):
            n += 1
            w = [k for k in st.ts if k[0] == "waited"]
            v = sim.const_of(st, rv)
            if not w:
                if v is None or v == x.st["DONE_OK"]:
                    rep_bad.append(("wait-returns-status", f.short(), f.loc(), "success is reported without waiting", []))
                continue
            if not (rv is not None and rv[0] == "s" and isinstance(rv[1], tuple) and rv[1][0] == "ld" and sf in rv[1][1]) and not (v is not None and v not in x.good):
                rep_bad.append(("wait-returns-status", f.short(), f.loc(), "the result of waiting is not the status of the event", []))
            if any(k[1] == "wait_for" and k[2] != tv for k in w):
                rep_bad.append(("timeout-forwarded", f.short(), f.loc(), "the requested timeout is not used", []))
    return n


@functools.lru_cache(None)
def run_all(config):
    prog = model.load(config)
    x = Parts(prog)
    post = x.post
    jobs = []
    bools = [i for i, p in enumerate(post.params) if norm(p["type"]) == "bool"]
    ints = [i for i, p in enumerate(post.params) if norm(p["type"]) == "int"]
    if len(bools) != 2 or len(ints) != 2:
        raise model.AnalysisBroken("parameters of %s not recognised" % post.short())
    for cl in (0, 1):
        for sy in (0, 1):
            tv = ("s", ("timeout",), False)
            jobs.append((post, "post", {"clear": cl, "sync": sy, "timeout": tv}, {bools[0]: ("c", cl), bools[1]: ("c", sy), ints[1]: tv}))
    jobs.append((x.dispatch, "dispatch", {}, None))
    jobs.append((x.release, "release", {}, None))
    jobs.append((x.inner, "transition", {}, None))
    for f in x.starts:
        jobs.append((f, "start", {}, None))
    res, counts, n = [], {}, 0
    for f, role, flags, args in jobs:
        c = QueueClient(x, f, role, flags)
        sim = Sim(prog, c)
        st0 = State(ts=frozenset())
        if role == "transition":
            for q in f.params:
                if norm(q["type"]).replace("&", "").strip() == x.roles.event_cls:
                    st0.heap[(("o", "param:" + q["name"]), "#sync")] = TRUE
        outs = sim.run(f, args=args, st=st0)
        for rv, st in outs:
            c.finish(sim, f, rv, st)
        n += len(outs)
        res += [(b, f) for b in c.bad]
        for k, v in c.counts.items():
            counts.setdefault((role, k), set()).update(v)
    mb = []
    n += methods(mb, x)
    return x, res, mb, counts, n


def emit(rep, tier, prop):
    for config in configs(tier):
        x, res, mb, counts, n = run_all(config)
        for rule in RULES[prop]:
            mine = [(b, f) for b, f in res if b[0] == rule]
            for (r, key, loc, msg, path), f in mine:
                rep.violate(r, "%s in %s" % (key, f.short()), loc, msg, path)
            m2 = [b for b in mb if b[0] == rule]
            for r, key, loc, msg, path in m2:
                rep.violate(r, "event method " + key, loc, msg, path)
            if not mine and not m2:
                rep.ob(rule, True)
        for (role, k), v in sorted(counts.items()):
            rep.stat("%s_%s" % (role, k), len(v))
        rep.stat("path_classes", n)
        for k in (("post", "insert"), ("post", "wait"), ("post", "emit"), ("dispatch", "dispatch"), ("dispatch", "gate"), ("dispatch", "complete"), ("transition", "insert"), ("start", "insert"), ("start", "gate")):
            if not counts.get(k):
                if not rep.violations:
                    raise model.AnalysisBroken("%s of role %s not recognised" % (k[1], k[0]))


@check("P10", "Typestate of the dispatch gate on every path of dispatching, start-up and release: events are processed and the initial state is entered only by the owner of the "
       "gate, the stop flag is re-checked after taking it, and every path opens the gate and wakes release().", ASSUME, TECH)
def p10(rep, tier):
    emit(rep, tier, "P10")


@check("P12", "Life of a synchronous event on every path from the API call to its completion: initialised before it is queued, waited for only after the dispatcher was notified, completed with "
       "the status of its transition, completed as failed when it is dropped or the machine is released; the API result is derived from that status.", ASSUME, TECH)
def p12(rep, tier):
    emit(rep, tier, "P12")
    # the status that completes an event is the one its transitions produced
    from checks.outcome import outcome_obligations
    from checks.transition import emit_rules
    for config in configs(tier):
        outcome_obligations(rep, config, ("status",))
    emit_rules(rep, tier, ("veto-fails-transition",))


@check("P13", "Every operation on the event queue on every path: user events are appended, continuations are put in front, events are consumed only from the front and removed in the same "
       "locked section, everything taken is processed, and whoever leaves events behind notifies the dispatcher.", ASSUME, TECH)
def p13(rep, tier):
    emit(rep, tier, "P13")


@check("P14", "Every removal of queued events outside of dispatching: only on request (or release), only events that are not the continuation of an ongoing transition, all of those, "
       "in the same locked section and before the new event is appended.", ASSUME, TECH)
def p14(rep, tier):
    emit(rep, tier, "P14")
