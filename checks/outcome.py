"""P17: dispatching one event over all active states and the status it reports."""
from engine.registry import check
from engine import model
from engine.events import Roles, IMPL, INSERT, algo, iter_cmp
from engine.rolesets import transition_root, closure_roles
from engine.sim import Sim, State, U, TRUE, FALSE
from checks.concurrency import ASSUME, configs, norm
from checks.transition import TransClient, explore, TECH


class OutcomeClient(TransClient):
    """marks: ('res',status) a state accepted the event; ('all',) every active state was offered it; ('rel',) the machine is released;
    ('failcb',) failure reported / ('nofail',) no failure callback; ('enum',) the list of acceptors was completely compared with the next state"""

    def __init__(self, prog, roles, root, inner, hier):
        self.inner = inner
        self.hkeys = hier
        self.isinit = roles.impl_of("isInitialized").key
        super().__init__(prog, roles, root)
        self.noinline |= set(hier) | {inner.key, self.isinit}
        self.hier = hier
        for v in prog.enums["hsmcpp::HsmEventStatus"]["values"]:
            setattr(self, "ST_" + v["name"], v["value"])
        self.statuses = [v["value"] for v in prog.enums["hsmcpp::HsmEventStatus"]["values"]]
        self.FORCED = next(v["value"] for v in prog.enums["hsmcpp::TransitionBehavior"]["values"] if v["name"] == "FORCED")
        self.good = {self.ST_PENDING, self.ST_DONE_OK}

    def interesting(self, f, n):
        if n["k"] == "Call":
            if n.get("fn") == self.inner.key or n.get("fn") in self.hkeys:
                return True
            if n.get("name") == "operator()" and str(n.get("cls", "")).startswith("std::function") and f.key != self.inner.key:
                return "FAILED" in closure_roles(self.p, self.roles, f.key)
        return super().interesting(f, n) and f.key != self.inner.key

    def stable(self, path):
        ev = self.evpath(None)
        return super().stable(path) or ev is not None and len(path) == 2 and path[0] == ev[0]

    def purge_sym(self, sim, c, st, sub):
        from engine.sim import contains
        drop = frozenset(k for k in st.ts if len(k) == 2 and contains(k, sub))
        if any(k[1] == "ACC" for k in drop):
            drop -= {("lost",)}
            st = self.mark(st, ("lost",))
        return st.with_ts(st.ts - drop) if drop else st

    def complete(self, sim, fn, node, st, x):
        pass

    def learn(self, sim, st):
        return st

    def acclist(self, st, c):
        return st.heap.get(c + ("#acc",)) == TRUE

    def at_end(self, c):
        def f(cont, st):
            if self.is_active_cont(st, cont):
                return self.mark(st, ("all",))
            if ("need",) not in st.ts:
                return self.mark(st, ("enum",))
            return st
        return f

    def on_call(self, sim, c):
        st, n, name = c.st, c.n, c.name
        if c.key == self.inner.key:
            return self.single(sim, c)
        if c.key in self.hkeys:
            a, b = self.value(sim, c, 0)[0], self.value(sim, c, 1)[0]
            if a is None or b is None or a == U or b == U:
                return None
            ci = self.hkeys[c.key]
            x, y = (a, b) if ci in (1, None) else (b, a)         # x: parent, y: descendant
            st = st.with_ts(st.ts - {("need",)}) if not self.is_active_cont(st, self.cont_of(st, y)[0]) else st
            return [(TRUE, self.mark(st, (x, "BELOW"))), (FALSE, st)]
        if c.key == self.isinit:
            return [(TRUE, st), (FALSE, self.mark(st, ("rel",)))]
        cls = str(n.get("cls", ""))
        if cls.startswith("std::atomic") and name in ("operator bool", "load", "test") or (name.startswith("operator") and cls.startswith("std::atomic<bool")) and not c.args:
            return [(FALSE, st), (TRUE, self.mark(st, ("rel",)))]
        cb = self.is_cb(c, sim)
        if cb is not None and cb[0] == "FAILED":
            self.count("failed-callback", c.fn.loc(c.node))
            if ("failcb",) in st.ts:
                self.report("failure-once", "failure callback", c.fn, c.node, "the failed-transition callback is executed twice for one event", st)
            ev = self.evpath(sim)
            v, st = self.value(sim, c, 1)
            idf = next((f["name"] for f in self.p.classes[self.roles.event_cls]["fields"] if norm(f["type"]) in ("int", "hsmcpp::EventID_t")), None)
            want = ("s", ("ld", ev + (idf,)), False)
            if v is not None and v != U and v[0] in ("s", "c") and v != want and st.heap.get(ev + (idf,), want) != v:
                self.report("failure-event", "failure callback", c.fn, c.node, "the failed-transition callback is not given the event that failed", st)
            return [(U, self.mark(st, ("failcb",), note=("failed-transition callback", c.fn, c.node)))]
        if cb is None and (name == "operator bool" or n.get("op") in ("==", "!=")):
            r = None
            if name == "operator bool" and c.objpath is not None and cls.startswith("std::function"):
                r = self.fail_truth(c, c.objpath, False)
            elif "obj" not in n and len(n["args"]) == 2:
                for i in (0, 1):
                    if c.fn.nodes[n["args"][i]]["k"] == "Null" and c.argpaths[1 - i] is not None:
                        r = self.fail_truth(c, c.argpaths[1 - i], n["op"] == "==")
            if r is not None:
                return r
        r = algo(self, sim, c, self.at_end(c), lambda cont, s, st: self.taken(cont, st))
        if r is not None:
            return r
        ic = iter_cmp(c)
        if ic is not None:
            cont, sym, eq = ic
            known = TRUE if sym == ("END",) or st.heap.get(cont + ("#empty",)) == TRUE else st.facts.get(("s", ("isend", sym), True))
            outs = []
            if known != TRUE:
                s2 = st.copy()
                s2.facts[("s", ("isend", sym), True)] = FALSE
                outs.append((FALSE if eq else TRUE, self.taken(cont, s2)))
            if known != FALSE:
                # (a search that found nothing is not an enumeration)
                looped = sym != ("END",) or st.heap.get(cont + ("#empty",)) == TRUE or not self.is_active_cont(st, cont)
                outs.append((TRUE if eq else FALSE, self.at_end(c)(cont, st) if looped else st))
            return outs
        if name in INSERT and c.args and c.objpath is not None and "obj" in n and not self.owner.get(c.objpath) == self.roles.active:
            x, s2 = self.value(sim, c, len(c.args) - 1)
            if x is not None and "ACC" in self.marks(st, x):
                c.st = s2 = s2.with_ts(s2.ts - {(x, "ACC")}).copy()
                s2.heap[c.objpath + ("#acc",)] = TRUE
                if st.heap.get(c.objpath + ("#empty",)) is not None:
                    s2.heap[c.objpath + ("#empty",)] = FALSE
                return [(U, sim.kill_elems(s2, c.objpath))]
        return super().on_call(sim, c)

    def split_mem(self, st, x):
        # before anything is processed, the members of a copy of the active states are active
        if ("once",) not in st.ts and self.is_active_cont(st, self.cont_of(st, x)[0]):
            return [(True, self.set_mem(st, x, True))]
        return super().split_mem(st, x)

    def taken(self, cont, st):
        """an element of the list is looked at"""
        if self.is_active_cont(st, cont):
            return st.with_ts(st.ts - {("enum",), ("need",)})
        return self.mark(st, ("need",))

    def fail_truth(self, c, path, neg):
        v = c.st.heap.get(path + ("#role",))
        if v is None or v[1][0] != "FAILED":
            return None
        return [(FALSE if neg else TRUE, c.st), (TRUE if neg else FALSE, self.mark(c.st, ("nofail",)))]

    def single(self, sim, c):
        """one active state is offered the event"""
        st = c.st
        xi = next((i for i, p in enumerate(self.inner.params) if norm(p["type"]).replace("&", "").strip() == "int"), None)
        if xi is None:
            raise model.AnalysisBroken("source state parameter of %s not found" % self.inner.short())
        x, st = self.value(sim, c, xi)
        self.count("offer", c.fn.loc(c.node))
        m = self.marks(st, x)
        if self.mem(st, x) is not True:
            self.report("offer-active-only", "offer", c.fn, c.node, "an event is processed for a state on a path that does not establish that the state is (still) active", st)
        if self.order(st, x) == 1:
            self.report("offer-children-first", "offer", c.fn, c.node, "parent states are offered an event before their children", st)
        if "BELOW" in m:
            self.report("child-overrides-parent", "offer", c.fn, c.node, "a state processes the event although one of its descendants already did", st)
        elif ("acc",) in st.ts and ("enum",) not in st.ts:
            self.report("child-overrides-parent", "offer", c.fn, c.node, "a state processes the event on a path that did not check all descendants which accepted it", st)
        if ("lost",) in st.ts or any(k[1] == "ACC" for k in st.ts if len(k) == 2):
            self.report("acceptance-recorded", "offer", c.fn, c.node, "a state that accepted the event was not recorded before the next state is offered the event", st)
        ev = self.evpath(sim)
        bv = st.heap.get(ev + (self.f_behav,)) if ev is not None else None
        if ("once",) in st.ts and sim.eqv(st, bv, ("c", self.FORCED)) is not False:
            self.report("forced-once", "offer", c.fn, c.node, "a history transition can be executed more than once for one event", st)
        if ("rel",) in st.ts:
            self.report("stop-after-release", "offer", c.fn, c.node, "the event is offered to further states after the machine was released", st)
        st = st.with_ts(frozenset(k for k in st.ts if not (len(k) == 2 and k[1] in ("MEM0", "MEM1")) and k not in (("enum",), ("all",), ("need",))))
        st = self.mark(st, ("once",))
        outs = []
        for v in self.statuses:
            s2 = st
            if v in self.good:
                s2 = self.mark(st, ("res", ("v", v)), (x, "ACC"), ("acc",), note=("state accepts the event (%s)" % ("ongoing" if v == self.ST_PENDING else "done"), c.fn, c.node))
            outs.append((("c", v), s2))
        return outs

    def finish(self, sim, fn, rv, st):
        v = sim.const_of(st, rv)
        res = {k[1][1] for k in st.ts if len(k) == 2 and k[0] == "res"}
        rel = ("rel",) in st.ts
        if not rel:
            want = self.ST_PENDING if self.ST_PENDING in res else self.ST_DONE_OK if self.ST_DONE_OK in res else None
            if want is not None and v != want or want is None and (v is None or v in self.good):
                self.report("status", "status", fn, None, "the event is reported as %s although %s" % (
                    {None: "unknown", self.ST_PENDING: "ongoing", self.ST_DONE_OK: "done"}.get(v, "failed"),
                    {None: "no state accepted it", self.ST_PENDING: "a transition is still ongoing", self.ST_DONE_OK: "a state accepted it"}[want]), st)
            ev = self.evpath(sim)
            forced = ("once",) in st.ts and sim.eqv(st, st.heap.get(ev + (self.f_behav,)), ("c", self.FORCED)) is True
            if ("all",) not in st.ts and not forced:
                self.report("every-state-offered", "offer", fn, None, "not every active state is offered the event", st)
        called = ("failcb",) in st.ts
        if v is not None:
            if v in self.good and called:
                self.report("failure-iff-failed", "failure callback", fn, None, "a failure is reported for an event that was accepted", st)
            if v not in self.good and not called and ("nofail",) not in st.ts and not rel:
                self.report("failure-iff-failed", "failure callback", fn, None, "an event failed but the failed-transition callback is not executed", st)
        elif not rel:
            self.report("failure-iff-failed", "failure callback", fn, None, "the status of the event is unknown on this path", st)


RULES = ("status", "failure-iff-failed", "failure-once", "failure-event", "offer-active-only", "offer-children-first", "child-overrides-parent",
         "acceptance-recorded", "forced-once", "stop-after-release", "every-state-offered")


def event_root(prog, roles):
    inner, full = transition_root(prog, roles)
    c = [f for f in prog.fns.values() if f.cls == IMPL and inner.key in prog.callgraph_closure([f.key]) and f.key != inner.key and norm(f.ret).endswith("HsmEventStatus") and
         "FAILED" in closure_roles(prog, roles, f.key)]
    c = [f for f in c if not any(g.key != f.key and f.key in prog.callgraph_closure([g.key]) for g in c)]
    if len(c) != 1:
        raise model.AnalysisBroken("function that processes one event is ambiguous: %s" % [f.short() for f in c])
    return c[0], inner


def outcome_obligations(rep, config, rules=RULES):
    """all paths of the function that processes one event, reported for the given rules"""
    prog = model.load(config)
    roles = Roles(prog)
    root, inner = event_root(prog, roles)
    base = TransClient(prog, roles, inner)
    c = OutcomeClient(prog, roles, root, inner, base.hier)
    sim = Sim(prog, c)
    outs = explore(sim, c, root)
    for rv, st in outs:
        c.finish(sim, root, rv, st)
    for rule in rules:
        bad = [b for b in c.bad if b[0] == rule]
        for r, key, loc, msg, path in bad:
            rep.violate(r, "%s in %s" % (key, root.short()), loc, msg, path)
        if not bad:
            rep.ob(rule, True, sample="all %d path classes of %s" % (len(outs), root.short()))
    for k, v in c.counts.items():
        rep.stat(k, len(v))
    rep.stat("states", sim.nstates)
    rep.stat("path_classes", len(outs))
    if not c.counts.get("offer") or not c.counts.get("failed-callback"):
        raise model.AnalysisBroken("event processing not recognised in %s" % root.short())


@check("P17", "All paths of the function that processes one event: the state that executes the transition is treated as opaque and forks over every possible status; "
       "the reported status and the failure callback are compared with what the active states answered.", ASSUME, TECH)
def p17(rep, tier):
    for config in configs(tier):
        outcome_obligations(rep, config)
