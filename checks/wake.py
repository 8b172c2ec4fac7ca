"""P04: wake-ups are never lost."""
from engine.registry import check
from engine import lockdata, model
from engine.events import EvClient, Roles, IMPL, FACADE, BASE, IFACE, INSERT, is_container
from engine.sim import Sim, State, U, tmpl
from engine.locks import CV_WAIT, CV_NOTIFY, DISP_ANY
from checks.concurrency import ASSUME, configs, lk, norm

NATIVE_WAKE = {"write", "eventfd_write", "Glib::Dispatcher::emit", "QCoreApplication::postEvent", "QMetaObject::invokeMethod", "g_main_context_wakeup",
               "g_idle_add", "g_source_attach", "sem_post", "xTaskNotifyGive", "xTaskNotifyFromISR", "vTaskNotifyGiveFromISR"}


class WakeClient(EvClient):
    """ts: (tuple of queues with an unannounced insertion, native handle was tested)"""

    def __init__(self, prog, roles, owners, level):
        self.owners = owners
        self.level = level
        super().__init__(prog, roles)
        self.wakes = set()
        self.handles = set()
        self.tables = loop_tables(prog)
        for f in prog.fns.values():
            for n in f.nodes:
                if n["k"] == "Call" and (tmpl(n.get("qn", "")) in NATIVE_WAKE):
                    for i in ([n["obj"]] if "obj" in n else []) + list(n["args"]):
                        self._fields(f, i)

    def _fields(self, f, i):
        n = f.nodes[i]
        if n["k"] == "Field":
            self.handles.add((n.get("owner"), n["name"]))
        for ch, _ in f.kids(i):
            self._fields(f, ch)

    def interesting(self, f, n):
        if n["k"] != "Call":
            return False
        if n.get("name") in INSERT or tmpl(n.get("qn", "")) in NATIVE_WAKE or tmpl(n.get("qn", "")) in CV_NOTIFY:
            return True
        if n.get("name") == "operator[]" and "map<" in n.get("qn", "") + n.get("cls", ""):
            return True
        return n.get("name") == "emitEvent"

    def watch(self, c):
        if c.objpath is None or c.name not in INSERT | {"operator[]"}:
            return None
        o = self.owner.get(c.objpath)
        if o in self.tables and self.level == "dispatcher" and c.fn.key not in self.tables[o]:
            return o
        if c.name not in INSERT:
            return None
        if o is None or o[0] not in self.owners or not is_container(norm(self.ftype.get(o, ""))):
            return None
        if self.level == "machine":
            return o if o == self.roles.queue else None
        # a dispatcher queue: sequence of handler ids / events / actions waiting to be dispatched (maps are registries)
        t = norm(self.ftype[o])
        return o if t.startswith(("std::list", "std::vector", "std::deque", "std::queue")) else None

    def on_call(self, sim, c):
        st = c.st
        pend, tested = st.ts
        if self.level == "machine" and c.name == "emitEvent" and c.n.get("virt"):
            self.wakes.add(c.fn.key)
            self.count("wake", c.fn.loc(c.node))
            return [(U, st.with_ts(((), tested), ("wake-up", c.fn, c.node)))]
        if c.qn in CV_NOTIFY or c.qn in NATIVE_WAKE:
            self.wakes.add(c.fn.key)
            self.count("wake", c.fn.loc(c.node))
            return [(U, st.with_ts(((), tested), ("wake-up", c.fn, c.node)))]
        q = self.watch(c)
        if q is not None:
            self.count("insert", "%s.%s at %s" % (lk(q[0]), q[1], c.fn.loc(c.node)))
            it = (q, c.fn.key, c.node)
            s2 = st.with_ts((tuple(sorted(set(pend) | {it})), tested), ("insertion into %s" % q[1], c.fn, c.node))
            r = sim.default_call(c)
            return [(v, s.with_ts(s2.ts, ("insertion into %s" % q[1], c.fn, c.node))) for v, s in r]
        return None

    def on_branch(self, sim, fn, node, truth, st):
        if self._has_handle(fn, node):
            st = st.with_ts((st.ts[0], True))
        return st

    def _has_handle(self, fn, i):
        n = fn.nodes[i]
        if n["k"] == "Field" and (n.get("owner"), n["name"]) in self.handles:
            return True
        return any(self._has_handle(fn, ch) for ch, _ in fn.kids(i))


def loop_tables(prog):
    """associative containers that a thread examines to decide how long it sleeps on a condition -> functions of that thread"""
    res = {}
    for f in prog.fns.values():
        if not f.cls or not f.cls.startswith("hsmcpp::HsmEventDispatcher"):
            continue
        if not any(n["k"] == "Call" and tmpl(n.get("qn", "")) in CV_WAIT for n in f.nodes):
            continue
        for n in f.nodes:
            if n["k"] == "Field" and n.get("owner") == f.cls and is_container(norm(n.get("ty", ""))) and "map<" in n["ty"]:
                res.setdefault((n["owner"], n["name"]), set()).add(f.key)
    return res


def chain(prog, d):
    return [d] + prog.superclasses(d)


def pred_fields(prog, fn, node):
    """fields read by the predicate closure of a wait call; None if there is no predicate, () if it is not a visible lambda"""
    n = fn.nodes[node]
    tail = n["args"][1:]
    found = None
    args = [a for a in tail if a is not None and a >= 0]
    cand = [a for a in args if "function" in fn.nodes[a].get("ty", "") or fn.nodes[a]["k"] in ("Lambda",) or _lambda(fn, a) is not None]
    if not cand:
        return None
    lam = _lambda(fn, cand[-1])
    if lam is None:
        a = fn.nodes[cand[-1]]
        if a["k"] == "Construct" and all(fn.nodes[x]["k"] == "Null" for x in a["args"]):
            return None
        return ()
    todo, res, seen = [fn.nodes[lam]["fn"]], [], set()
    while todo:
        k = todo.pop()
        if k in seen or k not in prog.fns:
            continue
        seen.add(k)
        f = prog.fns[k]
        for m in f.nodes:
            if m["k"] == "Field" and m.get("owner", "").startswith("hsmcpp::"):
                res.append((m["owner"], m["name"]))
        todo += list(prog.callees(f))
    return tuple(sorted(set(res)))


def _lambda(fn, i):
    n = fn.nodes[i]
    if n["k"] == "Lambda":
        return i
    for ch, _ in fn.kids(i):
        r = _lambda(fn, ch)
        if r is not None:
            return r
    if n["k"] == "Ref":
        for m in fn.nodes:
            if m["k"] == "Decl":
                for v in m["vars"]:
                    if v["id"] == n.get("id") and v["init"] >= 0 and v["init"] != i:
                        return _lambda(fn, v["init"])
    return None


class PredWrite(EvClient):
    """after a predicate variable changes, its condition is notified before the function's caller regains control.
    ts: tuple of fields written and not yet announced"""

    def __init__(self, prog, roles, fields, waiters):
        self.fields = fields
        self.waiters = waiters
        super().__init__(prog, roles)

    def interesting(self, f, n):
        return n["k"] == "Call" and tmpl(n.get("qn", "")) in CV_NOTIFY

    def access(self, sim, fn, node, path, kind, st):
        o = self.owner.get(path)
        if o is None and path and path[-1] == "*":
            o = self.owner.get(path[:-1])
        if o in self.fields and kind in ("w", "rw") and fn.key not in self.waiters:
            st = st.with_ts(tuple(sorted(set(st.ts) | {(o, path)}, key=repr)), ("%s changes" % o[1], fn, node))
        return st

    def on_call(self, sim, c):
        if c.qn in CV_NOTIFY:
            return [(U, c.st.with_ts((), ("notification", c.fn, c.node)))]
        return None


class StopClient(EvClient):
    """ts: (flag raised, frozenset of conditions notified since, frozenset of predicate fields set)"""

    def __init__(self, prog, roles, flags):
        self.flags = flags
        super().__init__(prog, roles)

    def interesting(self, f, n):
        if n["k"] == "Field" and (n.get("owner"), n["name"]) in self.flags:
            return True
        return n["k"] == "Call" and tmpl(n.get("qn", "")) in CV_NOTIFY

    def access(self, sim, fn, node, path, kind, st):
        o = self.owner.get(path)
        if o in self.flags and kind == "w":
            st = st.with_ts((True, frozenset(), st.ts[2]), ("stop flag raised", fn, node))
        elif kind == "w" and o is not None:
            st = st.with_ts((st.ts[0], st.ts[1], st.ts[2] | {o}))
        return st

    def on_call(self, sim, c):
        if c.qn in CV_NOTIFY:
            o = self.owner.get(c.objpath)
            return [(U, c.st.with_ts((c.st.ts[0], c.st.ts[1] | {o}, c.st.ts[2]), ("notify", c.fn, c.node)))]
        return None


@check("P04", "Path-sensitive typestate over every function that inserts into an event/action queue: on every path the insertion is followed by a "
       "wake primitive of the dispatcher (condition notify, pipe write, Glib::Dispatcher::emit, postEvent) before control returns; every condition "
       "wait has a predicate, the predicate's variables are only written under the wait's mutex and each such write is followed by a notify; "
       "stop() raises the stop flag before it wakes every condition a dispatcher loop sleeps on.", ASSUME,
       technique="interprocedural typestate + lockset on wait predicates")
def p04(rep, tier):
    for config in configs(tier):
        prog = model.load(config)
        roles = Roles(prog)
        wakes = set()
        for d in prog.concrete_dispatchers():
            own = set(chain(prog, d))
            c = WakeClient(prog, roles, own, "dispatcher")
            sim = Sim(prog, c, d)
            n = 0
            for nm in DISP_ANY:
                for m in prog.classes[IFACE]["methods"]:
                    if m["name"] != nm:
                        continue
                    f = prog.fns.get(prog.final_overrider(m["key"], d))
                    if f is None or f.key not in c.relevant:
                        continue
                    sim.memo.clear()
                    c.handle_tested = False
                    for rv, st in sim.run(f, st=State(ts=((), False))):
                        pend, tested = st.ts
                        n += 1
                        for q, fk, node in pend:
                            if tested:
                                rep.ob("insert-then-wake")
                                continue
                            g = prog.fns[fk]
                            rep.violate("insert-then-wake", "%s in %s" % (q[1], g.short()), g.loc(node),
                                        "%s inserts into %s but a path of %s returns without waking the dispatcher" % (
                                            g.short(), q[1], f.short()), [c.show(x) for x in _tr(st)])
            for x in sorted(c.counts.get("insert", ())):
                rep.ob("insert-then-wake", sample="%s [%s]" % (x, d.split("::")[-1]))
            if not c.counts.get("insert"):
                raise model.AnalysisBroken("no queue insertion found for %s" % d)
            if not c.counts.get("wake"):
                f0 = next(f for f in prog.fns.values() if f.cls == d)
                rep.violate("insert-then-wake", "no wake primitive in %s" % d, f0.loc(), "%s never wakes its dispatching thread" % d)
        # the machine's own queue
        c = WakeClient(prog, roles, {IMPL}, "machine")
        sim = Sim(prog, c)
        for f in machine_roots(prog, c):
            sim.memo.clear()
            for rv, st in sim.run(f, st=State(ts=((), False))):
                for q, fk, node in st.ts[0]:
                    g = prog.fns[fk]
                    rep.violate("post-then-emit", "%s in %s" % (q[1], g.short()), g.loc(node),
                                "%s queues an event but a path of %s returns without notifying the dispatcher" % (g.short(), f.short()),
                                [c.show(x) for x in _tr(st)])
                rep.ob("post-then-emit", sample=f.short())
        # wait predicates
        data = lockdata.collect((config,))
        waits = {}
        for d in data:
            for (cv, lock, held, qn), fnk, loc, root, stk in d.waits:
                waits.setdefault((cv, lock, fnk, loc), []).append((d, root))
        waited, harmless = {}, {}
        nw = 0
        for (cv, lock, fnk, loc), l in sorted(waits.items(), key=lambda x: (x[0][2], x[0][3])):
            fn = prog.fns[fnk]
            node = next((i for i, n in enumerate(fn.nodes) if n["k"] == "Call" and tmpl(n.get("qn", "")) in CV_WAIT and fn.loc(i) == loc), None)
            if node is None or fn.cls in ("hsmcpp::ConditionVariable",):
                continue
            nw += 1
            pf = pred_fields(prog, fn, node)
            if pf is None:
                rep.violate("wait-has-predicate", "%s in %s" % (lk(cv), fn.short()), loc, "%s waits on %s without a predicate: spurious and lost wake-ups go "
                            "unnoticed" % (fn.short(), lk(cv)))
                continue
            rep.ob("wait-has-predicate", sample="%s in %s tests {%s}" % (lk(cv), fn.short(), ", ".join(x[1] for x in pf)))
            for o in pf:
                ty = next((d.ftype[o] for d in data if o in d.ftype), "")
                if any(x in ty for x in ("mutex", "Mutex", "condition")):
                    continue
                waited.setdefault(o, set()).add((cv, lock, fnk))
                for a in fn.nodes[node]["args"][1:]:
                    harmless.setdefault(o, set()).update(harmless_values(prog, fn, a, o))
        parent = {}
        for o, ws in sorted(waited.items()):
            wf = {w[2] for w in ws}
            for d in data:
                for (op, kind, held), fnk, loc, root, stk in d.accesses:
                    if op != o or kind == "r" or "atomic" in d.ftype.get(o, ""):
                        continue
                    ok = any(w[1] in held for w in ws)
                    if not any(lock_visible(d, w[1]) for w in ws):
                        continue
                    rep.check(ok, "predicate-under-lock", "%s in %s" % (o[1], prog.fns[fnk].short()), loc,
                              "%s is part of a wait predicate but is written without the mutex of that wait (%s)" % (
                                  o[1], ", ".join(sorted(lk(str(w[1])) for w in ws))), [" -> ".join(stk)])
            c = PredWrite(prog, roles, {o}, wf | {k for w in wf for k in lambdas_of(prog, w)})
            sim = Sim(prog, c)
            for f in sorted(prog.fns.values(), key=lambda f: f.key):
                if f.kind in ("ctor", "dtor", "lambda") or f.key in c.waiters or f.cls == "hsmcpp::AtomicFlag":
                    continue
                if not any(n["k"] == "Assign" and _lhs_field(f, n) == o for n in f.nodes):
                    continue
                if _only_fresh_object(f, o):
                    continue
                sim.memo.clear()
                for rv, st in sim.run(f, st=State(ts=())):
                    exempt = all(sim.const_of(st, sim.peek(st, p)) in harmless[o] for _, p in st.ts)
                    rep.check(not st.ts or exempt, "predicate-then-notify", "%s in %s" % (o[1], f.short()), f.loc(),
                              "%s changes the wait predicate %s on a path that does not notify the waiting thread" % (f.short(), o[1]),
                              [c.show(x) for x in _tr(st)], sample="%s writes %s" % (f.short(), o[1]))
        rep.stat("waits", nw)
        if nw < 3:
            raise model.AnalysisBroken("only %d condition waits found" % nw)
        # stop()
        for d in data:
            loops = [f for f in prog.fns.values() if f.short() in d.internal]
            sleeps = {}
            for (cv, lock, held, qn), fnk, loc, root, stk in d.waits:
                if d.roles[root] == "loop" and prog.fns[fnk].cls in chain(prog, d.disp):
                    pf = pred_fields(prog, prog.fns[fnk], next(i for i, n in enumerate(prog.fns[fnk].nodes) if n["k"] == "Call" and tmpl(
                        n.get("qn", "")) in CV_WAIT and prog.fns[fnk].loc(i) == loc)) or ()
                    sleeps.setdefault(cv, set()).update(pf)
            flags = stop_flags(prog, d.disp)
            m = next(m for m in prog.classes[IFACE]["methods"] if m["name"] == "stop")
            f = prog.fns[prog.final_overrider(m["key"], d.disp)]
            c = StopClient(prog, roles, flags)
            sim = Sim(prog, c, d.disp)
            for rv, st in sim.run(f, st=State(ts=(False, frozenset(), frozenset()))):
                raised, notified, written = st.ts
                rep.check(raised, "stop-raises-flag", d.disp, f.loc(), "%s does not raise the stop flag on every path" % f.short(),
                          [c.show(x) for x in _tr(st)], sample=f.short())
                names = {"%s::%s" % o for o in notified if o}
                for cv, pf in sleeps.items():
                    rep.check(cv in names, "stop-wakes-loop", "%s by %s" % (lk(cv), f.short()), f.loc(),
                              "%s returns without notifying %s after raising the stop flag: its loop may sleep forever" % (f.short(), lk(cv)),
                              [c.show(x) for x in _tr(st)], sample="%s wakes %s" % (f.short(), lk(cv)))
                    own = {o for o in pf if o[0] in chain(prog, d.disp)} - flags
                    rep.check(not own or bool(own & written) or bool(pf & flags), "stop-satisfies-predicate", "%s by %s" % (lk(cv), f.short()), f.loc(),
                              "%s does not make the predicate of %s true" % (f.short(), lk(cv)), [c.show(x) for x in _tr(st)])
    rep.floor("insert-then-wake", 8, "queue insertions")
    rep.floor("post-then-emit", 2, "machine queue insertions")


def _tr(st):
    from engine.sim import trace_list
    return trace_list(st)


def lock_visible(d, lock):
    return lock is not None and not lock.startswith("?")


def _lhs_field(f, n):
    i = n["c"][0]
    while f.nodes[i]["k"] in ("Cast",):
        i = f.nodes[i]["c"][0]
    m = f.nodes[i]
    if m["k"] == "Call" and m.get("name") == "operator*" and "obj" in m:
        m = f.nodes[m["obj"]]
    return (m.get("owner"), m["name"]) if m["k"] == "Field" else None


def _only_fresh_object(f, o):
    """the function (re)creates the shared object itself before anybody can wait on it"""
    return any(n["k"] == "Call" and n.get("op") == "=" and "obj" in n and f.nodes[n["obj"]].get("name") == o[1] and
               any("make_shared" in f.nodes[x].get("qn", "") or "make_unique" in f.nodes[x].get("qn", "") or f.nodes[x]["k"] == "New" for x in _sub(f, n["args"]))
               for n in f.nodes)


def _sub(f, l):
    todo, r = list(l), []
    while todo:
        i = todo.pop()
        r.append(i)
        todo += [c for c, _ in f.kids(i)]
    return r


def harmless_values(prog, f, node, o):
    """constants for which the predicate stays false: `field` -> 0, `C != field` -> C"""
    lam = _lambda(f, node)
    res = set()
    if lam is None:
        return res
    g = prog.fns.get(f.nodes[lam]["fn"])
    if g is None:
        return res
    for n in g.nodes:
        if n["k"] == "Return" and n["c"]:
            i = n["c"][0]
            while g.nodes[i]["k"] == "Cast":
                i = g.nodes[i]["c"][0]
            m = g.nodes[i]
            if m["k"] == "Field" and (m.get("owner"), m["name"]) == o:
                res.add(0)
            if m["k"] == "Bin" and m["op"] in ("!=", "=="):
                for a, b in (m["c"], m["c"][::-1]):
                    if any((g.nodes[x].get("owner"), g.nodes[x].get("name")) == o for x in _sub(g, [a])):
                        v = g.nodes[b].get("val")
                        if v is not None:
                            if m["op"] == "!=":
                                res.add(v)
                            elif v in (0, 1):
                                res.add(1 - v)
    return res


def lambdas_of(prog, k):
    f = prog.fns[k]
    return [n["fn"] for n in f.nodes if n["k"] == "Lambda"]


def stop_flags(prog, d):
    """boolean/atomic fields that the base stop() sets"""
    res = set()
    for cls in chain(prog, d):
        for f in prog.fns_named(cls + "::stop"):
            for n in f.nodes:
                if n["k"] == "Assign" and n["op"] == "=":
                    o = _lhs_field(f, n)
                    r = f.nodes[n["c"][1]]
                    if o and r.get("val") == 1:
                        res.add(o)
                if n["k"] == "Call" and n.get("op") == "=" and "obj" in n and "atomic" in n.get("cls", n.get("qn", "")):
                    m = f.nodes[n["obj"]]
                    if m["k"] == "Field":
                        res.add((m["owner"], m["name"]))
                if n["k"] == "Call" and n.get("name") in ("store", "exchange") and "obj" in n:
                    m = f.nodes[n["obj"]]
                    if m["k"] == "Field":
                        res.add((m["owner"], m["name"]))
    if not res:
        raise model.AnalysisBroken("stop flag of %s not found" % d)
    return res


def machine_roots(prog, c):
    """outermost functions of the implementation whose paths insert into the machine's queue"""
    names = []
    for api in ("transitionExWithArgsArray", "transitionWithArgsArray"):
        names += prog.fns_named(FACADE + "::" + api)
    names += [f for f in prog.fns_named(FACADE + "::initialize")]
    return names
