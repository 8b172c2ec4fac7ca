"""P18: selection of transitions and entry points by event, conditions and arguments."""
import re
from engine.registry import check
from engine import model
from engine.events import EvClient, Roles, IMPL, machine, INSERT, algo, iter_cmp, CONTAINER
from engine.rolesets import closure_roles
from engine.sim import Sim, State, U, TRUE, FALSE, contains, tmpl
from checks.concurrency import ASSUME, configs, norm
from checks.transition import explore, TECH


def plain(ty):
    return norm(ty).replace("&", "").strip()


def out_params(f):
    return [i for i, p in enumerate(f.params) if p["type"].endswith("&") and not p["type"].startswith("const ") and CONTAINER.match(plain(p["type"]))]


class SelectClient(EvClient):
    """marks: (record,'OK') its condition holds or it has none; (record,'NO') it does not hold; (record,'EV') it is meant for the event;
    ('ins',) something was selected; ('leaf',) the target was found to have no substates; ('evp', sym) the event used for lookups"""
    eq_facts = True
    compact = True

    def __init__(self, prog, roles, fresh_keys=None):
        self.tc = sorted(roles.trans_cls)[0]
        self.ec = sorted(roles.entry_cls)[0] if roles.entry_cls else None
        if self.ec is None:
            raise model.AnalysisBroken("record of entry points not found")
        self.cond = {c: f for (c, f), r in roles.cb.items() if r == "COND"}
        self.exp = {}
        for cls in (self.tc, self.ec):
            b = [f["name"] for f in prog.classes[cls]["fields"] if norm(f["type"]) == "bool"]
            if len(b) != 1:
                raise model.AnalysisBroken("expected condition value of %s not found" % cls)
            self.exp[cls] = b[0]
        ef = [f["name"] for f in prog.classes[self.ec]["fields"] if norm(f["type"]) in ("int", "hsmcpp::EventID_t", "hsmcpp::StateID_t")]
        if len(ef) != 2:
            raise model.AnalysisBroken("fields of %s not found" % self.ec)
        self.f_estate, self.f_eev = ef
        inv = {n["cv"] for f in prog.fns.values() if machine(f) for n in f.nodes if n["k"] == "Ref" and "cv" in n and n.get("global", "").endswith("INVALID_HSM_EVENT_ID")}
        if len(inv) != 1:
            raise model.AnalysisBroken("value of the invalid event id not found")
        self.p_invalid = inv.pop()
        super().__init__(prog, roles)
        self.params = {}

    def interesting(self, f, n):
        if n["k"] == "Call":
            if n.get("name") == "operator()" and str(n.get("cls", "")).startswith("std::function"):
                return machine(f) and "COND" in closure_roles(self.p, self.roles, f.key)
            if n.get("name") in ("find", "count", "equal_range", "lower_bound") and "obj" in n:
                m = f.nodes[n["obj"]]
                return m["k"] == "Field" and m.get("owner") == IMPL and norm(m.get("ty", "")).startswith("std::multimap<int, int")
        return False

    def inline(self, sim, fn, call_fn):
        return super().inline(sim, fn, call_fn) and closure_roles(self.p, self.roles, fn.key) <= {"COND"}

    def join_key(self, st):
        return (st.ts, frozenset((k, v) for k, v in st.env.items() if v[0] in ("c", "it")),
                frozenset((k, v) for k, v in st.heap.items() if k[-1] in ("#empty", "#was")))

    def sticky(self, k):
        return k[-1] == "#role"

    def stable(self, path):
        return super().stable(path) or path[0] == self.evroot or path[-1] in (self.exp[self.tc], self.exp[self.ec], self.f_eev, self.f_estate) or len(path) == 2 and path[0] == "this"

    def marks(self, st, rec):
        return {k[1] for k in st.ts if len(k) == 2 and k[0] == rec}

    def mark(self, st, *items, note=None):
        return st.with_ts(st.ts | frozenset(items), note)

    def on_copy(self, sim, st, src, dst):
        m = self.marks(st, src)
        return self.mark(st, *[(dst, x) for x in m]) if m else st

    def on_dead(self, sim, st, live):
        drop = set()
        for k in st.ts:
            if len(k) == 2 and isinstance(k[0], tuple):
                ss = set()
                sim.base_syms(("p", k[0]), ss)
                if not ss <= live:
                    drop.add(k)
        return st.with_ts(st.ts - drop) if drop else st

    def on_branch(self, sim, fn, node, truth, st):
        add = set()
        evp = {k[1] for k in st.ts if k[0] == "evp"}
        for k, v in st.heap.items():
            if k[-1] == self.f_eev and len(k) > 1 and (k[:-1], "EV") not in st.ts:
                if sim.const_of(st, v) == self.p_invalid:
                    add.add((k[:-1], "EV"))
                else:
                    cand = list(self.params.values())
                    if self.evroot is not None:
                        cand += [x for y, x in st.heap.items() if len(y) == 2 and y[0] == self.evroot and x[0] == "s"]
                    for e in cand:
                        if sim.eqv(st, v, e) is True and (not evp or e in evp):
                            add.add((k[:-1], "EV"))
                            add.add(("evp", e))
        return self.mark(st, *add) if add else st

    evroot = None

    def oftype(self, c):
        return plain(str(c.n.get("cls", "")))

    def on_end(self, cont, st):
        o = self.owner.get(cont)
        if o is not None and norm(self.ftype.get(o, "")).startswith("std::multimap<int, int"):
            return self.mark(st, ("leaf",))
        return st

    def on_next(self, cont, s, st):
        o = self.owner.get(cont)
        if o is not None and self.tc in self.ftype.get(o, ""):
            return st.with_ts(st.ts - {("leaf",)})
        return st

    def on_call(self, sim, c):
        st, n, name, cls = c.st, c.n, c.name, str(c.n.get("cls", ""))
        cb = self.is_cb(c, sim)
        if cb is not None and cb[0] == "COND":
            rec = cb[2]
            self.count("condition", c.fn.loc(c.node))
            a = c.argpaths[0] if c.argpaths else None
            if a is None and c.args and c.args[0] is not None and c.args[0][0] == "p":
                a = c.args[0][1]
            if a is None or not (isinstance(a[0], tuple) and a[0][0] == "o" and str(a[0][1]).startswith("param:")):
                self.report("condition-arguments", "condition", c.fn, c.node, "a condition is evaluated with something else than the arguments of the event", st)
            outs = []
            ev, s0 = sim.load(st, rec + (self.exp[cb[1]],), True, True)
            for v in (1, 0):
                for e in (1, 0):
                    s2 = sim.assume(s0, ev, bool(e))
                    if s2 is None:
                        continue
                    s2 = s2.copy()
                    if ev[0] == "s":
                        s2.heap[rec + (self.exp[cb[1]],)] = ("c", e)
                    outs.append((("c", v), self.mark(s2, (rec, "OK" if v == e else "NO"), note=("condition %s, expected %s" % (bool(v), bool(e)), c.fn, c.node))))
            return outs
        if cb is None and (name == "operator bool" and cls.startswith("std::function") or n.get("op") in ("==", "!=")):
            paths = [c.objpath] if name == "operator bool" else [c.argpaths[1 - i] for i in (0, 1) if "obj" not in n and len(n["args"]) == 2 and c.fn.nodes[n["args"][i]]["k"] == "Null"]
            for p in paths:
                v = st.heap.get(p + ("#role",)) if p is not None else None
                if v is not None and v[1][0] == "COND":
                    neg = n.get("op") == "=="
                    outs = [(FALSE if neg else TRUE, st)] if "NO" not in self.marks(st, v[1][2]) or True else []
                    return outs + [(TRUE if neg else FALSE, self.mark(st, (v[1][2], "OK")))]
        r = algo(self, sim, c, self.on_end, self.on_next)
        if r is not None:
            return r
        ic = iter_cmp(c)
        if ic is not None:
            cont, sym, eq = ic
            known = TRUE if sym == ("END",) else st.facts.get(("s", ("isend", sym), True))
            outs = []
            if known != TRUE:
                s2 = self.on_next(cont, sym, st).copy()
                s2.facts[("s", ("isend", sym), True)] = FALSE
                outs.append((FALSE if eq else TRUE, s2))
            if known != FALSE:
                outs.append((TRUE if eq else FALSE, self.on_end(cont, st)))
            return outs
        if cls == self.roles.event_cls and c.objpath is not None and len(c.objpath) == 1 and str(c.objpath[0][1]).startswith("param:") and "Variant" in str(n.get("ty", "")):
            return [(("p", (("o", "param:arguments of the event"),)), st)]
        if n.get("op") in ("++", "--") and c.objpath is not None:
            o = sim.peek(st, c.objpath)
            if o is not None and o[0] == "it" and o[2] != ("END",):
                c.st = st.with_ts(frozenset(k for k in st.ts if not (len(k) == 2 and isinstance(k[0], tuple) and contains(k[0], o[2]))))
                return None
        q = tmpl(n.get("qn", ""))
        if q == "std::make_pair" and len(c.args) == 2:
            return [(("p", (("t", c.depth, c.node),)), self.pair(sim, c, st, (("t", c.depth, c.node),)))]
        if c.objpath is not None and "obj" in n:
            o = self.owner.get(c.objpath)
            ty = self.ftype.get(o, "") if o else ""
            if name in ("equal_range", "find", "lower_bound", "upper_bound", "count") and o is not None and o[0] == IMPL and "map<" in ty:
                if self.tc in ty:
                    st = self.lookup(sim, c, st)
                    c.st = st
                if name == "count":
                    return [(("c", 0), self.on_end(c.objpath, st)), (("c", 1), st)]
                if name == "upper_bound":
                    return [(("it", c.objpath, ("END",)), st)]
                s, st = sim.sym(c.fn, c.node, c.depth, st, False)
                st = st.copy()
                st.facts.pop(("s", ("isend", s), True), None)
                if name != "equal_range":
                    return [(("it", c.objpath, s), st)]
                t = (("t", c.depth, c.node),)
                st = sim.kill_path(st, t).copy()
                st.heap[t + ("first",)] = ("it", c.objpath, s)
                st.heap[t + ("second",)] = ("it", c.objpath, ("END",))
                return [(("p", t), st)]
            full = str(n.get("qn", "")).rsplit("::", 1)[0]
            if CONTAINER.match(full) and not (o is not None and o[0] == IMPL):
                return self.container(sim, c, name, full, st)
        g = self.p.fns.get(c.key) if c.key else None
        if g is not None and g.cls == IMPL and g.key not in self.relevant and any(p["type"].endswith("&") and not p["type"].startswith("const ") and plain(p["type"]) == "int" for p in g.params):
            if ("ins",) in st.ts:
                self.report("innermost-first", "parent states", c.fn, c.node, "parent states are searched for transitions although a transition of the state itself was already selected", st)
            self.count("climb", c.fn.loc(c.node))
        return None

    def pair(self, sim, c, st, dst):
        st = sim.kill_path(st, dst)
        for i, f in enumerate(("first", "second")):
            v, st = self.sval(sim, c, i)
            st = st.copy()
            if v is not None:
                st.heap[dst + (f,)] = v
        return st

    def on_construct(self, sim, c):
        cls = tmpl(c.qn)
        if cls == "std::pair" and len(c.args) == 2:
            return [self.pair(sim, c, c.st, c.target)]
        if cls in ("std::list", "std::vector", "std::deque") and not c.args:
            st = sim.kill_path(c.st, c.target).copy()
            st.heap[c.target + ("#empty",)] = TRUE
            return [st]
        return None

    def lookup(self, sim, c, st):
        self.count("lookup", c.fn.loc(c.node))
        p = c.argpaths[0]
        v = st.heap.get(p + ("second",)) if p is not None else None
        evp = {k[1] for k in st.ts if k[0] == "evp"}
        isev = v is not None and (v in self.params.values() or v[0] == "s" and isinstance(v[1], tuple) and v[1][0] == "ld" and len(v[1][1]) == 2 and v[1][1][0] == self.evroot)
        if not isev or evp and v not in evp:
            self.report("lookup-by-event", "lookup", c.fn, c.node, "transitions are looked up by something else than the event", st)
            return st
        return self.mark(st, ("evp", v))

    def container(self, sim, c, name, cls, st):
        P = c.objpath
        isout = isinstance(P[0], tuple) and P[0][0] == "o" and str(P[0][1]).startswith("param:")
        if name == "clear":
            st = sim.kill_elems(st, P).copy()
            st.heap[P + ("#empty",)] = TRUE
            return [(U, st.with_ts(st.ts - {("ins",)}) if isout else st)]
        if name == "empty":
            e = st.heap.get(P + ("#empty",))
            if e is not None:
                return [(e, st)]
            outs = []
            for t in (TRUE, FALSE):
                s2 = st.copy()
                s2.heap[P + ("#empty",)] = t
                if t == FALSE and isout:
                    s2 = self.mark(s2, ("was",))
                outs.append((t, s2))
            return outs
        if name in ("begin", "rbegin", "cbegin"):
            if st.heap.get(P + ("#empty",)) == TRUE:
                return [(("it", P, ("END",)), st)]
            if st.heap.get(P + ("#empty",)) == FALSE:
                s, st = sim.sym(c.fn, c.node, c.depth, st, False)
                st = st.copy()
                st.facts[("s", ("isend", s), True)] = FALSE
                return [(("it", P, s), st)]
        if name == "operator=":
            st = sim.kill_elems(st, P).copy()
            st.heap.pop(P + ("#empty",), None)
            return [(("p", P), self.mark(st, ("was",)) if isout else st)]
        if name == "splice" or name == "swap":
            st = st.copy()
            st.heap.pop(P + ("#empty",), None)
            if c.argpaths and c.argpaths[-1] is not None:
                st.heap.pop(c.argpaths[-1] + ("#empty",), None)
            return [(U, st)]
        if name in ("pop_front", "pop_back", "erase"):
            st = sim.kill_elems(st, P).copy()
            st.heap.pop(P + ("#empty",), None)
            return None if name == "erase" else [(U, st)]
        if name in INSERT and c.args:
            if isout and st.heap.get(P + ("#empty",)) is None and ("ins",) not in st.ts:
                st = self.mark(st, ("stale",))
            src = c.argpaths[-1]
            if self.tc in cls:
                c.st = st
                self.count("select-transition", c.fn.loc(c.node))
                m = self.marks(st, src) if src is not None else set()
                if len(c.args) > 1 and isout and not (src is not None and m):
                    pass                # builds a new transition (continuation): has no condition of its own
                else:
                    self.need(c, st, m, "transition")
                    if ("leaf",) not in st.ts:
                        self.report("target-reachable", "selection", c.fn, c.node, "a transition is selected on a path which did not establish that its target (or the entry points of the target) can be entered", st)
            else:
                c.st = st
                v, st = self.sval(sim, c, len(c.args) - 1)
                rec = v[1][1][:-1] if v is not None and v[0] == "s" and isinstance(v[1], tuple) and v[1][0] == "ld" and v[1][1][-1] == self.f_estate else None
                if rec is not None:
                    self.count("select-entry", c.fn.loc(c.node))
                    m = self.marks(st, rec)
                    self.need(c, st, m, "entry point")
                    if "EV" not in m:
                        self.report("entry-point-event", "selection", c.fn, c.node, "an entry point is selected on a path which did not establish that it is meant for this event", st)
            st = sim.kill_elems(st, P).copy()
            st.heap[P + ("#empty",)] = FALSE
            return [(U, self.mark(st, ("ins",)) if isout else st)]
        return None

    def need(self, c, st, m, what):
        if "NO" in m:
            self.report("condition-holds", what, c.fn, c.node, "a %s is selected although its condition does not have the expected value" % what, st)
        elif "OK" not in m:
            self.report("condition-holds", what, c.fn, c.node, "a %s is selected on a path which did not evaluate its condition" % what, st)

    def finish(self, sim, fn, rv, st):
        v = sim.const_of(st, rv)
        if ("stale",) in st.ts:
            self.stale = True
        if fn.ret != "bool":
            return
        if ("ins",) in st.ts and v == 0 or ("ins",) not in st.ts and ("was",) not in st.ts and v != 0 or v is None:
            if DBG:
                print("DBG", fn.name, rv, st.ts)
            self.report("result-matches", "result", fn, None, "the result does not tell whether something was selected", st)

    stale = False


class FreshClient(EvClient):
    """selection functions append to their result: the container given to them has to be empty"""
    eq_facts = True
    compact = True

    def __init__(self, prog, roles, need):
        self.need = need
        super().__init__(prog, roles)
        self.passed = set()

    def interesting(self, f, n):
        return False

    def join_key(self, st):
        return (st.ts, frozenset((k, v) for k, v in st.heap.items() if k[-1] == "#empty"), frozenset((k, v) for k, v in st.env.items() if v[0] == "c"))

    def on_construct(self, sim, c):
        if tmpl(c.qn) in ("std::list", "std::vector", "std::deque") and not c.args:
            st = sim.kill_path(c.st, c.target).copy()
            st.heap[c.target + ("#empty",)] = TRUE
            return [st]
        return None

    def on_call(self, sim, c):
        st = c.st
        for i in self.need.get(c.key, ()):
            p = c.argpaths[i] if i < len(c.argpaths) else None
            self.count("selection-call", c.fn.loc(c.node))
            if p is None or st.heap.get(p + ("#empty",)) != TRUE:
                if p is not None and len(p) == 1 and p[0][0] == "o" and str(p[0][1]).startswith("param:") and p + ("#empty",) not in st.heap:
                    self.passed.add(str(p[0][1])[6:])
                else:
                    self.report("fresh-result", "result container", c.fn, c.node, "the container given to the selection may still hold the result of a previous selection", st)
            if p is not None:
                a, b = st.copy(), st.copy()
                a.heap[p + ("#empty",)] = FALSE
                b.heap[p + ("#empty",)] = TRUE
                return [(TRUE, a), (FALSE, b)]
        if c.objpath is not None and "obj" in c.n and CONTAINER.match(str(c.n.get("qn", ""))):
            q = c.objpath + ("#empty",)
            if c.name == "clear":
                st = st.copy()
                st.heap[q] = TRUE
                return [(U, st)]
            if c.name in INSERT:
                st = st.copy()
                st.heap[q] = FALSE
                return [(U, st)]
            if c.name == "empty" and q in st.heap:
                return [(st.heap[q], st)]
            if c.name in ("swap", "splice", "pop_front", "pop_back", "erase") and q in st.heap:
                c.st = st.copy()
                c.st.heap.pop(q)
        return None


DBG = False
RULES = ("condition-holds", "condition-arguments", "lookup-by-event", "entry-point-event", "target-reachable", "innermost-first", "result-matches", "fresh-result")


def selectors(prog, roles):
    return [f for f in prog.fns.values() if f.cls == IMPL and f.kind not in ("ctor", "dtor", "lambda") and closure_roles(prog, roles, f.key) == {"COND"} and
            f.ret == "bool" and out_params(f)]


@check("P18", "Every path of the functions that select transitions and entry points: a record reaches the result only where its condition was absent or had the expected value for "
       "the arguments of the event, it was looked up by the event (entry points: meant for it), its target can be entered, and the result tells whether anything was "
       "selected; every caller provides an empty result container.", ASSUME, TECH)
def p18(rep, tier):
    for config in configs(tier):
        prog = model.load(config)
        roles = Roles(prog)
        sel = selectors(prog, roles)
        if len(sel) < 2:
            raise model.AnalysisBroken("selection functions not found")
        need, bad, counts, states = {}, [], {}, 0
        for f in sel:
            c = SelectClient(prog, roles)
            args = {}
            for i, p in enumerate(f.params):
                if plain(p["type"]) == "int" and not p["type"].endswith("&"):
                    args[i] = ("s", ("param", p["name"]), False)
            c.params = {i: v for i, v in args.items()}
            for p in f.params:
                if plain(p["type"]) == roles.event_cls and p["type"].endswith("&"):
                    c.evroot = ("o", "param:" + p["name"])
            sim = Sim(prog, c)
            try:
                outs = sim.run(f, args=args, st=State(ts=frozenset()))
            except model.AnalysisBroken:
                if not c.bad:
                    raise
                outs = []
            for rv, st in outs:
                c.finish(sim, f, rv, st)
            if c.stale:
                need[f.key] = tuple(out_params(f))
            bad += [(b, f) for b in c.bad]
            states += sim.nstates
            for k, v in c.counts.items():
                counts.setdefault(k, set()).update(v)
        # callers provide empty containers
        done, todo = set(), list(need)
        while todo:
            k = todo.pop()
            for f in list(prog.fns.values()):
                if not machine(f) or k not in prog.callees(f) or (f.key, k) in done or not f.blocks:
                    continue
                done.add((f.key, k))
                c = FreshClient(prog, roles, need)
                Sim(prog, c).run(f, st=State(ts=frozenset()))
                bad += [(b, f) for b in c.bad]
                for x, v in c.counts.items():
                    counts.setdefault(x, set()).update(v)
                idx = tuple(i for i, p in enumerate(f.params) if p["name"] in c.passed)
                if idx and f.key not in need:
                    need[f.key] = idx
                    todo.append(f.key)
        for rule in RULES:
            mine = [(b, f) for b, f in bad if b[0] == rule]
            for (r, key, loc, msg, path), f in mine:
                rep.violate(r, "%s in %s" % (key, f.short()), loc, msg, path)
            if not mine:
                rep.ob(rule, True, sample="; ".join(sorted(f.short() for f in sel)))
        for k, v in counts.items():
            rep.stat(k, len(v))
        rep.stat("states", states)
        for k in ("condition", "select-transition", "select-entry", "lookup"):
            if not counts.get(k):
                raise model.AnalysisBroken("no %s recognised" % k)
