"""P23, rule history-recorded: what is stored in the history states when states are left."""
from engine import model
from engine.events import INSERT, algo, iter_cmp
from engine.rolesets import closure_roles
from engine.sim import Sim, State, U, TRUE, FALSE, tmpl
from checks.concurrency import norm
from checks.continuations import ContClient, IMPL
from checks.registration import A

RULE = "history-recorded"
TOP = A(0)
UP = [("s", ("up", i), False) for i in (0, 1)]
CONT = ("std::list", "std::vector", "std::deque", "std::set", "std::unordered_set", "std::map", "std::unordered_map")


def is_states(ty):
    ty = norm(ty)
    return ty.replace("const ", "").startswith(("std::list<int", "std::vector<int", "std::deque<int"))


def roots(N):
    """functions that store left states, given the state on top of them"""
    p = N.p
    out = []
    for f in p.fns.values():
        if f.cls != IMPL or not f.blocks or f.kind in ("ctor", "dtor", "lambda") or closure_roles(p, N.roles, f.key):
            continue
        if sum(norm(q["type"]) == "int" for q in f.params) != 1 or sum(is_states(q["type"]) and q["type"].startswith("const ") for q in f.params) != 1:
            continue
        cl = [p.fns[k] for k in p.callgraph_closure([f.key]) if k in p.fns]
        names = {n["name"] for g in cl for n in g.nodes if n["k"] == "Field" and n.get("owner") in (IMPL, N.rec)}
        if N.hist in names and N.hdata in names and N.f_prev in names:
            out.append(f)
    return [f for f in out if not any(f.key != g.key and f.key in p.callgraph_closure([g.key]) for g in out)]


class RecordClient(ContClient):
    """marks: ("open",s,e) ("parent",name,child) ("head",name) ("rootof",a) ("swept",k) ("range",s,key) ("hel",s)
    ("asked",C,hs,T/F) ("reg",C,hs) ("cleared",hs) ("stored",hs,v) ("absent",hs,v) ("present",hs,v) ("pv",path,s)"""
    rule0 = RULE

    def __init__(self, N, root):
        super().__init__(N, root)
        self.noinline -= {root.key}
        self.list = next((("o", "param:" + q["name"]),) for q in root.params if is_states(q["type"]))
        self.SH, self.DP = N.kinds.get("SHALLOW"), N.kinds.get("DEEP")

    def inline(self, sim, fn, call_fn):
        if fn.blocks and fn.kind not in ("ctor", "dtor") and any(is_states(q["type"]) or norm(q["type"]).startswith(self.N.rec) for q in fn.params):
            return fn.key not in self.noinline and not closure_roles(self.p, self.roles, fn.key)
        return super().inline(sim, fn, call_fn)

    def flaw(self, key, st, msg):
        if ("void",) not in st.ts:
            self.report(RULE, key, self.root, None, msg, st)

    # ---- identities
    def is_prev(self, st, p):
        return p is not None and self.owner.get(p) == (self.N.rec, self.N.f_prev)

    def is_act(self, st, p):
        return p == self.list

    def is_hist(self, p):
        return p is not None and self.owner.get(p) == (IMPL, self.N.hist)

    def on_copy(self, sim, st, src, dst):
        return st

    def hs_of(self, p):
        """the history state whose record (or part of it) p is"""
        for i in range(len(p) if p else 0):
            if isinstance(p[i], tuple) and p[i][0] == "[]" and self.map_of(p[:i]) == "hdata":
                return p[i][1]
        return None

    def drop(self, st, pred):
        return st.with_ts(frozenset(x for x in st.ts if not pred(x)))

    def one(self, st, k):
        xs = self.marks(st, k)
        return xs[0] if xs else None

    def head(self, st):
        x = self.one(st, "head")
        return x[1] if x else None

    def cur(self, st):
        x = self.one(st, "open")
        return x[2] if x else None

    def below(self, st):
        """the child of the parent that is visited"""
        h = self.head(st)
        return next((x[2] for x in self.marks(st, "parent") if x[1] == h), None) if h else None

    # ---- iterations
    def on_fresh(self, st, s):
        if any(x[1] == s for x in self.marks(st, "open")):
            st = self.leave_e(st)
        if ("hel", s) in st.ts:
            st = self.leave_h(st, s)
        if any(x[2] == s for x in self.marks(st, "pv")):
            st = self.leave_p(st, s)
        if any(x[1] == s for x in self.marks(st, "range")):
            st = self.drop(st, lambda x: x[0] == "range" and x[1] == s)
        return st

    def leave_e(self, st):
        e, h = self.cur(st), self.head(st)
        if h is None:
            if ("rootof", e) not in st.ts:
                self.flaw("climb", st, "the histories of the parents of a left state are not updated")
        else:
            self.need_swept(st, h)
            if ("rootof", h) not in st.ts and st.facts.get(Sim.eqkey(None, TOP, h)) != TRUE:
                self.flaw("climb", st, "the histories of some parents of a left state are not updated")
        keep = ("range", "end", "void", "reg", "inner")
        return self.drop(st, lambda x: x[0] not in keep)

    def need_swept(self, st, h):
        if ("swept", h) not in st.ts:
            self.flaw("sweep", st, "not every history state of a parent is updated")

    def hpath(self, s):
        return next(p for p, o in self.owner.items() if o == (IMPL, self.N.hist)) + (("[]", s),)

    def hs_at(self, st, s):
        q = self.hpath(s) + ("second",)
        return st.heap.get(q, ("s", ("ld", q), False))

    def rec_path(self, hs):
        p = next((p for p, o in self.owner.items() if o == (IMPL, self.N.hdata)), None)
        return p + (("[]", hs),) if p else None

    def typ(self, st, hs):
        r = self.rec_path(hs)
        if r is None:
            return None
        q = r + ("second", self.N.f_htype)
        v = st.heap.get(q, ("s", ("ld", q), False))
        sim = self.sim
        for k, o in ((self.SH, self.DP), (self.DP, self.SH)):
            if sim.eqv(st, v, ("c", k)) is True:
                return k
        a, b = (sim.eqv(st, v, ("c", k)) for k in (self.SH, self.DP))
        if a is False and b is False:
            return "none"
        return self.DP if a is False else self.SH if b is False else None

    def fresh_list(self, st, hs):
        return ("cleared", hs) in st.ts or any(x[2] == hs and x[3] for x in self.marks(st, "asked"))

    def has_value(self, st, hs, v):
        if ("stored", hs, v) in st.ts or ("present", hs, v) in st.ts:
            return True
        return any(self.hs_of(x[1]) == hs and st.facts.get(Sim.eqkey(None, ("s", ("ld", x[1] + (("[]", x[2]),)), False), v)) == TRUE for x in self.marks(st, "pv"))

    def leave_h(self, st, s):
        """the next history state is taken"""
        hs, h = self.hs_at(st, s), self.head(st)
        skip = self.judge_h(st, s, hs, h)
        st = self.drop(st, lambda x: x == ("hel", s) or x[0] in ("asked", "reg", "cleared", "stored", "absent", "present", "poss") and hs in x[1:] or x[0] == "pv" and self.hs_of(x[1]) == hs)
        return self.mark(st, ("hskip", s)) if skip else st

    def judge_h(self, st, s, hs, h):
        first = st.heap.get(self.hpath(s) + ("first",))
        match = self.sim.eqv(st, first, h) if first is not None and h is not None else None
        if match is False:
            return False
        r = self.rec_path(hs)
        has = st.heap.get(r[:-1] + (("#has", hs),)) if r else None
        if has is None:
            return True
        if has == FALSE:
            return False
        t, e, c = self.typ(st, hs), self.cur(st), self.below(st)
        if t == "none":
            return False
        if ("cleared", hs) in st.ts:
            asked = [x for x in self.marks(st, "asked") if x[2] == hs]
            if not asked:
                self.flaw("clear", st, "a history state is cleared for every left state: only the last one is stored")
            elif not any(("reg", x[1], hs) in st.ts for x in asked):
                self.flaw("clear", st, "it is not remembered that a history state was already cleared")
            elif any(("inner", x[1]) in st.ts for x in asked):
                self.flaw("clear", st, "which history states were cleared is forgotten between left states")
        elif not self.fresh_list(st, hs):
            self.flaw("stale", st, "states of an earlier exit stay in the history")
        if t is None:
            self.flaw("type", st, "the type of a history state is not taken into account")
        elif not self.has_value(st, hs, c if t == self.SH else e):
            self.flaw("store", st, "a left state is not stored in a %s history of its parent" % ("shallow" if t == self.SH else "deep"))
        return False

    def pnext(self, cont, s, st):
        st = self.mark(st, ("pv", cont, s)).copy()
        q = cont + (("[]", s),)
        st.heap[q] = ("s", ("ld", q), False)
        return st

    def leave_p(self, st, s):
        add = set()
        for x in self.marks(st, "pv"):
            if x[2] == s:
                for v in (self.cur(st), self.below(st)):
                    if v is None:
                        continue
                    r = st.facts.get(Sim.eqkey(None, ("s", ("ld", x[1] + (("[]", s),)), False), v))
                    if r == TRUE:
                        add.add(("present", self.hs_of(x[1]), v))
                    elif r != FALSE:
                        add.add(("poss", self.hs_of(x[1]), v))
        return st.with_ts(frozenset(x for x in st.ts if not (x[0] == "pv" and x[2] == s)) | add)

    def pend(self, cont, st):
        hs = self.hs_of(cont)
        for x in [x for x in self.marks(st, "pv") if x[1] == cont]:
            st = self.leave_p(st, x[2])
        add = {("absent", hs, v) for v in (self.cur(st), self.below(st)) if v is not None and ("poss", hs, v) not in st.ts}
        return st.with_ts(frozenset(x for x in st.ts if x[0] != "poss") | add)

    # ---- lookups of parents
    def oracle(self, sim, c, kind):
        a, st = self.sval(sim, c, 0)
        e, h = self.cur(st), self.head(st)
        out = c.argpaths[1] if len(c.argpaths) > 1 else None
        if kind != "par" or a is None or a not in (e, h) or out is None:
            s2 = sim.store(st, out, U) if out is not None else st
            return [(TRUE, s2), (FALSE, s2)]
        known = next((x[1] for x in self.marks(st, "parent") if x[2] == a), None)
        if known is not None:
            return [(TRUE, sim.store(st, out, known))]
        if ("rootof", a) in st.ts:
            return [(FALSE, st)]
        outs = [(FALSE, self.mark(st, ("rootof", a)))]
        if a == h:
            self.need_swept(st, h)
        i = 1 if a == UP[0] else 0
        v, s = sim.fresh(st, ("up", i), False)
        old = frozenset(x for x in s.ts if x[0] in ("head", "swept") or x[0] == "parent" and (v in x or x[1] != a) or x[0] in ("absent", "present") and v in x)
        s = s.with_ts(s.ts - old | {("parent", v, a), ("head", v)})
        s = sim.store(s, out, v).copy()
        s.heap[(("o", "#up"), i)] = v
        self.count("climb", c.fn.loc(c.node))
        return outs + [(TRUE, s)]

    def map_event(self, sim, c, st, kind, cont, k):
        if self.map_of(cont) == "hdata" and kind in ("find+", "put"):
            q = cont + (("[]", k), "second", self.N.f_htype)
            if q not in st.heap:
                st = st.copy()
                st.heap[q] = ("s", ("ld", q), False)
        return st

    # ---- operations
    def on_construct(self, sim, c):
        if tmpl(c.qn) in CONT and c.target is not None and not c.args:
            st = self.drop(c.st, lambda x: x[0] in ("reg", "asked") and x[1] == c.target or x == ("inner", c.target))
            if self.cur(st) is not None:
                st = self.mark(st, ("inner", c.target))
            return [st]
        return super().on_construct(sim, c)

    def local_cont(self, p):
        return p is not None and len(p) == 1 and isinstance(p[0], tuple) and p != self.list

    def ref(self, sim, c, i):
        """the history state an argument stands for"""
        v, p = c.args[i], c.argpaths[i]
        if v is not None and v[0] == "p" and self.hs_of(v[1]) is not None:
            return self.hs_of(v[1])
        x = sim.peek(c.st, p) if p is not None else None
        if x is None:
            x, c.st = self.sval(sim, c, i)
        if x is not None and x[0] == "p":
            return self.hs_of(x[1])
        return x if x is not None and any(self.hs_at(c.st, m[1]) == x for m in self.marks(c.st, "hel")) else None

    def ask(self, st, C, hs):
        """-> [(registered, state)]"""
        if ("reg", C, hs) in st.ts:
            return [(True, st)]
        k = [x[3] for x in self.marks(st, "asked") if x[1] == C and x[2] == hs]
        if k:
            return [(k[0], st)]
        self.count("asked", self.root.key)
        return [(t, self.mark(st, ("asked", C, hs, t))) for t in (True, False)]

    def begin(self, sim, c, cont, key, st):
        s, st = sim.sym(c.fn, c.node, c.depth, st, False)
        st = self.mark(st, ("range", s, key)).copy()
        st = self.drop(st, lambda x: x == ("hskip", s)).copy()
        st.facts.pop(("s", ("isend", s), True), None)
        return s, st

    def hist_op(self, sim, c, p):
        st, name = c.st, c.name
        if name in ("equal_range", "find", "lower_bound", "count", "upper_bound"):
            k, st = self.sval(sim, c, 0)
            if name == "upper_bound":
                return [(("it", p, ("END",)), st)]
            if name == "count":
                return [(("c", 0), self.mark(st, ("swept", k))), (("c", 2), st)]
            s, st = self.begin(sim, c, p, k, st)
            if name != "equal_range":
                return [(("it", p, s), st)]
            t = (("t", c.depth, c.node),)
            st = sim.kill_path(st, t).copy()
            st.heap[t + ("first",)] = ("it", p, s)
            st.heap[t + ("second",)] = ("it", p, ("END",))
            return [(("p", t), st)]
        if name in ("begin", "cbegin"):
            s, st = self.begin(sim, c, p, None, st)
            return [(("it", p, s), st)]
        if name in ("empty", "size"):
            one = TRUE if name == "empty" else ("c", 0)
            return [(one, self.mark(st, ("void",))), (FALSE if name == "empty" else ("c", 2), st)]
        return None

    def hist_cmp(self, cont, s, eq, st):
        known = TRUE if s == ("END",) else st.facts.get(("s", ("isend", s), True))
        outs = []
        rng = next((x for x in self.marks(st, "range") if x[1] == s), None)
        if known != TRUE:
            s2 = st if ("hel", s) in st.ts else self.mark(st, ("hel", s))
            s2 = s2.copy()
            s2.facts[("s", ("isend", s), True)] = FALSE
            q = cont + (("[]", s),)
            s2.heap[q + ("first",)] = rng[2] if rng is not None and rng[2] is not None else ("s", ("ld", q + ("first",)), False)
            if q + ("second",) not in s2.heap:
                s2.heap[q + ("second",)] = ("s", ("ld", q + ("second",)), False)
            outs.append((FALSE if eq else TRUE, s2))
        if known != FALSE:
            s2 = st
            if s != ("END",):
                if ("hel", s) in s2.ts:
                    s2 = self.leave_h(s2, s)
                k = rng[2] if rng is not None and rng[2] is not None else self.head(s2)
                if ("hskip", s) not in s2.ts and k is not None:
                    s2 = self.mark(s2, ("swept", k))
                s2 = self.drop(s2, lambda x: x == ("hskip", s)).copy()
                s2.facts[("s", ("isend", s), True)] = TRUE
            outs.append((TRUE if eq else FALSE, s2))
        return outs

    def prev_op(self, sim, c, p):
        st, name, hs = c.st, c.name, self.hs_of(p)
        e, b, h = self.cur(st), self.below(st), self.head(st)
        if name in INSERT or name in ("insert", "emplace"):
            self.count("stores", c.fn.loc(c.node))
            i = len(c.args) - 1
            v, st = self.sval(sim, c, i)
            if v == U or v is None or e is None:
                self.flaw("store", st, "another state than the one that is left is stored in a history")
                return [(U, st)]
            t = self.typ(st, hs)
            first = next((st.heap.get(self.hpath(x[1]) + ("first",)) for x in self.marks(st, "hel") if self.hs_at(st, x[1]) == hs), None)
            if first is None or h is None or sim.eqv(st, first, h) is not True:
                self.flaw("store", st, "a state is stored in the history of a state that is not its parent")
            elif t is None:
                self.flaw("type", st, "a state is stored without regard to the type of the history")
            elif v != (b if t == self.SH else e):
                self.flaw("store", st, "a %s history does not store the %s" % (("shallow", "child of its parent") if t == self.SH else ("deep", "left state itself")))
            elif not self.fresh_list(st, hs):
                self.flaw("stale", st, "states of an earlier exit stay in the history")
            elif t == self.SH and ("cleared", hs) not in st.ts and ("absent", hs, v) not in st.ts:
                self.flaw("twice", st, "a state is stored more than once in a history")
            elif name in ("push_front", "emplace_front") or name in ("insert", "emplace") and c.args[0] is not None and c.args[0][0] == "it" and c.args[0][2] != ("END",):
                self.flaw("order", st, "left states are stored in another order than they are left, so that substates are restored before their parents")
            return [(U, self.mark(st, ("stored", hs, v)))]
        if name == "clear":
            if any(x[2] == hs and x[3] for x in self.marks(st, "asked")) or any(x[1] == hs for x in self.marks(st, "stored")):
                self.flaw("clear", st, "states that were stored during the same exit are removed from the history")
            return [(U, self.mark(self.drop(st, lambda x: x[0] in ("present", "stored", "absent") and x[1] == hs), ("cleared", hs)))]
        if name in ("empty", "size"):
            out = []
            none = ("cleared", hs) in st.ts and not any(x[1] == hs for x in self.marks(st, "stored"))
            if not none:
                out.append((FALSE if name == "empty" else ("c", 2), st))
            out.append((TRUE if name == "empty" else ("c", 0), st))
            return out
        if name in ("remove", "erase", "pop_front", "pop_back", "resize", "assign"):
            self.flaw("store", st, "states are removed from a history")
            return [(U, st)]
        return None

    def on_call(self, sim, c):
        self.sim = sim
        st, n, name, N = c.st, c.n, c.name, self.N
        q = tmpl(n.get("qn", ""))
        if c.key in N.parents:
            return self.oracle(sim, c, "par")
        p = c.objpath if "obj" in n else None
        if q in ("std::find", "std::count") and len(c.args) == 3 and c.args[0] is not None and c.args[0][0] == "it":
            cont = c.args[0][1]
            s, one = None, q == "std::count"
            if self.is_prev(st, cont):
                hs = self.hs_of(cont)
                v, st = self.sval(sim, c, 2)
                res = []
                none = ("cleared", hs) in st.ts and not any(x[1] == hs for x in self.marks(st, "stored"))
                if not none and ("absent", hs, v) not in st.ts:
                    res.append((True, self.mark(st, ("present", hs, v))))
                if ("present", hs, v) not in st.ts and ("stored", hs, v) not in st.ts:
                    res.append((False, self.mark(st, ("absent", hs, v))))
            elif self.local_cont(cont) and self.ref(sim, c, 2) is not None:
                res = self.ask(c.st, cont, self.ref(sim, c, 2))
            else:
                return None
            outs = []
            for t, s2 in res:
                if one:
                    outs.append((("c", int(t)), s2))
                elif not t:
                    outs.append((("it", cont, ("END",)), s2))
                else:
                    outs.append((("it", cont, ("found",)), s2))
            return outs
        if n.get("op") in ("==", "!="):
            vals = ([c.obj] if "obj" in n else []) + list(c.args)
            its = [v for v in vals if v is not None and v[0] == "it"]
            if len(its) == 2 and any(v[2] == ("found",) for v in its):
                return [(TRUE if (n["op"] == "==") == (its[0][2] == its[1][2]) else FALSE, st)]
        if p is not None:
            if self.is_hist(p):
                r = self.hist_op(sim, c, p)
                if r is not None:
                    return r
            elif self.is_prev(st, p):
                r = self.prev_op(sim, c, p)
                if r is not None:
                    return r
            elif p == self.list and name in ("empty", "size"):
                one = TRUE if name == "empty" else ("c", 0)
                return [(one, self.mark(st, ("void",))), (FALSE if name == "empty" else ("c", 2), st)]
            elif self.map_of(p) == "hdata" and name in ("empty", "size"):
                one = TRUE if name == "empty" else ("c", 0)
                return [(one, self.mark(st, ("void",))), (FALSE if name == "empty" else ("c", 2), st)]
            elif self.local_cont(p) and c.args and name in ("find", "count", "contains"):
                hs = self.ref(sim, c, 0)
                if hs is not None:
                    return [((("it", p, ("found",)) if t else ("it", p, ("END",))) if name == "find" else TRUE if t else FALSE, s2) for t, s2 in self.ask(c.st, p, hs)]
            elif self.local_cont(p) and c.args and (name in INSERT or name in ("insert", "emplace")):
                hs = self.ref(sim, c, len(c.args) - 1)
                if hs is None:
                    hs = self.ref(sim, c, 0)
                if hs is not None:
                    if name in INSERT and "set" not in str(n.get("cls", "")) and "map" not in str(n.get("cls", "")):
                        return [(U, self.mark(c.st, ("reg", p, hs)))]
                    outs = []
                    for t, s2 in self.ask(c.st, p, hs):
                        dst = (("t", c.depth, c.node),)
                        s2 = sim.kill_path(self.mark(s2, ("reg", p, hs)), dst).copy()
                        s2.heap[dst + ("second",)] = FALSE if t else TRUE
                        s2.heap[dst + ("first",)] = ("it", p, ("found",))
                        outs.append((("p", dst), s2))
                    return outs
        if n.get("op") == "++" and p is not None:
            it = sim.peek(st, p)
            if it is not None and it[0] == "it" and it[2][0] == "s" and (self.is_hist(it[1]) or self.is_prev(st, it[1]) or self.is_act(st, it[1])):
                rng = next((x for x in self.marks(st, "range") if x[1] == it[2]), None)
                v, s = sim.fresh(st, it[2][1], False)
                if rng is not None:
                    s = self.mark(s, rng)
                s = s.copy()
                s.facts.pop(("s", ("isend", v), True), None)
                nv = ("it", it[1], v)
                if len(p) == 1:
                    s.env[p[0]] = nv
                else:
                    s.heap[p] = nv
                return [(nv, s)]
        ic = iter_cmp(c)
        if ic is not None:
            cont, s, eq = ic
            if self.is_hist(cont):
                return self.hist_cmp(cont, s, eq, st)
            if self.is_prev(st, cont) or cont == self.list:
                known = TRUE if s == ("END",) else st.facts.get(("s", ("isend", s), True))
                mine = cont == self.list
                none = not mine and ("cleared", self.hs_of(cont)) in st.ts and not any(x[1] == self.hs_of(cont) for x in self.marks(st, "stored"))
                outs = []
                if known != TRUE and not none:
                    s2 = st.copy()
                    s2.facts[("s", ("isend", s), True)] = FALSE
                    outs.append((FALSE if eq else TRUE, self.enext(cont, s, s2) if mine else self.pnext(cont, s, s2)))
                if known != FALSE:
                    s2 = st
                    if s != ("END",):
                        s2 = self.eend(s2) if mine else self.pend(cont, s2)
                        s2 = s2.copy()
                        s2.facts[("s", ("isend", s), True)] = TRUE
                    outs.append((TRUE if eq else FALSE, s2))
                return outs
        s0 = ("s", (c.depth, c.fn.key, c.node), False)

        def on_end(cont, s):
            return self.eend(s) if cont == self.list else self.pend(cont, s) if self.is_prev(s, cont) else s

        def on_next(cont, s, x):
            return self.enext(cont, s, x) if cont == self.list else self.pnext(cont, s, x) if self.is_prev(x, cont) else x
        r = algo(self, sim, c, on_end=on_end, on_next=on_next)
        if r is not None:
            return r
        return self.map_op(sim, c)

    def enext(self, cont, s, st):
        q = cont + (("[]", s),)
        v = ("s", ("ld", q), False)
        st = self.mark(st, ("open", s, v)).copy()
        st.heap[q] = v
        return st

    def eend(self, st):
        if self.cur(st) is not None:
            st = self.leave_e(st)
        return self.mark(st, ("end",))

    def finish(self, sim, st):
        self.sim = sim
        if ("void",) in st.ts:
            return
        if self.cur(st) is not None or ("end",) not in st.ts:
            self.flaw("all", st, "not every left state is stored in the histories of its parents")


def run_record(N, take):
    """-> {function: (index of the topmost state, index of the list of left states)}"""
    found = {}
    for f in roots(N):
        c = RecordClient(N, f)
        sim = Sim(N.p, c)
        c.sim = sim
        st = State(ts=frozenset())
        args = {i: TOP for i, q in enumerate(f.params) if norm(q["type"]) == "int"}
        st.heap[(("o", "#given"),)] = ("c", (TOP,))
        outs = sim.run(f, args=args, st=st)
        for rv, s in outs:
            c.finish(sim, s)
        take(c, len(outs))
        if c.counts.get("stores"):
            c.count("recorded", f.key)
            found[f.key] = (next(i for i, q in enumerate(f.params) if norm(q["type"]) == "int"), next(i for i, q in enumerate(f.params) if is_states(q["type"])))
    return found
