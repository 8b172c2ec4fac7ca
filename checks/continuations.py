"""P23: what is generated when a final state or a history state is entered."""
from engine.registry import check
from engine import model
from engine.events import Roles, IMPL, INSERT, FRONT_INS, algo, iter_cmp
from engine.maps import MapClient
from engine.rolesets import closure_roles
from engine.sim import Sim, State, U, TRUE, FALSE, NULL, contains, tmpl
from checks.concurrency import ASSUME, configs, norm
from checks.transition import TransClient, TECH
from checks.registration import RegClient, setup, A

RULES = ("final-event", "active-children", "restored-states", "default-target", "history-parent", "history-recorded")
DEST = ("s", ("dest",), False)


def plain(ty):
    return norm(ty).replace("const", "").replace("&", "").strip()


def one(xs, what):
    xs = sorted(set(xs))
    if len(xs) != 1:
        raise model.AnalysisBroken("%s not recognised" % what)
    return xs[0]


class Names:
    """constructs of these rules, found by type and by what the public API stores"""

    def __init__(self, prog):
        self.p = prog
        self.cfg = cfg = setup(prog)
        self.roles = rs = cfg["roles"]
        self.trans = TransClient(prog, rs, rs.impl_of("transitionExWithArgsArray"))
        self.hier = self.trans.hier
        fl = {f["name"]: norm(f["type"]) for f in prog.classes[IMPL]["fields"]}

        def used(api):
            return {n["name"] for k in prog.callgraph_closure([rs.impl_of(api).key]) if k in prog.fns for n in prog.fns[k].nodes if n["k"] == "Field" and n.get("owner") == IMPL and n["name"] in fl}
        self.finals = one([x for x in used("registerFinalState") if fl[x].replace("unordered_", "").startswith("std::map<int, int")], "final states")
        h = used("registerHistory")
        self.hist = one([x for x in h if "multimap<int, int" in fl[x]], "history states")
        recs = {}
        for x in h:
            for r in prog.classes:
                if fl[x].replace("unordered_", "").startswith("std::map<int, %s" % r) and not r.startswith("std::"):
                    recs[x] = r
        self.hdata = one(recs, "history")
        self.rec = recs[self.hdata]
        fs = prog.classes[self.rec]["fields"]
        self.f_prev = one([f["name"] for f in fs if "<int" in norm(f["type"]) and norm(f["type"]).startswith("std::") and "function" not in f["type"]], "stored states")
        self.f_def = one([f["name"] for f in fs if norm(f["type"]) == "int"], "default target")
        self.f_htype = one([f["name"] for f in fs if norm(f["type"]) in prog.enums], "type of history")
        self.f_hcb = one([f["name"] for f in fs if f["type"].startswith("std::function")], "default transition")
        self.ev = rs.event_cls
        fs = prog.classes[self.ev]["fields"]
        self.f_id = one([f["name"] for f in fs if norm(f["type"]) == "int"], "id of events")
        self.f_behav = self.trans.f_behav
        self.tc = self.trans.tc
        self.f_forced = one([f["name"] for f in fs if "_ptr<" in norm(f["type"]) and self.tc in norm(f["type"])], "forced transitions")
        self.f_ign = one([f["name"] for f in fs if norm(f["type"]) == "bool"], "flag for entry points")
        self.REGULAR = self.trans.REGULAR
        self.FORCED = next(v["value"] for v in prog.enums["hsmcpp::TransitionBehavior"]["values"] if v["name"] == "FORCED")
        self.kinds = {v["name"]: v["value"] for v in prog.enums[norm(next(f["type"] for f in prog.classes[self.rec]["fields"] if f["name"] == self.f_htype))]["values"]}
        def inv(nm):
            return one([n["cv"] for f in prog.fns.values() for n in f.nodes if n["k"] == "Ref" and "cv" in n and n.get("global", "").endswith(nm)], nm)
        self.NOEVENT, self.NOSTATE = inv("INVALID_HSM_EVENT_ID"), inv("INVALID_HSM_STATE_ID")

        # functions
        def ints(f):
            return [norm(q["type"]) for q in f.params]

        def reads(f, nm):
            return any(n["k"] == "Field" and n.get("owner") == IMPL and n["name"] == nm for g in [f] + [prog.fns[n["fn"]] for n in f.nodes if n["k"] == "Lambda" and n.get("fn") in prog.fns] for n in g.nodes)
        impl = [f for f in prog.fns.values() if f.cls == IMPL and f.blocks and f.kind not in ("ctor", "dtor", "lambda")]
        self.parents = {k for k in cfg["lookups"] if ints(prog.fns[k]) == ["int", "int &"]}
        self.hparents = {f.key for f in impl if f.ret == "bool" and ints(f) == ["int", "int &"] and reads(f, self.hist) and not reads(f, cfg["subs"]) and not reads(f, self.hdata)}
        self.acts = {}
        act = rs.active[1]

        def closure(f):
            return [prog.fns[k] for k in prog.callgraph_closure([f.key]) if k in prog.fns]

        for f in impl:
            if f.ret != "bool" or ints(f) not in (["int"], ["int", "bool"]) or closure_roles(prog, rs, f.key) or f.key in self.trans.memfns:
                continue
            cl = closure(f)
            if reads(f, act) and any(reads(g, self.finals) for g in cl) and any(g.key in self.hier for g in cl):
                self.acts[f.key] = len(f.params) == 2
        self.hier = {k: v for k, v in self.hier.items() if k not in self.acts}

        def roots(field):
            cand = []
            for f in impl:
                if not any(plain(q["type"]) == self.ev for q in f.params) or not any(norm(q["type"]).replace("&", "").strip() == "int" for q in f.params):
                    continue
                cl = closure(f)
                if any(reads(g, field) for g in cl) and any((IMPL, n.get("name")) == rs.queue and n.get("owner") == IMPL for g in cl for n in g.nodes if n["k"] == "Field"):
                    cand.append(f)
            free = [f for f in cand if not closure_roles(prog, rs, f.key)]
            if free:
                return [f for f in free if not any(f.key != g.key and f.key in prog.callgraph_closure([g.key]) for g in free)]
            return [f for f in cand if not any(f.key != g.key and g.key in prog.callgraph_closure([f.key]) for g in cand)]
        self.final_roots, self.hist_roots = roots(self.finals), roots(self.hdata)


class ContClient(MapClient):
    """marks: ("par",x,T/F) ("act",x,T/F) ("hpar",x,T/F) ("prev","some"/"empty") ("push",...) ("L",list,status) ("item",list,kind,value)"""
    compact = False
    max_states = 60000

    def __init__(self, N, root):
        self.N, self.root = N, root
        self.maps = {(IMPL, N.finals): "finals", (IMPL, N.hdata): "hdata"}
        super().__init__(N.p, N.roles)
        self.noinline |= set(N.hier) | N.parents | N.hparents | set(N.acts)
        if root.key in self.noinline:
            self.noinline.discard(root.key)

    def interesting(self, f, n):
        N = self.N
        if n["k"] == "Field":
            o = (n.get("owner"), n["name"])
            return o in ((IMPL, N.finals), (IMPL, N.hdata), (IMPL, N.hist), N.roles.queue) or o[0] in (N.rec, N.ev) and o[1] in (N.f_prev, N.f_def, N.f_forced, N.f_ign, N.f_behav, N.f_hcb) or o == N.roles.active
        return False

    def inline(self, sim, fn, call_fn):
        if fn.cls in (self.N.ev, self.N.rec, self.N.tc):
            return False
        if fn.kind == "lambda":
            return True
        return super().inline(sim, fn, call_fn) and not closure_roles(self.p, self.roles, fn.key)

    def join_key(self, st):
        return (st.ts, frozenset((k, v) for k, v in st.env.items() if v[0] in ("c", "it")), frozenset((k, v) for k, v in st.heap.items() if v[0] == "c" or k[-1] in ("#prev", "*ptr")), frozenset(st.facts.items()))

    def stable(self, path):
        return True

    def marks(self, st, k):
        return [x for x in st.ts or () if x[0] == k]

    # ---- identities
    def is_queue(self, p):
        return p is not None and self.owner.get(p) == self.roles.queue

    def is_prev(self, st, p):
        return p is not None and (self.owner.get(p) == (self.N.rec, self.N.f_prev) or st.heap.get(p + ("#prev",)) == TRUE)

    def is_list(self, p):
        return p is not None and len(p) == 1 and isinstance(p[0], tuple) and p[0][0] == "o" and isinstance(p[0][1], tuple) and p[0][1][0] == "forced"

    def is_local(self, st, p):
        return p is not None and p + ("#n",) in st.heap

    def on_copy(self, sim, st, src, dst):
        if self.is_prev(st, src) and src != dst and len(dst) == 1:
            st = st.copy()
            st.heap[dst + ("#prev",)] = TRUE
        return st

    def prev_elem(self, st, v):
        """position of the stored state that v is"""
        if v is not None and v[0] == "s" and isinstance(v[1], tuple) and v[1][0] == "ld":
            p = v[1][1]
            if len(p) > 1 and isinstance(p[-1], tuple) and p[-1][0] == "[]" and self.is_prev(st, p[:-1]):
                return p[-1][1]
        return None

    def sval(self, sim, c, i):
        v, st = super().sval(sim, c, i)
        if v is not None and v[0] == "s":
            k = sim.const_of(st, v)
            if k is not None:
                v = ("c", k)
        return v, st

    def is_act(self, st, p):
        return False

    def on_compare(self, sim, op, a, b, st):
        """the default target of a history state is not its parent"""
        ks = {x[1][0] if x[1][0] == "hpar" else "def" for x in (a, b) if x[0] == "s" and isinstance(x[1], tuple) and x[1] and (x[1][0] == "hpar" or x[1][0] == "ld" and x[1][1][-1] == self.N.f_def)}
        if op in ("==", "!=") and len(ks) == 2:
            return ("c", int(op == "!="))
        return None

    # ---- iteration over the stored states
    def on_fresh(self, st, s):
        if any(x[2] == s for x in self.marks(st, "vis")):
            st = self.leave(st, s)
        return st

    def leave(self, st, s):
        """the iteration with position s moves on"""
        add = set()
        if ("did", s) not in st.ts:
            add.add(("skip", self.lid(s)))
        for a in self.marks(st, "vis"):
            if a[2] != s and ("rel0", a[2], s) not in st.ts:
                add.add(("gap", a[2], self.lid(s)))
        nested = {x[1] for x in self.marks(st, "in") if x[2] == s} | {s}
        keep = frozenset(x for x in st.ts if not (x[0] in ("vis",) and x[2] in nested or x[0] in ("did", "has", "rel0", "gap", "in", "itemof") and any(y in nested for y in x[1:])))
        return st.with_ts(keep | add)

    @staticmethod
    def lid(s):
        return ("loop",) + tuple(s[1]) if isinstance(s[1], tuple) else s

    def range_next(self, cont, s, st):
        st = self.mark(st, ("vis", cont, s), ("prev", "some"), ("seen", self.lid(s)), *[("in", s, x[2]) for x in self.marks(st, "vis") if x[2] != s])
        st = st.copy()
        q = cont + (("[]", s),)
        st.heap[q] = ("s", ("ld", q), False)
        return st

    def range_end(self, cont, s, st):
        """all elements were visited"""
        l = self.lid(s)
        if ("seen", l) not in st.ts:
            if ("prev", "some") in st.ts:
                return None
            return self.mark(st, ("prev", "empty"), ("full", l))
        st = self.leave(st, s) if any(x[2] == s for x in self.marks(st, "vis")) else st
        add = set()
        if ("skip", l) not in st.ts:
            add.add(("full", l))
        for a in self.marks(st, "vis"):
            if ("gap", a[2], l) not in st.ts and ("has", a[2], True) not in st.ts:
                add.add(("has", a[2], False))
        return st.with_ts(frozenset(x for x in st.ts if x not in (("skip", l), ("seen", l)) and not (x[0] == "gap" and x[2] == l)) | add)

    def relation(self, sim, c):
        a, st = self.sval(sim, c, 0)
        c.st = st
        b, st = self.sval(sim, c, 1)
        ci = self.N.hier.get(c.key)
        if ci is None:
            return [(("s", ("REL", c.key, a, b), True), st)]
        par, ch = (a, b) if ci == 1 else (b, a)
        ea, eb = self.prev_elem(st, par), self.prev_elem(st, ch)
        if ea is not None and ea == eb:
            return [(FALSE, st)]
        k = ("rel", par, ch)
        outs = []
        for t in (True, False):
            if (k + (not t,)) in st.ts:
                continue
            s = st
            if ea is not None and eb is not None:
                s = self.mark(s, ("has", ea, True)) if t else self.mark(s, ("rel0", ea, eb))
            elif not contains(k, DEST) and not any(contains(k, x[2]) for x in self.marks(st, "vis")):
                s = self.mark(s, k + (t,))
            outs.append((TRUE if t else FALSE, s))
        return outs

    def oracle(self, sim, c, kind):
        """a lookup that is verified on its own"""
        a, st = self.sval(sim, c, 0)
        outs = []
        for t in (True, False):
            if (kind, a, not t) in st.ts:
                continue
            s = self.mark(st, (kind, a, t))
            if t and len(c.argpaths) > 1 and c.argpaths[1] is not None and kind != "act":
                s = sim.store(s, c.argpaths[1], ("s", (kind, a), False))
                s = s.copy()
                s.heap[(("o", "#keep"), (kind, a))] = ("s", (kind, a), False)
            outs.append((TRUE if t else FALSE, s))
        return outs

    # ---- lists of forced transitions
    def status(self, st, L):
        for x in self.marks(st, "L"):
            if x[1] == L:
                return x[2]
        return None

    def set_status(self, st, L, v):
        return st.with_ts(frozenset(x for x in st.ts if not (x[0] == "L" and x[1] == L)) | {("L", L, v)})

    def event_list(self, st, p):
        v = st.heap.get(p + (self.N.f_forced, "*ptr"))
        return v[1] if v is not None and v[0] == "p" and self.is_list(v[1]) else None

    def ident(self, sim, st, p, v):
        """which callback is it?"""
        if v is not None and v[0] == "null":
            return "none"
        if p is None:
            return "?"
        x = sim.peek(st, p)
        if x is not None and x[0] == "null":
            return "none"
        r = st.heap.get(p + ("#role",))
        if r is not None and r[1][1] == self.N.rec:
            return "default"
        if self.owner.get(p) == (self.N.rec, self.N.f_hcb):
            return "default"
        t = st.heap.get(p + ("?",))
        if t is not None and sim.resolve(st, t) is False:
            return "none"
        return "?"

    def item(self, sim, c, L):
        """a transition is added to a list"""
        st, N = c.st, self.N
        args = [i for i in range(len(c.args)) if not (c.args[i] is not None and c.args[i][0] == "it")]
        if len(args) == 1:
            p = c.argpaths[args[0]]
            to = sim.peek(st, p + (N.trans.f_dest,)) if p is not None else None
            cb = st.heap.get(p + ("#cb",), ("c", "?"))[1] if p is not None else "?"
        elif len(args) >= 2:
            to, st = self.sval(sim, c, args[1])
            cb = self.ident(sim, st, c.argpaths[args[3]], c.args[args[3]]) if len(args) > 3 else "none"
        else:
            return None
        e = self.prev_elem(st, to)
        self.count("items", c.fn.loc(c.node))
        if e is not None:
            has = True if ("has", e, True) in st.ts else False if ("has", e, False) in st.ts else None
            it = ("state", has, cb)
            st = self.mark(st, ("did", e))
        elif to is not None and to[0] == "s" and isinstance(to[1], tuple) and to[1][0] == "hpar":
            it = ("parent", None, cb)
        elif to is not None and to[0] == "s" and isinstance(to[1], tuple) and to[1][0] == "ld" and to[1][1][-1] == N.f_def:
            it = ("target", None, cb)
        else:
            it = ("other", None, cb)
        stt = self.status(st, L)
        st = self.mark(st, ("item", L, it))
        if stt in ("pushedT", "pushedF", "pushed?"):
            st = self.judge(sim, c, st, it, {"T": True, "F": False, "?": None}[stt[-1]])
        else:
            st = self.set_status(st, L, "filled")
        return st

    def judge(self, sim, c, st, it, flag):
        """an event with this transition and this flag is queued"""
        kind, has, cb = it
        if kind == "state" and flag is not None and has != flag:
            self.report("restored-states", "entry points", c.fn, c.node, "a stored state is restored %s" % ("with its entry point although its substates are restored, too" if not flag else "without its entry point although none of its substates is restored"), st)
        if kind == "state" and cb == "default":
            self.report("restored-states", "default transition", c.fn, c.node, "the default transition of the history state is executed although stored states are restored", st)
        if kind == "target" and flag is True:
            self.report("default-target", "entry points", c.fn, c.node, "the default target is entered without its entry point", st)
        return st.with_ts(st.ts | {("did2", (kind, flag, cb))})

    def push(self, sim, c):
        st, N = c.st, self.N
        src = c.argpaths[-1] if c.argpaths else None
        if src is None:
            return st
        behav = sim.const_of(st, sim.peek(st, src + (N.f_behav,)) or U)
        if c.name not in FRONT_INS and c.name not in ("insert", "emplace"):
            self.report(self.rule0, "order", c.fn, c.node, "the event is not processed before the events that are waiting", st)
        self.count("pushes", c.fn.loc(c.node))
        if behav == N.REGULAR:
            idv = sim.peek(st, src + (N.f_id,))
            k = sum(x[1] for x in self.marks(st, "final"))
            return self.mark(st.with_ts(frozenset(x for x in st.ts if x[0] != "final")), ("final", k + 1, idv), note=("event is generated", c.fn, c.node))
        if behav != N.FORCED:
            return self.mark(st, ("odd",), note=("event is generated", c.fn, c.node))
        L = self.event_list(st, src)
        if L is None:
            return self.mark(st, ("odd",))
        s = self.status(st, L)
        fv = sim.peek(st, src + (N.f_ign,))
        flag = sim.const_of(st, fv) if fv is not None else None
        flag = None if flag is None else bool(flag)
        if s is not None and s.startswith("pushed"):
            self.report(self.rule0, "twice", c.fn, c.node, "a transition of a history state is executed twice", st)
        its = [x[2] for x in self.marks(st, "item") if x[1] == L]
        for it in its:
            st = self.judge(sim, c, st, it, flag)
        kinds = frozenset((k, flag, cb) for k, h, cb in its)
        st = st.with_ts(frozenset(x for x in st.ts if x[0] != "last") | {("last", kinds)}, ("continuation is queued", c.fn, c.node))
        return self.set_status(st, L, "pushed" + ("?" if flag is None else "T" if flag else "F"))

    # ---- hooks
    def on_construct(self, sim, c):
        cls, st = tmpl(c.qn), c.st
        if c.target is None:
            return None
        if cls in ("std::list", "std::vector", "std::deque"):
            ty = norm(str(c.n.get("ty", "")) or c.qn)
            if not c.args and "<int" in ty:
                st = sim.kill_path(st, c.target).copy()
                st.heap[c.target + ("#n",)] = ("c", 0)
                return [st]
            if len(c.args) == 1 and c.argpaths[0] is not None:
                return [sim.copy_obj(st, c.argpaths[0], c.target)]
        if cls == "std::function" and not c.args:
            st = sim.kill_path(st, c.target).copy()
            st.heap[c.target + ("?",)] = FALSE
            return [st]
        if c.qn == self.N.tc and len(c.args) >= 4:
            to, st = self.sval(sim, c, 1)
            cb = self.ident(sim, st, c.argpaths[3], c.args[3])
            st = sim.kill_path(st, c.target).copy()
            st.heap[c.target + (self.N.trans.f_dest,)] = to if to is not None else U
            st.heap[c.target + ("#cb",)] = ("c", cb)
            return [st]
        if c.qn == self.N.ev and not c.args:
            st = sim.kill_path(st, c.target).copy()
            st.heap[c.target + (self.N.f_id,)] = ("c", self.N.NOEVENT)
            st.heap[c.target + (self.N.f_behav,)] = ("c", self.N.REGULAR)
            st.heap[c.target + (self.N.f_ign,)] = FALSE
            return [st]
        if c.qn in (self.N.ev, self.N.tc, self.N.rec) and len(c.args) == 1 and c.argpaths[0] is not None:
            return [sim.copy_obj(st, c.argpaths[0], c.target)]
        return None

    def on_destroy(self, sim, path, rec, loc, st):
        return [st]

    def on_call(self, sim, c):
        st, n, name, N = c.st, c.n, c.name, self.N
        q = tmpl(n.get("qn", ""))
        if c.key in N.hier and len(c.args) == 2:
            return self.relation(sim, c)
        if c.key in N.parents:
            return self.oracle(sim, c, "par")
        if c.key in N.hparents:
            return self.oracle(sim, c, "hpar")
        if c.key in N.acts and c.key != self.root.key:
            if N.acts[c.key]:
                v, st = self.sval(sim, c, 1)
                if v is None or sim.const_of(st, v) != 0:
                    self.report("final-event", "siblings", c.fn, c.node, "final states count as active siblings", st)
                c.st = st
            return self.oracle(sim, c, "act")
        if q == "std::make_shared" and N.tc in norm(str(n.get("ty", ""))) and "list" in str(n.get("ty", "")):
            L = (("o", ("forced", c.depth, c.fn.key, c.node)),)
            if self.status(st, L) == "filled":
                self.report(self.rule0, "lost", c.fn, c.node, "a transition of a history state is created but never executed", st)
            st = self.set_status(st.with_ts(frozenset(x for x in st.ts if not (x[0] == "item" and x[1] == L))), L, "empty")
            dst = (("t", c.depth, c.node),)
            st = sim.kill_path(st, dst).copy()
            st.heap[dst + ("?",)] = TRUE
            st.heap[dst + ("*ptr",)] = ("p", L)
            return [(("p", dst), st)]
        if name == "operator=" and c.objpath is not None and c.argpaths and c.argpaths[0] is not None and (str(n.get("cls", "")).startswith("std::function") or n.get("cls") in (N.ev, N.rec, N.tc) or self.is_prev(st, c.argpaths[0])):
            if c.args[0] is not None and c.args[0][0] in ("null", "lam"):
                return None
            return [(("p", c.objpath), sim.copy_obj(st, c.argpaths[0], c.objpath))]
        p = c.objpath if "obj" in n else None
        if p is not None:
            if self.is_queue(p) and name in INSERT:
                return [(U, self.push(sim, c))]
            if self.is_list(p):
                if name in INSERT:
                    s = self.item(sim, c, p)
                    return [(U, s)] if s is not None else None
                s0 = self.status(st, p)
                full = any(x[1] == p for x in self.marks(st, "item"))
                if name == "empty":
                    return [(FALSE if full else TRUE, st)]
                if name == "size":
                    return [(("c", 1) if full else ("c", 0), st)]
                if name in ("begin", "cbegin") and not full:
                    return [(("it", p, ("END",)), st)]
            elif self.is_prev(st, p):
                if name in ("empty", "size"):
                    outs = []
                    if ("prev", "some") not in st.ts:
                        outs.append((TRUE if name == "empty" else ("c", 0), self.mark(st, ("prev", "empty"))))
                    if ("prev", "empty") not in st.ts:
                        outs.append((FALSE if name == "empty" else ("c", 2), self.mark(st, ("prev", "some"))))
                    return outs
                if name in ("begin", "cbegin", "rbegin", "crbegin") and ("prev", "empty") in st.ts:
                    return [(("it", p, ("END",)), st)]
                if name == "swap" and c.argpaths and c.argpaths[0] is not None:
                    return [(U, sim.copy_obj(st, p, c.argpaths[0]))]
                if name in ("clear", "erase", "remove", "pop_front", "pop_back"):
                    return [(U, st)]
            elif self.is_local(st, p):
                r = self.local(sim, c, p)
                if r is not None:
                    return r
            if name == "swap" and c.argpaths and self.is_prev(st, c.argpaths[0]):
                return [(U, sim.copy_obj(st, c.argpaths[0], p))]
        if n.get("op") == "++" and p is not None:
            it = sim.peek(st, p)
            if it is not None and it[0] == "it" and it[2][0] == "s" and (self.is_prev(st, it[1]) or self.is_act(st, it[1])):
                # the position keeps its name, what was known about the element is dropped
                v, s = sim.fresh(st, it[2][1], False)
                s = s.copy()
                s.facts.pop(("s", ("isend", v), True), None)
                nv = ("it", it[1], v)
                if len(p) == 1:
                    s.env[p[0]] = nv
                else:
                    s.heap[p] = nv
                return [(nv, s)]
            if it is not None and it[0] == "it" and self.is_local(st, it[1]) and it[2][0] == "c":
                k = it[2][1] + 1
                nv = ("it", it[1], ("c", k) if k < st.heap[it[1] + ("#n",)][1] else ("END",))
                s = st.copy()
                if len(p) == 1:
                    s.env[p[0]] = nv
                else:
                    s.heap[p] = nv
                return [(it if c.args else nv, s)]
        ic = iter_cmp(c)
        if ic is not None:
            cont, s, eq = ic
            if self.is_local(st, cont):
                return [(TRUE if (s == ("END",)) == eq else FALSE, st)]
            if self.is_prev(st, cont) or self.is_list(cont):
                prev = self.is_prev(st, cont)
                known = TRUE if s == ("END",) else st.facts.get(("s", ("isend", s), True))
                outs = []
                if known != TRUE:
                    s2 = st.copy()
                    s2.facts[("s", ("isend", s), True)] = FALSE
                    outs.append((FALSE if eq else TRUE, self.range_next(cont, s, s2) if prev else s2))
                if known != FALSE:
                    s2 = self.range_end(cont, s, st) if prev and s != ("END",) else st
                    if s2 is not None:
                        s2 = s2.copy()
                        if s != ("END",):
                            s2.facts[("s", ("isend", s), True)] = TRUE
                        outs.append((TRUE if eq else FALSE, s2))
                return outs
        s0 = ("s", (c.depth, c.fn.key, c.node), False)
        r = algo(self, sim, c, on_end=lambda cont, s: self.range_end(cont, s0, s) if self.is_prev(s, cont) else s, on_next=lambda cont, s, x: self.range_next(cont, s, x) if self.is_prev(x, cont) else x)
        if r is not None:
            return r
        return self.map_op(sim, c)

    def local(self, sim, c, p):
        """a small list of states, element by element"""
        st, name = c.st, c.name
        k = st.heap[p + ("#n",)][1]
        if name in ("emplace_back", "push_back"):
            v, st = self.sval(sim, c, 0)
            st = st.copy()
            st.heap[p + (("[]", ("c", k)),)] = v if v is not None else U
            st.heap[p + ("#n",)] = ("c", k + 1)
            if k > 8:
                raise model.AnalysisBroken("list of states grows at %s" % c.fn.loc(c.node))
            return [(U, st)]
        if name in ("emplace_front", "push_front"):
            v, st = self.sval(sim, c, 0)
            st = st.copy()
            for i in range(k, 0, -1):
                st.heap[p + (("[]", ("c", i)),)] = st.heap[p + (("[]", ("c", i - 1)),)]
            st.heap[p + (("[]", ("c", 0)),)] = v if v is not None else U
            st.heap[p + ("#n",)] = ("c", k + 1)
            return [(U, st)]
        if name == "empty":
            return [(TRUE if k == 0 else FALSE, st)]
        if name == "size":
            return [(("c", k), st)]
        if name in ("begin", "cbegin"):
            return [(("it", p, ("c", 0) if k else ("END",)), st)]
        if name in ("end", "cend"):
            return [(("it", p, ("END",)), st)]
        if name in ("operator[]", "at") and c.args and sim.const_of(st, c.args[0]) is not None:
            return [(("p", p + (("[]", ("c", sim.const_of(st, c.args[0]))),)), st)]
        return None


class FinalClient(ContClient):
    rule0 = "final-event"

    def finish(self, sim, st):
        f, N = self.root, self.N

        def bad(key, msg):
            self.report("final-event", key, f, None, msg, st)
        keys = [(k[-1][1], v == TRUE) for k, v in st.heap.items() if isinstance(k[-1], tuple) and k[-1][0] == "#has" and self.map_of(k[:-1]) == "finals"]
        gen = self.marks(st, "final")
        count = sum(x[1] for x in gen)
        need = None
        for k, present in keys:
            par = [x[2] for x in self.marks(st, "par") if x[1] == k]
            act = [x[2] for x in self.marks(st, "act") if x[1] == ("s", ("par", k), False)]
            if not present:
                continue
            if not par and not act and count == 0:
                bad("not generated", "nothing is generated for a final state on a path that does not ask for its parent")
                return
            if par and par[0] and act and not act[0]:
                need = k
            elif par and par[0] and not N.acts:
                need = k if count else None         # how siblings are looked for is not recognised
            elif par and par[0] and not act:
                bad("siblings", "whether the parent of a final state has other active substates is not taken into account")
                return
        if need is None:
            if count:
                bad("unexpected", "an event is generated although no final state was entered, or although its parent is missing or has other active substates")
            return
        self.count("final", f.key)
        if count != 1:
            bad("once", "no event is generated for a final state" if not count else "more than one event is generated for a final state")
            return
        idv = gen[0][2]
        el = next((kk for kk in st.heap if len(kk) > 1 and kk[-1] == "second" and kk[-2] == ("[]", need) and self.map_of(kk[:-2]) == "finals"), None)
        reg = st.heap.get(el) if el is not None else None
        none = sim.eqv(st, reg, ("c", N.NOEVENT)) if reg is not None else None
        evp = next(("o", "param:" + q["name"]) for q in f.params if plain(q["type"]) == N.ev)
        own = st.heap.get((evp, N.f_id))
        if none is None:
            bad("event", "the event of a final state is generated without looking whether one was registered")
        elif none and idv != own:
            bad("event", "a final state without an event of its own does not generate the event that caused the transition")
        elif not none and idv != reg:
            bad("event", "another event than the registered one is generated for a final state")


class HistClient(ContClient):
    rule0 = "restored-states"

    def finish(self, sim, st):
        f, N = self.root, self.N

        def bad(rule, key, msg):
            self.report(rule, key, f, None, msg, st)
        keys = [k[-1][1] for k, v in st.heap.items() if isinstance(k[-1], tuple) and k[-1][0] == "#has" and v == TRUE and self.map_of(k[:-1]) == "hdata"]
        did = {x[1] for x in self.marks(st, "did2")}
        if not keys:
            if did:
                bad("restored-states", "unexpected", "transitions are generated although no history state was entered")
            return
        for x in self.marks(st, "L"):
            if x[2] == "filled":
                bad(self.rule0, "lost", "a transition of a history state is created but never executed")
                return
        k = keys[0]
        hp = [x[2] for x in self.marks(st, "hpar") if x[1] == k]
        last = self.marks(st, "last")
        last = last[0][1] if last else frozenset()
        if ("prev", "some") in st.ts and ("prev", "empty") not in st.ts:
            self.count("restored", f.key)
            if not self.marks(st, "full"):
                bad("restored-states", "all", "not every stored state is restored")
            if any(x[0] in ("target", "other") for x in did):
                bad("restored-states", "other", "another state is entered although stored states are restored")
            if not hp:
                bad("restored-states", "parent", "the parent of the history state is not entered")
            elif hp[0] and not (last and all(x[:2] == ("parent", True) for x in last)):
                bad("restored-states", "parent", "the parent of the history state is not entered first (or it executes its entry points)")
            elif any(x[0] == "parent" and x[2] == "default" for x in did):
                bad("restored-states", "default transition", "the default transition of the history state is executed although stored states are restored")
        elif ("prev", "empty") in st.ts:
            if not hp:
                bad("default-target", "parent", "the parent of the history state is not entered")
                return
            if not hp[0]:
                return
            self.count("default", f.key)
            d = next((v for kk, v in st.heap.items() if kk[-1] == N.f_def and self.map_of(kk[:-3]) == "hdata"), None)
            none = sim.eqv(st, d, ("c", N.NOSTATE)) if d is not None else None
            if none is None:
                bad("default-target", "choice", "a history state without stored states does not look whether a default target was registered")
            elif none:
                if {x[0] for x in did} != {"parent"} or not all(x[1] is not True for x in did):
                    bad("default-target", "entry point", "a history state without stored states and default target does not enter its parent with its entry point")
                elif not any(x[2] == "default" for x in did):
                    bad("default-target", "callback", "the transition callback of the history state is not executed")
            else:
                if {x[0] for x in did} != {"parent", "target"}:
                    bad("default-target", "target", "a history state without stored states does not enter exactly its default target and its parent")
                elif not (last and all(x[:2] == ("parent", True) for x in last)):
                    bad("default-target", "parent", "the parent of the history state is not entered first (or it executes its entry points)")
                elif [x[2] for x in did if x[0] == "target"] != ["default"] or any(x[2] == "default" for x in did if x[0] == "parent"):
                    bad("default-target", "callback", "the transition callback of the history state is not executed exactly once")
        else:
            bad("restored-states", "ask", "a history state is entered on a path that does not look for stored states")


class ChildClient(ContClient):
    """are there active children?  marks: ("el",s) ("rel",…) ("fin",s,T/F)"""
    rule0 = "active-children"

    def __init__(self, N, root, flag):
        self.flag = flag
        super().__init__(N, root)
        self.noinline.discard(root.key)

    def is_act(self, st, p):
        return p is not None and (self.owner.get(p) == self.roles.active or st.heap.get(p + ("#act",)) == TRUE)

    def on_copy(self, sim, st, src, dst):
        if self.is_act(st, src) and src != dst and len(dst) == 1:
            st = st.copy()
            st.heap[dst + ("#act",)] = TRUE
        return st

    def inline(self, sim, fn, call_fn):
        return fn.kind == "lambda" or fn.key in self.relevant and fn.key not in self.noinline

    def aelem(self, st, v):
        if v is not None and v[0] == "s" and isinstance(v[1], tuple) and v[1][0] == "ld":
            p = v[1][1]
            if len(p) > 1 and isinstance(p[-1], tuple) and p[-1][0] == "[]" and self.is_act(st, p[:-1]):
                return p[-1][1]
        return None

    def anext(self, cont, s, st):
        st = self.mark(st, ("el", s, ("s", ("ld", cont + (("[]", s),)), False))).copy()
        q = cont + (("[]", s),)
        st.heap[q] = ("s", ("ld", q), False)
        return st

    def counts_as(self, st, s):
        """does the element count as an active child? None: not known"""
        r = [x[3] for x in self.marks(st, "rel") if x[2] == s]
        fin = [x[2] for x in self.marks(st, "fin") if x[1] == s]
        if r and not r[0] or not self.flag and fin and fin[0]:
            return False
        if any(st.facts.get(Sim.eqkey(None, A(0), x[2])) == TRUE for x in self.marks(st, "el") if x[1] == s):
            return False        # a state is not its own substate
        if r and r[0] and (self.flag or fin and not fin[0]):
            return True
        return None

    def done(self, st, s):
        add = set()
        if any(x[1] == s for x in self.marks(st, "el")):
            r = self.counts_as(st, s)
            add = {("missed",)} if r is None else {("found",)} if r else set()
        return st.with_ts(frozenset(x for x in st.ts if not (x[0] == "el" and x[1] == s or x[0] == "fin" and x[1] == s or x[0] == "rel" and x[2] == s)) | add)

    def on_fresh(self, st, s):
        return self.done(st, s)

    def relation(self, sim, c):
        a, st = self.sval(sim, c, 0)
        c.st = st
        b, st = self.sval(sim, c, 1)
        ci = self.N.hier.get(c.key)
        par, ch = (a, b) if ci != 0 else (b, a)
        e = self.aelem(st, ch)
        if par != A(0) or e is None:
            return [(("s", ("REL", c.key, a, b), True), st)]
        if sim.eqv(st, par, ch) is True:
            return [(FALSE, st)]
        outs = []
        for t in (True, False):
            k = ("rel", par, e, t)
            if ("rel", par, e, not t) not in st.ts:
                outs.append((TRUE if t else FALSE, self.mark(st, k)))
        return outs

    def map_event(self, sim, c, st, kind, cont, k):
        e = self.aelem(st, k)
        if e is not None and self.map_of(cont) == "finals" and kind in ("find+", "find-"):
            return self.mark(st, ("fin", e, kind == "find+"))
        return st

    def on_call(self, sim, c):
        st, n = c.st, c.n
        if c.key in self.N.acts and c.key != self.root.key:
            return None
        p = c.objpath if "obj" in n else None
        ic = iter_cmp(c)
        if ic is not None and self.is_act(st, ic[0]):
            cont, s, eq = ic
            known = TRUE if s == ("END",) else st.facts.get(("s", ("isend", s), True))
            outs = []
            if known != TRUE:
                s2 = st.copy()
                s2.facts[("s", ("isend", s), True)] = FALSE
                outs.append((FALSE if eq else TRUE, self.anext(cont, s, s2)))
            if known != FALSE:
                s2 = self.mark(self.done(st, s) if s != ("END",) else st, ("end",)).copy()
                if s != ("END",):
                    s2.facts[("s", ("isend", s), True)] = TRUE
                outs.append((TRUE if eq else FALSE, s2))
            return outs
        s0 = ("s", (c.depth, c.fn.key, c.node), False)
        r = algo(self, sim, c, on_end=lambda cont, s: self.mark(self.done(s, s0), ("end",)), on_next=lambda cont, s, x: self.anext(cont, s, x))
        if r is not None:
            return r
        return super().on_call(sim, c)

    def finish(self, sim, rv, st):
        v = sim.const_of(st, rv) if rv is not None else None
        yes = ("found",) in st.ts or any(self.counts_as(st, x[1]) for x in self.marks(st, "el"))
        if v is None:
            self.report("active-children", self.root.name, self.root, None, "the answer does not depend on the active states", st)
        elif v and not yes:
            self.report("active-children", self.root.name, self.root, None, "a state counts as an active substate although it is none%s" % ("" if self.flag else ", or is a final state"), st)
        elif not v and (yes or ("end",) not in st.ts or ("missed",) in st.ts):
            self.report("active-children", self.root.name, self.root, None, "an active substate is not taken into account", st)


def run(config):
    prog = model.load(config, ("witness/api.cpp",))
    N = Names(prog)
    bad, counts, npaths = [], {}, 0

    def take(c, n):
        nonlocal npaths
        npaths += n
        bad.extend(c.bad)
        for k, v in c.counts.items():
            counts.setdefault(k, set()).update(v)

    def start(f, dest=None):
        st = State(ts=frozenset())
        args = {}
        keep = []
        for i, q in enumerate(f.params):
            if plain(q["type"]) == N.ev:
                p = (("o", "param:" + q["name"]),)
                for fl in (N.f_id, N.f_behav, N.f_ign):
                    v = ("s", ("event", fl), fl == N.f_ign)
                    st.heap[p + (fl,)] = v
                    keep.append(v)
            elif norm(q["type"]) == "int":
                args[i] = DEST if dest is None else dest
                keep.append(args[i])
        st.heap[(("o", "#given"),)] = ("c", tuple(keep))
        return st, args
    for cls, roots in ((FinalClient, N.final_roots), (HistClient, N.hist_roots)):
        for f in roots:
            c = cls(N, f)
            sim = Sim(prog, c)
            st, args = start(f)
            outs = sim.run(f, args=args, st=st)
            for rv, s in outs:
                c.finish(sim, s)
            take(c, len(outs))
            counts.setdefault("roots", set()).add(f.key)
    for k, two in sorted(N.acts.items()):
        f = prog.fns[k]
        for flag in (False, True) if two else (False,):
            c = ChildClient(N, f, flag)
            sim = Sim(prog, c)
            st = State(ts=frozenset())
            st.heap[(("o", "#given"),)] = ("c", (A(0),))
            outs = sim.run(f, args={0: A(0), 1: TRUE if flag else FALSE} if two else {0: A(0)}, st=st)
            for rv, s in outs:
                c.finish(sim, rv, s)
            take(c, len(outs))
            counts.setdefault("children", set()).add(f.key)
    from checks.history import run_record
    recs = run_record(N, take)
    if recs:
        from checks.transition import analyse
        for root, c, sim, n in analyse(config, recs):
            c.bad[:] = [b for b in c.bad if b[0] == "history-recorded"]
            c.counts = {"histcalls": c.counts.get("history", set())}
            take(c, n)
    # the parent of a history state
    for k in sorted(N.hparents):
        f = prog.fns[k]
        c = RegClient(prog, N.cfg, None)
        sim = Sim(prog, c)
        st = State(ts=frozenset())
        st.heap[(("o", "#given"),)] = ("c", (A(0),))
        out = (("o", "out"),)
        outs = sim.run(f, args={0: A(0), 1: ("alias", out)}, st=st)
        for rv, s in outs:
            v = sim.const_of(s, rv)
            hit = [x for x in c.marks(s, "vis") if c.el_known(s, x) is True]
            msg = None
            if v is None or bool(v) != bool(hit) or not v and ("end", "all") not in s.ts:
                msg = "the parent of a history state is not found (or found for another state)"
            elif v:
                got = s.heap.get(out) or s.env.get(out[0])
                el = hit[0][1] + (("[]", hit[0][2]),)
                if not (got is not None and got[0] == "s" and isinstance(got[1], tuple) and got[1][0] == "ld" and got[1][1] == el + ("first",)):
                    msg = "another state than the parent of the history state is returned"
            if msg:
                c.report("history-parent", f.name, f, None, msg, s)
        take(c, len(outs))
        counts.setdefault("hparents", set()).add(f.key)
    return bad, counts, npaths


@check("P23", "The functions that continue a transition into a final or a history state are explored abstractly for every outcome of each lookup (final or history state known, parent found, other active "
       "substates, states stored, default target registered) and for every stored state: which events are queued, with which id, targets, callback and entry-point flag, and in which order. "
       "The lookups themselves are verified as roots of their own.", ASSUME, TECH)
def p23(rep, tier):
    for config in configs(tier):
        bad, counts, npaths = run(config)
        for rule in RULES:
            mine = [b for b in bad if b[0] == rule]
            seen = set()
            for r, key, loc, msg, path in mine:
                if (key, msg) not in seen:
                    seen.add((key, msg))
                    rep.violate(r, key, loc, msg, path)
            if not mine:
                rep.ob(rule, True)
        for k in ("roots", "final", "restored", "default", "pushes", "items"):
            rep.stat(k, len(counts.get(k, ())))
            if not counts.get(k) and not rep.violations:
                raise model.AnalysisBroken("%s not recognised" % k)
        rep.stat("path_classes", npaths)
        for k in ("children", "hparents", "recorded", "stores", "climb", "histcalls"):
            rep.stat(k, len(counts.get(k, ())))
