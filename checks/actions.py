"""P20: state actions and the machine's timers: what was registered is what happens."""
import functools
import re
from engine.registry import check
from engine import model
from engine.events import EvClient, Roles, IMPL, FACADE, IFACE, INSERT, algo, iter_cmp, machine
from engine.sim import Sim, State, U, TRUE, FALSE, NULL, contains, tmpl
from checks.concurrency import ASSUME, configs, norm
from checks.transition import TECH

POST_KINDS = ("START_TIMER", "STOP_TIMER", "RESTART_TIMER", "TRANSITION")
LEGAL = {1: ("STOP_TIMER", "RESTART_TIMER", "TRANSITION"), 2: ("TRANSITION",), 3: ("START_TIMER", "TRANSITION"), 4: ("TRANSITION",)}
NUMERIC = ("toInt64", "toUInt64", "toDouble")


def strip(ty):
    return norm(ty).replace("&", "").replace("const ", "").strip()


def setup(prog):
    """names of the container of actions, of its record, of the container timer -> event, values of the enumerations"""
    rs = Roles(prog)
    res = {"roles": rs}
    for f in prog.classes[IMPL]["fields"]:
        m = re.search(r"map<.*StateActionTrigger.*,\s*(hsmcpp::[\w:]+)", norm(f["type"]))
        if m and m.group(1) in prog.classes:
            res["cont"], res["rec"] = f["name"], m.group(1)
    if "cont" not in res:
        raise model.AnalysisBroken("container of state actions not found")
    for f in prog.classes[res["rec"]]["fields"]:
        if norm(f["type"]).endswith("StateAction"):
            res["fa"] = f["name"]
        if "vector" in f["type"] and "Variant" in f["type"] or f["type"].endswith("VariantVector_t"):
            res["fv"] = f["name"]
    if "fa" not in res or "fv" not in res:
        raise model.AnalysisBroken("record of state actions not recognised")
    ev = {}
    for f in prog.fns.values():
        for n in f.nodes:
            if n["k"] == "EnumC" and n["name"].startswith(("hsmcpp::StateAction::", "hsmcpp::StateActionTrigger::")):
                ev[n["name"].rsplit("::", 1)[1]] = n["val"]
    for k in POST_KINDS + ("ON_STATE_ENTRY", "ON_STATE_EXIT"):
        if k not in ev:
            raise model.AnalysisBroken("value of %s not found" % k)
    res["ev"] = ev
    rt = rs.impl_of("registerTimer")
    tf = [n["name"] for n in rt.nodes if n["k"] == "Field" and n.get("owner") == IMPL and "map<" in n.get("ty", "")]
    if len(set(tf)) != 1:
        raise model.AnalysisBroken("container of timer events not found")
    res["timers"] = tf[0]
    qf = rs.queue[1]

    def posts(f, n):
        return n["k"] == "Call" and n.get("name") in INSERT and "obj" in n and f.nodes[n["obj"]]["k"] == "Field" and f.nodes[n["obj"]]["name"] == qf and f.nodes[n["obj"]].get("owner") == IMPL
    res["posts"] = prog.reach_pred(posts)
    return res


class ActClient(EvClient):
    eq_facts = True
    compact = True
    count_consts = True

    def __init__(self, prog, cfg, mode, size=None):
        self.cfg, self.mode, self.size = cfg, mode, size
        from checks.registration import membership
        self.memfns = membership(prog, cfg["roles"])
        self.trig = None
        super().__init__(prog, cfg["roles"])
        self.cf, self.tf = ("this", cfg["cont"]), ("this", cfg["timers"])
        self.inv = {v: k for k, v in cfg["ev"].items() if k in POST_KINDS}
        self.params = {}

    def interesting(self, f, n):
        if n["k"] == "Field" and (n.get("owner") in (IMPL, self.cfg["rec"]) and n["name"] in (self.cfg["cont"], self.cfg["timers"], self.cfg["fa"], self.cfg["fv"])):
            return True
        if n["k"] == "Field" and (n.get("owner"), n["name"]) in self.roles.cb and self.mode == "accept":
            return True
        if n["k"] == "Call" and (n.get("cls") == IFACE and n.get("name", "").lower().endswith(("timer", "timerrunning"))):
            return True
        if n["k"] == "Field" and self.mode == "accept" and (n.get("owner"), n["name"]) == self.roles.active:
            return True
        return n["k"] == "Call" and "Variant" in n.get("cls", "") and n.get("name", "").startswith(("to", "is"))

    def inline(self, sim, fn, call_fn):
        if fn.cls == "hsmcpp::Variant":
            return False
        if self.mode != "accept" and self.poster(fn):
            return False
        return fn.key in self.relevant or fn.cls is None and fn.kind != "lambda"

    def poster(self, f):
        return f is not None and f.cls == IMPL and f.key in self.cfg["posts"] and f.params and strip(f.params[0]["type"]) == "int" and f.kind != "ctor" and \
            all(strip(p["type"]) in ("int", "bool") or "Variant" in p["type"] for p in f.params)

    def join_key(self, st):
        return (st.ts, frozenset((k, v) for k, v in st.env.items() if v[0] in ("c", "it")), frozenset((k, v) for k, v in st.heap.items() if k[-1] in ("#items", "#id", "#vk") or v[0] == "c"))

    def mark(self, st, *items, note=None):
        return st.with_ts(st.ts | frozenset(items), note)

    def elems(self, st, items):
        return ("items", items)

    # ---- values
    def isvec(self, path):
        """is this the vector with the arguments of an action?"""
        return path is not None and (path[-1] == self.cfg["fv"] or path == (("o", "param:args"),) or self.argv is not None and path == self.argv)

    argv = None

    def vecidx(self, p):
        """index of a path inside the vector with the arguments"""
        if p is not None and len(p) > 1 and isinstance(p[-1], tuple) and p[-1][0] == "[]" and isinstance(p[-1][1], tuple) and p[-1][1][0] == "c" and self.isvec(p[:-1]):
            return p[-1][1][1]
        return None

    def on_construct(self, sim, c):
        st, cls = c.st, tmpl(c.qn)
        if c.target is None:
            return None
        if cls == "std::vector" and "Variant" in str(c.n.get("ty", c.qn)) and not c.n.get("copy") and not c.n.get("move"):
            st = sim.kill_path(st, c.target).copy()
            it = [a for a in c.args[:2] if a is not None and a[0] == "it"]
            if len(it) == 2:
                st.heap[c.target + ("#items",)] = ("items", self.span(it[0], it[1]))
            elif not c.args:
                st.heap[c.target + ("#items",)] = ("items", ())
            return [st]
        if cls == "std::pair" and len(c.args) == 2:
            return [self.pair(sim, c, st, c.target)]
        return None

    def span(self, a, b):
        i, j = (a[2], b[2])
        i = i[1] if i[0] == "idx" else None
        j = self.size if j == ("END",) else j[1] if j[0] == "idx" else None
        return tuple(range(i, j)) if i is not None and j is not None else ("?",)

    def on_copy(self, sim, st, src, dst):
        i = self.vecidx(src)
        if i is not None:
            st = st.copy()
            st.heap[dst + ("#vk",)] = ("c", ("arg", i))
        return st

    def pair(self, sim, c, st, dst):
        st = sim.kill_path(st, dst)
        for i, f in enumerate(("first", "second")):
            c.st = st
            v, st = self.sval(sim, c, i)
            p = c.argpaths[i]
            if p is not None and (v is None or v[0] == "p" or c.fn.nodes[c.n["args"][i]].get("rec")):
                st = sim.copy_obj(st, p, dst + (f,))
            elif v is not None:
                st = st.copy()
                st.heap[dst + (f,)] = v
        return st

    def key_of(self, sim, st, p):
        return tuple(st.heap.get(p + (x,)) for x in ("first", "second")) if p is not None else (None, None)

    # ---- end of one action
    def settle(self, sim, fn, node, st, s):
        """the loop leaves the element s"""
        if ("nodisp",) in st.ts:
            return st
        rec = self.cf + (("[]", s),)
        did = [k for k in st.ts if k[0] == "did" and k[1] == s]
        kv = st.heap.get(rec + ("second", self.cfg["fa"]))
        kc = sim.const_of(st, kv) if kv is not None else None
        for kind in LEGAL[self.size]:
            k = ("c", self.cfg["ev"][kind])
            if kv is not None and (sim.assume(st, ("eq", kv, k), True) is None):
                continue
            want = {"START_TIMER": ("startTimer", (("num", 0), ("num", 1), ("bool", 2))), "STOP_TIMER": ("stopTimer", (("num", 0),)), "RESTART_TIMER": ("restartTimer", (("num", 0),)),
                    "TRANSITION": ("post", (("num", 0), tuple(range(1, self.size))))}[kind]
            if [d[2:4] for d in did] == [want] and len(did) == 1 and (kc is not None):
                continue
            if not did:
                self.report("action-effect", kind, fn, node, "a registered action %s is not executed" % kind, st)
            elif kc is None and len(did) == 1:
                self.report("action-effect", kind, fn, node, "an action %s executes something else" % kind, st)
            elif any(d[2:4] != want for d in did):
                d = next(d for d in did if d[2:4] != want)
                self.report("action-effect", kind, fn, node, "an action %s %s" % (kind, "does not use the arguments it was registered with" if d[2] == want[0] else "executes something else"), st)
            else:
                self.report("action-effect", kind, fn, node, "an action %s is executed more than once" % kind, st)
        return st.with_ts(frozenset(k for k in st.ts if not (len(k) > 1 and k[1] == s)) | {("some",)})

    def effect(self, sim, c, st, what, args):
        self.count("effects", c.fn.loc(c.node))
        els = {k[-2][1] for k in [p for p in self.recs(st)]}
        s = next(iter(els)) if len(els) == 1 else None
        for q in list(st.ts):
            if q[0] == "cur":
                s = q[1]
        t = ("did", s, what, args, len([k for k in st.ts if k[0] == "did" and k[1] == s and k[2:4] == (what, args)]))
        return self.mark(st, t, note=(what, c.fn, c.node))

    def recs(self, st):
        return ()

    def arg(self, sim, st, c, i):
        """what the argument of a call is made of"""
        v, st = self.sval(sim, c, i)
        if v is not None and v[0] == "s" and isinstance(v[1], tuple) and v[1][0] == "conv":
            return v[1][1:]
        for k, p in self.params.items():
            if v == p:
                return ("param", k)
        k = sim.const_of(st, v) if v is not None else None
        return ("c", k) if k is not None else "?"

    def on_branch(self, sim, fn, node, truth, st):
        return st

    def on_call(self, sim, c):
        st, n, name, op, cls = c.st, c.n, c.name, c.n.get("op"), str(c.n.get("cls", ""))
        # ---- arguments of actions
        if cls == "hsmcpp::Variant" and c.objpath is not None:
            i = self.vecidx(c.objpath)
            vk = st.heap.get(c.objpath + ("#vk",))
            if i is None and vk is not None:
                i = vk[1][1]
            if i is not None and name.startswith("to"):
                kind = "bool" if name == "toBool" else "num" if name in NUMERIC else name
                return [(("s", ("conv", kind, i), kind == "bool"), st)]
            if i is not None and name in ("isNumeric", "isBool"):
                outs = []
                for v in (TRUE, FALSE):
                    q = ("is", name, i)
                    if q in st.ts and v == FALSE or q + (False,) in st.ts and v == TRUE:
                        continue
                    outs.append((v, self.mark(st, q if v == TRUE else q + (False,))))
                return outs
            return None
        if self.size is not None and c.objpath is not None and self.isvec(c.objpath) and "obj" in n:
            if name == "size":
                return [(("c", self.size), st)]
            if name == "empty":
                return [(TRUE if self.size == 0 else FALSE, st)]
            if name in ("begin", "cbegin"):
                return [(("it", c.objpath, ("idx", 0)), st)]
            if name in ("front", "back"):
                return [(("p", c.objpath + (("[]", ("c", 0 if name == "front" else self.size - 1)),)), st)]
            if name in ("operator[]", "at"):
                k = sim.const_of(st, self.sval(sim, c, 0)[0])
                if k is None:
                    raise model.AnalysisBroken("index of an argument is not constant at %s" % c.fn.loc(c.node))
                if k >= self.size and self.mode == "register":
                    self.report("registration", "arguments", c.fn, c.node, "reads more arguments than given", st)
                if k >= self.size:
                    return []
                return [(("p", c.objpath + (("[]", ("c", k)),)), st)]
        its = [v for v in ([c.obj] if "obj" in n else []) + list(c.args) if v is not None and v[0] == "it"]
        o = sim.peek(st, c.objpath) if c.objpath is not None and "obj" in n else None
        if o is not None and o[0] == "it" and not its:
            its = [o]
        if its and its[0][2][0] == "idx":
            it = its[0]
            if op in ("+", "+=") and len(c.args) >= 1:
                k = next((sim.const_of(st, a) for a in c.args if a is not None and a[0] == "c"), None)
                if k is not None:
                    nv = ("it", it[1], ("idx", it[2][1] + k))
                    if op == "+":
                        return [(nv, st)]
                    st = sim.store(st, c.objpath, nv)
                    return [(("p", c.objpath), st)]
            if op in ("++", "--") and c.objpath is not None:
                nv = ("it", it[1], ("idx", it[2][1] + (1 if op == "++" else -1)))
                st = st.copy()
                (st.env if len(c.objpath) == 1 else st.heap)[c.objpath[0] if len(c.objpath) == 1 else c.objpath] = nv
                return [(it if c.args else nv, st)]
            if name in ("next",) and tmpl(c.n.get("qn", "")) == "std::next":
                k = sim.const_of(st, c.args[1]) if len(c.args) > 1 and c.args[1] is not None else 1
                return [(("it", it[1], ("idx", it[2][1] + k)), st)]
            if op in ("==", "!=") and len(its) == 2:
                a, b = [self.size if x[2] == ("END",) else x[2][1] for x in its]
                return [(("c", int((a == b) == (op == "=="))), st)]
            if name in ("operator*", "operator->"):
                return [(("p", it[1] + (("[]", ("c", it[2][1])),)), st)]
        # ---- vectors under construction
        if c.objpath is not None and "obj" in n and st.heap.get(c.objpath + ("#items",)) is not None and tmpl(cls) == "std::vector":
            items = st.heap[c.objpath + ("#items",)][1]
            if name in ("emplace_back", "push_back"):
                st = st.copy()
                p = c.argpaths[0]
                i = self.vecidx(p)
                if i is None and p is not None and st.heap.get(p + ("#vk",)) is not None:
                    i = st.heap[p + ("#vk",)][1][1]
                st.heap[c.objpath + ("#items",)] = ("items", items + (i if i is not None else "?",))
                return [(U, st)]
            if name in ("insert", "assign"):
                it = [a for a in c.args if a is not None and a[0] == "it" and a[1] != c.objpath]
                if len(it) == 2:
                    st = st.copy()
                    st.heap[c.objpath + ("#items",)] = ("items", (items if name == "insert" else ()) + self.span(it[0], it[1]))
                    return [(U, st)]
            if name == "reserve":
                return [(U, st)]
            if name == "clear":
                st = st.copy()
                st.heap[c.objpath + ("#items",)] = ("items", ())
                return [(U, st)]
        if name == "operator=" and c.objpath is not None and c.argpaths and c.argpaths[0] is not None and (cls == self.cfg["rec"] and getattr(self.p.fns.get(c.key), "implicit", True) or tmpl(cls) == "std::vector" and "Variant" in c.qn):
            src = c.argpaths[0]
            st = sim.kill_path(st, c.objpath)
            st = sim.copy_obj(st, src, c.objpath)
            return [(("p", c.objpath), st)]
        q = tmpl(n.get("qn", ""))
        if q == "std::make_pair" and len(c.args) == 2:
            t = (("t", c.depth, c.node),)
            return [(("p", t), self.pair(sim, c, st, t))]
        # ---- containers of the machine
        if c.objpath == self.cf and "obj" in n:
            return self.actions(sim, c, st)
        if c.objpath == self.tf and "obj" in n and self.mode == "timer":
            if name in ("find", "count", "at", "operator[]") or op == "[]":
                v, st = self.sval(sim, c, 0)
                if v not in self.params.values():
                    self.report("timer-event", "lookup", c.fn, c.node, "the event of another timer is looked up", st)
                if name == "operator[]" or op == "[]":
                    if ("found",) not in st.ts:
                        self.report("timer-event", "lookup", c.fn, c.node, "the event of a timer that may not be registered is used", st)
                    return [(("p", self.tf + (("[]", "T"), "second")), st)]
                hit = self.mark(st, ("found",))
                miss = self.mark(st, ("missing",))
                outs = [(hit, True)] if ("missing",) not in st.ts else []
                outs += [(miss, False)] if ("found",) not in st.ts else []
                if name == "at":
                    return [(("p", self.tf + (("[]", "T"), "second")), s) for s, y in outs if y]
                if name == "count":
                    return [(TRUE if y else FALSE, s) for s, y in outs]
                return [(("it", self.tf, "T" if y else ("END",)), s) for s, y in outs]
        if self.mode == "accept" and c.key in self.memfns:
            return [(TRUE if y else FALSE, self.mark(st, ("active", y))) for y in (True, False) if ("active", not y) not in st.ts]
        if q == "std::find" and len(c.args) == 3 and c.args[0] is not None and c.args[0][0] == "it":
            s, st = sim.sym(c.fn, c.node, c.depth, st, False)
            return [(("it", c.args[0][1], s), st)]
        r = algo(self, sim, c)
        if r is not None:
            return r
        ic = iter_cmp(c)
        if ic is not None and self.mode == "timer" and ic[0] == self.tf:
            return [(TRUE if (ic[1] == ("END",)) == ic[2] else FALSE, st)]
        if ic is not None and ic[0] == self.cf:
            cont, s, eq = ic
            known = TRUE if s == ("END",) else st.facts.get(("s", ("isend", s), True))
            outs = []
            if known != TRUE:
                s2 = st.copy()
                s2.facts[("s", ("isend", s), True)] = FALSE
                outs.append((FALSE if eq else TRUE, s2))
            if known != FALSE:
                s2 = st
                if s != ("END",):
                    s2 = st.copy()
                    s2.facts[("s", ("isend", s), True)] = TRUE
                outs.append((TRUE if eq else FALSE, s2))
            return outs
        if ic is not None and self.owner.get(ic[0]) == self.roles.active and self.mode == "accept":
            outs = []
            if ic[1] != ("END",) and ("active", False) not in st.ts:
                outs.append((FALSE if ic[2] else TRUE, self.mark(st, ("active", True))))
            if ("active", True) not in st.ts:
                outs.append((TRUE if ic[2] else FALSE, self.mark(st, ("active", False))))
            return outs
        if op in ("++",) and o is not None and o[0] == "it" and o[1] == self.cf and o[2] != ("END",):
            st = self.settle(sim, c.fn, c.node, st, o[2])
            v, st = sim.sym(c.fn, c.node, c.depth, st, False)
            st = st.copy()
            nv = ("it", self.cf, v)
            (st.env if len(c.objpath) == 1 else st.heap)[c.objpath[0] if len(c.objpath) == 1 else c.objpath] = nv
            st.facts.pop(("s", ("isend", v), True), None)
            return [(o if c.args else nv, st)]
        if name in ("operator*", "operator->") and o is not None and o[0] == "it" and o[1] == self.cf:
            st = st.with_ts(frozenset(k for k in st.ts if k[0] != "cur") | {("cur", o[2])})
            return [(("p", self.cf + (("[]", o[2]),)), st)]
        # ---- effects
        if n.get("cls") == IFACE and name in ("startTimer", "stopTimer", "restartTimer", "isTimerRunning"):
            if ("nodisp",) in st.ts:
                self.report("no-dispatcher", name, c.fn, c.node, "a dispatcher that does not exist is used", st)
            args = [self.arg(sim, st, c, i) for i in range(len(c.args))]
            if name == "startTimer":
                v, st = self.sval(sim, c, 0)
                if v is None or v[0] != "s" or not (isinstance(v[1], tuple) and v[1][0] == "ld" and v[1][1][0] == "this" and "imer" in v[1][1][-1]):
                    self.report("action-effect", "handler", c.fn, c.node, "a timer is started for the handler of somebody else", st)
                args = args[1:]
            st = self.effect(sim, c, st, name, tuple(args))
            if name == "isTimerRunning":
                return [(("s", ("running",), True), st)]
            return [(U, st)]
        g = self.p.fns.get(c.key) if c.key else None
        if self.mode != "accept" and self.poster(g):
            vec = [i for i, p in enumerate(g.params) if "Variant" in p["type"]]
            items = ()
            for i in vec:
                p = c.argpaths[i]
                it = st.heap.get(p + ("#items",)) if p is not None else None
                items = it[1] if it is not None else ("?",)
            for i, p in enumerate(g.params):
                if strip(p["type"]) == "bool" and sim.const_of(st, self.sval(sim, c, i)[0]) != 0:
                    self.report("action-effect", "post", c.fn, c.node, "the event is posted with other options than a plain transition", st)
            return [(U, self.effect(sim, c, st, "post", (self.arg(sim, st, c, 0), items)))]
        if "shared_ptr<hsmcpp::IHsmEventDispatcher" in str(n.get("ty", "")) and n.get("rec") == "std::shared_ptr" and not c.args and name not in ("lock",) or name == "lock" and cls.startswith("std::weak_ptr"):
            t = (("t", c.depth, c.node),)
            outs = []
            for v in (TRUE, FALSE):
                if v == FALSE and ("disp",) in st.ts or v == TRUE and ("nodisp",) in st.ts:
                    continue
                s = sim.kill_path(st, t).copy()
                s.heap[t + ("?",)] = v
                outs.append((("p", t), self.mark(s, ("disp",) if v == TRUE else ("nodisp",))))
            return outs
        # ---- callbacks
        if self.mode == "accept":
            cb = self.is_cb(c, sim)
            if cb is not None and cb[0] in ("EXIT", "ENTER"):
                if any(k[0] == "acted" for k in st.ts):
                    self.report("action-order", cb[0], c.fn, c.node, "actions of a state are executed before its callback decides", st)
                self.count("callbacks", c.fn.loc(c.node))
                return [(v, self.mark(st, ("cb", cb[0], v == TRUE), note=("callback answers %s" % (v == TRUE), c.fn, c.node))) for v in (TRUE, FALSE)]
            if c.objpath is not None and "obj" in n and self.owner.get(c.objpath) == self.roles.active and name in INSERT | {"remove", "erase", "clear"}:
                return [(U, st)]
        if cls.startswith("std::function") and name == "operator()":
            return [(U, st)]
        return None

    def actions(self, sim, c, st):
        n, name = c.n, c.name
        if name in ("equal_range", "find", "lower_bound", "count"):
            self.count("lookups", c.fn.loc(c.node))
            k = self.key_of(sim, st, c.argpaths[0])
            if self.mode == "accept":
                t = sim.const_of(st, k[1]) if k[1] is not None else None
                m = len([q for q in st.ts if q[0] == "acted"])
                if name != "count":
                    st = self.mark(st, ("acted", k[0] in self.params.values(), t, m), note=("actions are executed", c.fn, c.node))
                e = ("it", self.cf, ("END",))
                if name == "count":
                    return [(("c", 1), st)]
                if name != "equal_range":
                    return [(e, st)]
                t = (("t", c.depth, c.node),)
                st = sim.kill_path(st, t).copy()
                st.heap[t + ("first",)] = e
                st.heap[t + ("second",)] = e
                return [(("p", t), st)]
            if self.mode == "execute" and not (k[0] in self.params.values() and k[1] == self.trig or not self.params):
                self.report("action-effect", "lookup", c.fn, c.node, "actions of another state or trigger are looked up", st)
            if name == "count":
                return [(("c", 0), self.mark(st, ("noactions",))), (("c", 1), st)]
            s, st = sim.sym(c.fn, c.node, c.depth, st, False)
            st = st.copy()
            st.facts.pop(("s", ("isend", s), True), None)
            if name != "equal_range":
                return [(("it", self.cf, s), st)]
            t = (("t", c.depth, c.node),)
            st = sim.kill_path(st, t).copy()
            st.heap[t + ("first",)] = ("it", self.cf, s)
            st.heap[t + ("second",)] = ("it", self.cf, ("END",))
            return [(("p", t), st)]
        if name == "upper_bound":
            return [(("it", self.cf, ("END",)), st)]
        if name in INSERT and self.mode == "register":
            self.count("registrations", c.fn.loc(c.node))
            kp = vp = None
            if len(c.args) >= 2:
                kp, vp = c.argpaths[0], c.argpaths[1]
            elif c.argpaths and c.argpaths[0] is not None:
                kp, vp = c.argpaths[0] + ("first",), c.argpaths[0] + ("second",)
            k = self.key_of(sim, st, kp)
            if k[0] != self.params.get("state") or k[1] != self.trig:
                self.report("registration", "key", c.fn, c.node, "the action is registered for another state or trigger", st)
            a = st.heap.get(vp + (self.cfg["fa"],)) if vp is not None else None
            v = st.heap.get(vp + (self.cfg["fv"], "#id")) if vp is not None else None
            same = a is not None and (a == self.params["action"] or sim.const_of(st, a) is not None and sim.const_of(st, a) == sim.const_of(st, self.params["action"]))
            if not same or v != ("c", "ARGS"):
                self.report("registration", "value", c.fn, c.node, "another action or other arguments are stored", st)
            if ("stored",) in st.ts:
                self.report("registration", "twice", c.fn, c.node, "an action is stored twice", st)
            return [(U, self.mark(st, ("stored",), note=("action is stored", c.fn, c.node)))]
        if name in ("erase", "clear", "operator="):
            self.report("registration", "removed", c.fn, c.node, "registered actions are removed", st)
            return [(U, st)]
        return None


def roots_of(prog, cfg):
    """functions of the machine that look up actions / timer events outside of registration"""
    look, tim = [], []
    for f in prog.fns.values():
        if not machine(f) or not f.blocks:
            continue
        for n in f.nodes:
            if n["k"] == "Call" and "obj" in n and f.nodes[n["obj"]]["k"] == "Field" and f.nodes[n["obj"]].get("owner") == IMPL:
                fl = f.nodes[n["obj"]]["name"]
                if fl == cfg["cont"] and n["name"] in ("equal_range", "find", "lower_bound"):
                    look.append(f)
                if fl == cfg["timers"] and n["name"] in ("find", "at", "count", "operator[]"):
                    tim.append(f)
    return {f.key: f for f in look}, {f.key: f for f in tim}


@functools.lru_cache(None)
def run(config):
    prog = model.load(config)
    cfg = setup(prog)
    look, tim = roots_of(prog, cfg)
    if not look or not tim:
        raise model.AnalysisBroken("functions that execute actions or timer events not found")
    bad, counts, n = [], {}, 0

    def go(c, f, args, st):
        nonlocal n
        outs = Sim(prog, c).run(f, args=args, st=st)
        n += len(outs)
        return outs

    def done(c, f):
        bad.extend((b, f) for b in c.bad)
        for k, v in c.counts.items():
            counts.setdefault(k, set()).update(v)

    def intargs(f, c):
        args = {}
        for i, p in enumerate(f.params):
            t = strip(p["type"])
            if t in ("int", "unsigned int", "bool") or t.endswith(("StateActionTrigger", "StateAction")):
                args[i] = ("s", ("param", p["name"]), t == "bool")
                if t.endswith("StateActionTrigger"):
                    c.trig = args[i]
                elif t.endswith("StateAction"):
                    c.params["action"] = args[i]
                else:
                    c.params["state" if not c.params and c.mode in ("register", "execute", "accept") else p["name"]] = args[i]
        return args

    # ---- execution of actions
    for f in look.values():
        g = f
        # the function that is told the trigger
        for size in LEGAL:
            c = ActClient(prog, cfg, "execute", size)
            args = intargs(g, c)
            for rv, st in go(c, g, args, State(ts=frozenset())):
                if ("nodisp",) in st.ts:
                    continue
                left = [k for k in st.ts if k[0] == "did"]
                if left:
                    c.settle(None, g, None, st, left[0][1]) if False else c.report("action-effect", "loop", g, None, "only some of the registered actions are executed", st)
            done(c, g)
    # ---- acceptance
    both = {}
    for role, trig in (("EXIT", "ON_STATE_EXIT"), ("ENTER", "ON_STATE_ENTRY")):
        cand = []
        for f in prog.fns.values():
            if f.cls != IMPL or f.kind in ("ctor", "dtor", "lambda") or not f.blocks:
                continue
            cl = prog.callgraph_closure([f.key])
            if not any(k in cl for k in look):
                continue
            if any(x["k"] == "Field" and cfg["roles"].cb.get((x.get("owner"), x["name"])) == role for k in cl if k in prog.fns and machine(prog.fns[k]) for x in prog.fns[k].nodes):
                cand.append(f)
        inner = [f for f in cand if not any(g.key != f.key and g.key in prog.callgraph_closure([f.key]) for g in cand)]
        if not inner:
            raise model.AnalysisBroken("function that calls the %s callback and executes actions not found" % role)
        for f in inner:
            c = ActClient(prog, cfg, "accept")
            args = intargs(f, c)
            for rv, st in go(c, f, args, State(ts=frozenset())):
                acted = [k for k in st.ts if k[0] == "acted"]
                cb = [k for k in st.ts if k[0] == "cb" and k[1] == role]
                if ("nodisp",) in st.ts:
                    continue
                if any(not k[2] for k in cb):
                    if acted:
                        c.report("action-veto", role, f, None, "actions are executed although the callback of the state vetoed", st)
                    continue
                if role == "ENTER" and ("active", True) in st.ts:
                    if acted:
                        c.report("action-once", role, f, None, "entry actions are executed for a state that is active already", st)
                    continue
                if len(acted) != 1:
                    c.report("action-once", role, f, None, "actions of a state are %s" % ("not executed although nothing vetoed" if not acted else "executed twice"), st)
                elif not acted[0][1] or acted[0][2] != cfg["ev"][trig]:
                    c.report("action-once", role, f, None, "actions of another state or trigger are executed", st)
            done(c, f)
            both.setdefault(role, []).append(f.short())
    # ---- registration
    reg = [f for f in prog.fns.values() if f.cls == IMPL and f.kind not in ("ctor", "dtor", "lambda") and any(strip(p["type"]).endswith("::StateAction") or strip(p["type"]) == "StateAction" for p in f.params)
           and any(x["k"] == "Call" and x.get("name") in INSERT and "obj" in x and f2.nodes[x["obj"]]["k"] == "Field" and f2.nodes[x["obj"]]["name"] == cfg["cont"]
                   for k in prog.callgraph_closure([f.key]) if k in prog.fns for f2 in (prog.fns[k],) for x in f2.nodes)]
    if not reg:
        raise model.AnalysisBroken("registration of actions not found")
    for f in reg:
        for size in (0, 1, 2, 3, 4):
            for kind in POST_KINDS:
                c = ActClient(prog, cfg, "register", size)
                args = intargs(f, c)
                st = State(ts=frozenset())
                ai = next(i for i, p in enumerate(f.params) if strip(p["type"]).endswith("StateAction"))
                args[ai] = c.params["action"] = ("c", cfg["ev"][kind])
                vi = next((i for i, p in enumerate(f.params) if "Variant" in p["type"]), None)
                if vi is None:
                    raise model.AnalysisBroken("arguments of actions not found")
                c.argv = (("o", "args"),)
                args[vi] = ("alias", c.argv)
                st.heap[c.argv + ("#id",)] = ("c", "ARGS")
                for rv, s in go(c, f, args, st):
                    known = {(k[1], k[2]): len(k) == 3 for k in s.ts if k[0] == "is"}
                    want = {"START_TIMER": (3, (("isNumeric", 0), ("isNumeric", 1), ("isBool", 2))), "STOP_TIMER": (1, (("isNumeric", 0),)), "RESTART_TIMER": (1, (("isNumeric", 0),)), "TRANSITION": (None, (("isNumeric", 0),))}[kind]
                    okn = size == want[0] if want[0] is not None else size >= 1
                    r = sim_bool(rv)
                    st_ = ("stored",) in s.ts
                    if r is None or r != st_:
                        c.report("registration", "result", f, None, "the result of the registration of %s does not tell whether it is stored" % kind, s)
                    elif st_ and not (okn and all(known.get(t) for t in want[1])):
                        c.report("registration", "accepted", f, None, "%s is accepted with arguments it can not be executed with" % kind, s)
                    elif not st_ and okn and not any(v is False for v in known.values()):
                        c.report("registration", "refused", f, None, "%s is refused although its arguments are valid" % kind, s)
                done(c, f)
    # ---- timers
    for f in tim.values():
        if f.key == cfg["roles"].impl_of("registerTimer").key:
            continue
        c = ActClient(prog, cfg, "timer")
        args = intargs(f, c)
        ev = ("s", ("event of the timer",), False)
        st = State(ts=frozenset())
        st.heap[c.tf + (("[]", "T"), "second")] = ev
        c.params["event"] = ev
        for rv, s in go(c, f, args, st):
            did = [k[2:4] for k in s.ts if k[0] == "did"]
            if ("found",) in s.ts and did != [("post", (("param", "event"), ()))]:
                c.report("timer-event", "post", f, None, "the event of an expired timer is %s" % ("not posted" if not did else "not posted exactly once, or something else is"), s)
            if ("found",) not in s.ts and did:
                c.report("timer-event", "post", f, None, "an event is posted for a timer that is not registered", s)
        done(c, f)
    # ---- public timer operations
    for api in ("startTimer", "restartTimer", "stopTimer", "isTimerRunning"):
        fs = prog.fns_named(FACADE + "::" + api)
        if not fs:
            raise model.AnalysisBroken("API %s not found" % api)
        for f in fs:
            c = ActClient(prog, cfg, "api")
            args = intargs(f, c)
            c.relevant = c.relevant | {k for k in prog.callgraph_closure([f.key])} if isinstance(c.relevant, (set, frozenset)) else c.relevant
            want = (api, tuple(("param", p["name"]) for p in f.params))
            for rv, s in go(c, f, args, State(ts=frozenset())):
                did = [k[2:4] for k in s.ts if k[0] == "did"]
                if ("nodisp",) in s.ts:
                    if did:
                        c.report("timer-api", api, f, None, "works although there is no dispatcher", s)
                    if api == "isTimerRunning" and sim_bool(rv) is not False:
                        c.report("timer-api", api, f, None, "a timer counts as running without a dispatcher", s)
                    continue
                if did != [want]:
                    c.report("timer-api", api, f, None, "%s() does not do exactly this for the given timer" % api, s)
                if api == "isTimerRunning" and rv != ("s", ("running",), True):
                    c.report("timer-api", api, f, None, "the answer of the dispatcher is not returned", s)
            done(c, f)
    return bad, counts, n, both


def sim_bool(v):
    return True if v == TRUE else False if v == FALSE else None


RULES = ("action-effect", "action-veto", "action-once", "action-order", "registration", "timer-event", "timer-api", "no-dispatcher")


@check("P20", "Every path of the registration of actions (each kind, 0 to 4 arguments, every type), of their execution (each kind, 1 to 4 arguments), of the functions that call a state's entry/exit callback and "
       "execute its actions, of the handling of an expired timer and of the public timer operations, with every answer of callbacks and presence of the dispatcher as branches.", ASSUME, TECH)
def p20(rep, tier):
    for config in configs(tier):
        bad, counts, n, both = run(config)
        for rule in RULES:
            mine = [(b, f) for b, f in bad if b[0] == rule]
            for (r, key, loc, msg, path), f in mine:
                rep.violate(r, "%s in %s: %s" % (key, f.short(), msg), loc, msg, path)
            if not mine:
                rep.ob(rule, True, sample=str(both))
        for k, v in counts.items():
            rep.stat(k, len(v))
        rep.stat("path_classes", n)
        if not bad:
            for k in ("effects", "lookups", "registrations", "callbacks"):
                if not counts.get(k):
                    raise model.AnalysisBroken("no %s recognised" % k)
