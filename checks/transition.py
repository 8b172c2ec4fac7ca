"""P15 (callback order), P16 (vetoed transitions), P19 (set of active states): typestate over the execution of one transition."""
import re
from engine.registry import check
from engine import model
from engine.events import EvClient, Roles, IMPL, machine, INSERT, REMOVE, FRONT_INS, is_container
from engine.rolesets import transition_root, closure_roles
from engine.sim import Sim, State, U, TRUE, FALSE, contains, tmpl, trace_list
from checks.concurrency import ASSUME, configs, norm

DIR = ("o", "DIR")
KEY = ("o", "KEY")
PSEUDO = {"#exited", "#ord", "#related", "#empty", "#copyof"}


class TransClient(EvClient):
    """ts: frozenset of marks.
    (x,'ENT') state x was entered (accepted, or it has no callback / was already active); (x,'ADD') (x,'CHG') (x,'EXT') accepted exit
    (t,'TR') transition action of t executed or absent; ('exits',) ('removed',) ('ext',) ('veto',k) ('restored',)"""
    eq_facts = True
    compact = True

    def join_key(self, st):
        """states that agree on the marks, on the known flags and on what is known about the lists of states are joined"""
        return (st.ts, frozenset((k, v) for k, v in st.env.items() if v[0] in ("c", "it")),
                frozenset((k, v) for k, v in st.heap.items() if isinstance(k[-1], str) and k[-1] in PSEUDO))

    def sticky(self, k):
        return k[0] in (KEY, DIR) or k[-1] == "#role" or k[-1] == "#copyof"

    def on_branch(self, sim, fn, node, truth, st):
        return self.learn(sim, st)

    def learn(self, sim, st):
        """turn what branches established into marks"""
        add = set()
        for fv, t in self.froms(st):
            have = self.marks(st, t)
            if not have & {"XT", "IN"}:
                k = self._kind(sim, st, t)
                if k is not None:
                    add.add((t, "XT" if k == "external" else "IN"))
            for k, f in st.facts.items():
                if k[0] == "eqf" and f[1] != 0 and fv in (k[1], k[2]):
                    add.add((k[1] if k[2] == fv else k[2], ("RELD", t)))
        ev = self.evpath(sim)
        if ev is not None and ("reg",) not in st.ts and sim.const_of(st, st.heap.get(ev + (self.f_behav,))) == self.REGULAR:
            add.add(("reg",))
        for s, f in st.facts.items():
            if s[0] == "s" and isinstance(s[1], tuple) and s[1] and s[1][0] == "REL" and f[0] == "c":
                key, a, b = s[1][1:4]
                ci = self.hier.get(key)
                for par, ch, idx in ((a, b, 1), (b, a, 0)):
                    if ci is not None and ci != idx:
                        continue
                    if f[1]:
                        for fv, t in self.froms(st):
                            if par == fv:
                                add.add((ch, ("RELD", t)))
                    else:
                        add.add((par, "NOTANC"))
        add -= st.ts
        return st.with_ts(st.ts | add) if add else st

    def __init__(self, prog, roles, root=None, startup=False):
        self.root = root
        self.startup = startup
        self.histfns = {}           # functions that store left states in histories -> (index of the state, index of the list)
        tc = sorted(roles.trans_cls)[0]
        fs = prog.classes[tc]["fields"]
        ints = [f["name"] for f in fs if norm(f["type"]) in ("int", "hsmcpp::StateID_t")]
        if len(ints) < 2:
            raise model.AnalysisBroken("state fields of %s not found" % tc)
        self.tc, self.f_from, self.f_dest = tc, ints[0], ints[1]
        self.f_type = next((f["name"] for f in fs if norm(f["type"]).endswith("TransitionType")), None)
        self.f_behav = next((f["name"] for f in prog.classes[roles.event_cls]["fields"] if norm(f["type"]).endswith("TransitionBehavior")), None)
        if self.f_type is None or self.f_behav is None:
            raise model.AnalysisBroken("transition type fields not found")

        def ev(e, nm):
            for v in prog.enums["hsmcpp::" + e]["values"]:
                if v["name"] == nm:
                    return v["value"]
            raise model.AnalysisBroken("enumerator %s::%s not found" % (e, nm))
        self.INTERNAL, self.REGULAR = ev("TransitionType", "INTERNAL_TRANSITION"), ev("TransitionBehavior", "REGULAR")
        self.OK, self.PENDING = ev("HsmEventStatus", "DONE_OK"), ev("HsmEventStatus", "PENDING")
        self.sigs = {}
        from checks.registration import membership
        self.memfns = membership(prog, roles)
        super().__init__(prog, roles)
        # target selection and everything that only evaluates conditions is opaque here
        for f in prog.fns.values():
            if f.cls == IMPL and f.key in self.relevant:
                c = closure_roles(prog, roles, f.key)
                if "COND" in c and not c & {"EXIT", "ENTER", "TRANS", "CHANGED"}:
                    self.noinline.add(f.key)
                if not c and not self._touches_active(f) and any(self.tc in p["type"] and p["type"].endswith("&") and not p["type"].startswith("const") for p in f.params):
                    self.noinline.add(f.key)
        self.hier = self._hierarchy()

    def _touches_active(self, f):
        return any(n["k"] == "Field" and (n.get("owner"), n["name"]) == self.roles.active for n in f.nodes)

    def _hierarchy(self):
        """predicates on two states which consult the substates registry -> index of the argument that is the descendant (or None)"""
        res = {}
        for f in self.p.fns.values():
            if f.cls != IMPL or f.ret != "bool" or len(f.params) != 2 or f.key in self.relevant:
                continue
            if any(norm(p["type"]) not in ("int", "int &") or p["type"].endswith("&") and not p["type"].startswith("const") for p in f.params):
                continue
            if not any(n["k"] == "Field" and n.get("owner") == IMPL and "map<int, int" in norm(n.get("ty", "")) for n in f.nodes):
                continue
            child = None
            ids = {p["id"]: i for i, p in enumerate(f.params)}
            climb = {}
            for n in f.nodes:
                if n["k"] == "Decl":
                    for v in n["vars"]:
                        j = v["init"]
                        while j >= 0 and f.nodes[j]["k"] == "Cast":
                            j = f.nodes[j]["c"][0]
                        if j >= 0 and f.nodes[j]["k"] == "Ref" and f.nodes[j].get("id") in ids:
                            climb[v["id"]] = ids[f.nodes[j]["id"]]
            for n in f.nodes:
                if n["k"] == "Assign" and f.nodes[n["c"][0]]["k"] == "Ref":
                    r = f.nodes[n["c"][1]]
                    if r["k"] == "Field" and r["name"] == "first" and f.nodes[n["c"][0]].get("id") in climb:
                        child = climb[f.nodes[n["c"][0]]["id"]]
            if child is None:
                nm = [p["name"].lower() for p in f.params]
                for i in (0, 1):
                    if "child" in nm[i] or "parent" in nm[1 - i]:
                        child = i
            res[f.key] = child
        return res

    def stable(self, path):
        return super().stable(path) and (len(path) == 2 and path[0] == "this" or path[-1] in (self.f_from, self.f_dest, self.f_type, self.f_behav) or not isinstance(path[-1], str) or len(path) == 1)

    # ------------------------------------------------------------------ what to look into
    def interesting(self, f, n):
        if n["k"] == "Call":
            if n.get("fn") in self.memfns:
                return True
            if n.get("name") == "operator()" and str(n.get("cls", "")).startswith("std::function"):
                return machine(f)
            if tmpl(n.get("qn", "")) in ("std::find", "std::find_if", "std::count", "std::any_of"):
                return any(m["k"] == "Field" and (m.get("owner"), m["name"]) == self.roles.active for m in f.nodes)
            if n.get("name") in INSERT | REMOVE and "obj" in n:
                m = f.nodes[n["obj"]]
                return m["k"] == "Field" and (m.get("owner"), m["name"]) == self.roles.active
        if n["k"] == "Field" and n.get("owner") == self.tc and n["name"] in (self.f_type,):
            return f.cls in (IMPL, self.tc) or f.file.startswith(model.REPO + "/src/HsmImpl")
        return False

    # ------------------------------------------------------------------ identities
    def cont_of(self, st, x):
        """container path the value was read from"""
        if x is not None and x[0] == "s" and isinstance(x[1], tuple) and x[1] and x[1][0] == "ld":
            p = x[1][1]
            if len(p) > 1 and isinstance(p[-1], tuple) and p[-1][0] == "[]":
                return p[:-1], p[-1][1]
        return None, None

    def trans_of(self, x):
        """record path of the transition whose destination the value is"""
        if x is not None and x[0] == "s" and isinstance(x[1], tuple) and x[1] and x[1][0] == "ld":
            p = x[1][1]
            if len(p) > 1 and p[-1] == self.f_dest:
                return p[:-1]
        return None

    def exited(self, st, x):
        c, _ = self.cont_of(st, x)
        return c is not None and st.heap.get(c + ("#exited",)) == TRUE

    def is_active_cont(self, st, c):
        if c is None:
            return False
        return self.owner.get(c) == self.roles.active or st.heap.get(c + ("#copyof",)) == ("c", "active")

    def order(self, st, x):
        """+1: enumerated in activation order, -1: in reverse, None: unknown"""
        c, sym = self.cont_of(st, x)
        if c is None:
            return None
        d = st.heap.get((DIR, sym))
        if d is None or d[1] == 0:
            return None
        if self.is_active_cont(st, c):
            return d[1]
        o = st.heap.get(c + ("#ord",))
        return d[1] * o[1] if o is not None and o[1] else None

    def on_copy(self, sim, st, src, dst):
        if self.owner.get(src) == self.roles.active and len(dst) == 1:
            st = st.copy()
            st.heap[dst + ("#copyof",)] = ("c", "active")
        return st

    def mem(self, st, x):
        m = self.marks(st, x)
        return True if "MEM1" in m else False if "MEM0" in m else None

    def set_mem(self, st, x, truth, change=False):
        """change: the set of active states changes, which concerns every value that may be equal to x"""
        drop, add = {(x, "MEM1"), (x, "MEM0")}, {(x, "MEM1" if truth else "MEM0")}
        if change:
            for k in st.ts:
                if len(k) == 2 and k[0] != x and k[1] == ("MEM0" if truth else "MEM1"):
                    drop.add(k)
                    if not truth:
                        add.add((k[0], "WAS"))
        return st.with_ts((st.ts - drop) | add)

    def evpath(self, sim):
        for i, p in enumerate(self.root.params):
            if norm(p["type"]).replace("&", "").strip() == self.roles.event_cls:
                return (("o", "param:" + p["name"]),)
        return None

    def froms(self, st):
        """[(from value, record path)] of the transitions known in this state"""
        r = []
        for k, v in st.heap.items():
            if k[-1] == self.f_from and v is not None and v[0] == "s":
                r.append((v, k[:-1]))
        return r

    def related(self, sim, st, x):
        """x is the source of a transition or (proven) below it -> record path"""
        for m in self.marks(st, x):
            if isinstance(m, tuple) and m[0] == "RELD":
                return m[1]
        for fv, t in self.froms(st):
            if sim.eqv(st, fv, x) is True:
                return t
        c, _ = self.cont_of(st, x)
        if c is not None:
            v = st.heap.get(c + ("#related",))
            if v is not None:
                return v[1]
        return None

    def self_kind(self, sim, st, t):
        m = self.marks(st, t)
        return "external" if "XT" in m else "internal" if "IN" in m else self._kind(sim, st, t)

    def _kind(self, sim, st, t):
        """'internal' | 'external' | None for the transition record at path t"""
        f, d, ty = (st.heap.get(t + (x,)) for x in (self.f_from, self.f_dest, self.f_type))
        eq = sim.eqv(st, f, d) if f is not None and d is not None else None
        tv = None
        if ty is not None:
            tv = sim.eqv(st, ty, ("c", self.INTERNAL))
        if eq is False or tv is False:
            return "external"
        if eq is True and tv is True:
            return "internal"
        return None

    def marks(self, st, x):
        return {m for (y, m) in (k for k in st.ts if len(k) == 2) if y == x}

    def mark(self, st, *items, note=None):
        return st.with_ts(st.ts | frozenset(items), note)

    # ------------------------------------------------------------------ bookkeeping of loops
    def purge_sym(self, sim, c, st, sub):
        """the iteration variable moves on: what was started for it has to be complete"""
        drop = frozenset(k for k in st.ts if len(k) == 2 and contains(k, sub))
        xs = {k[0] for k in drop if k[1] in ("ENT", "ADD", "EXT", "REM")}
        for x in xs:
            self.complete(sim, c.fn, c.node, st, x)
        if drop:
            st = st.with_ts(st.ts - drop)
        return st

    def complete(self, sim, fn, node, st, x):
        m = self.marks(st, x)
        ex = self.exited(st, x)
        if ex:
            if ("veto",) in st.ts and m & {"ENT", "ADD", "CHG"}:
                nr = "NOREG" in m
                if "ENT" not in m and not nr or ("ADD" not in m and self.mem(st, x) is not True) or "CHG" not in m and not nr:
                    self.report("restore-complete", "restore", fn, node, "an exited state is not completely restored (%s) after the transition was blocked" % ",".join(sorted(m)), st)
                self.count("restore-complete", fn.key)
            return
        if "VET" in m:
            return
        if "ENT" in m and "TGT" in m:
            if "ADD" not in m:
                self.report("enter-then-active", "active after enter", fn, node, "a state was entered but is not added to the active states", st)
            if "ADD" in m and "CHG" not in m and "NOREG" not in m:
                self.report("enter-then-changed", "changed after enter", fn, node, "a state became active but its state callback is not executed", st)
            self.count("target-complete", fn.key)

    def on_dead(self, sim, st, live):
        drop = []
        for k in st.ts:
            if len(k) == 2:
                ss = set()
                sim.base_syms(k[0], ss)
                if not ss <= live:
                    drop.append(k)
        if drop:
            for x in {k[0] for k in drop}:
                self.complete(sim, self.root, None, st, x)
            st = st.with_ts(st.ts - frozenset(drop))
        return st

    def on_destroy(self, sim, path, rec, loc, st):
        drop = frozenset(k for k in st.ts if len(k) == 2 and contains(k, path[0]))
        if drop:
            for x in {k[0] for k in drop}:
                self.complete(sim, loc[0], None, st, x)
            st = st.with_ts(st.ts - drop)
        return [st]

    def on_construct(self, sim, c):
        cls = tmpl(c.qn)
        if cls in ("std::list", "std::vector", "std::deque") and not c.args and c.target is not None and "<int" in norm(str(c.n.get("ty", "")) or c.qn):
            st = sim.kill_path(c.st, c.target).copy()
            st.heap[c.target + ("#empty",)] = TRUE
            return [st]
        return None

    # ------------------------------------------------------------------ events
    def value(self, sim, c, i):
        v, st = self.sval(sim, c, i)
        return v, st

    def on_call(self, sim, c):
        st, n, name = c.st, c.n, c.name
        cls = str(n.get("cls", ""))
        if c.key in self.histfns:
            i, j = self.histfns[c.key]
            self.count("history", c.fn.loc(c.node))
            if ("veto",) in st.ts and ("restored",) not in st.ts:
                self.report("history-recorded", "blocked", c.fn, c.node, "histories are updated although the transition was blocked", st)
            lst = c.argpaths[j]
            if ("exits",) in st.ts and (lst is None or st.heap.get(lst + ("#exited",)) != TRUE):
                self.report("history-recorded", "states", c.fn, c.node, "another list than the one of the states that were left is stored in the histories", st)
            top = self.value(sim, c, i)[0]
            if top is not None and top[0] == "s" and isinstance(top[1], tuple) and top[1] and top[1][0] == "ld" and top[1][1][-1] == self.f_dest:
                self.report("history-recorded", "states", c.fn, c.node, "histories are updated for the target of the transition instead of its source", st)
            c.st = st = self.mark(st, ("hist",))
            if c.key in self.histopaque:
                return [(U, st)]
        if c.key in self.hier and c.objpath is None or c.key in self.hier:
            a, b = self.value(sim, c, 0)[0], self.value(sim, c, 1)[0]
            if a is not None and b is not None and a != U and b != U:
                s = ("s", ("REL", c.key, a, b), True)
                return [(s, st)]
            return None
        cb = self.is_cb(c, sim)
        if cb is not None:
            return self.callback(sim, c, cb)
        if c.key in self.memfns:
            x, st = self.value(sim, c, 0)
            if x is None or x == U:
                return None
            return [(TRUE if truth else FALSE, s2) for truth, s2 in self.split_mem(st, x)]
        # truth of a callback
        op = n.get("op")
        if name == "operator bool" and c.objpath is not None and cls.startswith("std::function"):
            return self.cb_truth(sim, c, c.objpath, False)
        if op in ("==", "!=") and "obj" not in n and len(n["args"]) == 2:
            for i in (0, 1):
                if c.fn.nodes[n["args"][i]]["k"] == "Null" and c.argpaths[1 - i] is not None:
                    r = self.cb_truth(sim, c, c.argpaths[1 - i], op == "==")
                    if r is not None:
                        return r
        # registry lookups by state
        if name in ("find", "at", "operator[]", "count") and c.objpath is not None and c.args:
            o = self.owner.get(c.objpath)
            ty = norm(self.ftype.get(o, "")) if o else ""
            if o and any(s in ty for s in self.roles.state_cls) and "map<" in ty:
                return self.lookup(sim, c, name)
        if tmpl(n.get("qn", "")) in ("std::find", "std::count") and len(c.args) == 3 and c.args[0] is not None and c.args[0][0] == "it" \
                and self.owner.get(c.args[0][1]) == self.roles.active:
            x, st = self.value(sim, c, 2)
            if x is None or x == U:
                return None
            out = []
            for truth, s2 in self.split_mem(st, x):
                if tmpl(n["qn"]) == "std::count":
                    out.append((("c", 1 if truth else 0), s2))
                elif truth:
                    s, s2 = sim.sym(c.fn, c.node, c.depth, s2, False)
                    s2 = s2.copy()
                    s2.heap[(KEY, s)] = x
                    s2.facts[("s", ("isend", s), True)] = FALSE
                    out.append((("it", c.args[0][1], s), s2))
                else:
                    out.append((("it", c.args[0][1], ("END",)), s2))
            return out
        # containers
        if c.objpath is not None and re.match(r"std::(__cxx11::)?(list|vector|deque)", cls) and "obj" in n:
            r = self.container(sim, c, name)
            if r is not None:
                return r
        if op in ("++", "--") and c.objpath is not None:
            o = sim.peek(st, c.objpath)
            if o is not None and o[0] == "it":
                st = self.purge_sym(sim, c, st, o[2]) if o[2] != ("END",) else st
                if self.is_trans_cont(o[1], c):
                    if ("veto",) in st.ts:
                        self.end_of_target(sim, c, st)
                    st = st.with_ts(st.ts - {("veto",), ("restored",), ("vetoe",)})
                d = st.heap.get((DIR, o[2]), ("c", 1))
                c.st = st
                res = []
                for v, s in sim.default_call(c):
                    nv = sim.peek(s, c.objpath)
                    if nv is not None and nv[0] == "it":
                        s = s.copy()
                        s.heap[(DIR, nv[2])] = ("c", d[1] * (-1 if op == "--" else 1)) if o[2] == ("END",) or op == "++" else ("c", -1)
                    res.append((v, s))
                return res
        if op in ("==", "!="):
            vals = ([c.obj] if "obj" in n else []) + list(c.args)
            its = [v for v in vals if v is not None and v[0] == "it"]
            ends = [v for v in its if v[2] == ("END",)]
            if len(its) == 2 and ends and st.heap.get(its[0][1] + ("#exited",)) == TRUE:
                out = []
                if len(ends) == 1:
                    out.append((("c", int(op == "!=")), st))
                    pos = [v for v in its if v not in ends][0]
                    if st.facts.get(("s", ("isend", pos[2]), True)) == FALSE:
                        return out
                s2 = self.mark(st, ("restored",)) if ("veto",) in st.ts else st
                out.append((("c", int(op == "==")), s2))
                return out
        return None

    def split_mem(self, st, x):
        """is the state active?"""
        out = []
        for truth in (True, False):
            m = self.mem(st, x)
            if m is not None and m != truth:
                continue
            s2 = self.set_mem(st, x, truth).copy()
            if not truth and ("veto",) not in st.ts and (self.exited(st, x) or "EXT" in self.marks(st, x)):
                s2 = self.mark(s2, ("removed",))
            out.append((truth, s2))
        return out

    def is_trans_cont(self, path, c):
        ty = ""
        o = self.owner.get(path)
        if o:
            ty = self.ftype.get(o, "")
        return self.tc in ty or self.tc in str(c.fn.nodes[c.n["obj"]].get("ty", "") if "obj" in c.n else "")

    def container(self, sim, c, name):
        st, n = c.st, c.n
        act = self.owner.get(c.objpath) == self.roles.active
        if name in ("begin", "rbegin", "cbegin", "crbegin", "end", "rend", "cend", "crend"):
            if st.heap.get(c.objpath + ("#empty",)) == TRUE:
                return [(("it", c.objpath, ("END",)), self.mark(st, ("restored",)) if ("veto",) in st.ts and st.heap.get(c.objpath + ("#exited",)) else st)]
            if name in ("begin", "rbegin", "cbegin", "crbegin"):
                res = []
                for v, s in sim.default_call(c):
                    if v is not None and v[0] == "it":
                        s = s.copy()
                        s.heap[(DIR, v[2])] = ("c", -1 if name in ("rbegin", "crbegin") else 1)
                        if st.heap.get(c.objpath + ("#empty",)) == FALSE:
                            s.facts[("s", ("isend", v[2]), True)] = FALSE
                    res.append((v, s))
                return res
            return None
        if name == "empty":
            e = st.heap.get(c.objpath + ("#empty",))
            if e is not None:
                return [(e, st)]
            return None
        if name in ("front", "back") and not act:
            return None
        if name in INSERT and c.args:
            x, st = self.value(sim, c, len(c.args) - 1)
            if act:
                return self.add(sim, c, x, st)
            s2 = sim.kill_elems(st, c.objpath)
            if not norm(str(n.get("ptys", [""])[-1])).replace("&", "").replace("const", "").strip() == "int":
                return [(U, s2)]
            s2 = s2.copy()
            s2.heap[c.objpath + ("#empty",)] = FALSE
            if x is not None and x != U and norm(str(n.get("ptys", [""])[-1])).replace("&", "").replace("const", "").strip() == "int":
                q = c.objpath + ("#exited",)
                ok = bool({"EXT", "NOREG"} & self.marks(st, x)) or self.exited(st, x)
                s2.heap[q] = TRUE if ok and s2.heap.get(q, TRUE) == TRUE else FALSE
                o = self.order(st, x)
                o = o * (-1 if name in FRONT_INS else 1) if o else 0
                q = c.objpath + ("#ord",)
                s2.heap[q] = ("c", o if s2.heap.get(q, ("c", o))[1] == o else 0)
                t = self.related(sim, st, x)
                q = c.objpath + ("#related",)
                if t is not None and q not in s2.heap or t is not None and s2.heap.get(q) == ("c", t):
                    s2.heap[q] = ("c", t)
                elif t is None:
                    s2.heap.pop(q, None)
            return [(U, s2)]
        if not act and name in ("clear", "remove", "remove_if", "erase") and st.heap.get(c.objpath + ("#exited",)) == TRUE and ("exits",) in st.ts and ("restored",) not in st.ts:
            if ("veto",) in st.ts:
                self.report("restore-after-veto", "exited states", c.fn, c.node, "exited states are dropped although the transition was blocked: they will not be restored", st)
            elif ("removed",) not in st.ts:
                self.report("exited-leave-active-set", "exited states", c.fn, c.node, "exited states are dropped before they were removed from the active states", st)
        if name in REMOVE and act:
            x = None
            if c.args:
                x, st = self.value(sim, c, 0)
                if x is not None and x[0] == "it":
                    x = st.heap.get((KEY, x[2])) or st.heap.get(x[1] + (("[]", x[2]),)) or ("s", ("ld", x[1] + (("[]", x[2]),)), False)
            return self.rem(sim, c, x, st)
        return None

    def lookup(self, sim, c, name):
        x, st = self.value(sim, c, 0)
        if x is None:
            return None
        out = []
        if name == "operator[]" or name == "at":
            s, st = sim.sym(c.fn, c.node, c.depth, st, False)
            st = st.copy()
            st.heap[(KEY, s)] = x
            return [(("p", c.objpath + (("[]", s),)), st)]
        # a state without a registration has no callbacks: whatever needs them counts as executed
        out.append((("c", 0) if name == "count" else ("it", c.objpath, ("END",)), self.mark(st, (x, "NOREG"))))
        if (x, "NOREG") in st.ts:
            return out
        s, s3 = sim.sym(c.fn, c.node, c.depth, st, False)
        s3 = s3.copy()
        s3.heap[(KEY, s)] = x
        s3.facts[("s", ("isend", s), True)] = FALSE
        out.append((("c", 1) if name == "count" else ("it", c.objpath, s), s3))
        return out

    def key_of(self, st, recpath):
        e = recpath[-1] if recpath and recpath[-1] != "second" else (recpath[-2] if len(recpath) > 1 else None)
        if isinstance(e, tuple) and e[0] == "[]":
            return st.heap.get((KEY, e[1]))
        return None

    def cb_truth(self, sim, c, path, neg):
        st = c.st
        v = st.heap.get(path + ("#role",))
        if v is None:
            return None
        role, cls, rec = v[1]
        out = []
        x = self.key_of(st, rec) if cls in self.roles.state_cls else None
        for truth in (True, False):
            s2 = st
            if not truth:
                # a callback that does not exist counts as executed and accepted
                if x is not None:
                    s2 = s2.with_ts(s2.ts | {"EXIT": {(x, "EXT"), ("exits",)}, "CHANGED": {(x, "CHG")},
                                             "ENTER": {(x, "ENT")} if self.exited(st, x) and ("veto",) in st.ts else {(x, "ENT"), (x, "TGT")}}[role])
                elif role == "TRANS" and cls == self.tc:
                    s2 = s2.with_ts((s2.ts - {("lastveto",)}) | {(rec, "TR")})
            out.append((("c", int(truth != neg)), s2))
        return out

    def callback(self, sim, c, cb):
        role, cls, rec = cb
        st = c.st
        self.count("cb-" + role, c.fn.loc(c.node))
        x = self.key_of(st, rec) if cls in self.roles.state_cls else None
        if role == "TRANS":
            if cls != self.tc:
                return [(U, st)]
            st = st.with_ts(st.ts - {("lastveto",)})
            k = self.self_kind(sim, st, rec)
            if k is None:
                self.report("self-transition-kind", "transition action", c.fn, c.node, "a transition action is executed on a path which does not know whether the transition is an internal self-transition", st)
            self.count("transition-kind", c.fn.loc(c.node))
            if ("vetox",) in st.ts:
                self.report("nothing-after-veto", "transition action after blocked exit", c.fn, c.node, "a transition action is executed although a state blocked its exit", st)
            if k == "external":
                self.entering(sim, c, st, rec)
            m = self.marks(st, rec)
            if "TR" in m or "TRENT" in m:
                self.report("action-before-enter", "transition action order", c.fn, c.node, "the transition action is executed %s" % ("twice" if "TR" in m else "after the target state was entered"), st)
            st = self.mark(st, (rec, "TR"), *([("ext",)] if k != "internal" else []), note=("transition action", c.fn, c.node))
            return [(U, st)]
        if x is None:
            self.count("unidentified", "%s at %s" % (role, c.fn.loc(c.node)))
            if role in ("EXIT", "ENTER"):
                s, st = sim.sym(c.fn, c.node, c.depth, st, True)
                return [(s, st)]
            return [(U, st)]
        if role == "EXIT":
            self.exiting(sim, c, st, x)
            ok = self.mark(st, (x, "EXT"), ("exits",), note=("exit accepted", c.fn, c.node))
            no = self.mark(st, ("veto",), ("vetox",), note=("exit blocked", c.fn, c.node))
            return [(TRUE, ok), (FALSE, no)]
        if role == "ENTER":
            restore = self.exited(st, x) and ("veto",) in st.ts
            self.entering_state(sim, c, st, x, restore)
            if not restore:
                st = st.with_ts(st.ts - {("lastveto",)})
            ok = self.mark(st, (x, "ENT"), *([] if restore else [(x, "TGT")]), note=("enter accepted", c.fn, c.node))
            if restore or self.startup:
                return [(TRUE, ok), (FALSE, ok.note(("enter result is ignored", c.fn, c.node)))]
            no = self.mark(st, (x, "VET"), ("veto",), ("vetoe",), ("lastveto",), note=("enter blocked", c.fn, c.node))
            return [(TRUE, ok), (FALSE, no)]
        if role == "CHANGED":
            m = self.marks(st, x)
            restore = self.exited(st, x) and ("veto",) in st.ts
            self.count("changed", c.fn.loc(c.node))
            if "ADD" not in m and not restore:
                self.report("changed-when-active", "state callback", c.fn, c.node, "a state callback is executed for a state that did not just become active", st)
            if "CHG" in m:
                self.report("changed-once", "state callback", c.fn, c.node, "a state callback is executed twice for one activation", st)
            return [(U, self.mark(st, (x, "CHG"), note=("state callback", c.fn, c.node)))]
        return [(U, st)]

    # ------------------------------------------------------------------ rules
    def exiting(self, sim, c, st, x):
        self.count("exit", c.fn.loc(c.node))
        if ("vetox",) in st.ts:
            self.report("nothing-after-veto", "exit after blocked exit", c.fn, c.node, "another state is exited although a state already blocked the transition", st)
        if ("ext",) in st.ts and ("vetox",) not in st.ts:
            self.report("exit-first", "exit order", c.fn, c.node, "a state is exited after the transition action was executed or a target state was entered", st)
        t = self.related(sim, st, x)
        if t is None:
            self.report("exit-subtree-only", "exited states", c.fn, c.node, "a state is exited that is not known to be the source state of the transition or one of its descendants", st)
        else:
            k = self.self_kind(sim, st, t)
            if k != "external":
                self.report("internal-self-keeps-states", "exit", c.fn, c.node, "states are exited on a path that does not exclude internal self-transitions", st)
        ev = self.evpath(sim)
        if ev is not None and ("reg",) not in st.ts:
            self.report("exit-regular-only", "exit", c.fn, c.node, "states are exited during an entry point or history transition (the continuation of a transition)", st)
        o = self.order(st, x)
        if o == 1:
            self.report("children-exit-first", "exit order", c.fn, c.node, "states are exited in activation order: parents before their children", st)
        if o is not None:
            self.count("exit-order", c.fn.loc(c.node))

    def entering(self, sim, c, st, t):
        """an external transition continues after the exits"""
        if ("exits",) in st.ts and ("removed",) not in st.ts and ("veto",) not in st.ts:
            self.report("exited-leave-active-set", "exited states", c.fn, c.node, "the transition continues although the exited states were not removed from the active states", st)

    def entering_state(self, sim, c, st, x, restore):
        m = self.marks(st, x)
        self.count("enter", c.fn.loc(c.node))
        if restore:
            o = self.order(st, x)
            if o == -1:
                self.report("restore-order", "restore order", c.fn, c.node, "exited states are restored in the order in which they were exited: children before their parents", st)
            if o is not None:
                self.count("restore-order", c.fn.loc(c.node))
            return
        if ("vetox",) in st.ts:
            self.report("nothing-after-veto", "enter after blocked exit", c.fn, c.node, "a target state is entered although a state blocked its exit", st)
        if "ADD" in m or "CHG" in m:
            self.report("enter-before-active", "enter order", c.fn, c.node, "a state is entered after it became active", st)
        if self.startup:
            return
        if self.mem(st, x) is not False and "ENT" not in m:
            self.report("enter-inactive-only", "enter", c.fn, c.node, "the enter callback is executed on a path that does not exclude that the state is already active", st)
        t = self.trans_of(x)
        if t is not None:
            if self.self_kind(sim, st, t) != "external":
                self.report("internal-self-keeps-states", "enter", c.fn, c.node, "a state is entered on a path that does not exclude internal self-transitions", st)
            tm = self.marks(st, t)
            if "TR" not in tm:
                self.report("action-before-enter", "enter order", c.fn, c.node, "the target state is entered before the transition action was executed", st)
            self.entering(sim, c, st, t)

    def add(self, sim, c, x, st):
        if x is None or x == U:
            self.count("unidentified", "ADD at %s" % c.fn.loc(c.node))
            return [(U, st)]
        m = self.marks(st, x)
        restore = self.exited(st, x) and ("veto",) in st.ts
        self.count("add", c.fn.loc(c.node))
        if "VET" in m:
            self.report("vetoed-target-inactive", "active set", c.fn, c.node, "the target state becomes active although it blocked the transition", st)
        entered = "ENT" in m or "NOREG" in m or "WAS" in m or self.mem(st, x) is True
        if not entered:
            t = self.trans_of(x)
            self.report("enter-before-active", "active set", c.fn, c.node, "a state becomes active without being entered first", st)
        if not self.startup and self.mem(st, x) is not False:
            self.report("no-duplicate-active", "active set", c.fn, c.node, "a state is added to the active states on a path that does not exclude that it is already active", st)
        if not restore and ("vetox",) in st.ts:
            self.report("nothing-after-veto", "active set after blocked exit", c.fn, c.node, "a target state becomes active although a state blocked its exit", st)
        t = self.trans_of(x)
        if t is not None and not restore:
            self.entering(sim, c, st, t)
        st = self.set_mem(st, x, True, True)
        st = self.mark(st, (x, "ADD"), *([] if restore else [(x, "ENT")]), *([] if restore else [(x, "TGT"), ("ext",)]), note=("state becomes active", c.fn, c.node))
        return [(U, st)]

    def rem(self, sim, c, x, st):
        self.count("remove", c.fn.loc(c.node))
        if c.name == "clear" or x is None or x == U:
            if c.name in ("clear", "pop_back", "pop_front"):
                self.report("only-exited-leave", "active set", c.fn, c.node, "states leave the active set without having been exited (%s)" % c.name, st)
            return [(U, st)]
        fv = {v for v, t in self.froms(st)}
        if self.exited(st, x) or "EXT" in self.marks(st, x) or "NOREG" in self.marks(st, x):
            if ("veto",) not in st.ts:
                st = self.mark(st, ("removed",), (x, "REM"))
        elif x in fv or any(sim.eqv(st, x, v) is True for v in fv) or self._is_source(x):
            if not self.kept(st, x):
                self.report("parent-stays-active", "active set", c.fn, c.node, "the source of the transition leaves the active set on a path that does not exclude that the target is one of its substates", st)
        else:
            self.report("only-exited-leave", "active set", c.fn, c.node, "a state leaves the active set without having been exited", st)
        st = self.set_mem(st, x, False, True)
        return [(U, st.note(("state leaves the active set", c.fn, c.node)))]

    def _is_source(self, x):
        return x is not None and x[0] == "s" and isinstance(x[1], tuple) and x[1] and x[1][0] == "ld" and x[1][1][-1] == self.f_from

    def kept(self, st, x):
        return "NOTANC" in self.marks(st, x)

    def end_of_target(self, sim, c, st):
        if ("veto",) in st.ts and ("exits",) in st.ts and ("restored",) not in st.ts:
            self.report("restore-after-veto", "restore", c.fn, c.node, "the transition was blocked but the exited states are not restored", st)

    def finish(self, sim, fn, rv, st):
        for x in {k[0] for k in st.ts if len(k) == 2}:
            self.complete(sim, fn, None, st, x)
        if self.startup:
            return
        if ("veto",) in st.ts:
            self.count("vetoed-path", fn.key)
            if ("exits",) in st.ts and ("restored",) not in st.ts:
                self.report("restore-after-veto", "restore", fn, None, "the transition was blocked but the exited states are not restored", st)
        if self.histfns and ("removed",) in st.ts and ("hist",) not in st.ts:
            self.report("history-recorded", "call", fn, None, "states are left without being stored in the histories of their parents", st)
        if ("veto",) in st.ts or ("lastveto",) in st.ts:
            v = sim.const_of(st, rv)
            if v is None or v in (self.OK, self.PENDING):
                self.report("veto-fails-transition", "result", fn, None, "the transition was blocked by a callback but is reported as %s" % (
                    "successful" if v == self.OK else "ongoing" if v == self.PENDING else "an unknown result"), st)


RULES = {
    "P15": {"exit-first", "action-before-enter", "enter-before-active", "enter-then-changed", "changed-when-active", "changed-once", "children-exit-first",
            "enter-then-active"},
    "P16": {"nothing-after-veto", "vetoed-target-inactive", "restore-after-veto", "restore-complete", "restore-order", "veto-fails-transition"},
    "P19": {"exit-subtree-only", "exit-regular-only", "internal-self-keeps-states", "self-transition-kind", "exited-leave-active-set", "no-duplicate-active",
            "only-exited-leave", "parent-stays-active", "enter-inactive-only"},
}


def explore(sim, client, root):
    try:
        return sim.run(root, st=State(ts=frozenset()))
    except model.AnalysisBroken:
        if client.bad:          # too many paths, but some already break a rule
            return []
        raise


def analyse(config, histfns=None):
    prog = model.load(config)
    roles = Roles(prog)
    root, full = transition_root(prog, roles)
    res = []
    c = TransClient(prog, roles, root)
    if histfns is not None:
        c.histfns = histfns
        c.histopaque = {k for k in histfns if not closure_roles(prog, roles, k) and k not in c.relevant}
    sim = Sim(prog, c)
    outs = explore(sim, c, root)
    for rv, st in outs:
        c.finish(sim, root, rv, st)
    res.append((root, c, sim, len(outs)))
    # entering the initial state
    starts = [f for f in prog.fns.values() if f.cls == IMPL and f.kind not in ("ctor", "dtor") and f.key not in prog.callgraph_closure([root.key]) and
              "CHANGED" in closure_roles(prog, roles, f.key) and "EXIT" not in closure_roles(prog, roles, f.key)]
    for f in starts:
        if any(g.key != f.key and g.key in prog.callgraph_closure([f.key]) for g in starts):
            continue
        c2 = TransClient(prog, roles, f, startup=True)
        sim2 = Sim(prog, c2)
        outs = explore(sim2, c2, f) if histfns is None else []
        for rv, st in outs:
            c2.finish(sim2, f, rv, st)
        res.append((f, c2, sim2, len(outs)))
    return res


def emit(rep, tier, prop):
    return emit_rules(rep, tier, sorted(RULES[prop]))


def emit_rules(rep, tier, rules):
    npaths = 0
    for config in configs(tier):
        for root, c, sim, n in analyse(config):
            npaths += n
            for rule in rules:
                bad = [b for b in c.bad if b[0] == rule]
                if bad:
                    for r, key, loc, msg, path in bad:
                        rep.violate(r, "%s in %s" % (key, root.short()), loc, msg, path)
                else:
                    rep.ob(rule, True, sample="all %d path classes of %s" % (n, root.short()))
            for k, v in sorted(c.counts.items()):
                rep.stat("%s_%s" % (root.name, k), len(v))
                if k == "unidentified":
                    for x in sorted(v):
                        rep.notes.append("callback or insertion with an unidentified state, not judged: " + x)
            rep.stat("%s_states" % root.name, sim.nstates)
            if not c.startup:
                for k in ("exit", "enter", "changed", "add", "remove", "cb-TRANS"):
                    if not c.counts.get(k):
                        raise model.AnalysisBroken("no %s event identified in %s" % (k, root.short()))
    rep.stat("path_classes", npaths)
    return npaths


TECH = "path-sensitive interprocedural typestate analysis over the compiler's control-flow graphs (abstract interpretation, states joined per typestate)"


@check("P15", "Every path through the execution of one transition (and of the start-up) is explored abstractly: exit callbacks before the transition action, "
       "action before the enter callbacks, enter before the state becomes active, state callback once and only after that, children exit before parents.",
       ASSUME, TECH)
def p15(rep, tier):
    emit(rep, tier, "P15")


@check("P16", "On every path where an exit or enter callback returns false: nothing else of the transition is executed, the vetoed target does not become active, all "
       "exited states are re-entered, re-activated and notified in reverse order of the exit, and the result is a failure.", ASSUME, TECH)
def p16(rep, tier):
    emit(rep, tier, "P16")


@check("P19", "Every insertion into and removal from the container of active states on every path of a transition is checked against what the path has established "
       "(exited, entered, membership, hierarchy tests); internal self-transitions and continuations must not exit states.", ASSUME, TECH)
def p19(rep, tier):
    emit(rep, tier, "P19")
