"""P21: what is registered or called through the public API reaches the machine unchanged."""
import functools
import re
from engine.registry import check
from engine import model
from engine.events import EvClient, Roles, IMPL, FACADE, INSERT, algo, iter_cmp, sig_of
from engine.sim import Sim, State, U, TRUE, FALSE, NULL, tmpl
from checks.concurrency import ASSUME, configs, norm
from checks.transition import TECH

NULLS = (NULL, ("c", 0))


def A(i):
    return ("s", ("arg", i), False)


def B(i):
    return ("s", ("arg", i), True)


def cb_kind(ty):
    """signature of a callback parameter: std::function or pointer to member"""
    s = sig_of(ty)
    if s is None:
        m = re.match(r"(.*?)\s*\([\w:]+::\*\)\((.*)\)", ty)
        if not m:
            return None
        s = (m.group(1), [x for x in [m.group(2)] if x])
    return s[0], len([x for x in s[1] if x]) and (3 if "list" in str(s[1]) else 1)


class RegClient(EvClient):
    eq_facts = True
    compact = False

    def __init__(self, prog, cfg, api):
        self.cfg, self.api = cfg, api
        super().__init__(prog, cfg["roles"])
        self.elem_cmp = {}

    def interesting(self, f, n):
        if n["k"] == "Field" and n.get("owner") == IMPL and (n["name"] in self.cfg["maps"] or n["name"] in self.cfg["scalars"] or (IMPL, n["name"]) in self.roles.cb or (IMPL, n["name"]) == self.roles.active):
            return True
        if n["k"] in ("Call", "Construct") and n.get("fn") in self.cfg["leaves"]:
            return True
        return n["k"] == "Call" and n.get("name") in ("emplace_back", "push_back", "insert") and "Variant" in n.get("qn", "") or n["k"] in ("Call", "Construct") and n.get("cls") in self.cfg["records"]

    def inline(self, sim, fn, call_fn):
        if fn.key in self.cfg["leaves"] or fn.cls == "hsmcpp::Variant" or fn.key in self.cfg["lookups"] and self.api is not None:
            return False
        if fn.cls in self.cfg["records"]:
            return not fn.defaulted
        return fn.key in self.relevant or fn.kind == "lambda" and self.api in (None, "isStateActive")

    def mark(self, st, *items, note=None):
        return st.with_ts(st.ts | frozenset(items), note)

    def marks(self, st, k):
        return [x for x in st.ts or () if x[0] == k]

    def on_compare(self, sim, op, a, b, st):
        """an object of its own is never the entry of a container"""
        if op in ("==", "!=") and a[0] == "p" and b[0] == "p" and a[1] != b[1] and any(isinstance(x[1][0], tuple) and x[1][0][0] in ("t", "v") for x in (a, b)):
            return ("c", int(op == "!="))
        return None

    # ---- identity of callbacks and of vectors of arguments
    def on_move(self, sim, st, src, dst):
        if isinstance(src[0], tuple) and src[0][0] == "t":
            return st
        ks = [k for k in st.heap if k[:len(src)] == src and k[-1] == "#id"]
        if ks:
            st = st.copy()
            for k in ks:
                st.heap[k] = ("c", "moved")
        return st

    def ident(self, sim, st, p):
        """what a callback object is"""
        if p is None:
            return "?"
        v = sim.peek(st, p)
        if v is not None and v[0] == "lam":
            caps = set()
            for cid, cv in v[2]:
                if cv is not None and cv[0] == "alias":
                    caps.add("byref")
                if cv is not None and cv[0] == "s" and isinstance(cv[1], tuple) and cv[1][0] == "arg":
                    caps.add(cv[1][1])
            f = self.p.fns.get(v[1])
            return ("lam", frozenset(caps), len(f.params) if f is not None else None)
        i = st.heap.get(p + ("#id",))
        if i is not None:
            return i[1]
        t = st.heap.get(p + ("?",))
        if t == FALSE:
            return "none"
        return "?"

    @staticmethod
    def arg_ident(st, p, v):
        """which argument of the call is it?"""
        if p is not None and p + ("#arg",) in st.heap:
            return st.heap[p + ("#arg",)][1]
        if p is not None and len(p) == 1 and isinstance(p[0], tuple) and p[0][0] == "o":
            return p[0][1]
        if v is not None and v[0] == "s" and isinstance(v[1], tuple) and v[1][0] == "arg":
            return v[1]
        return "?"

    def assign(self, sim, c, st, src):
        dst = c.objpath
        v = c.args[0] if c.args else None
        if v is not None and v[0] == "lam" or v is not None and v[0] == "null":
            return None
        if src is None:
            return None
        st = sim.copy_obj(st, src, dst)
        if c.n.get("ptys", [""])[0].endswith("&&"):
            st = self.on_move(sim, st, src, dst)
        return [(("p", dst), st)]

    def on_construct(self, sim, c):
        st, cls = c.st, tmpl(c.qn)
        if c.target is None:
            return None
        if cls == "hsmcpp::Variant" and len(c.args) == 1:
            st = sim.kill_path(st, c.target).copy()
            st.heap[c.target + ("#arg",)] = ("c", self.arg_ident(st, c.argpaths[0], c.args[0]))
            return [st]
        if cls == "std::pair" and len(c.args) == 2:
            return [self.pair(sim, c, st, c.target)]
        if cls == "std::pair" and len(c.args) == 1 and c.argpaths[0] is not None:
            return [sim.copy_obj(st, c.argpaths[0], c.target)]
        g = self.p.fns.get(c.key)
        if c.qn in self.cfg["records"] and (c.n.get("copy") or c.n.get("move")) and g is not None and not g.defaulted:
            return [s for rv, s in sim.inline_call(g, c.depth, st, ("p", c.target), c.args, c.argpaths, c.n)]
        if cls == "std::function" and not c.args:
            st = sim.kill_path(st, c.target).copy()
            st.heap[c.target + ("?",)] = FALSE
            return [st]
        if cls == "std::vector" and not c.args:
            st = sim.kill_path(st, c.target).copy()
            st.heap[c.target + ("#id",)] = ("c", ())
            return [st]
        if c.key in self.cfg["leaves"]:
            return None
        return None

    def pair(self, sim, c, st, dst):
        st = sim.kill_path(st, dst)
        for i, f in enumerate(("first", "second")):
            c.st = st
            v, st = self.sval(sim, c, i)
            p = c.argpaths[i]
            if p is not None and (v is None or v[0] == "p" or c.fn.nodes[c.n["args"][i]].get("rec")):
                st = sim.copy_obj(st, p, dst + (f,))
            elif v is not None:
                st = st.copy()
                st.heap[dst + (f,)] = v
        return st

    # ---- records
    def record(self, sim, st, p, cls):
        """snapshot of a stored value"""
        if cls is None:
            v = sim.peek(st, p) if p is not None else None
            return (("", v),)
        out = []
        for f in self.p.classes[cls]["fields"]:
            fp = p + (f["name"],) if p is not None else None
            if f["type"].startswith("std::function"):
                out.append((f["name"], self.ident(sim, st, fp)))
            elif norm(f["type"]) in ("int", "bool") or norm(f["type"]) in self.p.enums:
                v = sim.peek(st, fp) if fp is not None else None
                out.append((f["name"], v))
        return tuple(out)

    def key(self, sim, st, p, v):
        if p is not None and (p + ("first",)) in st.heap:
            return (st.heap[p + ("first",)], st.heap.get(p + ("second",)))
        return v

    def on_call(self, sim, c):
        st, n, name, op, cls = c.st, c.n, c.name, c.n.get("op"), str(c.n.get("cls", ""))
        q = tmpl(n.get("qn", ""))
        if name in ("operator->", "operator*", "get") and IMPL in str(n.get("ty", "")) + str(n.get("rec", "")):
            return [(("p", ("this",)), st)]
        # ---- leaves: the operation of the machine
        if c.key in self.cfg["leaves"]:
            g = self.p.fns[c.key]
            args = []
            for i, p in enumerate(g.params):
                if "Variant" in p["type"]:
                    ap = c.argpaths[i] if i < len(c.argpaths) else None
                    x = st.heap.get(ap + ("#id",)) if ap is not None else None
                    args.append(("vec", x[1] if x is not None else "?"))
                else:
                    v, st = self.sval(sim, c, i)
                    c.st = st
                    k = sim.const_of(st, v) if v is not None else None
                    args.append(("c", k) if k is not None else v)
            k = len(self.marks(st, "call"))
            return [(("s", ("result",), True) if g.ret == "bool" else U, self.mark(st, ("call", k, g.name, tuple(args)), note=("%s()" % g.name, c.fn, c.node)))]
        if c.key in self.cfg["lookups"] and self.api is not None:
            return self.lookup(sim, c, st)
        if c.key in self.cfg["ancestor"] and self.api is not None and len(c.args) == 2:
            a, st = self.sval(sim, c, 0)
            c.st = st
            b, st = self.sval(sim, c, 1)
            if a == A(1) and b == A(0):
                return [(TRUE, st), (FALSE, self.mark(st, ("rooted",)))]
            return [(("s", ("anc", c.node), True), st)]
        if q == "std::bind":
            t = (("t", c.depth, c.node),)
            f, st = self.sval(sim, c, 0)
            c.st = st
            h, st = (self.sval(sim, c, 1) if len(c.args) > 1 else (None, st))
            ph = []
            for p in c.argpaths[2:]:
                m = re.search(r"placeholders::_(\d+)$", str(p[0][1])) if p is not None and isinstance(p[0], tuple) and p[0][0] == "g" else None
                ph.append(int(m.group(1)) if m else "?")
            st = sim.kill_path(st, t).copy()
            st.heap[t + ("#id",)] = ("c", ("bound", f, h, tuple(ph)))
            return [(("p", t), st)]
        if name == "operator=" and c.objpath is not None and (cls.startswith("std::function") or "std::vector<hsmcpp::Variant>" in n.get("fn", "").split("::operator=")[0]):
            return self.assign(sim, c, st, c.argpaths[0])
        if name == "operator=" and cls in self.cfg["records"] and c.objpath is not None and c.argpaths[0] is not None:
            g = self.p.fns.get(c.key)
            if g is None or g.defaulted:
                s2 = sim.copy_obj(st, c.argpaths[0], c.objpath)
                if n.get("ptys", [""])[0].endswith("&&"):
                    s2 = self.on_move(sim, s2, c.argpaths[0], c.objpath)
                return [(("p", c.objpath), s2)]
        if name == "swap" and cls.startswith("std::function") and c.objpath is not None and c.argpaths[0] is not None:
            return [(U, sim.copy_obj(st, c.argpaths[0], c.objpath))]
        if q == "std::make_pair" and len(c.args) == 2:
            t = (("t", c.depth, c.node),)
            return [(("p", t), self.pair(sim, c, st, t))]
        if q in ("std::forward", "std::move") and c.argpaths[0] is not None:
            return [(("p", c.argpaths[0]), st)]
        # ---- vector of arguments
        if c.objpath is not None and "obj" in n and "std::vector<hsmcpp::Variant>" in n.get("fn", "").rsplit("::" + name, 1)[0]:
            cur = st.heap.get(c.objpath + ("#id",))
            cur = cur[1] if cur is not None else "?"
            if name in ("emplace_back", "push_back"):
                x = self.arg_ident(st, c.argpaths[0] if c.argpaths else None, c.args[0] if c.args else None)
                st = st.copy()
                st.heap[c.objpath + ("#id",)] = ("c", cur + (x,) if isinstance(cur, tuple) else "?")
                return [(U, st)]
            if name in ("reserve", "shrink_to_fit"):
                return [(U, st)]
            if name in ("size", "empty", "capacity"):
                return None
            if name in ("clear", "pop_back", "erase", "insert", "assign", "resize", "swap"):
                st = st.copy()
                st.heap[c.objpath + ("#id",)] = ("c", () if name == "clear" else "?")
                return [(U, st)]
        # ---- containers of the machine
        if c.objpath is not None and "obj" in n and len(c.objpath) == 2 and c.objpath[0] == "this" and c.objpath[1] in self.cfg["maps"]:
            r = self.container(sim, c, st)
            if r is not None:
                return r
        act = self.roles.active[1]
        if c.objpath == ("this", act) and "obj" in n and self.api in ("getLastActiveState",):
            if name == "empty":
                return [(v, self.mark(st, ("empty", v == TRUE))) for v in (TRUE, FALSE) if ("empty", v != TRUE) not in st.ts]
            if name in ("back",):
                return [(("s", ("back",), False), st)]
            if name == "size":
                return [(("c", 0), self.mark(st, ("empty", True))), (("c", 2), self.mark(st, ("empty", False)))]
            if name in ("rbegin", "crbegin"):
                return [(("it", c.objpath, "LAST"), st)]
            if name in ("rend", "crend", "end", "cend"):
                return [(("it", c.objpath, ("END",)), st)]
            if name in ("begin", "cbegin"):
                return [(("it", c.objpath, "FIRST"), st)]
        if q in ("std::find", "std::count") and len(c.args) == 3 and c.args[0] is not None and c.args[0][0] == "it" and c.args[0][1] == ("this", act):
            c.args[2:], c2 = c.args[2:], None
            v, st = self.sval(sim, c, 2)
            yes, no = self.mark(st, ("member", v, True)), self.mark(st, ("member", v, False))
            if q == "std::count":
                return [(("c", 1), yes), (("c", 0), no)]
            s, yes = sim.sym(c.fn, c.node, c.depth, yes, False)
            yes = yes.copy()
            yes.facts[("s", ("isend", s), True)] = FALSE
            return [(("it", c.args[0][1], s), yes), (("it", c.args[0][1], ("END",)), no)]
        o = sim.peek(st, c.objpath) if c.objpath is not None and "obj" in n else None
        if name in ("operator*", "operator->") and o is None and c.obj is not None and c.obj[0] == "it":
            o = c.obj
        if o is not None and o[0] == "it" and o[2] == "LAST":
            if name in ("operator*", "operator->"):
                return [(("s", ("back",), False), st)]
        ic = iter_cmp(c)
        if ic is not None and ic[1] in ("LAST", "FIRST"):
            return [(v if ic[2] else (FALSE if v == TRUE else TRUE), self.mark(st, ("empty", v == TRUE))) for v in (TRUE, FALSE) if ("empty", v != TRUE) not in st.ts]
        if o is not None and o[0] == "it" and isinstance(o[2], tuple) and o[2][0] == "K":
            if name in ("operator*", "operator->"):
                return [(("p", o[1] + (("[]", o[2][1]),)), self.mark(st, ("slot", o[1][1], o[2][1])))]
        if ic is not None and isinstance(ic[1], tuple) and ic[1][0] == "K":
            return [(FALSE if ic[2] else TRUE, st)]
        if self.api in (None, "isStateActive"):
            r = algo(self, sim, c, on_end=self.range_end, on_next=self.range_next)
            if r is not None:
                return r
            if ic is not None and ic[0][0] == "this":
                cont, s, eq = ic
                known = TRUE if s == ("END",) else st.facts.get(("s", ("isend", s), True))
                outs = []
                if known != TRUE:
                    s2 = st.copy()
                    s2.facts[("s", ("isend", s), True)] = FALSE
                    outs.append((FALSE if eq else TRUE, self.range_next(cont, s, s2)))
                if known != FALSE:
                    s2 = self.range_end(cont, st)
                    if s != ("END",):
                        s2 = s2.copy()
                        s2.facts[("s", ("isend", s), True)] = TRUE
                    outs.append((TRUE if eq else FALSE, s2))
                return outs
        return None

    def on_fresh(self, st, s):
        """the next element is taken"""
        return self.leave(st) if any(x[2] == s for x in self.marks(st, "vis")) else st

    def leave(self, st):
        for x in self.marks(st, "vis"):
            r = self.el_known(st, x)
            st = st.with_ts(st.ts - {x} | ({("skipped",)} if r is not False else set()))
        return st

    @staticmethod
    def eqkey(a, b):
        return Sim.eqkey(None, a, b)

    # ---- lookups of parents (api is None) and of active states by iteration
    def range_next(self, cont, s, st):
        st = self.leave(st)
        st = st.with_ts(frozenset(x for x in st.ts if x[0] != "vis") | {("vis", cont, s)}).copy()
        el = cont + (("[]", s),)
        keep = []
        for x in ("first", "second") if "map" in self.cfg["maps"].get(cont[1], "") else (None,):
            q = el + (x,) if x else el
            v = ("s", ("ld", q), False)
            keep.append(v)
            st.heap[q] = v
        st.heap[(("o", "#vis"),)] = ("c", tuple(keep))      # what is known about them is kept
        return st

    def range_end(self, cont, st):
        st = self.leave(st)
        if ("skipped",) in st.ts:
            return self.mark(st, ("end", "skipped"))
        return self.mark(st, ("end", "all"))

    def el_known(self, st, vis):
        """was the element compared with the state that is looked for?"""
        el = vis[1] + (("[]", vis[2]),)
        el = el + ("second",) if "map" in self.cfg["maps"].get(el[1], "") else el
        f = st.facts.get(self.eqkey(A(0), ("s", ("ld", el), False)))
        if f is not None:
            return f == TRUE
        return None

    def lookup(self, sim, c, st):
        """does a state have a parent? (verified separately)"""
        x, st = self.sval(sim, c, 0)
        no = st
        if x == A(1):
            no = self.mark(st, ("noparent",))
        w = self.marks(st, "walk")
        cur = w[0][1] if w else A(0)
        if x == cur and (cur == A(0) or self.differs(sim, st, cur) is True):
            no = self.mark(no, ("rooted",))
        outs = [(FALSE, no)]
        if len(c.args) < 2 or c.argpaths[1] is None:
            return [(TRUE, st)] + outs
        if x == cur:
            if cur != A(0) and self.differs(sim, st, cur) is not True:
                self.report("hierarchy", "ancestors", c.fn, c.node, "an ancestor of the parent is not compared with the new substate", st)
            s, yes = sim.sym(c.fn, c.node, c.depth, st, False)
            yes = yes.with_ts(frozenset(m for m in yes.ts if m[0] != "walk") | {("walk", s)})
        else:
            s, yes = sim.fresh(st, (c.depth, c.fn.key, c.node, "p"), False)
        yes = sim.store(yes, c.argpaths[1], s)
        return [(TRUE, yes)] + outs

    def differs(self, sim, st, s):
        r = sim.eqv(st, s, A(1))
        return None if r is None else not r

    def container(self, sim, c, st):
        n, name, fld = c.n, c.name, c.objpath[1]
        ty = self.cfg["maps"][fld]
        multi = "multimap" in ty
        cls = self.cfg["values"].get(fld)
        cont = c.objpath
        if self.api is None:
            return None
        if name in ("operator[]", "at") or n.get("op") == "[]":
            v, st = self.sval(sim, c, 0)
            return [(("p", cont + (("[]", v), "second")), self.mark(st, ("slot", fld, v), note=("entry of %s is set" % fld, c.fn, c.node)))]
        if name in ("find", "count", "lower_bound"):
            v, st = self.sval(sim, c, 0)
            v = self.key(sim, st, c.argpaths[0], v)
            yes, no = self.mark(st, ("has", fld, v)), self.mark(st, ("hasnot", fld, v))
            outs = []
            if ("hasnot", fld, v) not in st.ts:
                outs.append((TRUE if name == "count" else ("it", cont, ("K", v)), yes))
            if ("has", fld, v) not in st.ts:
                outs.append((FALSE if name == "count" else ("it", cont, ("END",)), no))
            return outs
        if name in ("end", "cend"):
            return [(("it", cont, ("END",)), st)]
        if name in INSERT:
            args = [(v, p) for v, p in zip(c.args, c.argpaths) if not (v is not None and v[0] == "it")]
            kv = vp = None
            if len(args) >= 2:
                i = list(c.args).index(args[0][0])
                kv, st = self.sval(sim, c, i)
                kv = self.key(sim, st, args[0][1], kv)
                vp, vv = args[1][1], args[1][0]
                if cls is None and (vp is None or sim.peek(st, vp) is None):
                    c.st = st
                    vv, st = self.sval(sim, c, i + 1)
                    snap = (("", vv),)
                else:
                    snap = self.record(sim, st, vp, cls)
                if len(args) > 2:
                    snap = ("?",)
            elif args and args[0][1] is not None:
                p = args[0][1]
                kv = self.key(sim, st, p + ("first",), sim.peek(st, p + ("first",)))
                snap = self.record(sim, st, p + ("second",), cls)
            else:
                snap = ("?",)
            if not multi and name != "insert_or_assign" and ("hasnot", fld, kv) not in st.ts and ("erased", fld, kv) not in st.ts:
                self.report("latest-counts", fld, c.fn, c.node, "a repeated registration is ignored", st)
            k = len(self.marks(st, "ins"))
            st = self.mark(st, ("ins", k, fld, kv, snap), note=("inserted into %s" % fld, c.fn, c.node))
            if name == "insert" and len(args) == 1 or name == "emplace" and not multi:
                return [(U, st)]
            return [(("it", cont, ("NEW",)), st)]
        if name == "erase":
            v, st = self.sval(sim, c, 0)
            if v is not None and v[0] == "it" and isinstance(v[2], tuple) and v[2][0] == "K":
                v = v[2][1]
            return [(U, self.mark(st, ("erased", fld, v)))]
        if name in ("clear", "operator=", "swap"):
            self.report("nothing-else", fld, c.fn, c.node, "earlier registrations are removed", st)
            return [(U, st)]
        return None


def answers(prog, cfg, f):
    """f(state) tells whether the state is active -> (client, state of a path with a wrong answer or None, number of paths)"""
    c = RegClient(prog, cfg, "isStateActive")
    sim = Sim(prog, c)
    st = State(ts=frozenset())
    st.heap[(("o", "#given"),)] = ("c", (A(0),))
    wrong, n = None, 0
    for rv, s in sim.run(f, args={0: A(0)}, st=st):
        n += 1
        v = sim.const_of(s, rv)
        m = c.marks(s, "member")
        if m:
            good = v is not None and all(x[1] == A(0) and x[2] == bool(v) for x in m)
        else:
            hit = any(c.el_known(s, x) is True for x in c.marks(s, "vis"))
            good = v is not None and (hit if v else not hit and ("end", "all") in s.ts)
        if not good:
            wrong = s
    return c, wrong, n


def membership(prog, roles):
    """predicates of one state which iterate over the active states and (verified) tell whether the state is among them"""
    r = prog.__dict__.get("_membership")
    if r is not None:
        return r
    r = prog.__dict__["_membership"] = set()

    def mentions(f, seen):
        if f.key in seen:
            return False
        seen.add(f.key)
        for n in f.nodes:
            if n["k"] == "Field" and (n.get("owner"), n["name"]) == roles.active:
                return True
            if n["k"] == "Lambda" and n.get("fn") in prog.fns and mentions(prog.fns[n["fn"]], seen):
                return True
        return False
    cands = [f for f in prog.fns.values() if f.cls == IMPL and f.ret == "bool" and len(f.params) == 1 and norm(f.params[0]["type"]).replace("&", "").strip() == "int" and mentions(f, set())
             and not any(n["k"] == "Call" and tmpl(n.get("qn", "")) in ("std::find", "std::count") for n in f.nodes)]
    if cands:
        try:
            cfg = setup(prog)
            for f in cands:
                c, wrong, n = answers(prog, cfg, f)
                if n and wrong is None and not c.bad:
                    r.add(f.key)
        except model.AnalysisBroken:
            pass
    return r


def setup(prog):
    rs = Roles(prog)
    cfg = {"roles": rs, "maps": {}, "values": {}, "leaves": set(), "lookups": set(), "ancestor": set()}
    recs = set(rs.trans_cls) | set(rs.entry_cls) | set(rs.state_cls) | {c for (c, f), r in rs.cb.items() if c != IMPL}
    cfg["records"] = recs
    for f in prog.classes[IMPL]["fields"]:
        ty = f["type"].replace("std::__cxx11::", "std::")
        m = re.match(r"std::(unordered_)?(multi)?map<", ty)
        if m:
            cfg["maps"][f["name"]] = ty
            for r in recs:
                if re.search(r",\s*%s\s*>$" % re.escape(r), ty):
                    cfg["values"][f["name"]] = r
    cfg["scalars"] = {f["name"] for f in prog.classes[IMPL]["fields"] if norm(f["type"]) == "int"}
    for api in ("transitionExWithArgsArray", "isTransitionPossibleImpl", "registerStateActionImpl", "transitionInterruptSafe"):
        cfg["leaves"].add(rs.impl_of(api).key)
    # lookups of the parent of a state: bool(state[, state&]) that read the container of substates
    sub = rs.impl_of("registerSubstate")
    subs = set()
    for k in prog.callgraph_closure([sub.key]):
        g = prog.fns.get(k)
        if g is None:
            continue
        for n in g.nodes:
            if n["k"] == "Call" and n.get("name") in INSERT and "obj" in n and g.nodes[n["obj"]]["k"] == "Field" and g.nodes[n["obj"]].get("owner") == IMPL and cfg["maps"].get(g.nodes[n["obj"]]["name"], "").startswith("std::multimap<int, int"):
                subs.add(g.nodes[n["obj"]]["name"])
    if len(subs) != 1:
        raise model.AnalysisBroken("container of substates not found")
    cfg["subs"] = next(iter(subs))
    for f in prog.fns.values():
        if f.cls != IMPL or f.ret != "bool" or not f.blocks or f.kind == "lambda":
            continue
        reads = any(n["k"] == "Field" and n.get("owner") == IMPL and n["name"] == cfg["subs"] for n in f.nodes)
        writes = any(n["k"] == "Call" and n.get("name") in INSERT for n in f.nodes)
        tys = [norm(p["type"]) for p in f.params]
        others = any(n["k"] == "Field" and n.get("owner") == IMPL and n["name"] != cfg["subs"] and n["name"] in cfg["maps"] for n in f.nodes)
        finds = any(n["k"] == "Call" and n.get("name") == "find" and "obj" in n for n in f.nodes)
        if reads and not writes and not others and not finds and (tys == ["int"] or tys == ["int", "int &"]):
            cfg["lookups"].add(f.key)
        if reads and not writes and tys == ["int", "int"] and f.name.startswith("isSubstateOf"):
            cfg["ancestor"].add(f.key)
    cfg["safe"] = any("SAFE_STRUCTURE" in x for x in model.config_flags(prog.config))
    return cfg


def spec(prog, cfg, api):
    """what a registration has to store: list of (kind, role of the container, key, value) over the parameters without the handler"""
    rs = cfg["roles"]
    st_cls, tr_cls, en_cls = (next(iter(x)) for x in (rs.state_cls, rs.trans_cls, rs.entry_cls))
    hist = next((c for c in cfg["records"] if c not in (st_cls, tr_cls, en_cls)), None)

    def fields(cls, cbs, scal):
        out = {}
        for f in prog.classes[cls]["fields"]:
            if f["type"].startswith("std::function"):
                out[f["name"]] = ("cb", cbs.get(rs.cb[(cls, f["name"])]))
        for k, v in scal.items():
            out[k] = v
        return out

    def ints(cls, first):
        fs = [f["name"] for f in prog.classes[cls]["fields"] if norm(f["type"]) == "int"]
        a = [f for f in fs if first in f.lower()]
        if len(fs) != 2 or len(a) != 1:
            raise model.AnalysisBroken("states of %s not recognised" % cls)
        return a[0], next(f for f in fs if f != a[0])

    def one(cls, pred):
        fs = [f["name"] for f in prog.classes[cls]["fields"] if pred(norm(f["type"]))]
        if len(fs) != 1:
            raise model.AnalysisBroken("field of %s not recognised" % cls)
        return fs[0]
    enum = lambda t: t in prog.enums
    states = lambda k, i: ("slot", "states", k, fields(st_cls, {"CHANGED": i, "ENTER": i + 1, "EXIT": i + 2}, {}))
    if api == "registerState":
        return [states(0, 1)]
    if api == "registerFinalState":
        return [states(0, 2), ("slot", "finals", 0, {"": 1})]
    if api == "registerHistory":
        return [("ins", "history", 0, {"": 1}), ("slot", "histdata", 1, fields(hist, {"TRANS": 4}, {one(hist, enum): 2, one(hist, lambda t: t == "int"): 3}))]
    if api == "registerSubstate":
        return [("ins", "subs", 0, {"": 1})]
    if api == "registerSubstateEntryPoint":
        ev, s = ints(en_cls, "event")
        return [("ins", "subs", 0, {"": 1}), ("ins", "entries", 0, fields(en_cls, {"COND": 3}, {s: 1, ev: 2, one(en_cls, lambda t: t == "bool"): 4}))]
    if api == "registerTimer":
        return [("slot", "timers", 0, {"": 1})]
    fr, to = ints(tr_cls, "from")
    ex = one(tr_cls, lambda t: t == "bool")
    if api == "registerTransition":
        return [("ins", "transitions", (0, 2), fields(tr_cls, {"TRANS": 3, "COND": 4}, {fr: 0, to: 1, one(tr_cls, enum): "EXTERNAL", ex: 5}))]
    if api == "registerSelfTransition":
        return [("ins", "transitions", (0, 1), fields(tr_cls, {"TRANS": 3, "COND": 4}, {fr: 0, to: 0, one(tr_cls, enum): 2, ex: 5}))]
    return []


REGS = ("registerState", "registerFinalState", "registerHistory", "registerSubstate", "registerSubstateEntryPoint", "registerTimer", "registerTransition", "registerSelfTransition")
CALLS = {"transition": (0, False, False, 0), "transitionEx": (0, 1, 2, 3), "transitionSync": (0, False, True, 1), "transitionWithQueueClear": (0, True, False, None), "isTransitionPossible": (0,), "registerStateAction": (0, 1, 2),
         "transitionWithArgsArray": (0, False, False, 0), "transitionExWithArgsArray": (0, 1, 2, 3), "transitionInterruptSafe": (0,)}
FIRSTVEC = {"transition": 1, "transitionEx": 4, "transitionSync": 2, "transitionWithQueueClear": 1, "isTransitionPossible": 1, "registerStateAction": 3, "transitionWithArgsArray": 1, "transitionExWithArgsArray": 4}
LEAF = {"isTransitionPossible": "isTransitionPossibleImpl", "registerStateAction": "registerStateActionImpl", "transitionInterruptSafe": "transitionInterruptSafe"}


@functools.lru_cache(None)
def run(config):
    prog = model.load(config, ("witness/api.cpp",))
    cfg = setup(prog)
    rs = cfg["roles"]
    bad, stats = [], {"functions": 0, "paths": 0, "stores": 0, "calls": 0, "lookups": 0}
    roles = {"subs": cfg["subs"]}
    ext = next((n["val"] for f in prog.fns.values() for n in f.nodes if n["k"] == "EnumC" and n["name"].endswith("TransitionType::EXTERNAL_TRANSITION")), None)
    if ext is None:
        raise model.AnalysisBroken("EXTERNAL_TRANSITION not found")

    def prepare(f):
        args, st, order, handler = {}, State(ts=frozenset()), [], None
        for i, p in enumerate(f.params):
            t = p["type"]
            if t.replace("const ", "").endswith("*") and "::*" not in t and "char" not in t:
                handler = i
                args[i] = A(i)
                continue
            order.append(i)
            if "std::function" in t and not t.endswith(")") or "std::vector" in t and "(" not in t or t.endswith("&"):
                path = (("o", ("arg", i)),)
                args[i] = ("alias", path)
                st.heap[path + ("#id",)] = ("c", ("arg", i))
            else:
                args[i] = B(i) if norm(t) == "bool" else A(i)
        st.heap[(("o", "#given"),)] = ("c", tuple(v for v in args.values() if v[0] == "s"))     # what is known about them is kept
        return args, st, order, handler

    def val(v, order, f):
        i = order[v]
        return B(i) if norm(f.params[i]["type"]) == "bool" else A(i)

    def is_null(sim, st, v):
        for k in NULLS:
            r = sim.eqv(st, v, k)
            if r is not None:
                return r
        f = st.facts.get(v)
        if f is not None:
            return f in NULLS or f == FALSE if f[0] != "ne" else False if any(x in f[1] for x in (0, NULL, FALSE)) else None
        return None

    def same_cb(sim, st, got, want, f, order, handler):
        """does a stored callback equal the given one?"""
        if want is None:
            return got == "none"
        i = order[want]
        if handler is None:
            return got == ("arg", i)
        nul = [is_null(sim, st, A(j)) for j in (i, handler)]
        if True in nul:
            return got == "none"
        if got == "none":
            return False
        np = cb_kind(f.params[i]["type"])[1] or 0
        if got[0] == "bound":
            return got[1:] == (A(i), A(handler), tuple(range(1, np + 1)))
        if got[0] == "lam":
            return {i, handler} <= got[1] and "byref" not in got[1] and got[2] == np
        return False

    # ---- lookups of parents
    for k in sorted(cfg["lookups"]):
        f = prog.fns[k]
        c = RegClient(prog, cfg, None)
        sim = Sim(prog, c)
        st = State(ts=frozenset())
        st.heap[(("o", "#given"),)] = ("c", (A(0),))
        args = {0: A(0)}
        out = (("o", "out"),)
        if len(f.params) > 1:
            args[1] = ("alias", out)
        for rv, s in sim.run(f, args=args, st=st):
            stats["paths"] += 1
            stats["lookups"] += 1
            v = sim.const_of(s, rv)
            vis = c.marks(s, "vis")
            hit = [x for x in vis if c.el_known(s, x) is True]
            if v is None:
                c.report("parent-lookup", f.name, f, None, "the answer does not depend on whether the state is a substate", s)
            elif v and not hit:
                c.report("parent-lookup", f.name, f, None, "a parent is found for a state that is not a substate", s)
            elif not v and (hit or ("end", "all") not in s.ts):
                c.report("parent-lookup", f.name, f, None, "a substate is not recognised as such", s)
            elif v and len(f.params) > 1:
                got = s.heap.get(out) or s.env.get(out[0])
                el = hit[0][1] + (("[]", hit[0][2]),)
                if not (got is not None and got[0] == "s" and isinstance(got[1], tuple) and got[1][0] == "ld" and got[1][1] == el + ("first",)):
                    c.report("parent-lookup", f.name, f, None, "another state than its parent is returned", s)
        bad += [(b, f) for b in c.bad]
    # ---- registrations
    for api in REGS:
        fs = prog.fns_named(FACADE + "::" + api)
        if not fs:
            raise model.AnalysisBroken("API %s not found" % api)
        want = spec(prog, cfg, api)
        for f in fs:
            stats["functions"] += 1
            args, st, order, handler = prepare(f)
            c = RegClient(prog, cfg, api)
            sim = Sim(prog, c)
            for rv, s in sim.run(f, args=args, st=st):
                stats["paths"] += 1
                ok = True
                if f.ret == "bool":
                    v = sim.const_of(s, rv)
                    stored = bool(c.marks(s, "ins") or c.marks(s, "slot"))
                    if v is None or bool(v) != stored:
                        c.report("result", api, f, None, "the result does not tell whether it was registered", s)
                        continue
                    ok = stored
                    if stored and "Substate" in api:
                        par, sub = A(order[0]), A(order[1])
                        if sim.eqv(s, par, sub) is not False:
                            c.report("hierarchy", "itself", f, None, "a state can become its own substate", s)
                        if cfg["safe"] and ("noparent",) not in s.ts:
                            c.report("hierarchy", "one-parent", f, None, "a state can get a second parent", s)
                        if cfg["safe"] and ("rooted",) not in s.ts:
                            c.report("hierarchy", "ancestors", f, None, "a state can become a substate of its own substate", s)
                if not ok:
                    continue
                ins, slots = [m[2:] for m in c.marks(s, "ins")], [m[1:] for m in c.marks(s, "slot")]
                for kind, role, key, fields in want:
                    kw = tuple(val(k, order, f) for k in key) if isinstance(key, tuple) else val(key, order, f)
                    cand = []
                    for fld, kv, snap in ins:
                        cand.append((fld, kv, snap, True))
                    for fld, kv in slots:
                        cls = cfg["values"].get(fld)
                        cand.append((fld, kv, c.record(sim, s, ("this", fld, ("[]", kv), "second"), cls), False))
                    if kind == "ins":
                        cand = [x for x in cand if "multimap" in cfg["maps"][x[0]]]
                    else:
                        cand = [x for x in cand if "multimap" not in cfg["maps"][x[0]]]
                    keys = set(fields)
                    cand = [x for x in cand if {y[0] for y in x[2] if isinstance(y, tuple)} >= keys and (role not in roles or roles[role] == x[0])]
                    if len(cand) != 1:
                        c.report("stored", role, f, None, "the %s of %s() %s" % (role, api, "are not stored" if not cand else "are stored more than once"), s)
                        continue
                    stats["stores"] += 1
                    fld, kv, snap, _ = cand[0]
                    roles.setdefault(role, fld)
                    if kv != kw:
                        c.report("stored", role + " key", f, None, "%s() registers for another state or event than given" % api, s)
                    got = dict(snap)
                    for nm, i in fields.items():
                        g = got.get(nm)
                        if isinstance(i, tuple):
                            good = same_cb(sim, s, g, i[1], f, order, handler)
                        elif i == "EXTERNAL":
                            good = g is not None and sim.const_of(s, g) == ext
                        else:
                            good = g == val(i, order, f)
                        if not good:
                            c.report("stored", "%s %s" % (role, nm), f, None, "%s() does not store the given value as %s" % (api, nm or "value"), s)
                used = {fld for fld, _, _ in ins} | {x[0] for x in slots}
                extra = used - {roles.get(r) for _, r, _, _ in want}
                if extra:
                    c.report("nothing-else", api, f, None, "%s() also changes %s" % (api, sorted(extra)[0]), s)
            bad += [(b, f) for b in c.bad]
    rev = {}
    for r, fld in roles.items():
        if fld in rev:
            bad.append((("stored", r, prog.fns_named(FACADE + "::registerState")[0].loc(None), "%s and %s share one container" % (r, rev[fld]), []), prog.fns_named(FACADE + "::registerState")[0]))
        rev[fld] = r
    # ---- failed-transition callback and initial state
    ff = [x for x, r in rs.cb.items() if r == "FAILED"][0]
    for f in prog.fns_named(FACADE + "::registerFailedTransitionCallback"):
        stats["functions"] += 1
        args, st, order, handler = prepare(f)
        c = RegClient(prog, cfg, "failed")
        sim = Sim(prog, c)
        for rv, s in sim.run(f, args=args, st=st):
            stats["paths"] += 1
            got = c.ident(sim, s, ("this", ff[1]))
            if not same_cb(sim, s, got, 0, f, order, handler):
                c.report("stored", "failed-transition callback", f, None, "the given failed-transition callback is not stored", s)
        bad += [(b, f) for b in c.bad]
    init = None
    ct = [f for f in prog.fns.values() if f.cls == FACADE and f.kind == "ctor" and f.params and norm(f.params[0]["type"]) == "int"]
    ic = [f for f in prog.fns.values() if f.cls == IMPL and f.kind == "ctor" and any(norm(p["type"]) == "int" for p in f.params)]
    for f in ct + ic:
        i = next(i for i, p in enumerate(f.params) if norm(p["type"]) == "int")
        c = RegClient(prog, cfg, "ctor")
        sim = Sim(prog, c)
        c.inline = lambda sim, fn, call_fn: False
        c.on_construct = lambda sim, c2, c=c: (c.report("initial-state", "constructor", c2.fn, c2.node, "the initial state is not passed on", c2.st) or None) if c2.key in {g.key for g in ic} and A(i) not in [c.sval(sim, c2, j)[0] for j in range(len(c2.args))] else None
        for rv, s in sim.run(f, args={i: A(i)}, st=State(ts=frozenset())):
            stats["paths"] += 1
            if f.cls == IMPL:
                flds = [k[1] for k, v in s.heap.items() if len(k) == 2 and k[0] == "this" and v == A(i)]
                if len(flds) != 1:
                    c.report("initial-state", "constructor", f, None, "the initial state is not stored", s)
                else:
                    init = flds[0]
        bad += [(b, f) for b in c.bad]
    for f in prog.fns_named(FACADE + "::setInitialState"):
        c = RegClient(prog, cfg, "setInitialState")
        sim = Sim(prog, c)
        args, st, order, handler = prepare(f)
        some = False
        for rv, s in sim.run(f, args=args, st=st):
            stats["paths"] += 1
            flds = [k[1] for k, v in s.heap.items() if len(k) == 2 and k[0] == "this" and k[1] in cfg["scalars"]]
            some = some or s.heap.get(("this", init)) == A(0)
            if any(k != init and s.heap.get(("this", k)) == A(0) for k in flds) or init in flds and s.heap[("this", init)] != A(0) and not (s.heap[("this", init)][0] == "s" and s.heap[("this", init)][1][0] == "ld"):
                c.report("initial-state", "setInitialState", f, None, "something else than the given state becomes the initial state", s)
        if not some:
            c.report("initial-state", "setInitialState", f, None, "the given state does not become the initial state", State())
        bad += [(b, f) for b in c.bad]
    # ---- queries
    for f in prog.fns_named(FACADE + "::isStateActive"):
        stats["functions"] += 1
        c, wrong, n = answers(prog, cfg, f)
        stats["paths"] += n
        if wrong is not None:
            c.report("query", "isStateActive", f, None, "the answer does not tell whether the state is active", wrong)
        bad += [(b, f) for b in c.bad]
    for f in prog.fns_named(FACADE + "::getLastActiveState"):
        stats["functions"] += 1
        c = RegClient(prog, cfg, "getLastActiveState")
        sim = Sim(prog, c)
        for rv, s in sim.run(f, st=State(ts=frozenset())):
            stats["paths"] += 1
            if ("empty", True) in s.ts and sim.const_of(s, rv) is None or ("empty", True) not in s.ts and rv != ("s", ("back",), False):
                c.report("query", "getLastActiveState", f, None, "the answer is not the state that was activated last", s)
        bad += [(b, f) for b in c.bad]
    # ---- operations
    for api, ints in CALLS.items():
        fs = prog.fns_named(FACADE + "::" + api)
        if not fs:
            raise model.AnalysisBroken("API %s not found" % api)
        leaf = rs.impl_of(LEAF.get(api, "transitionExWithArgsArray")).name
        for f in fs:
            stats["functions"] += 1
            args, st, order, handler = prepare(f)
            fv = FIRSTVEC.get(api)
            if "ArgsArray" in api:
                vec = ("arg", fv)
            elif fv is not None:
                vec = tuple(("arg", i) for i in range(fv, len(f.params)))
            c = RegClient(prog, cfg, api)
            sim = Sim(prog, c)
            for rv, s in sim.run(f, args=args, st=st):
                stats["paths"] += 1
                calls = c.marks(s, "call")
                if len(calls) != 1 or calls[0][2] != leaf:
                    c.report("operation", api, f, None, "%s() does not perform exactly this operation" % api, s)
                    continue
                stats["calls"] += 1
                got = calls[0][3]
                sc = [x for x in got if not (isinstance(x, tuple) and x[0] == "vec")]
                for j, w in enumerate(ints):
                    if w is None or j >= len(sc):
                        continue
                    if api in ("transition", "transitionWithArgsArray", "transitionWithQueueClear") and j == 3:
                        continue
                    g = sc[j]
                    good = g == (("c", int(w)) if isinstance(w, bool) else B(w) if norm(f.params[w]["type"]) == "bool" else A(w))
                    if not good:
                        c.report("operation", "%s argument %d" % (api, j), f, None, "%s() passes on another value than given" % api, s)
                vs = [x[1] for x in got if isinstance(x, tuple) and x[0] == "vec"]
                if fv is not None and vs != [vec]:
                    c.report("operation", "%s arguments" % api, f, None, "%s() does not pass on exactly the given arguments in their order" % api, s)
                if f.ret == "bool" and rv != ("s", ("result",), True):
                    c.report("operation", "%s result" % api, f, None, "%s() does not return the result of the operation" % api, s)
            bad += [(b, f) for b in c.bad]
    return bad, stats, roles


RULES = ("stored", "latest-counts", "nothing-else", "result", "hierarchy", "parent-lookup", "initial-state", "query", "operation")


@check("P21", "Every path of every function of the public API that registers something, posts an event or asks for a state - including the templates for handler classes and for any number of arguments, "
       "instantiated for the analysis - with every parameter as a symbol of its own that is followed into the containers and operations of the machine.", ASSUME, TECH)
def p21(rep, tier):
    for config in configs(tier):
        bad, stats, roles = run(config)
        for rule in RULES:
            mine = [(b, f) for b, f in bad if b[0] == rule]
            for (r, key, loc, msg, path), f in mine:
                rep.violate(r, "%s in %s: %s" % (key, f.short(), msg), loc, msg, path)
            if not mine:
                rep.ob(rule, True, sample=str(roles))
        for k, v in stats.items():
            rep.stat(k, v)
