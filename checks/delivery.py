"""P26: delivery of events, enqueued events and actions by the dispatchers' base class."""
import functools
import re
from engine.registry import check
from engine import model
from engine.events import BASE, Roles, INSERT, iter_cmp
from engine.maps import MapClient, GUARDS
from engine.sim import Sim, State, U, TRUE, FALSE, tmpl, contains, subst
from checks.concurrency import ASSUME, configs, norm
from checks.transition import TECH

H, V = ("s", ("arg", "handler"), False), ("s", ("arg", "event"), False)
PREV = ("s", ("previous-id",), False)
SEQ = re.compile(r"std::(__cxx11::)?(list|vector|deque)<")
EMPTY = ("c", "empty")
ROOM = tuple(("s", ("room", i), True) for i in range(6))


class DispParts:
    def __init__(self, prog):
        self.p, self.roles = prog, Roles(prog)
        self.m = {}
        for f in prog.fns.values():
            if f.cls == BASE:
                self.m.setdefault(f.name, f)
        self.ops = ("emitEvent", "enqueueEvent", "enqueueAction", "registerEventHandler", "unregisterEventHandler", "registerEnqueuedEventHandler", "unregisterEnqueuedEventHandler",
                    "registerTimerHandler", "dispatchPendingEvents")
        for x in self.ops:
            if x not in self.m:
                raise model.AnalysisBroken("operation %s of the dispatcher not found" % x)
        self.queues = {}
        for q, op in (("events", "emitEvent"), ("enqueued events", "enqueueEvent"), ("actions", "enqueueAction")):
            self.queues[self.field(op, lambda t: SEQ.match(t))] = q
        self.maps = {}
        for q, op in (("events", "registerEventHandler"), ("enqueued events", "registerEnqueuedEventHandler"), ("timers", "registerTimerHandler")):
            self.maps[self.field(op, lambda t: t.startswith("std::map<"))] = q
        self.maptypes = {norm(f["type"]): (BASE, f["name"]) for f in prog.classes[BASE]["fields"] if (BASE, f["name"]) in self.maps}
        self.stops = {(BASE, f["name"]) for f in prog.classes[BASE]["fields"] if "atomic<bool>" in norm(f["type"])}
        self.f_id = self.f_ev = None
        self.qtypes = {norm(f["type"]).replace("const ", "") for f in prog.classes[BASE]["fields"] if (BASE, f["name"]) in self.queues}

    def field(self, op, pred):
        fns = [self.p.fns[k] for k in self.p.callgraph_closure([self.m[op].key]) if k in self.p.fns and self.p.fns[k].cls == BASE]
        ok = lambda n: n["k"] == "Field" and n.get("owner") == BASE and pred(norm(n.get("ty", "")).replace("const ", ""))
        written = {f.nodes[n["obj"]]["name"] for f in fns for n in f.nodes if n["k"] == "Call" and isinstance(n.get("obj"), int) and n["obj"] >= 0 and ok(f.nodes[n["obj"]])
                   and (n["name"] in INSERT or n["name"] in ("operator[]", "try_emplace", "insert_or_assign", "at"))}
        names = written if len(written) == 1 else {n["name"] for f in fns for n in f.nodes if ok(n)}
        if len(names) != 1:
            raise model.AnalysisBroken("container of %s not recognised" % op)
        return (BASE, names.pop())


class DeliverClient(MapClient):
    """marks: ('g',p) guard; ('stop',) stop flag seen set; ('ran',Q) handler called since the stop flag was read; ('cur',Q,k) current element; ('inv',k) delivered; ('ret',k,bool,cont)
    ('done',Q) delivered to the end; ('copied',Q) copied in this critical section; ('app',Q) appended; ('room',) capacity checked; ('put',map,k) ('del',map,k) ('count',) id counter advanced"""

    def __init__(self, parts, role):
        self.x, self.role = parts, role
        self.maps = dict(parts.maps)
        self.alias = {}
        super().__init__(parts.p, parts.roles)

    def interesting(self, f, n):
        if n["k"] == "Field":
            o = (n.get("owner"), n["name"])
            return o in self.x.queues or o in self.x.maps or n.get("owner") == BASE and n.get("ty") in ("int", "unsigned int") and f.cls == BASE
        if n["k"] == "Call" and n.get("name") == "operator()":
            return True
        return n["k"] == "Ref" and f.params and "param" in n and norm(n.get("ty", "")).replace("const ", "") in self.x.qtypes

    def join_key(self, st):
        return super().join_key(st) + (tuple(st.facts.get(r) for r in ROOM) if self.role == "enqueueEvent" else None,)

    def inline(self, sim, fn, call_fn):
        return fn.key in self.relevant and (fn.cls in (BASE, "", None) or fn.kind == "lambda" or str(fn.cls).startswith(BASE + "::"))

    def sticky(self, k):
        return k[-1] in ("#bag", "#h", "#abs", "#cap") or isinstance(k[-1], tuple) and k[-1][0] == "#has"

    def stable(self, path):
        return super().stable(path) or any(isinstance(s, tuple) and s[0] == "[]" for s in path)

    def map_of(self, path):
        if path is None:
            return None
        return self.maps.get(self.owner.get(path)) or self.alias.get(path)

    # ------------------------------------------------------------------ sequences
    def queue_of(self, path):
        return self.x.queues.get(self.owner.get(path)) if path is not None else None

    def bag(self, st, path):
        """what a sequence holds: a queue's name, ('copy', queue), EMPTY or None if it is not tracked"""
        if path is None:
            return None
        v = st.heap.get(path + ("#bag",))
        if v is not None:
            return v[1]
        return self.queue_of(path)

    def setbag(self, st, path, b):
        st = st.copy()
        st.heap[path + ("#bag",)] = ("c", b)
        return st

    def ident(self, st, k):
        """what identifies the element's handler and event: (id value, event value)"""
        return self.elemvals.get(k)

    def elem_of(self, st, path):
        if path is None:
            return None
        for i in range(1, len(path)):
            if isinstance(path[i], tuple) and path[i][0] == "[]" and self.bag(st, path[:i]) is not None:
                return path[:i], path[i][1]
        return None

    def val_elem(self, st, v, field=None):
        """(container, key) if v is the id (or the given field) of an element"""
        if v is not None and v[0] == "s" and isinstance(v[1], tuple) and v[1][0] == "ld":
            e = self.elem_of(st, v[1][1])
            if e is not None:
                return e + (v[1][1][len(e[0]) + 1:],)
        return None

    def elem_id(self, st, cont, k):
        q = self.kind(st, cont)
        p = self.elem(cont, k) + ((self.x.f_id,) if q == "enqueued events" else ())
        return st.heap.get(p, ("s", ("ld", p), False))

    def kind(self, st, cont):
        b = self.bag(st, cont)
        return b[1] if isinstance(b, tuple) else b if b != "empty" else None

    def cur(self, st):
        return next((q for q in st.ts if q[0] == "cur"), None)

    def open_elem(self, sim, c, st, cont, k):
        q = self.kind(st, cont)
        if q is None:
            return st
        st = self.mark(st, ("cur", cont, k))
        if q != "actions":
            # ids of handlers are never INVALID_HSM_DISPATCHER_HANDLER_ID (rule unique-ids)
            v = self.elem_id(st, cont, k)
            st = (sim.addne(st, v, 0) or st).copy()
            st.heap[self.elem(cont, k) + ((self.x.f_id,) if q == "enqueued events" else ())] = v
        return st

    def close_elem(self, sim, c, st):
        """the loop leaves the current element"""
        cur = self.cur(st)
        if cur is None:
            return st
        cont, k = cur[1:]
        q = self.kind(st, cont)
        if ("stop",) not in st.ts and ("inv", k) not in st.ts:
            absent = st.heap.get(("this", "#abs"))
            if q == "actions" or absent is None or sim.eqv(st, absent, self.elem_id(st, cont, k)) is not True:
                self.report("delivered", self.role, c.fn, c.node, "one of the %s is dropped although its handler is registered" % q, st)
        for r in [r for r in st.ts if r[0] == "ret" and r[1] == k]:
            has = self.has(st, r[3], self.elem_id(st, cont, k))
            if r[2] is False and has is not False:
                self.report("refused-not-called", self.role, c.fn, c.node, "a handler that refused further events is called for the next one", st)
            if r[2] is True and has is False:
                self.report("delivered", self.role, c.fn, c.node, "a handler that accepts events is forgotten", st)
        if q is not None and q != "actions":
            st = self.rename(sim, st, self.elem_id(st, cont, k))
        return self.drop(st, lambda x: x == cur or x[0] in ("inv", "ret", "drain") and x[1] == k)

    def rename(self, sim, st, v):
        """the id of the element that is left is 'the previous id' for what was remembered about it"""
        st2 = st.copy()
        if sim.eqv(st, PREV, v) is not True:
            for d in (st2.env, st2.heap):
                for kk, x in list(d.items()):
                    if contains(x, PREV):
                        d[kk] = subst(x, PREV, U)
            for f in [f for f in st2.facts if contains(f, PREV)]:
                del st2.facts[f]
        for d in (st2.env, st2.heap):
            for kk, x in list(d.items()):
                if x == v and kk != v[1][1]:
                    d[kk] = PREV
        st2.facts[PREV] = ("ne", frozenset((0,)))
        return st2

    # ------------------------------------------------------------------ events
    def map_event(self, sim, c, st, kind, cont, k):
        m = self.map_of(cont)
        member = len(cont) == 2 and cont[0] == "this"
        self.count("registries", c.fn.loc(c.node))
        if kind == "find+" and m != "timers":
            st = st.copy()
            e = self.elem(cont, k) + ("second",)
            st.heap[e + ("#h",)] = k
            st.heap[e + ("?",)] = TRUE
        if kind == "find-":
            st = st.copy()
            st.heap[("this", "#abs")] = k
        if member and kind in ("put", "erase"):
            st = self.mark(st, ("put" if kind == "put" else "del", m, k))
            if kind == "put" and not self.role.startswith("register") or kind == "erase" and not self.role.startswith("unregister"):
                self.report("registry-unchanged", self.role, c.fn, c.node, "the registry of handlers is changed", st)
        if member and kind == "clear":
            self.report("registry-unchanged", self.role, c.fn, c.node, "all handlers are removed", st)
        if kind == "pos":
            st = self.drop(st, lambda q: any(contains(x, k) for x in q if isinstance(x, tuple)))
        return st

    def access(self, sim, fn, node, path, kind, st):
        o = self.owner.get(path)
        if o is not None and o[0] == BASE and kind in ("w", "rw") and o not in self.x.maps and o not in self.x.queues and fn.nodes[node].get("ty") in ("int", "unsigned int"):
            st = self.mark(st, ("count", o[1]) if kind == "rw" else ("reset", o[1]))
        return st

    def on_construct(self, sim, c):
        st = c.st
        cls = tmpl(c.n["cls"])
        if cls in GUARDS and c.args and not (c.n.get("copy") or c.n.get("move")):
            return [self.mark(self.nextgen(st), ("g", c.target))]
        if tmpl(c.n["cls"]).replace("__cxx11::", "") in ("std::list", "std::vector", "std::deque"):
            return self.seq_construct(sim, c, st)
        if (c.n.get("copy") or c.n.get("move")) and c.argpaths and self.map_of(c.argpaths[0]):
            return [self.map_copy(sim, c, st, c.argpaths[0], c.target)]
        return None

    def map_copy(self, sim, c, st, src, dst):
        self.alias[dst] = self.map_of(src)
        if c.n.get("move") or "&&" in str(c.n.get("ptys", "")):
            if len(src) == 2 and src[0] == "this":
                self.report("registry-unchanged", self.role, c.fn, c.node, "the registered handlers are moved away", st)
        return sim.copy_obj(st, src, dst)

    def seq_construct(self, sim, c, st):
        src = c.argpaths[0] if c.argpaths else None
        if c.n.get("copy") or c.n.get("move"):
            b = self.bag(st, src)
            if b is None:
                return None
            if c.n.get("move"):
                return [self.setbag(self.take(sim, c, st, src), c.target, b)]
            return [self.setbag(self.copied(st, src), c.target, ("copy", b) if isinstance(b, str) and b != "empty" else b)]
        if len(c.args) == 2 and c.args[0] is not None and c.args[0][0] == "it" and self.bag(st, c.args[0][1]) is not None:
            b = self.bag(st, c.args[0][1])
            return [self.setbag(self.copied(st, c.args[0][1]), c.target, ("copy", b) if isinstance(b, str) and b != "empty" else b)]
        if not c.args or all(a is None or a[0] != "it" for a in c.args):
            return [self.setbag(sim.kill_path(st, c.target), c.target, "empty")]
        return None

    def copied(self, st, src):
        q = self.queue_of(src)
        return self.mark(st, ("copied", q)) if q and self.bag(st, src) == q else st

    def take(self, sim, c, st, src):
        """content of src is moved out"""
        st = self.setbag(st, src, "empty")
        if self.queue_of(src) == "enqueued events":
            st = self.setcap(st, src, False)
        return st

    def setcap(self, st, path, ok):
        st = st.copy()
        st.heap[path + ("#cap",)] = TRUE if ok else FALSE
        return st

    def locked(self, st):
        return any(q[0] == "g" for q in st.ts)

    def release_checks(self, fn, node, st):
        for o, q in self.x.queues.items():
            if q == "enqueued events" and st.heap.get(("this", o[1], "#cap"), TRUE) == FALSE:
                self.report("capacity-kept", self.role, fn, node, "the preallocated memory of the enqueued events is given away: enqueueEvent() rejects everything from now on (or allocates)", st)

    def on_destroy(self, sim, path, rec, loc, st):
        if ("g", path) in st.ts:
            st = self.drop(st, lambda q: q == ("g", path))
            if not self.locked(st):
                self.release_checks(loc[0] if isinstance(loc, tuple) and hasattr(loc[0], "loc") else self.x.m[self.role], loc[1] if isinstance(loc, tuple) and hasattr(loc[0], "loc") else None, st)
                st = self.nextgen(self.drop(st, lambda q: q[0] == "copied"))
        b = st.heap.get(path + ("#bag",))
        if b is not None and len(path) == 1 and b[1] != "empty":
            q = b[1][1] if isinstance(b[1], tuple) else b[1]
            if ("done", q) not in st.ts and ("stop",) not in st.ts:
                fn, node = loc if isinstance(loc, tuple) and hasattr(loc[0], "loc") else (self.x.m[self.role], None)
                self.report("delivered", self.role, fn, node, "not all %s are delivered" % q, st)
        return [st]

    def on_call(self, sim, c):
        st, n, name, op = c.st, c.n, c.name, c.n.get("op")
        if c.objpath is not None and self.owner.get(c.objpath) in self.x.stops:
            if name == "operator=" or name in ("store", "exchange"):
                return [(U, st)]
            if ("stop",) in st.ts:
                return [(TRUE, st)]
            return [(FALSE, self.drop(st, lambda q: q[0] == "ran")), (TRUE, self.mark(st, ("stop",)))]
        if tmpl(n.get("qn", "")) in ("std::swap",) and len(c.argpaths) == 2 and any(self.bag(st, p) is not None for p in c.argpaths):
            return [(U, self.swap(sim, c, st, *c.argpaths))]
        if "obj" in n and (self.bag(st, c.objpath) is not None or name == "swap" and c.argpaths and self.bag(st, c.argpaths[0]) is not None):
            r = self.seq_op(sim, c)
            if r is not None:
                return r
        if op == "=" and c.objpath is not None and c.argpaths and c.argpaths[0] is not None:
            src = c.argpaths[0]
            if self.bag(st, src) is not None and not str(n.get("ptys", [""])[0]).startswith(("int", "const int")):
                b = self.bag(st, src)
                st = self.lose(sim, c, st, c.objpath)
                if "&&" in str(n.get("ptys", "")):
                    return [(("p", c.objpath), self.setbag(self.take(sim, c, st, src), c.objpath, b))]
                return [(("p", c.objpath), self.setbag(self.copied(st, src), c.objpath, ("copy", b) if isinstance(b, str) and b != "empty" else b))]
            if self.map_of(src) and tmpl(n.get("cls", "")) == "std::map":
                return [(("p", c.objpath), self.map_copy(sim, c, st, src, c.objpath))]
        if op in ("++", "--") and c.objpath is not None:
            it = sim.peek(st, c.objpath)
            if it is not None and it[0] == "it" and it[2] != ("END",) and self.bag(st, it[1]) is not None:
                if op == "--":
                    raise model.AnalysisBroken("backward step in %s is not modelled" % c.fn.short())
                return self.advance(sim, c, st, it)
        ic = iter_cmp(c)
        if ic is not None and self.bag(st, ic[0]) is not None:
            cont, k, eq = ic
            outs = []
            known = TRUE if k == ("END",) else st.facts.get(("s", ("isend", k), True))
            if known != TRUE and self.bag(st, cont) != "empty":
                s = st.copy()
                s.facts[("s", ("isend", k), True)] = FALSE
                outs.append((FALSE if eq else TRUE, self.open_elem(sim, c, s, cont, k)))
            if known != FALSE:
                outs.append((TRUE if eq else FALSE, self.exhausted(st, cont)))
            return outs
        if name == "operator()" and c.objpath is not None and tmpl(n.get("cls", "")).startswith("std::function"):
            return self.invoke(sim, c)
        return self.map_op(sim, c)

    def exhausted(self, st, cont):
        q = self.kind(st, cont)
        return self.mark(st, ("done", q)) if q else st

    def advance(self, sim, c, st, it):
        st = self.close_elem(sim, c, st)
        post = len(c.args) == (1 if "obj" in c.n else 2)
        v, st = sim.sym(c.fn, c.node, c.depth, st, False)
        st = st.copy()
        nv = ("it", it[1], v)
        if len(c.objpath) == 1:
            st.env[c.objpath[0]] = nv
        else:
            st.heap[c.objpath] = nv
        st.facts.pop(("s", ("isend", v), True), None)
        return [(it if post else nv, st)]

    def lose(self, sim, c, st, path):
        """content of path is overwritten"""
        q = self.queue_of(path)
        if q and self.bag(st, path) == q and ("copied", q) not in st.ts:
            self.report("delivered", self.role, c.fn, c.node, "queued %s are discarded: nothing delivers them" % q, st)
        return st

    def swap(self, sim, c, st, a, b):
        ba, bb = self.bag(st, a), self.bag(st, b)
        st = self.setbag(self.setbag(st, a, bb if bb is not None else "empty"), b, ba if ba is not None else "empty")
        for p, o in ((a, b), (b, a)):
            if self.queue_of(p) == "enqueued events":
                st = self.setcap(st, p, st.heap.get(o + ("#cap",)) == TRUE)
        for p in (a, b):
            st = self.dup(st, p)
        return st

    def dup(self, st, p):
        return st

    def seq_op(self, sim, c):
        st, n, name = c.st, c.n, c.name
        cont = c.objpath
        b, q = self.bag(st, cont), self.queue_of(cont)
        if q:
            self.count("queues", c.fn.loc(c.node))
        if name == "swap" and c.argpaths:
            return [(U, self.swap(sim, c, st, cont, c.argpaths[0]))]
        if name == "clear":
            st = self.lose(sim, c, st, cont)
            return [(U, self.setbag(st, cont, "empty"))]
        if name in ("size", "capacity") and q == "enqueued events" and self.role == "enqueueEvent":
            return [(("s", ("size" if name == "size" else "cap", self.gen(st)), False), st)]
        if name == "reserve":
            return [(U, self.setcap(st, cont, True))]
        if name == "shrink_to_fit" and q == "enqueued events":
            return [(U, self.setcap(st, cont, False))]
        if name == "splice" and len(c.argpaths) >= 2 and self.bag(st, c.argpaths[1]) is not None:
            src = c.argpaths[1]
            sb = self.bag(st, src)
            st = self.take(sim, c, st, src)
            return [(U, self.setbag(st, cont, sb))]
        if name in ("assign", "insert") and c.args and any(a is not None and a[0] == "it" and self.bag(st, a[1]) is not None and a[1] != cont for a in c.args):
            src = next(a[1] for a in c.args if a is not None and a[0] == "it" and self.bag(st, a[1]) is not None and a[1] != cont)
            sb = self.bag(st, src)
            return [(U, self.setbag(self.copied(st, src), cont, ("copy", sb) if isinstance(sb, str) and sb != "empty" else sb))]
        if name == "empty":
            cur = self.cur(st)
            if cur is not None and cur[1] == cont:
                st = self.close_elem(sim, c, st)
            if b == "empty" and not q:
                return [(TRUE, st)]
            return [(TRUE, self.exhausted(st, cont) if not q or b == q and self.role == "dispatchPendingEvents" and False else st), (FALSE, st)] if q else [(TRUE, self.exhausted(st, cont)), (FALSE, st)]
        if name in ("begin", "cbegin", "rbegin", "crbegin"):
            if name in ("rbegin", "crbegin") and self.kind(st, cont) in ("events", "actions") and self.role == "dispatchPendingEvents":
                self.report("in-order", self.role, c.fn, c.node, "%s are delivered in reverse order" % self.kind(st, cont), st)
            v, st = sim.sym(c.fn, c.node, c.depth, st, False)
            st = st.copy()
            st.facts.pop(("s", ("isend", v), True), None)
            return [(("it", cont, v), st)]
        if name in ("front", "back") and not q:
            if name == "back" and self.kind(st, cont) in ("events", "actions"):
                self.report("in-order", self.role, c.fn, c.node, "%s are delivered in reverse order" % self.kind(st, cont), st)
            cur = self.cur(st)
            if cur is not None and cur[1] == cont and ("drain", cur[2]) in st.ts:
                return [(("p", self.elem(cont, cur[2])), st)]
            v, st = sim.sym(c.fn, c.node, c.depth, st, False)
            if cur is not None and cur[1] == cont:
                return [(("p", self.elem(cont, v)), st)]      # not the element the loop is at
            return [(("p", self.elem(cont, v)), self.mark(self.open_elem(sim, c, st, cont, v), ("drain", v)))]
        if name in ("pop_front", "pop_back"):
            if q:
                self.report("delivered", self.role, c.fn, c.node, "queued %s are discarded: nothing delivers them" % q, st)
            return [(U, st)]
        if name in INSERT:
            if q:
                return [(U, self.append(sim, c, st, q))]
            return [(U, st)]
        if name in ("remove", "remove_if", "erase") and q and self.role.startswith("unregister"):
            if name == "remove" and c.args:
                v, st = self.sval(sim, c, 0)
                if v != H:
                    self.report("delivered", self.role, c.fn, c.node, "pending events of another handler are removed", st)
            return [(U, st)]
        if name in ("remove", "remove_if", "erase", "resize", "sort", "reverse", "unique", "merge") and (q or name in ("sort", "reverse", "resize", "unique")):
            self.report("delivered" if name in ("remove", "remove_if", "erase", "resize", "unique") else "in-order", self.role, c.fn, c.node, "queued %s are %s" % (q or self.kind(st, cont), "removed" if name in ("remove", "remove_if", "erase", "resize", "unique") else "reordered"), st)
            return [(U, st)]
        return None

    def append(self, sim, c, st, q):
        self.count("appends", c.fn.loc(c.node))
        op = {"emitEvent": "events", "enqueueEvent": "enqueued events", "enqueueAction": "actions"}.get(self.role)
        if op != q:
            self.report("queued-once", self.role, c.fn, c.node, "%s are queued" % q, st)
            return st
        if ("app", q) in st.ts:
            self.report("queued-once", self.role, c.fn, c.node, "one of the %s is queued twice" % q, st)
        if c.name not in ("emplace_back", "push_back") and not (c.name in ("insert", "emplace") and c.args and c.args[0] is not None and c.args[0][0] == "it" and c.args[0][2] == ("END",)):
            self.report("in-order", self.role, c.fn, c.node, "one of the %s is not queued behind the others" % q, st)
        if q == "enqueued events" and not self.has_room(sim, st):
            self.report("no-allocation", self.role, c.fn, c.node, "an event is enqueued on a path that does not establish that the preallocated memory has room for it", st)
        vals = []
        first = 0 if c.name in ("emplace_back", "push_back") else 1
        for i in range(first, len(c.args)):
            v, st = self.sval2(sim, c, i, st)
            vals.append(v)
        if q == "events" and vals and vals[0] is not None and vals[0] != U and vals[0] != H and vals[0][0] in ("c", "s"):
            self.report("queued-once", self.role, c.fn, c.node, "another handler id than the given one is queued", st)
        if q == "enqueued events" and len(vals) == 2:
            if (vals[0], vals[1]) != (H, V):
                self.report("queued-once", self.role, c.fn, c.node, "another handler id or event than the given one is queued", st)
        return self.mark(st, ("app", q), note=("queued", c.fn, c.node))

    def sval2(self, sim, c, i, st):
        c.st = st
        v, st = self.sval(sim, c, i)
        k = sim.const_of(st, v)
        return (("c", k) if k is not None else v), st

    def invoke(self, sim, c):
        st = c.st
        self.count("deliveries", c.fn.loc(c.node))
        cur = self.cur(st)
        e = self.elem_of(st, c.objpath)
        if self.role != "dispatchPendingEvents":
            self.report("delivered-by-dispatcher", self.role, c.fn, c.node, "a handler is called by the thread that posts", st)
            return [(U, st)]
        if e is not None and self.kind(st, e[0]) == "actions":
            k = e[1]
        else:
            tag = st.heap.get(c.objpath + ("#h",))
            if cur is None:
                self.report("delivered-once", self.role, c.fn, c.node, "a handler is called although none of its events is pending", st)
                return [(U, st)]
            cont, k = cur[1:]
            q = self.kind(st, cont)
            want = self.elem_id(st, cont, k)
            mk = c.objpath[:next((i for i in range(1, len(c.objpath)) if isinstance(c.objpath[i], tuple) and c.objpath[i][0] == "[]"), 0)]
            if tag is None:
                if sim.peek(st, c.objpath + ("?",)) != TRUE:
                    self.report("right-handler", self.role, c.fn, c.node, "a handler is called on a path that does not establish that it is registered", st)
            elif sim.eqv(st, tag, want) is not True:
                self.report("right-handler", self.role, c.fn, c.node, "an event is delivered to a handler that is not the one it was posted for", st)
            if mk and self.map_of(mk) and self.has(st, mk, tag if tag is not None else want) is not True:
                self.report("right-handler", self.role, c.fn, c.node, "a handler is called on a path that does not establish that it is registered", st)
            if q == "enqueued events" and c.args:
                v, st = self.sval2(sim, c, 0, st)
                ve = self.val_elem(st, v)
                if ve is None or ve[:2] != (cont, k) or ve[2] != (self.x.f_ev,):
                    self.report("right-handler", self.role, c.fn, c.node, "a handler receives another event than the one that was enqueued", st)
            if ("ran", "events") in st.ts:
                self.report("stops", self.role, c.fn, c.node, "handlers are called after stop(): the stop flag is not checked before this call", st)
            if q == "events" and mk and self.map_of(mk) and not (len(mk) == 2 and mk[0] == "this"):
                st = self.mark(st, ("ran", "events"))
                if ("inv", k) in st.ts:
                    self.report("delivered-once", self.role, c.fn, c.node, "an event is delivered twice", st)
                st = self.mark(st, ("inv", k), note=("handler is called", c.fn, c.node))
                return [(TRUE, self.mark(st, ("ret", k, True, mk))), (FALSE, self.mark(st, ("ret", k, False, mk), note=("handler refuses further events", c.fn, c.node)))]
            st = self.mark(st, ("ran", "events"))
        if ("inv", k) in st.ts:
            self.report("delivered-once", self.role, c.fn, c.node, "an event or action is delivered twice", st)
        v, st = sim.sym(c.fn, c.node, c.depth, st)
        return [(v, self.mark(st, ("inv", k), note=("handler is called", c.fn, c.node)))]

    def gen(self, st):
        return next((q[1] for q in st.ts if q[0] == "gen"), 0)

    def nextgen(self, st):
        """what was known about the free memory is out of date"""
        if self.role != "enqueueEvent":
            return st
        g = self.gen(st)
        return self.mark(self.drop(st, lambda q: q[0] == "gen"), ("gen", min(g + 1, len(ROOM) - 1)))

    def room_left(self, sim, st):
        return any(sim.resolve(st, r) is True for r in ROOM)

    def has_room(self, sim, st):
        return sim.resolve(st, ROOM[self.gen(st)]) is True

    def on_compare(self, sim, op, a, b, st):
        if not (a and b and a[0] == b[0] == "s" and isinstance(a[1], tuple) and isinstance(b[1], tuple)):
            return None
        if (a[1][0], b[1][0]) == ("cap", "size"):
            a, b, op = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if (a[1][0], b[1][0]) != ("size", "cap") or a[1][1] != b[1][1]:
            return None
        room = ROOM[a[1][1]]
        r = sim.resolve(st, room)
        if op in ("<", "!=", ">=", "=="):
            pos = op in ("<", "!=")
            return ("c", int(r == pos)) if r is not None else room if pos else ("not", room)
        return None

    # ------------------------------------------------------------------ contract at the end of an operation
    def finish(self, sim, fn, rv, st):
        bad = lambda rule, msg: self.report(rule, self.role, fn, None, msg, st)
        apps = {q[1] for q in st.ts if q[0] == "app"}
        stop = ("stop",) in st.ts
        if self.role in ("emitEvent", "enqueueAction"):
            if not apps:
                bad("queued-once", "the %s is not queued" % ("event" if self.role == "emitEvent" else "action"))
        elif self.role == "enqueueEvent":
            v = sim.const_of(st, rv)
            r = bool(v) if v is not None else sim.resolve(st, rv) if rv is not None else None
            if r is None or r != bool(apps):
                bad("queued-once", "enqueueEvent() says that the event was %s although it was %s" % (("accepted", "not queued") if r else ("rejected", "queued")) if r is not None else "the answer of enqueueEvent() does not depend on whether the event was queued")
            if not apps and self.room_left(sim, st):
                bad("queued-once", "an event is rejected although there is room for it")
        elif self.role.startswith("register"):
            m = {"registerEventHandler": "events", "registerEnqueuedEventHandler": "enqueued events", "registerTimerHandler": "timers"}[self.role]
            puts = [q for q in st.ts if q[0] == "put"]
            if len(puts) != 1 or puts[0][1] != m:
                bad("registered", "the handler is not registered exactly once")
                return
            k = puts[0][2]
            if sim.eqv(st, rv, k) is not True:
                bad("registered", "the returned id is not the one the handler is registered under")
            if not any(q[0] == "count" for q in st.ts) or any(q[0] == "reset" for q in st.ts):
                bad("unique-ids", "the id of a handler is not taken from the counter: two handlers can get the same id")
        elif self.role.startswith("unregister"):
            m = {"unregisterEventHandler": "events", "unregisterEnqueuedEventHandler": "enqueued events"}[self.role]
            dels = [q for q in st.ts if q[0] == "del"]
            cont = next(("this", o[1]) for o, x in self.x.maps.items() if x == m)
            if self.has(st, cont, H) is not False:
                bad("registered", "the handler stays registered")
            if any(q[1] != m or sim.eqv(st, q[2], H) is not True for q in dels):
                bad("registered", "another handler is removed")
            if any(st.heap.get(("this", o[1], "#bag")) == EMPTY for o in self.x.queues):
                bad("delivered", "pending events of other handlers are dropped")
        elif self.role == "dispatchPendingEvents":
            for o, q in self.x.queues.items():
                if stop:
                    continue
                if ("done", q) not in st.ts:
                    bad("delivered", "pending %s may be left undelivered" % q)
                if st.heap.get(("this", o[1], "#bag")) != EMPTY and ("done", q) in st.ts:
                    bad("delivered-once", "delivered %s stay queued" % q)


RULES = ("delivered", "delivered-once", "in-order", "right-handler", "refused-not-called", "stops", "queued-once", "no-allocation", "capacity-kept", "registered", "unique-ids", "registry-unchanged", "delivered-by-dispatcher")


@functools.lru_cache(None)
def run(config):
    prog = model.load(config)
    x = DispParts(prog)
    # fields of an enqueued event: in the order of the parameters of enqueueEvent
    qf = next(o for o, q in x.queues.items() if q == "enqueued events")
    ty = next(f["type"] for f in prog.classes[BASE]["fields"] if f["name"] == qf[1])
    rec = re.search(r"<(hsmcpp::[\w:]+)", ty).group(1)
    fl = [f["name"] for f in prog.classes[rec]["fields"]]
    if len(fl) != 2:
        raise model.AnalysisBroken("enqueued events not recognised")
    x.f_id, x.f_ev = fl
    bad, counts, n = [], {}, 0
    for role in x.ops:
        f = x.m[role]
        c = DeliverClient(x, role)
        args, todo = {}, [H, V]
        for i, p in enumerate(f.params):
            if norm(p["type"]).replace("const ", "").strip() == "int" and todo:
                args[i] = todo.pop(0)
        st = State(ts=frozenset())
        for v in (H, V, PREV) + ROOM:
            st.heap[("this", "#pin", v[1])] = v
        sim = Sim(prog, c)
        outs = sim.run(f, args=args, st=st)
        for rv, s in outs:
            c.finish(sim, f, rv, s)
        n += len(outs)
        bad += c.bad
        for k, v in c.counts.items():
            counts.setdefault(k, set()).update(v)
    return x, bad, counts, n


@check("P26", "Every path of emitEvent/enqueueEvent/enqueueAction, of the (un)registration of handlers and of dispatchPendingEvents in the dispatchers' base class; content of the queues is tracked through "
       "swaps, copies and loops, presence of handlers and their answers are branches.", ASSUME, TECH)
def p26(rep, tier):
    for config in configs(tier):
        x, bad, counts, n = run(config)
        for rule in RULES:
            mine = [b for b in bad if b[0] == rule]
            for r, key, loc, msg, path in mine:
                rep.violate(r, key, loc, msg, path)
            if not mine:
                rep.ob(rule, True)
        for k, v in sorted(counts.items()):
            rep.stat(k, len(v))
        rep.stat("path_classes", n)
        if not rep.violations:
            for k in ("queues", "appends", "deliveries", "registries"):
                if not counts.get(k):
                    raise model.AnalysisBroken("%s not recognised" % k)
