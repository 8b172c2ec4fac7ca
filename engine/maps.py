"""Associative containers with symbolic keys: presence of a key is a branch, an element is named by its key."""
from .events import iter_cmp, EvClient
from .sim import U, TRUE, FALSE, contains

GUARDS = {"hsmcpp::LockGuard", "hsmcpp::UniqueLock", "hsmcpp::CriticalSection", "std::lock_guard", "std::unique_lock", "std::scoped_lock"}


class MapClient(EvClient):
    """ts: frozenset of marks.  maps: {(owner, field): name} of the modelled containers"""
    eq_facts = True
    compact = True
    maps = {}

    def mark(self, st, *items, note=None):
        return st.with_ts(st.ts | frozenset(items), note)

    def drop(self, st, pred):
        d = frozenset(k for k in st.ts if pred(k))
        return st.with_ts(st.ts - d) if d else st

    def join_key(self, st):
        return (st.ts, frozenset((k, v) for k, v in st.env.items() if v[0] in ("c", "it")), frozenset((k, v) for k, v in st.heap.items() if v[0] == "c"))

    def map_of(self, path):
        return self.maps.get(self.owner.get(path)) if path is not None else None

    # ---- presence
    def has(self, st, cont, k):
        v = st.heap.get(cont + (("#has", k),))
        return None if v is None else v == TRUE

    def sethas(self, st, cont, k, truth):
        st = st.copy()
        st.heap[cont + (("#has", k),)] = TRUE if truth else FALSE
        return st

    # ---- hooks
    def map_event(self, sim, c, st, kind, cont, k):
        return st

    def assume_present(self, sim, st, cont, k):
        """the program's invariants make the key present"""
        return False

    def elem(self, cont, k):
        return cont + (("[]", k),)

    def at(self, st, cont, k):
        """position at a present element"""
        st = self.sethas(st, cont, k, True)
        st.heap[self.elem(cont, k) + ("first",)] = k
        st.facts[("s", ("isend", k), True)] = FALSE
        return st

    def lookup(self, sim, c, cont, k):
        """-> [(present, state)]"""
        st = c.st
        h = self.has(st, cont, k)
        if h is None and self.assume_present(sim, st, cont, k):
            h = True
        outs = []
        if h is not False:
            s = self.map_event(sim, c, self.at(st, cont, k), "find+", cont, k)
            if s is not None:
                outs.append((True, s))
        if h is not True:
            s = self.map_event(sim, c, self.sethas(st, cont, k, False), "find-", cont, k)
            if s is not None:
                outs.append((False, s))
        return outs

    def key(self, sim, c, i=0):
        v, st = self.sval(sim, c, i)
        k = sim.const_of(st, v)
        if k is not None:
            v = ("c", k)
        if v is None or v[0] not in ("s", "c"):
            v, st = sim.sym(c.fn, c.node, c.depth, st, False)
        c.st = st
        return v

    def map_op(self, sim, c):
        st, n, name, op = c.st, c.n, c.name, c.n.get("op")
        cont = c.objpath if "obj" in n and self.map_of(c.objpath) else None
        if cont is not None:
            if name == "find":
                k = self.key(sim, c)
                return [(("it", cont, k if p else ("END",)), s) for p, s in self.lookup(sim, c, cont, k)]
            if name == "count":
                k = self.key(sim, c)
                return [(TRUE if p else FALSE, s) for p, s in self.lookup(sim, c, cont, k)]
            if name == "at":
                k = self.key(sim, c)
                return [(("p", self.elem(cont, k) + ("second",)), s) for p, s in self.lookup(sim, c, cont, k) if p]
            if op == "[]" or name == "operator[]":
                k = self.key(sim, c)
                s = self.map_event(sim, c, c.st, "put", cont, k)
                if s is None:
                    return []
                return [(("p", self.elem(cont, k) + ("second",)), self.at(s, cont, k))]
            if name in ("insert", "emplace", "try_emplace", "insert_or_assign", "emplace_hint"):
                kp = None
                if name == "insert" and len(c.args) == 1 and c.argpaths[0] is not None:
                    kp = c.argpaths[0]
                    v = sim.peek(st, kp + ("first",))
                    if v is None or v[0] not in ("s", "c"):
                        v, c.st = sim.sym(c.fn, c.node, c.depth, c.st, False)
                    k, vp, vv = v, kp + ("second",), sim.peek(st, kp + ("second",))
                elif len(c.args) >= 2:
                    k, vp, vv = self.key(sim, c), c.argpaths[1], c.args[1]
                else:
                    return None
                s = self.map_event(sim, c, c.st, "put", cont, k)
                if s is None:
                    return []
                if self.has(s, cont, k) is not True:
                    s = self.at(s, cont, k)
                    e = self.elem(cont, k) + ("second",)
                    if vp is not None:
                        s = sim.copy_obj(s, vp, e)
                    if vv is not None and vv[0] in ("s", "c", "lam", "p"):
                        s = sim.store(s, e, vv) if vv[0] != "p" else s
                else:
                    s = self.at(s, cont, k)
                return [(U, s)]
            if name == "erase":
                a = c.args[0] if c.args else None
                if a is None or a[0] == "p":
                    a = sim.peek(st, c.argpaths[0]) if c.argpaths and c.argpaths[0] is not None else a
                it = a is not None and a[0] == "it"
                k = a[2] if it else self.key(sim, c)
                s = self.map_event(sim, c, c.st, "erase", cont, k)
                if s is None:
                    return []
                el = self.elem(cont, k)
                s = sim.kill_path(s, el)
                s = self.sethas(s, cont, k, False)
                if not it:
                    return [(U, s)]
                v, s = sim.sym(c.fn, c.node, c.depth, s, False)
                s = self.map_event(sim, c, s, "pos", cont, v)
                return [(("it", cont, v), s)] if s is not None else []
            if name == "clear":
                s = self.map_event(sim, c, st, "clear", cont, None)
                s = sim.kill_elems(s, cont).copy()
                for k in [k for k in s.heap if k[:len(cont)] == cont and len(k) == len(cont) + 1 and isinstance(k[-1], tuple) and k[-1][0] == "#has"]:
                    s.heap[k] = FALSE
                return [(U, s)]
            if name in ("begin", "cbegin"):
                v, s = sim.sym(c.fn, c.node, c.depth, st, False)
                s = s.copy()
                s.facts.pop(("s", ("isend", v), True), None)
                s = self.map_event(sim, c, s, "pos", cont, v)
                return [(("it", cont, v), s)] if s is not None else []
            if name in ("empty",):
                v, s = sim.sym(c.fn, c.node, c.depth, st, True)
                return [(v, s)]
        if op in ("++", "--") and c.objpath is not None:
            it = sim.peek(st, c.objpath)
            if it is not None and it[0] == "it" and it[2] != ("END",) and self.map_of(it[1]):
                s = self.map_event(sim, c, st, "next", it[1], it[2])
                if s is None:
                    return []
                post = len(c.args) == (1 if "obj" in n else 2)
                if post and it[2] == ("s", (c.depth, c.fn.key, c.node), False):
                    # the old position is still used: name the new one differently
                    v, s = sim.fresh(s, (c.depth, c.fn.key, c.node, "b"), False)
                else:
                    v, s = sim.sym(c.fn, c.node, c.depth, s, False)
                s = s.copy()
                nv = ("it", it[1], v)
                if len(c.objpath) == 1:
                    s.env[c.objpath[0]] = nv
                else:
                    s.heap[c.objpath] = nv
                s.facts.pop(("s", ("isend", v), True), None)
                s = self.map_event(sim, c, s, "pos", it[1], v)
                return [(it if post else nv, s)] if s is not None else []
        ic = iter_cmp(c)
        if ic is not None and self.map_of(ic[0]):
            cont, k, eq = ic
            known = TRUE if k == ("END",) else st.facts.get(("s", ("isend", k), True))
            outs = []
            if known != TRUE:
                s = self.map_event(sim, c, self.at(st, cont, k), "elem", cont, k)
                if s is not None:
                    outs.append((FALSE if eq else TRUE, s))
            if known != FALSE:
                s = self.map_event(sim, c, st, "end" if k != ("END",) else "absent", cont, k)
                if s is not None:
                    outs.append((TRUE if eq else FALSE, s))
            return outs
        return None
