"""Base of the path-sensitive typestate clients: callback roles, containers with a role, and event emission."""
import re
from . import sim as S
from .sim import Client, Sim, State, U, TRUE, FALSE, tmpl, trace_list
from .model import AnalysisBroken

IMPL = "hsmcpp::HierarchicalStateMachine::Impl"
FACADE = "hsmcpp::HierarchicalStateMachine"


def machine(f):
    """function that belongs to the state machine: its implementation class, its records and helpers, closures and free functions"""
    c = f.cls or ""
    return f.kind == "lambda" or c in ("", IMPL) or c.startswith(IMPL + "::") or f.file.rsplit("/", 1)[-1].startswith("HsmImpl")


BASE = "hsmcpp::HsmEventDispatcherBase"
IFACE = "hsmcpp::IHsmEventDispatcher"
INSERT = {"emplace_back", "push_back", "emplace_front", "push_front", "insert", "emplace", "try_emplace", "insert_or_assign"}
REMOVE = {"erase", "remove", "remove_if", "clear", "pop_front", "pop_back"}
FRONT_INS = {"emplace_front", "push_front"}
BACK_INS = {"emplace_back", "push_back"}
CONTAINER = re.compile(r"^(const )?std::(__cxx11::)?(list|vector|deque|map|multimap|set|multiset|unordered_\w+|forward_list|queue)<")


def sig_of(ty):
    m = re.search(r"std::function<(.*?)\s*\((.*)\)\s*>", ty)
    if not m:
        return None
    ret, args = m.group(1).strip(), m.group(2).strip()
    if args in ("", "void"):
        return ret, []
    out, d, cur = [], 0, ""
    for ch in args:
        if ch == "<":
            d += 1
        if ch == ">":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return ret, out


def is_container(ty):
    return bool(CONTAINER.match(ty.strip()))


def callback_roles(prog):
    """(class, field) -> EXIT | ENTER | CHANGED | TRANS | COND | FAILED, inferred from the field types"""
    roles = {}
    for cn, c in prog.classes.items():
        if not cn.startswith("hsmcpp::"):
            continue
        fs = [(f["name"], sig_of(f["type"])) for f in c.get("fields", ()) if f["type"].replace("const ", "").startswith("std::function<")]
        if not fs:
            continue
        has_exit = any(s is not None and s[0] == "bool" and not s[1] for _, s in fs)
        for nm, s in fs:
            if s is None:
                continue
            ret, args = s
            vec = len(args) == 1 and "Variant" in args[0]
            if ret == "bool" and not args:
                roles[(cn, nm)] = "EXIT"
            elif ret == "bool" and vec:
                roles[(cn, nm)] = "ENTER" if has_exit else "COND"
            elif ret == "void" and vec:
                roles[(cn, nm)] = "CHANGED" if has_exit else "TRANS"
            elif ret == "void" and len(args) == 3 and "list" in args[0]:
                roles[(cn, nm)] = "FAILED"
    return roles


class Roles:
    """fields and types of the state machine implementation, identified by type or through the public API"""

    def __init__(self, prog):
        self.p = prog
        self.cb = callback_roles(prog)
        need = {"EXIT", "ENTER", "CHANGED", "TRANS", "COND", "FAILED"}
        if need - set(self.cb.values()):
            raise AnalysisBroken("callback roles not found: %s" % (need - set(self.cb.values())))
        self.trans_cls = {c for (c, f), r in self.cb.items() if r == "COND" and any(r2 == "TRANS" for (c2, f2), r2 in self.cb.items() if c2 == c)}
        self.entry_cls = {c for (c, f), r in self.cb.items() if r == "COND"} - self.trans_cls
        self.state_cls = {c for (c, f), r in self.cb.items() if r == "EXIT"}
        self.active = self._active()
        self.queue, self.event_cls = self._queue()

    def _impl_of(self, api):
        """the implementation function the public method forwards to"""
        for f in self.p.fns_named(FACADE + "::" + api):
            for k in self.p.callees(f):
                g = self.p.fns.get(k)
                if g is not None and g.cls == IMPL:
                    return g
        raise AnalysisBroken("public method %s does not forward to the implementation" % api)

    def impl_of(self, api):
        return self._impl_of(api)

    def _active(self):
        f = self._impl_of("getActiveStates")
        for n in f.nodes:
            if n["k"] == "Field" and n.get("owner") == IMPL and is_container(n.get("ty", "").replace("const ", "")):
                return (IMPL, n["name"])
        raise AnalysisBroken("container of active states not found")

    def _queue(self):
        for f in self.p.classes[IMPL]["fields"]:
            m = re.match(r"std::(?:__cxx11::)?(?:list|deque)<(hsmcpp::[\w:]+)", f["type"])
            if m and m.group(1) in self.p.classes:
                return (IMPL, f["name"]), m.group(1)
        raise AnalysisBroken("queue of pending events not found")

    def field_of_type(self, cls, pred):
        return [f["name"] for f in self.p.classes.get(cls, {}).get("fields", ()) if pred(f["type"])]


class EvClient(Client):
    """ts is a client-defined hashable; override `interesting`, `on_event`"""
    max_states = 250000

    def __init__(self, prog, roles=None):
        self.p = prog
        self.roles = roles or Roles(prog)
        self.owner = {}
        self.ftype = {}
        self.relevant = prog.reach_pred(self.interesting)
        self.noinline = set()
        self.bad = []            # (rule, key, loc, msg, path)
        self.counts = {}

    # ---- what has to be looked into
    def interesting(self, f, n):
        return False

    def inline(self, sim, fn, call_fn):
        return fn.key in self.relevant and fn.key not in self.noinline

    def stable(self, path):
        o = self.owner.get(path)
        if o is not None and any(x in self.ftype.get(o, "") for x in ("atomic", "volatile", "weak_ptr")):
            return False
        return True

    def on_access(self, sim, fn, node, path, kind, st):
        n = fn.nodes[node]
        if n["k"] == "Field" and n.get("owner"):
            o = (n["owner"], n["name"])
            self.owner[path] = o
            self.ftype[o] = n.get("ty", "")
            r = self.roles.cb.get(o)
            if r is not None and path + ("#role",) not in st.heap:
                st = st.copy()
                st.heap[path + ("#role",)] = ("c", (r, o[0], path[:-1]))
        return self.access(sim, fn, node, path, kind, st)

    def access(self, sim, fn, node, path, kind, st):
        return st

    def field_of(self, path):
        """(owner class, field) of the container/object at path, looking through copies by name only"""
        return self.owner.get(path) if path is not None else None

    def count(self, what, key):
        self.counts.setdefault(what, set()).add(key)

    def report(self, rule, key, c_fn, node, msg, st):
        self.bad.append((rule, key, c_fn.loc(node), msg, [self.show(x) for x in trace_list(st)]))

    def show(self, x):
        if isinstance(x, tuple) and len(x) == 3 and hasattr(x[1], "loc"):
            return "%s at %s" % (x[0], x[1].loc(x[2]))
        return str(x)

    def is_cb(self, c, sim):
        """-> (role, class, objpath of owning record) if the call invokes a user callback"""
        if c.name != "operator()" or not tmpl(c.n.get("cls", "") or c.qn.rsplit("::", 1)[0]).startswith("std::function"):
            return None
        if c.objpath is not None:
            v = c.st.heap.get(c.objpath + ("#role",))
            if v is not None:
                return v[1]
            o = self.owner.get(c.objpath)
            if o in self.roles.cb:
                return (self.roles.cb[o], o[0], c.objpath[:-1])
        return None

    def sval(self, sim, c, i):
        """value of argument i (loading it if it is an lvalue) -> (value, state)"""
        if i >= len(c.args):
            return None, c.st
        v = c.args[i]
        if (v is None or v[0] == "p") and c.argpaths[i] is not None:
            v2 = sim.peek(c.st, c.argpaths[i])
            if v2 is not None:
                return v2, c.st
            if v is None or v[1] == c.argpaths[i]:
                return sim.load(c.st, c.argpaths[i], False, True)
        return v, c.st


def merge_report(rep, client, prefix=""):
    for rule, key, loc, msg, path in client.bad:
        rep.violate(rule, prefix + key, loc, msg, path)


ALGO = {"std::any_of", "std::all_of", "std::none_of", "std::find_if", "std::find_if_not", "std::for_each", "std::count_if"}


def algo(client, sim, c, on_end=None, on_next=None):
    """std algorithms over a range with a closure, as the loops they are -> [(value, state)] or None.
    on_end(cont, st) -> st: the range was exhausted; on_next(cont, sym, st) -> st: next element is taken"""
    q = tmpl(c.n.get("qn", ""))
    if q not in ALGO or len(c.args) < 3 or c.args[0] is None or c.args[0][0] != "it":
        return None
    lam = c.args[2]
    if lam is not None and lam[0] == "p":
        lam = sim.peek(c.st, lam[1])
    if lam is None or lam[0] != "lam":
        return None
    cont = c.args[0][1]
    kind = q[5:]
    stop = {"any_of": True, "find_if": True, "none_of": True, "all_of": False, "find_if_not": False}.get(kind)
    outs, seen, todo = [], set(), [c.st]
    while todo:
        st = todo.pop()
        if st.key() in seen:
            continue
        seen.add(st.key())
        if len(seen) > 400:
            raise AnalysisBroken("range algorithm does not converge at %s" % c.fn.loc(c.node))
        e = on_end(cont, st) if on_end else st
        if e is not None:
            v = {"any_of": FALSE, "none_of": TRUE, "all_of": TRUE, "find_if": ("it", cont, ("END",)), "find_if_not": ("it", cont, ("END",))}.get(kind, U)
            outs.append((v, e))
        if c.args[0][2] == ("END",):
            continue
        s, st = sim.sym(c.fn, c.node, c.depth, st, False)
        if on_next:
            st = on_next(cont, s, st)
            if st is None:
                continue
        el = cont + (("[]", s),)
        ev, st = sim.load(st, el, False, True)
        for rv, s2 in sim.call_lambda(lam, c.depth, st, [ev], [el]):
            if stop is None:
                todo.append(s2)
                continue
            for truth in (True, False):
                s3 = sim.assume(s2, rv, truth) if rv is not None and rv != U else s2
                if s3 is None:
                    continue
                if truth != stop:
                    todo.append(s3)
                    continue
                if kind.startswith("find"):
                    s3 = s3.copy()
                    s3.facts[("s", ("isend", s), True)] = FALSE
                    outs.append((("it", cont, s), s3))
                else:
                    outs.append(({"any_of": TRUE, "none_of": FALSE, "all_of": FALSE}[kind], s3))
    return outs


def iter_cmp(c):
    """comparison of a position with the end of a range -> (container, position symbol or END, truth if at end) or None"""
    if c.n.get("op") not in ("==", "!="):
        return None
    vals = ([c.obj] if "obj" in c.n else []) + list(c.args)
    its = [v for v in vals if v is not None and v[0] == "it"]
    ends = [v for v in its if v[2] == ("END",)]
    if len(its) != 2 or not ends:
        return None
    pos = next((v for v in its if v[2] != ("END",)), its[0])
    return pos[1], pos[2], c.n["op"] == "=="
