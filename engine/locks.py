"""Lock study: which locks are held at every shared access, lock acquisition, user callback and notification, for every
concurrency root of the library, with dispatcher calls resolved to one concrete dispatcher at a time."""
from . import sim as S
from .sim import Client, Sim, State, U, TRUE, FALSE, tmpl
from .model import AnalysisBroken

GUARDS = {"hsmcpp::LockGuard", "hsmcpp::CriticalSection", "hsmcpp::UniqueLock", "std::lock_guard", "std::unique_lock",
          "std::scoped_lock"}
MUTEX = {"hsmcpp::Mutex", "std::mutex", "std::recursive_mutex"}
IFS = "hsmcpp::InterruptsFreeSection"
INTR = (("g", "INTERRUPTS"),)
CV_WAIT = {"hsmcpp::ConditionVariable::wait", "hsmcpp::ConditionVariable::wait_for", "std::condition_variable::wait",
           "std::condition_variable::wait_for", "std::condition_variable::wait_until"}
CV_NOTIFY = {"hsmcpp::ConditionVariable::notify", "std::condition_variable::notify_one", "std::condition_variable::notify_all"}
CONTAINERS = ("std::list", "std::map", "std::multimap", "std::vector", "std::set", "std::deque", "std::unordered_map",
              "std::unordered_set", "std::queue", "std::forward_list")
USER_CB_HINT = "std::function<"
DISP_IFACE = "hsmcpp::IHsmEventDispatcher"
BASE = "hsmcpp::HsmEventDispatcherBase"
IMPL = "hsmcpp::HierarchicalStateMachine::Impl"
FACADE = "hsmcpp::HierarchicalStateMachine"


def base_split(path):
    """path -> (object path, field name, rest) where object is the innermost heap/this object of the path"""
    idx = None
    if path[0] == "this" or (isinstance(path[0], tuple) and path[0][0] in ("o", "g")):
        idx = 0
    for i, s in enumerate(path):
        if i and s in ("*", "*ptr"):
            idx = i
    if idx is None or idx + 1 >= len(path):
        return None
    return path[:idx + 1], path[idx + 1], path[idx + 2:]


class Access:
    __slots__ = ("owner", "field", "kind", "held", "fn", "node", "root", "trace", "call")


class LockClient(Client):
    """ts = (held, guards): held = tuple of lock paths, guards = tuple of (guard object path, lock path, owns)"""
    max_states = 400000

    def __init__(self, prog):
        self.p = prog
        self.owner = {}          # path -> (owner class, field)
        self.ftype = {}
        self.accesses = []
        self.acquires = []       # (held, lock, fn, node, trace, root)
        self.usercalls = []      # (held, what, fn, node, trace)
        self.notifies = []
        self.waits = []
        self.masks = []          # acquisitions and notifications: are interrupts (signals) blocked?
        self.maskers = {c for c, r in prog.classes.items() if c in GUARDS and any(f["type"] == IFS for f in r["fields"]) or IFS in prog.superclasses(c)}
        self.masking = set()
        self.joins = []          # std::thread::join with locks held
        self.allocs = []         # heap allocations (new, make_shared, container growth)
        self.root = None
        self.unbalanced = []
        self.handlers = find_handlers(prog)
        self._seen = set()
        self.relevant = prog.reach_pred(self._interesting)
        self.guard_ops = 0

    def _interesting(self, f, n):
        k = n["k"]
        if k == "Ref" and "global" in n and n.get("rec") in MUTEX:
            return True
        if k == "Construct" and (tmpl(n["cls"]) in GUARDS or n["cls"] == IFS):
            return True
        if k == "Field" and n.get("owner") and not n["owner"].startswith("std::"):
            return True
        if k == "Call":
            if n.get("virt") or n.get("name") in ("lock", "unlock", "operator()", "notify", "wait", "wait_for", "notify_one", "notify_all"):
                return True
        return False

    def inline(self, sim, fn, call_fn):
        if fn.qname in CV_WAIT or fn.qname in CV_NOTIFY:
            return False
        if fn.cls in GUARDS or fn.cls in MUTEX or fn.cls == IFS:
            return False
        if fn.cls == "hsmcpp::Variant" or (fn.file or "").endswith("variant.cpp"):
            return False
        return fn.key in self.relevant

    def stable(self, path):
        r = path[0]
        return isinstance(r, tuple) and r[0] in ("v", "t")

    def join_key(self, st):
        return st.ts

    # ---- lock state
    def held(self, st):
        return st.ts[0] if st.ts else ()

    def guards(self, st):
        return st.ts[1] if st.ts else ()

    def mk(self, st, held, guards):
        return st.with_ts((tuple(held), tuple(sorted(guards, key=repr))))

    def lockname(self, path):
        o = self.owner.get(path)
        if o is not None:
            # AtomicFlag::mSync inside Impl::mIsDispatching -> qualify
            if len(path) >= 2 and path[:-1] in self.owner and path[-2] not in ("*",):
                po = self.owner[path[:-1]]
                return "%s::%s.%s" % (po[0], po[1], o[1])
            return "%s::%s" % o
        r = path[0]
        if isinstance(r, tuple) and r[0] == "g":
            return "global:" + str(r[1])
        if isinstance(r, tuple) and r[0] in ("v", "t") and len(path) == 1:
            return "local"
        if path[-1] == "*" and path[:-1] in self.owner:
            return "*%s::%s" % self.owner[path[:-1]]
        return "?" + repr(path[-1])

    def acquire(self, sim, st, lock, fn, node):
        h = self.held(st)
        self.guard_ops += 1
        if lock != INTR:
            self.record(self.masks, ("lock", self.lockname(lock), self.masked(st, node, fn)), fn, node, st)
        self.record(self.acquires, (frozenset(self.lockname(x) for x in h), self.lockname(lock), lock in h), fn, node, st)
        return self.mk(st, h + (lock,), self.guards(st))

    def masked(self, st, node=None, fn=None):
        if INTR in self.held(st) or any(g[0] in self.masking for g in self.guards(st)):
            return True
        n = fn.nodes[node] if fn is not None else {}
        return n.get("k") == "Construct" and tmpl(n["cls"]) in self.maskers

    def release(self, st, lock):
        h = list(self.held(st))
        if lock in h:
            h.reverse()
            h.remove(lock)
            h.reverse()
        return self.mk(st, h, self.guards(st))

    def record(self, lst, what, fn, node, st):
        k = (id(lst), what, fn.key, node, self.root)
        if k in self._seen:
            return
        self._seen.add(k)
        lst.append((what, fn, node, self.root, [x for x in self.sim.stack]))

    # ---- hooks
    def on_construct(self, sim, c):
        cls = tmpl(c.n["cls"])
        if cls == IFS:
            lk = INTR
            st = self.acquire(sim, c.st, lk, c.fn, c.node)
            return [self.mk(st, self.held(st), self.guards(st) + ((c.objpath, lk, True),))]
        if cls not in GUARDS:
            return None
        st = c.st
        if c.n.get("copy") or c.n.get("move"):
            return None
        if not c.args:
            return [st]
        lk = c.argpaths[0]
        if lk is None:
            lk = c.args[0][1] if c.args[0] is not None and c.args[0][0] == "p" else (("o", "?lock"),)
        if len(c.args) > 1:      # adopt/defer/try tags
            return [st]
        st = self.acquire(sim, st, lk, c.fn, c.node)
        if cls in self.maskers:
            self.masking.add(c.objpath)
        return [self.mk(st, self.held(st), self.guards(st) + ((c.objpath, lk, True),))]

    def on_destroy(self, sim, path, rec, where, st):
        for g in self.guards(st):
            if g[0] == path:
                gs = tuple(x for x in self.guards(st) if x != g)
                st = self.mk(st, self.held(st), gs)
                if g[2]:
                    st = self.release(st, g[1])
        return [st]

    def on_move(self, sim, st, src, dst):
        gs = self.guards(st)
        if any(g[0] == src for g in gs):
            st = self.mk(st, self.held(st), tuple((dst, g[1], g[2]) if g[0] == src else g for g in gs))
        return st

    def set_owns(self, st, gp, owns):
        return self.mk(st, self.held(st), tuple((g[0], g[1], owns) if g[0] == gp else g for g in self.guards(st)))

    def on_call(self, sim, c):
        st, qn = c.st, c.qn
        cls = tmpl(c.n.get("cls", "") or "")
        name = c.name
        if cls in ("hsmcpp::UniqueLock", "std::unique_lock") and c.objpath is not None:
            g = [x for x in self.guards(st) if x[0] == c.objpath]
            if name == "unlock" and g and g[0][2]:
                return [(U, self.set_owns(self.release(st, g[0][1]), c.objpath, False))]
            if name == "lock" and g and not g[0][2]:
                return [(U, self.set_owns(self.acquire(sim, st, g[0][1], c.fn, c.node), c.objpath, True))]
            if name == "owns_lock":
                if g:
                    return [(("c", int(g[0][2])), st)]
                return [(U, st)]
            if name == "operator=" and c.argpaths and c.argpaths[0] is not None:
                if g and g[0][2]:
                    st = self.release(st, g[0][1])
                st = self.mk(st, self.held(st), tuple(x for x in self.guards(st) if x[0] != c.objpath))
                return [(("p", c.objpath), self.on_move(sim, st, c.argpaths[0], c.objpath))]
            return [(U, st)]
        if cls in MUTEX and c.objpath is not None:
            if name == "lock":
                return [(U, self.acquire(sim, st, c.objpath, c.fn, c.node))]
            if name == "unlock":
                return [(U, self.release(st, c.objpath))]
        if qn in CV_WAIT:
            return self.do_wait(sim, c)
        if qn == "std::thread::join":
            self.record(self.joins, (frozenset(self.lockname(x) for x in self.held(st)),), c.fn, c.node, st)
            return None
        if qn in CV_NOTIFY:
            self.record(self.masks, ("notify", self.lockname(c.objpath) if c.objpath else "?", self.masked(st)), c.fn, c.node, st)
            self.record(self.notifies, (self.lockname(c.objpath) if c.objpath else "?", frozenset(self.lockname(x) for x in self.held(st))), c.fn, c.node, st)
            return [(U, st)]
        if name == "operator()" and tmpl(c.n.get("cls", "") or c.qn.rsplit("::", 1)[0]).startswith("std::function"):
            return self.function_call(sim, c)
        return None

    def do_wait(self, sim, c):
        st = c.st
        self.record(self.masks, ("wait", self.lockname(c.objpath) if c.objpath else "?", self.masked(st)), c.fn, c.node, st)
        gp = c.argpaths[0]
        g = [x for x in self.guards(st) if x[0] == gp]
        self.record(self.waits, (self.lockname(c.objpath) if c.objpath else "?", self.lockname(g[0][1]) if g else None,
                                 frozenset(self.lockname(x) for x in self.held(st)), c.qn), c.fn, c.node, st)
        outs = [st]
        for v, ap in zip(c.args[1:], c.argpaths[1:]):
            lam = v if v is not None and v[0] == "lam" else (sim.peek(st, ap) if ap is not None else None)
            if lam is not None and lam[0] == "lam":
                outs = [s2 for s in outs for rv, s2 in sim.call_lambda(lam, c.depth, s)]
        res = []
        for s in outs:
            if g and c.qn.startswith("hsmcpp::"):
                s = self.set_owns(self.release(s, g[0][1]), gp, False)
            v, s = sim.sym(c.fn, c.node, c.depth, s)
            res.append((v, s))
        return res

    def function_call(self, sim, c):
        st = c.st
        n = c.n
        kind = None
        lam = c.obj if c.obj is not None and c.obj[0] == "lam" else (sim.peek(st, c.objpath) if c.objpath is not None else None)
        if lam is not None and lam[0] == "lam":
            return sim.call_lambda(lam, c.depth, st, c.args, c.argpaths)
        sig = fsig(n.get("objty") or c.fn.nodes[n["obj"]].get("ty", ""))
        cands = self.handlers.get(sig, ())
        if cands and self.follow_handlers(c):
            res = []
            for key in cands:
                lam = ("lam", key, ())
                if key in sim.stack:
                    continue
                for rv, s in sim.call_lambda(lam, c.depth, st, c.args, c.argpaths):
                    v, s = sim.sym(c.fn, c.node, c.depth, s, True)
                    res.append((v, s))
            if res:
                d = {}
                for v, s in res:
                    d.setdefault((v, s.key()), (v, s))
                return list(d.values())
        self.record(self.usercalls, (frozenset(self.lockname(x) for x in self.held(st)), sig), c.fn, c.node, st)
        v, s = sim.sym(c.fn, c.node, c.depth, st)
        return [(v, s)]

    def follow_handlers(self, c):
        return c.fn.cls is not None and (c.fn.cls == BASE or BASE in self.p.superclasses(c.fn.cls)) or c.fn.kind == "lambda"

    def on_access(self, sim, fn, node, path, kind, st):
        n = fn.nodes[node]
        if n["k"] == "Field" and n.get("owner"):
            self.owner[path] = (n["owner"], n["name"])
            self.ftype[(n["owner"], n["name"])] = n.get("ty", "")
        b = base_split(path)
        if b is None:
            return st
        obj, field, rest = b
        op = self.owner.get(obj + (field,))
        if op is None:
            return st
        if kind == "r" and is_end_only(fn, node):
            return st
        h = self.held(st)
        rel = frozenset(self.lockname(x) for x in h if x[:len(obj)] == obj or (isinstance(x[0], tuple) and x[0][0] == "g"))
        self.record(self.accesses, (op, kind, rel), fn, node, st)
        return st

    def on_return(self, sim, fn, depth, val, st):
        return st


def is_end_only(fn, node):
    """container.end() reads no element and no size"""
    while node in fn.parents:
        p = fn.parents[node][0]
        n = fn.nodes[p]
        if n["k"] == "Method":
            node = p
            continue
        if n["k"] == "Cast":
            node = p
            continue
        return n["k"] == "Call" and n.get("name") in ("end", "cend") and n.get("obj") == node
    return False


def fsig(ty):
    import re
    m = re.search(r"std::function<(.*)>", ty)
    if not m:
        return ty
    s = m.group(1)
    s = re.sub(r"\bconst\b", "", s)
    s = s.replace("(void)", "()")
    s = re.sub(r"\b(hsmcpp::)?(TimerID_t|EventID_t|StateID_t|HandlerID_t)\b", "int", s)
    return re.sub(r"\s+", "", s)


def find_handlers(prog):
    """signature -> lambdas of the state machine that get registered with dispatchers"""
    res = {}
    for f in prog.fns.values():
        for i, n in enumerate(f.nodes):
            if n["k"] != "Lambda":
                continue
            lf = prog.fns.get(n["fn"])
            if lf is None or lf.ret != "bool":
                continue
            # enclosing function (transitively) must belong to the state machine implementation
            p = f
            while p is not None and p.kind == "lambda":
                p = prog.fns.get(p.parentFn)
            if p is None or p.cls != IMPL:
                continue
            sig = "bool(" + ",".join(x["type"].replace("const ", "").replace("hsmcpp::", "") for x in lf.params) + ")"
            sig = sig.replace("TimerID_t", "int").replace("EventID_t", "int")
            if not n["caps"]:
                continue
            res.setdefault(sig, []).append(n["fn"])
    return res


API_ANY = ["transitionWithArgsArray", "transitionExWithArgsArray", "transitionInterruptSafe", "startTimer", "restartTimer",
           "stopTimer", "isTimerRunning", "dispatcher", "isInitialized"]
API_OWNER = ["getActiveStates", "isStateActive", "getLastActiveState", "isTransitionPossibleImpl"]
DISP_ANY = ["emitEvent", "enqueueEvent", "enqueueAction", "registerEventHandler", "unregisterEventHandler",
            "registerEnqueuedEventHandler", "unregisterEnqueuedEventHandler", "registerTimerHandler",
            "unregisterTimerHandler", "startTimer", "restartTimer", "stopTimer", "isTimerRunning", "stop"]


def internal_roots(prog, disp):
    """entry points the dispatcher's own threads/loop run: uncalled or address-taken functions of the dispatcher class
    reaching a handler invocation"""
    def calls_handler(f, n):
        return n["k"] == "Call" and n.get("name") == "operator()" and "std::function" in (n.get("cls") or "")
    reach = prog.reach_pred(calls_handler)
    called = set()
    for f in prog.fns.values():
        for n in f.nodes:
            if n["k"] in ("Call", "Construct") and "fn" in n:
                called.add(n["fn"])
                for o in prog.overriders.get(n["fn"], ()):
                    called.add(o)
    taken = set()
    for f in prog.fns.values():
        if f.cls not in [disp] + prog.superclasses(disp) and not (f.parentFn and prog.fns[f.parentFn].cls == disp):
            continue
        for n in f.nodes:
            if n["k"] == "FnRef":
                taken.add(n["fn"])
    chain = [disp] + prog.superclasses(disp)
    res = []
    for f in prog.fns.values():
        if f.cls in chain and f.key in reach and f.kind != "lambda" and f.kind not in ("ctor", "dtor"):
            if f.name in DISP_ANY or f.name in ("start", "create", "handleDelete", "join", "deleteSafe"):
                continue
            if f.key not in called or f.key in taken:
                if f.cls == disp or f.key in taken:
                    res.append(f)
    return sorted(res, key=lambda f: f.key)


class Study:
    def __init__(self, prog, disp):
        self.prog, self.disp = prog, disp
        self.c = LockClient(prog)
        self.sim = Sim(prog, self.c, disp)
        self.c.sim = self.sim
        self.roles = {}
        p = prog
        def run(role, f):
            self.c.root = "%s:%s" % (role, f.short())
            self.roles[self.c.root] = role
            self.sim.memo.clear()
            st = State(ts=((), ()))
            for rv, s in self.sim.run(f, st=st):
                if self.c.held(s):
                    self.c.unbalanced.append((f, [self.c.lockname(x) for x in self.c.held(s)]))
        for nm in API_ANY:
            for f in p.fns_named(FACADE + "::" + nm):
                run("any", f)
        for nm in API_OWNER:
            for f in p.fns_named(FACADE + "::" + nm):
                run("owner", f)
        for nm in ("initialize", "release"):
            for f in p.fns_named(FACADE + "::" + nm):
                run("setup", f)
        seen = set()
        for nm in DISP_ANY:
            for m in p.classes[DISP_IFACE]["methods"]:
                if m["name"] == nm:
                    k = p.final_overrider(m["key"], disp)
                    f = p.fns.get(k)
                    if f is None:
                        raise AnalysisBroken("dispatcher method %s::%s has no body" % (disp, nm))
                    if k not in seen:
                        seen.add(k)
                        run("any", f)
        self.internal = internal_roots(p, disp)
        for f in self.internal:
            run("loop", f)
