"""P06: posting from interrupts and signal handlers."""
import functools
import re
from engine.registry import check
from engine import model, lockdata
from engine.events import IMPL, FACADE, BASE, IFACE, machine
from engine.sim import Sim, State, Client, U, TRUE, FALSE, tmpl
from engine.locks import GUARDS, MUTEX, IFS
from checks.concurrency import ASSUME, configs, norm
from checks import delivery, lifecycle

API = FACADE + "::transitionInterruptSafe"
# async-signal-safe functions of POSIX (and what is used to keep signals out), builtins
SAFE_C = set("write read close sigfillset sigemptyset sigaddset sigdelset sigismember pthread_sigmask sigprocmask sem_post pthread_kill pthread_self kill raise getpid gettid clock_gettime time "
             "memcpy memset memmove memcmp strlen abs eventfd_write pthread_mutex_lock pthread_mutex_unlock pthread_cond_signal pthread_cond_broadcast poll fcntl _exit __errno_location".split())
SAFE_NATIVE = {"Glib::Dispatcher::emit"}
BLOCKING = ("std::condition_variable::wait", "std::this_thread::", "std::thread::", "std::future", "std::promise", "std::async", "std::shared_future", "hsmcpp::ConditionVariable::wait")
ALLOC = ("std::make_shared", "std::make_unique", "std::allocate_shared", "std::to_string", "std::basic_ostream", "std::operator<<", "std::getline", "std::basic_string", "std::__cxx11::basic_string",
         "std::operator+", "std::basic_stringstream", "std::__cxx11::basic_", "std::basic_filebuf", "std::bind")
CONT = re.compile(r"^std::(__cxx11::)?(list|vector|deque|map|multimap|set|multiset|unordered_map|unordered_set|queue|forward_list|basic_string|function)\b")
NOGROW = set("size capacity empty begin end cbegin cend rbegin rend front back at find count clear pop_back pop_front erase data lower_bound upper_bound operator== operator!= operator< "
             "operator bool swap max_size length".split())
STDFREE = ("std::move", "std::forward", "std::swap", "std::begin", "std::end", "std::next", "std::prev", "std::min", "std::max", "std::get", "std::addressof", "std::distance", "std::advance", "std::find", "std::find_if")


def reach(prog, disp):
    seen, todo, via = {}, [(f.key, None) for f in prog.fns_named(API)], {}
    if not todo:
        raise model.AnalysisBroken("transitionInterruptSafe() not found")
    while todo:
        k, frm = todo.pop()
        f = prog.fns.get(k)
        if f is None or k in seen:
            continue
        seen[k] = frm
        for n in f.nodes:
            if n["k"] in ("Call", "Construct", "Lambda") and n.get("fn"):
                key = n["fn"]
                if n.get("virt"):
                    key = prog.final_overrider(key, disp) or key
                todo.append((key, k))
        for b in f.blocks.values():
            for e in b["e"]:
                rec = e[2] if e[0] in ("d", "t", "m") else e[1] if e[0] == "b" else None
                if isinstance(rec, str) and rec.startswith("hsmcpp::"):
                    todo += [(g.key, k) for g in prog.fns.values() if g.cls == rec and g.kind == "dtor"]
    return seen


def effect(prog, f, n, queue):
    """(rule, text) of a construct that must not be executed by an interrupt handler, else None"""
    k = n["k"]
    if k == "New":
        return "no-allocation", "allocates memory (new)"
    if k == "Delete":
        return "no-allocation", "frees memory (delete)"
    if k == "Throw":
        return "no-allocation", "throws an exception"
    if k == "Construct":
        c = n["cls"]
        if n.get("fn") in prog.fns or c.startswith("hsmcpp::"):
            return None
        if CONT.match(tmpl(c)) and (n["args"] and not n.get("move")) and not (tmpl(c) == "std::function" and "nullptr_t" in str(n.get("ptys"))):
            return "no-allocation", "constructs %s, which allocates memory" % tmpl(c)
        if tmpl(c) == "std::shared_ptr" and n.get("ptys") and n["ptys"][0].rstrip("&").rstrip().endswith("*"):
            return "no-allocation", "constructs a std::shared_ptr, which allocates memory"
        if tmpl(c) in ("std::thread", "std::promise", "std::packaged_task"):
            return "no-allocation", "constructs %s" % c
        return None
    if k != "Call" or n.get("fn") in prog.fns:
        return None
    qn, name = (tmpl(n.get("qn", "")) or "").replace("std::__cxx11::", "std::"), n.get("name", "")
    cls = qn.rsplit("::", 1)[0]
    if name == "operator()" and "function" in cls:
        return "no-callback", "executes a callback"
    if qn.startswith(BLOCKING):
        return "no-blocking", "calls %s, which blocks" % qn
    if CONT.match(cls):
        if name in NOGROW or name == "operator[]" and not re.match(r"std::(unordered_)?(map|multimap)", cls):
            return None
        o = f.nodes[n["obj"]] if isinstance(n.get("obj"), int) and n["obj"] >= 0 else {}
        if name in ("emplace_back", "push_back") and (o.get("owner"), o.get("name")) == queue or o.get("k") == "Ref" and "param" in o and name in ("emplace_back", "push_back"):
            return None            # into preallocated memory: decided by rule preallocated
        if n.get("op") == "=" and "&&" in str(n.get("ptys")):
            return None
        return "no-allocation", "calls %s, which may allocate memory" % qn
    if qn.startswith(ALLOC) and not qn.startswith(STDFREE):
        return "no-allocation", "calls %s, which allocates memory" % qn
    if qn.startswith("std::") or qn.startswith("__gnu_cxx::") or qn.startswith("__builtin"):
        return None
    if qn in SAFE_C or qn in SAFE_NATIVE or cls.startswith("hsmcpp::"):
        return None
    if "::" not in qn and not qn.startswith("operator"):
        return "no-unsafe-call", "calls %s(), which is not async-signal-safe" % qn
    return "no-unsafe-call", "calls %s, which is not known to be safe in an interrupt" % qn


# ------------------------------------------------------------------ the classes that keep interrupts out
class MaskClient(Client):
    """ts: sequence of ('block', saved path) ('restore', path) ('lock', path) ('unlock', path)"""

    def __init__(self, prog):
        self.p = prog
        self.full = set()

    def inline(self, sim, fn, call_fn):
        return True

    def stable(self, path):
        return True

    def add(self, st, *ev):
        return st.with_ts(st.ts + (ev,))

    def on_subobject_end(self, sim, fn, depth, e, st):
        rec = e[2] if e[0] == "m" else e[1]
        this = st.env.get(("this", depth), ("p", ("this",)))
        d = [g for g in self.p.fns.values() if g.cls == rec and g.kind == "dtor"]
        if not d or this[0] != "p":
            return st if isinstance(st, list) else [st]
        path = this[1] + ((e[1],) if e[0] == "m" else ())
        return [s for _, s in sim.inline_call(d[0], depth, st, ("p", path), [], [], {"args": []})]

    def on_call(self, sim, c):
        st, qn = c.st, c.qn
        if qn in ("sigfillset", "sigemptyset") and c.args[0] is not None and c.args[0][0] == "p":
            st = st.copy()
            st.heap[c.args[0][1] + ("#full",)] = TRUE if qn == "sigfillset" else FALSE
            return [(("c", 0), st)]
        if qn in ("sigdelset", "sigaddset") and c.args[0] is not None and c.args[0][0] == "p":
            st = st.copy()
            if qn == "sigdelset":
                st.heap[c.args[0][1] + ("#full",)] = FALSE
            return [(("c", 0), st)]
        if qn in ("pthread_sigmask", "sigprocmask"):
            how = sim.const_of(st, c.args[0])
            a = [x[1] if x is not None and x[0] == "p" else None for x in c.args[1:]]
            if how == 0:
                return [(("c", 0), self.add(st, "block" if st.heap.get((a[0] or ()) + ("#full",)) == TRUE else "block-some", a[1]))]
            if how == 2:
                if st.heap.get((a[0] or ()) + ("#full",)) == TRUE:
                    return [(("c", 0), self.add(st, "block", a[1]))]
                return [(("c", 0), self.add(st, "restore", a[0]))]
            return [(("c", 0), self.add(st, "unblock", a[0]))]
        if tmpl(qn) in ("std::mutex::lock", "std::mutex::unlock"):
            return [(U, self.add(st, c.name, c.objpath))]
        return None


def masking_classes(prog):
    """class -> (sequence of its constructor, sequence of its destructor)"""
    res = {}
    for cls, r in sorted(prog.classes.items()):
        if cls != IFS and not (cls in GUARDS and any(f["type"] == IFS for f in r["fields"])) and not (cls in GUARDS and IFS in prog.superclasses(cls)):
            continue
        seqs = []
        for kind in ("ctor", "dtor"):
            fs = [f for f in prog.fns.values() if f.cls == cls and f.kind == kind and not f.copyctor and not f.movector]
            if len(fs) != 1:
                raise model.AnalysisBroken("%s of %s not found" % (kind, cls))
            f = fs[0]
            c = MaskClient(prog)
            sim = Sim(prog, c)
            this = ("this",)
            args = {}
            st = State(ts=())
            if kind == "dtor":
                # what the constructor left behind
                for fld in r["fields"]:
                    if fld["type"].endswith("&"):
                        st.heap[this + (fld["name"],)] = ("ref", (("o", "mutex"),))
            outs = sim.run(f, this=("p", this), args=args, st=st)
            seqs.append((f, {s.ts for _, s in outs}))
        res[cls] = seqs
    return res


# ------------------------------------------------------------------ what transitionInterruptSafe() does
class PostClient(Client):
    def __init__(self, prog, l, hid):
        self.p, self.l, self.hid = prog, l, hid
        self.bad = []
        self.calls = 0

    def inline(self, sim, fn, call_fn):
        return machine(fn) or fn.cls == FACADE or fn.kind == "lambda"

    def stable(self, path):
        return True

    def on_call(self, sim, c):
        qn = str(c.n.get("qn", ""))
        if qn.startswith(IFACE + "::"):
            if c.name != "enqueueEvent":
                self.bad.append(("posts-event", c.fn, c.node, "%s() is called instead of enqueueEvent()" % c.name))
                return [(U, c.st)]
            self.calls += 1
            if ("posted",) in c.st.ts:
                self.bad.append(("posts-event", c.fn, c.node, "the event is enqueued twice"))
            hp = c.argpaths[0]
            ok = hp is not None and hp[-1] == self.hid[1]
            v = c.args[0]
            if not ok and not (v is not None and v == ("s", ("hid",), False)):
                self.bad.append(("posts-event", c.fn, c.node, "the event is enqueued for another handler than the one registered for enqueued events"))
            if c.args[1] != ("s", ("event",), False):
                self.bad.append(("posts-event", c.fn, c.node, "another event than the requested one is enqueued"))
            return [(("s", ("answer",), True), c.st.with_ts(c.st.ts | {("posted",)}))]
        return None


@functools.lru_cache(None)
def run(config):
    prog = model.load(config)
    x = delivery.run(config)[0]
    queue = next(o for o, q in x.queues.items() if q == "enqueued events")
    bad, nfn, nnodes = {}, 0, 0
    reached = {}
    for d in prog.concrete_dispatchers():
        seen = reach(prog, d)
        reached[d] = seen
        if not any(k in prog.fns and prog.fns[k].cls == BASE for k in seen):
            raise model.AnalysisBroken("interrupt path of %s does not reach the queue" % d)
        nfn += len(seen)
        for k in seen:
            f = prog.fns[k]
            # the body of a closure is examined with the function that calls it
            for i, n in enumerate(f.nodes):
                nnodes += 1
                e = effect(prog, f, n, queue)
                if e is not None:
                    path, kk = [], k
                    while kk is not None:
                        path.append(prog.fns[kk].short())
                        kk = seen[kk]
                    who = f.cls.split("::")[-1] if f.cls in prog.concrete_dispatchers() else f.short()
                    bad.setdefault((e[0], who + " " + e[1]), (f.loc(i), "%s() is executed by interrupt handlers (transitionInterruptSafe() with %s) and %s" % (f.short(), d.split("::")[-1], e[1]),
                                                                  ["reached through " + " <- ".join(path)]))
    return prog, bad, nfn, nnodes, reached


@functools.lru_cache(None)
def posting(config):
    prog = model.load(config)
    l = lifecycle.Life(prog)
    # id of the registered handler of enqueued events
    hid = set()
    for f in prog.fns.values():
        if not machine(f):
            continue
        for n in f.nodes:
            if n["k"] == "Assign" and f.nodes[n["c"][0]]["k"] == "Field":
                r = n["c"][1]
                while f.nodes[r]["k"] == "Cast":
                    r = f.nodes[r]["c"][0]
                if f.nodes[r]["k"] == "Call" and f.nodes[r].get("name") == "registerEnqueuedEventHandler":
                    m = f.nodes[n["c"][0]]
                    hid.add((m["owner"], m["name"]))
    if len(hid) != 1:
        # stored by a helper: the id handed to unregisterEnqueuedEventHandler
        hid = {(f.nodes[n["args"][0]].get("owner"), f.nodes[n["args"][0]].get("name")) for f in prog.fns.values() if machine(f) for n in f.nodes
               if n["k"] == "Call" and n.get("name") == "unregisterEnqueuedEventHandler" and f.nodes[n["args"][0]]["k"] == "Field"}
    if len(hid) != 1:
        raise model.AnalysisBroken("id of the handler of enqueued events not found")
    hid = hid.pop()
    c = PostClient(prog, l, hid)
    bad = []
    for f in prog.fns_named(API):
        st = State(ts=frozenset())
        ev = ("s", ("event",), False)
        st.heap[("this", "#pin", "ev")] = ev
        outs = Sim(prog, c).run(f, args={0: ev}, st=st)
        for rv, s in outs:
            posted = ("posted",) in s.ts
            v = None if rv is None else s.facts.get(rv)
            if posted and not (rv == ("s", ("answer",), True)) and not (rv is not None and rv[0] == "c" and s.facts.get(("s", ("answer",), True)) == rv):
                bad.append(("posts-event", f, None, "the answer does not say whether the event was enqueued"))
            if not posted and rv != FALSE:
                bad.append(("posts-event", f, None, "success is reported although nothing was enqueued"))
    if not c.calls:
        bad.append(("posts-event", prog.fns_named(API)[0], None, "the event is never enqueued"))
    return bad + c.bad, c.calls


@check("P06", "All functions reachable from transitionInterruptSafe() with each supplied dispatcher: no construct that allocates, blocks, runs callbacks or is not async-signal-safe; every lock and condition they use is "
       "used with interrupts blocked at every site of the library (lock study); the classes that block interrupts do so before locking and until after unlocking.", ASSUME + ["pthread_sigmask blocks delivery to the calling thread"],
       "effect analysis over the resolved call graph + interprocedural lock/interrupt-mask dataflow")
def p06(rep, tier):
    for config in configs(tier):
        prog, bad, nfn, nnodes, reached = run(config)
        for rule in ("no-allocation", "no-blocking", "no-callback", "no-unsafe-call"):
            mine = [(k, v) for k, v in bad.items() if k[0] == rule]
            for (r, key), (loc, msg, path) in mine:
                rep.violate(r, key, loc, msg, path)
            rep.ob(rule, True, n=len(reached))
        for b in delivery.run(config)[1]:
            if b[0] in ("no-allocation", "capacity-kept"):
                rep.violate("preallocated", b[1], b[2], b[3], b[4])
        rep.ob("preallocated", True)
        rep.stat("functions_on_interrupt_path", nfn)
        rep.stat("constructs_examined", nnodes)
        pb, calls = posting(config)
        for r, f, node, msg in pb:
            rep.violate(r, f.short() + " " + msg, f.loc(node), msg)
        rep.ob("posts-event", True, n=max(1, calls))
        # classes
        for cls, ((cf, cs), (df, ds)) in masking_classes(prog).items():
            short = cls.split("::")[-1]
            guard = cls != IFS
            mutex = lambda e, op, name: e[0] == op and e[1] is not None and isinstance(e[1][0], tuple) and str(e[1][0][1]).startswith(name)
            for t in cs:
                ok = len(t) == (2 if guard else 1) and t[0][0] == "block" and t[0][1] is not None and (not guard or mutex(t[1], "lock", "param:"))
                rep.check(ok, "critical-section", short + " constructor", cf.loc(), "%s() does not block all interrupts%s: %s" % (short, " before it locks the mutex" if guard else " and remember which ones were blocked", [e[0] for e in t]))
            for t in ds:
                saved = {x[0][1][-1] for x in cs if x and x[0][0] == "block" and x[0][1]}
                ok = len(t) == (2 if guard else 1) and t[-1][0] == "restore" and t[-1][1] is not None and t[-1][1][-1] in saved and (not guard or mutex(t[0], "unlock", "mutex"))
                rep.check(ok, "critical-section", short + " destructor", df.loc(), "~%s() does not restore the previous state of interrupts%s: %s" % (short, " after unlocking" if guard else "", [e[0] for e in t]))
    n = 0
    for d in lockdata.collect(configs(tier)):
        path = {(x[0][0] if x[0][0] == "lock" else "cond", x[0][1]) for x in d.masks if "transitionInterruptSafe" in x[3]}
        for x in d.masks:
            (op, name, masked), fkey, loc, root, stk = x
            if ("lock" if op == "lock" else "cond", name) not in path or name == "local":
                continue
            n += 1
            f = model.load(d.config).fns[fkey]
            rep.check(masked, "interrupts-blocked", "%s %s" % (f.short(), name.split("::")[-1]), loc,
                      "%s() %s %s with interrupts enabled, but interrupt handlers use it too (%s): a handler that interrupts this thread here waits for itself forever" % (
                          f.short(), {"lock": "locks", "notify": "notifies", "wait": "waits on"}[op], name.split("::")[-1], d.disp.split("::")[-1]), ["entry point: " + root] + ["  " + s for s in stk])
    rep.stat("lock_and_condition_sites", n)
    rep.floor("critical-section", 4, "classes that block interrupts")
    rep.floor("interrupts-blocked", 8, "locks used by interrupt handlers")
