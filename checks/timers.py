"""P24: timers of the dispatchers (book-keeping, expiry, native timers)."""
import functools
import re
from engine.registry import check
from engine import model
from engine.events import BASE, IFACE, Roles
from engine.maps import MapClient, GUARDS
from engine.sim import is_ptr, Sim, State, U, TRUE, FALSE, tmpl, contains
from checks.concurrency import ASSUME, configs, norm
from checks.transition import TECH

H, T, M, S = (("s", ("arg", x), x == "single-shot") for x in ("handler", "timer", "interval", "single-shot"))


class TimerParts:
    def __init__(self, prog):
        self.p = prog
        self.roles = Roles(prog)
        self.m = {}
        for f in prog.fns.values():
            if f.cls == BASE:
                self.m.setdefault(f.name, f)
        need = ("startTimer", "restartTimer", "stopTimer", "isTimerRunning", "unregisterTimerHandler", "registerTimerHandler", "handleTimerEvent", "startTimerImpl", "stopTimerImpl")
        for x in need:
            if x not in self.m:
                raise model.AnalysisBroken("operation %s of the dispatcher not found" % x)
        self.active = self.info = None
        for f in prog.classes[BASE]["fields"]:
            m = re.match(r"std::map<int, (hsmcpp::[\w:]+)", f["type"])
            if m and m.group(1) in prog.classes:
                self.active, self.info = (BASE, f["name"]), m.group(1)
        fns = [n["name"] for k in prog.callgraph_closure([self.m["registerTimerHandler"].key]) if k in prog.fns and prog.fns[k].cls == BASE
               for n in prog.fns[k].nodes if n["k"] == "Field" and n.get("owner") == BASE and "std::map<" in n.get("ty", "")]
        if self.active is None or len(set(fns)) != 1:
            raise model.AnalysisBroken("registries of timers not found")
        self.handlers = (BASE, fns[0])
        fl = {norm(f["type"]): f["name"] for f in prog.classes[self.info]["fields"]}
        self.f_h, self.f_ms, self.f_ss = fl.get("int"), next((v for k, v in fl.items() if "unsigned" in k), None), fl.get("bool")
        if None in (self.f_h, self.f_ms, self.f_ss):
            raise model.AnalysisBroken("description of a timer not recognised")
        self.keeps = False    # a platform ignores requests to start a timer that still has a native timer
        self.native = {}      # dispatcher class -> (class, field) of the native timers
        for cls in sorted(prog.subclasses(BASE)):
            if cls == BASE:
                continue
            touched = set()
            for f in prog.fns.values():
                if f.cls == cls and f.name in ("startTimerImpl",):
                    for k in prog.callgraph_closure([f.key]):
                        g = prog.fns.get(k)
                        if g is None:
                            continue
                        touched |= {n["name"] for n in g.nodes if n["k"] == "Field" and n.get("owner") == cls and "std::map<int" in n.get("ty", "")}
            if len(touched) == 1:
                self.native[cls] = (cls, touched.pop())
            elif touched:
                raise model.AnalysisBroken("native timers of %s not recognised" % cls)


class TimerClient(MapClient):
    """marks: ('g',p) guard; ('stop',k) ('start',k) native timer stopped/started, ('started2',) twice; ('order',) started while an old native timer may run; ('call',) handler called; ('released',) lock released after first access
    ('put',map,k) ('del',map,k) ('end',map) loop over the whole map"""

    def __init__(self, parts, role):
        self.x, self.role = parts, role
        self.maps = {parts.active: "active", parts.handlers: "handlers"}
        super().__init__(parts.p, parts.roles)
        self.last = {}

    def interesting(self, f, n):
        if n["k"] == "Field":
            return (n.get("owner"), n["name"]) in self.maps
        return n["k"] == "Call" and n.get("name") in ("startTimerImpl", "stopTimerImpl")

    def inline(self, sim, fn, call_fn):
        return fn.key in self.relevant and (fn.cls in (BASE, self.x.info, "", None) or fn.kind == "lambda" or str(fn.cls).startswith(BASE + "::"))

    def sticky(self, k):
        return k[-1] == "#h" or isinstance(k[-1], tuple) and k[-1][0] == "#has"

    def stable(self, path):
        return super().stable(path) or any(isinstance(s, tuple) and s[0] == "[]" for s in path)

    def rd(self, st, field, k=T):
        """value of a field of the timer's record"""
        p = ("this", self.x.active[1], ("[]", k), "second", field)
        return st.heap.get(p, ("s", ("ld", p), field == self.x.f_ss))

    def ne(self, sim, st, a, b):
        """provably different / same / unknown -> True/False/None"""
        r = sim.eqv(st, a, b)
        if r is not None:
            return not r
        if a is None or b is None or a == U or b == U:
            return None
        args = {H, T, M, S}
        base = lambda v: v in args or v[0] == "c" or v[0] == "s" and isinstance(v[1], tuple) and v[1][0] == "ld" and v[1][1][0] == "this"
        return True if base(a) and base(b) else None

    def assume_present(self, sim, st, cont, k):
        # a timer exists only as long as its handler: established by startTimer and unregisterTimerHandler
        return self.maps.get(self.owner.get(cont)) == "handlers" and k[0] == "s" and isinstance(k[1], tuple) and k[1][0] == "ld" and self.x.active[1] in k[1][1]

    def map_event(self, sim, c, st, kind, cont, k):
        m = self.map_of(cont)
        self.count("accesses", c.fn.loc(c.node))
        if ("released",) in st.ts:
            self.report("one-critical-section", self.role, c.fn, c.node, "the lock is released between looking at the timers and changing them", st)
        st = self.mark(st, ("touched",))
        if kind == "find+" and m == "handlers":
            st = st.copy()
            st.heap[self.elem(cont, k) + ("second", "#h")] = k
        if kind in ("find+", "elem") and m == "active":
            ms = self.elem(cont, k) + ("second", self.x.f_ms)
            if ms not in st.heap:
                v, st = sim.load(st, ms, False, True)
                st = sim.addne(st, v, 0) or st
        if kind == "put":
            if m == "handlers":
                self.report("registry-changed", self.role, c.fn, c.node, "the registry of handlers is changed", st)
            st = self.mark(st, ("put", m, k))
        if kind == "erase":
            if m == "active":
                st = self.drop(st, lambda q: q[0] == "owe" and q[1] == "all-own-timers" and q[2] == k)
                if ("stop", k) not in st.ts and self.role != "handleTimerEvent" and self.has(st, cont, k) is not False:
                    st = self.owe(c, st, "native-stopped", k, "a timer is forgotten while its native timer keeps running")
                if ("call",) in st.ts:
                    self.report("expired-removed-before-handler", self.role, c.fn, c.node, "a single-shot timer is removed after its handler was called: a timer which the handler started again is lost", st)
                if self.role == "unregisterTimerHandler":
                    h = self.rd(st, self.x.f_h, k)
                    if sim.eqv(st, h, H) is not True:
                        self.report("only-own-timers", self.role, c.fn, c.node, "a timer is removed on a path that does not establish that it belongs to the unregistered handler", st)
            elif m == "handlers" and self.ne(sim, st, k, H):
                self.report("registry-changed", self.role, c.fn, c.node, "the handler of another owner is removed", st)
            st = self.mark(st, ("del", m, k))
        if kind == "clear":
            self.report("registry-changed", self.role, c.fn, c.node, "all %s are forgotten" % ("timers" if m == "active" else "handlers"), st)
        if kind == "next" and self.role == "unregisterTimerHandler" and m == "active" and ("del", m, k) not in st.ts:
            if sim.eqv(st, self.rd(st, self.x.f_h, k), H) is not False:
                st = self.owe(c, st, "all-own-timers", k, "a timer is kept on a path that does not establish that it belongs to another handler")
        if kind == "pos":
            self.overdue(c, st, lambda q: contains(q[2], k))
            st = self.drop(st, lambda q: any(contains(x, k) for x in q if isinstance(x, tuple)))
        if kind in ("find+", "elem") and m == "active":
            st = st.copy()
            for f in (self.x.f_h, self.x.f_ms, self.x.f_ss):
                st.heap.setdefault(self.elem(cont, k) + ("second", f), self.rd(st, f, k))
        if kind == "end":
            st = self.mark(st, ("end", m))
        return st

    def owe(self, c, st, rule, k, msg):
        """reported unless made up for before the lock is released or the position is reused"""
        return self.mark(st, ("owe", rule, k, msg, c.fn.key, c.node))

    def overdue(self, c, st, pred):
        for q in st.ts:
            if q[0] == "owe" and pred(q):
                self.report(q[1], self.role, self.p.fns[q[4]], q[5], q[3], st)

    def access(self, sim, fn, node, path, kind, st):
        # element of the active timers used after it is gone
        for i in range(1, len(path)):
            if isinstance(path[i], tuple) and path[i][0] == "[]" and self.owner.get(path[:i]) == self.x.active:
                if self.has(st, path[:i], path[i][1]) is False and ("absent?",) not in st.ts:
                    self.report("entry-used-after-removal", self.role, fn, node, "the record of a timer is used after it was removed", st)
                elif ("call",) in st.ts:
                    self.report("entry-used-after-handler", self.role, fn, node, "the record of a timer is used after its handler was called: the handler may have stopped the timer", st)
                break
        return st

    def on_construct(self, sim, c):
        if tmpl(c.n["cls"]) in GUARDS and c.args and not (c.n.get("copy") or c.n.get("move")):
            return [self.mark(c.st, ("g", c.target))]
        return None

    def on_destroy(self, sim, path, rec, loc, st):
        if ("g", path) in st.ts:
            st = self.drop(st, lambda k: k == ("g", path))
            if ("touched",) in st.ts and not any(k[0] == "g" for k in st.ts):
                self.overdue(None, st, lambda q: True)
                st = self.mark(self.drop(st, lambda q: q[0] == "owe"), ("released",))
        return [st]

    def on_call(self, sim, c):
        st, n, name = c.st, c.n, c.name
        r = self.map_op(sim, c)
        if r is not None:
            return r
        if name == "operator=" and n.get("cls") == self.x.info and c.objpath is not None and c.argpaths and c.argpaths[0] is not None:
            return [(("p", c.objpath), sim.copy_obj(st, c.argpaths[0], c.objpath))]
        if name in ("startTimerImpl", "stopTimerImpl") and c.args:
            k = self.key(sim, c)
            st = c.st
            self.count("native", c.fn.loc(c.node))
            if ("released",) in st.ts:
                self.report("one-critical-section", self.role, c.fn, c.node, "the lock is released between looking at the timers and changing them", st)
            if name == "stopTimerImpl":
                return [(U, self.mark(self.drop(st, lambda q: q == ("start", k) or q[0] == "owe" and q[1] == "native-stopped" and q[2] == k), ("stop", k), note=("native timer is stopped", c.fn, c.node)))]
            if ("start", k) in st.ts:
                self.report("started-once", self.role, c.fn, c.node, "the native timer is started twice", st)
            if ("stop", k) not in st.ts and self.x.keeps:
                self.report("old-native-stopped", self.role, c.fn, c.node, "the native timer is started while the previous one may still be running", st)
            ms, st = self.sval2(sim, c, 1, st)
            ss, st = self.sval2(sim, c, 2, st)
            wm, ws = (M, S) if self.role == "startTimer" else (self.entry(self.x.f_ms), self.entry(self.x.f_ss))
            if self.ne(sim, st, k, T):
                self.report("started-as-requested", self.role, c.fn, c.node, "another timer is started", st)
            if self.ne(sim, st, ms, wm) or (wm == M and ms is not None and sim.const_of(st, ms) is not None and sim.const_of(st, M) is None):
                self.report("started-as-requested", self.role, c.fn, c.node, "the native timer is started with another interval than the timer has", st)
            if self.ne(sim, st, ss, ws):
                self.report("started-as-requested", self.role, c.fn, c.node, "the native timer is started with another mode (single-shot or periodic) than the timer has", st)
            return [(U, self.mark(st, ("start", k), note=("native timer is started", c.fn, c.node)))]
        if name == "operator()" and c.objpath is not None and tmpl(c.n.get("cls", "")).startswith("std::function"):
            self.count("handler-calls", c.fn.loc(c.node))
            hk = st.heap.get(c.objpath + ("#h",))
            want = self.entry(self.x.f_h)
            if hk is not None and self.ne(sim, st, hk, want):
                self.report("right-handler", self.role, c.fn, c.node, "the handler of another timer is called", st)
            v, st = self.sval(sim, c, 0)
            if self.ne(sim, st, v, T):
                self.report("right-handler", self.role, c.fn, c.node, "the handler is told another timer than the one that expired", st)
            if ("call",) in st.ts:
                self.report("called-once", self.role, c.fn, c.node, "the handler is called twice for one expiry", st)
            if self.has(st, ("this", self.x.active[1]), T) is None or ("absent", T) in st.ts:
                self.report("only-active-timers", self.role, c.fn, c.node, "a handler is called on a path that does not establish that its timer is running", st)
            if not any(k[0] == "g" for k in st.ts):
                self.report("handler-protected", self.role, c.fn, c.node, "the handler is called without the lock that keeps it registered", st)
            return [(U, self.mark(st, ("call",), note=("timer handler is called", c.fn, c.node)))]
        return None

    def entry(self, field):
        return ("s", ("ld", ("this", self.x.active[1], ("[]", T), "second", field)), field == self.x.f_ss)

    def sval2(self, sim, c, i, st):
        c.st = st
        return self.sval(sim, c, i)

    # ------------------------------------------------------------------ contract at the end of an operation
    def finish(self, sim, fn, rv, st, zero=False):
        cont = ("this", self.x.active[1])
        hc = ("this", self.x.handlers[1])
        absent = self.was.get("absent")
        starts = [k for k in st.ts if k[0] == "start"]
        stops = [k for k in st.ts if k[0] == "stop"]
        was = True if ("was", T) in st.ts else False if ("wasnot", T) in st.ts else None
        now = self.has(st, cont, T)
        bad = lambda rule, msg: self.report(rule, self.role, fn, None, msg, st)
        self.overdue(None, st, lambda q: True)
        if self.role == "startTimer":
            known = self.has(st, hc, H)
            if zero:
                if starts or ("put", "active", T) in st.ts:
                    bad("zero-interval", "a timer with interval 0 is started")
                return
            if known is not True:
                if starts or ("put", "active", T) in st.ts:
                    bad("known-handler", "a timer is started on a path that does not establish that its handler is registered")
                elif known is None:
                    bad("started-as-requested", "a requested timer is not started")
                return
            if not starts:
                bad("started-as-requested", "a requested timer is not started")
            if now is not True:
                bad("running-recorded", "a started timer is not recorded as running")
            else:
                for f, want in ((self.x.f_h, H), (self.x.f_ms, M), (self.x.f_ss, S)):
                    v = self.rd(st, f)
                    if self.ne(sim, st, v, want) or v[0] == "c" and sim.const_of(st, want) is None:
                        bad("running-recorded", "the recorded timer has another %s than requested" % {self.x.f_h: "handler", self.x.f_ms: "interval", self.x.f_ss: "mode"}[f])
        elif self.role == "restartTimer":
            if was and not starts:
                bad("started-as-requested", "a running timer is not started again")
            if was and now is not True:
                bad("running-recorded", "a restarted timer is not recorded as running")
            if not was and starts:
                bad("only-active-timers", "a timer is started on a path that does not establish that it was running")
            if was is None and not starts:
                bad("started-as-requested", "a running timer may not be started again")
        elif self.role == "stopTimer":
            if starts:
                bad("stop-stops", "a stopped timer is started")
            if was is not False and (("stop", T) not in st.ts):
                bad("stop-stops", "the native timer keeps running")
            if was is not False and now is not False:
                bad("stop-stops", "a stopped timer still counts as running")
        elif self.role == "isTimerRunning":
            v = sim.const_of(st, rv)
            if v is None or now is None or bool(v) != now:
                bad("running-answer", "the answer does not correspond to the recorded timers")
            if starts or stops:
                bad("running-answer", "asking for a timer changes it")
        elif self.role == "unregisterTimerHandler":
            if self.has(st, hc, H) is not False:
                bad("handler-removed", "the handler stays registered")
            if ("del", "handlers", H) in st.ts and ("end", "active") not in st.ts:
                bad("all-own-timers", "timers of the unregistered handler may be kept: not all timers are looked at")
            if starts:
                bad("stop-stops", "a timer is started")
        elif self.role == "handleTimerEvent":
            v = sim.const_of(st, rv)
            call = ("call",) in st.ts
            inv = sim.eqv(st, T, ("c", self.x.invalid)) if self.x.invalid is not None else None
            noh = sim.eqv(st, self.entry(self.x.f_h), ("c", self.x.invalid_h))
            if was and not noh:
                if not call:
                    bad("expiry-calls-handler", "the handler of a running timer that expired is not called")
                ss = sim.const_of(st, self.entry(self.x.f_ss))
                ms = self.entry(self.x.f_ms)
                if ss is None:
                    if v is not None or not self.ne(sim, st, rv, ms) is None:
                        bad("expiry-result", "an expiry is handled without regard to the mode of the timer")
                elif ss:
                    if v != 0:
                        bad("expiry-result", "a single-shot timer is reported to be started again")
                    if now is not False:
                        bad("single-shot-removed", "an expired single-shot timer still counts as running")
                else:
                    if v == 0 or self.ne(sim, st, rv, ms):
                        bad("expiry-result", "a periodic timer is not reported to be started again with its own interval")
                    if ("del", "active", T) in st.ts:
                        bad("single-shot-removed", "a periodic timer is removed when it expires")
            elif not was:
                if call:
                    bad("only-active-timers", "a handler is called although its timer is not running")
                if v != 0:
                    bad("expiry-result", "a timer that is not running is reported to be started again")
                if was is None and not inv:
                    bad("expiry-calls-handler", "the expiry of a timer is ignored")
            if starts or stops:
                bad("expiry-result", "native timers are changed although the expiry is still being handled")

    was = {}


class BaseClient(TimerClient):
    def join_key(self, st):
        return super().join_key(st) + tuple(st.facts.get(self.entry(f)) for f in (self.x.f_ss, self.x.f_ms, self.x.f_h))

    def map_event(self, sim, c, st, kind, cont, k):
        m = self.map_of(cont)
        if m == "active" and k == T and not any(q in st.ts for q in (("was", T), ("wasnot", T))):
            if kind == "find+":
                st = self.mark(st, ("was", T))
            elif kind == "find-":
                st = self.mark(st, ("wasnot", T))
        return super().map_event(sim, c, st, kind, cont, k)


def const_named(prog, name):
    for f in prog.fns.values():
        for n in f.nodes:
            if n["k"] == "Ref" and n.get("name") == name and "cv" in n:
                return n["cv"]
    return None


BASE_RULES = ("one-critical-section", "native-stopped", "old-native-stopped", "started-once", "started-as-requested", "known-handler", "zero-interval", "running-recorded", "stop-stops", "running-answer",
              "handler-removed", "all-own-timers", "only-own-timers", "registry-changed", "expired-removed-before-handler", "entry-used-after-removal", "entry-used-after-handler",
              "right-handler", "called-once", "only-active-timers", "handler-protected", "expiry-calls-handler", "expiry-result", "single-shot-removed")


def params(f, kinds):
    """symbolic arguments by type and position: ints in order, unsigned, bool"""
    ints = [x for x in kinds if x in (H, T)]
    a = {}
    for i, p in enumerate(f.params):
        t = norm(p["type"]).replace("const ", "").strip()
        if t == "int" and ints:
            a[i] = ints.pop(0)
        elif t.startswith("unsigned"):
            a[i] = M
        elif t == "bool":
            a[i] = S
    return a


@functools.lru_cache(None)
def run_base(config):
    prog = model.load(config)
    x = TimerParts(prog)
    x.keeps = run_native(config)[0].keeps
    x.invalid = const_named(prog, "INVALID_HSM_TIMER_ID")
    x.invalid_h = const_named(prog, "INVALID_HSM_DISPATCHER_HANDLER_ID")
    bad, counts, n = [], {}, 0
    for role, kinds in (("startTimer", (H, T)), ("restartTimer", (T,)), ("stopTimer", (T,)), ("isTimerRunning", (T,)), ("unregisterTimerHandler", (H,)), ("handleTimerEvent", (T,))):
        for zero in ((False, True) if role == "startTimer" else (False,)):
            f = x.m[role]
            c = BaseClient(x, role)
            args = params(f, kinds)
            st = State(ts=frozenset())
            for v in (H, T, M, S, c.entry(x.f_h), c.entry(x.f_ms), c.entry(x.f_ss)):
                st.heap[("this", "#pin", v[1])] = v
            for i, v in list(args.items()):
                if v == M:
                    if zero:
                        args[i] = ("c", 0)
                    else:
                        st.facts[M] = ("ne", frozenset((0,)))
            sim = Sim(prog, c)
            outs = sim.run(f, args=args, st=st)
            for rv, s in outs:
                c.finish(sim, f, rv, s, zero)
            n += len(outs)
            bad += c.bad
            for k, v in c.counts.items():
                counts.setdefault(k, set()).update(v)
    return x, bad, counts, n


# ---------------------------------------------------------------------- native timers
DESTROY = {"g_source_destroy", "disconnect", "deleteLater", "stop", "g_source_remove", "reset"}
DESTROY_ONLY = ("g_source_destroy", "deleteLater", "g_source_remove")


class NativeClient(MapClient):
    """marks: ('was',k) ('wasnot',k) first lookup; ('ms',) interval given to the platform, ('id',) timer id given to the platform; ('destroy',k); ('del',k); ('exp',k) expiry forwarded; ('again',) ('over',) its outcome
    ('null',) nothing to do was established; timers thread: ('ep',k) entry seen since the lock was taken, ('armed',k), ('timeout',) ('woken',) ('due',), ('found',k), ('post',) after the event"""

    def __init__(self, parts, cls, role):
        self.x, self.cls, self.role = parts, cls, role
        self.maps = {parts.native[cls]: "native"}
        super().__init__(parts.p, parts.roles)
        self.rec = next((m.group(1) for f in parts.p.classes[cls]["fields"] if f["name"] == parts.native[cls][1] for m in [re.match(r"std::map<int, (hsmcpp::[\w:]+)", f["type"])] if m), None)
        if self.rec is not None and self.rec not in parts.p.classes:
            self.rec = None

    def interesting(self, f, n):
        if n["k"] == "Field":
            return (n.get("owner"), n["name"]) in self.maps
        return n["k"] == "Call" and n.get("name") in ("handleTimerEvent",) + DESTROY_ONLY

    def inline(self, sim, fn, call_fn):
        return fn.key in self.relevant and fn.key != self.x.m["handleTimerEvent"].key and fn.cls != BASE and (fn.cls == self.cls or fn.kind == "lambda" or fn.cls in ("", None))

    def sticky(self, k):
        return k[-1] == "#nt" or isinstance(k[-1], tuple) and k[-1][0] == "#has"

    def stable(self, path):
        return super().stable(path) or any(isinstance(s, tuple) and s[0] == "[]" for s in path)

    def label(self):
        return "%s %s" % (self.cls.rsplit("::", 1)[-1], self.role)

    def map_event(self, sim, c, st, kind, cont, k):
        self.count("accesses", c.fn.loc(c.node))
        if kind in ("find+", "find-", "put") and not any(q[0] in ("was", "wasnot") and q[1] == k for q in st.ts):
            st = self.mark(st, ("was" if kind == "find+" else "wasnot" if kind == "find-" else "blind", k))
        if kind == "put":
            st = self.mark(self.drop(st, lambda q: q == ("del", k)), ("put", k))
        if kind == "erase":
            if self.role == "stopTimerImpl" and self.rec is None and ("destroy", k) not in st.ts and ("wasnot", k) not in st.ts:
                st = self.mark(st, ("owe", k, c.fn.key, c.node))
            st = self.mark(st, ("del", k))
            if self.role == "expiry" and any(q[0] == "exp" for q in st.ts) and ("same", k) not in st.ts:
                self.report("expired-entry-still-valid", self.label(), c.fn, c.node, "a native timer is forgotten on a path that does not establish that it is the one that expired (and not a newer one)", st)
            if self.role == "loop" and ("post",) in st.ts:
                if ("same", k) not in st.ts:
                    self.report("expired-entry-still-valid", self.label(), c.fn, c.node, "a timer is removed on a path that does not establish that it was not restarted while its event was handled", st)
                if ("over",) not in st.ts:
                    self.report("expiry-continues", self.label(), c.fn, c.node, "a periodic timer is removed after its expiry", st)
                st = self.mark(st, ("settled",))
        if kind in ("next", "pos"):
            if kind == "next" and self.role == "stop-all" and self.rec is None and ("destroy", k) not in st.ts:
                self.report("native-destroyed", self.label(), c.fn, c.node, "a native timer is not stopped with the dispatcher", st)
            st = self.drop(st, lambda q: any(contains(x, k) for x in q if isinstance(x, tuple)))
        if kind == "clear":
            st = self.mark(st, ("cleared",))
        if kind == "end":
            st = self.mark(st, ("end",))
        if self.role == "loop" and kind == "pos" and c.name in ("begin", "cbegin"):
            self.unsettled(c, st)
            st = self.drop(st, lambda q: q[0] in ("post", "again", "over", "exp", "settled", "timeout", "woken", "due", "cmp", "differs", "was", "wasnot", "del", "end"))
        if self.role == "loop" and kind in ("elem", "find+", "pos"):
            if kind == "find+":
                st = self.mark(st, ("found", k))
            elif ("found", k) not in st.ts:
                st = self.mark(st, ("ep", k))
        return st

    def elem_of(self, path):
        """key of the element of the native timers a path belongs to"""
        if path is None:
            return None
        for i in range(1, len(path)):
            if isinstance(path[i], tuple) and path[i][0] == "[]" and self.map_of(path[:i]):
                return path[i][1]
        return None

    def elem_of_val(self, v):
        if v is None:
            return None
        if v[0] == "s" and isinstance(v[1], tuple) and v[1][0] == "ld":
            return self.elem_of(v[1][1])
        if v[0] == "p":
            return self.elem_of(v[1])
        return None

    def given(self, sim, c, st):
        for i, a in enumerate(c.args):
            v, st = self.sval2(sim, c, i, st)
            if v == M:
                st = self.mark(st, ("ms",))
            if v == T:
                st = self.mark(st, ("id",))
        c.st = st
        return st

    def sval2(self, sim, c, i, st):
        c.st = st
        return self.sval(sim, c, i)

    def on_construct(self, sim, c):
        if tmpl(c.n["cls"]) in GUARDS:
            if c.args and self.role == "expiry":
                return [self.mark(c.st, ("g", c.target))]
            return None
        k = self.elem_of(c.argpaths[0]) if self.role == "expiry" and c.argpaths else None
        if k is not None and c.target is not None and c.n.get("copy"):
            c.st = c.st.copy()
            c.st.heap[c.target + ("#nt",)] = k
            return [c.st]
        c.st = self.given(sim, c, c.st)
        return None

    def on_destroy(self, sim, path, rec, loc, st):
        if ("g", path) in st.ts:
            # other threads may change the timers now
            st = self.drop(st, lambda q: q == ("g", path) or q[0] == "same")
        return [st]

    def access(self, sim, fn, node, path, kind, st):
        if kind == "r" and path not in st.heap and path[0] != "this" and norm(fn.nodes[node].get("ty", "")).replace("const", "").replace(" ", "") == self.cls + "*":
            # the data given to the platform leads back to the dispatcher
            st = st.copy()
            st.heap[path] = ("p", ("this",))
        if self.role == "loop" and kind in ("w", "rw"):
            k = self.elem_of(path)
            if k is not None and path[-1] not in ("first", "second"):
                st = self.reschedule(fn, node, k, st)
        return st

    def reschedule(self, fn, node, k, st):
        if ("post",) in st.ts:
            if ("same", k) not in st.ts:
                self.report("expired-entry-still-valid", self.label(), fn, node, "a timer is rescheduled on a path that does not establish that it was not restarted while its event was handled", st)
            if ("again",) not in st.ts:
                self.report("expiry-continues", self.label(), fn, node, "a timer that is over is scheduled again", st)
            st = self.mark(st, ("settled",))
        return st

    def unsettled(self, c, st):
        if ("post",) in st.ts and ("settled",) not in st.ts and any(q[0] == "same" for q in st.ts):
            self.report("expiry-continues", self.label(), c.fn, c.node, "after its event a timer is neither scheduled again nor removed", st)

    def leave_lock(self, st, arm):
        armed = [("armed", q[1]) for q in st.ts if q[0] in ("ep", "same")] if arm else []
        st = self.drop(st, lambda q: q[0] in ("ep", "found", "same", "armed"))
        return self.mark(st, *armed)

    def on_call(self, sim, c):
        st, n, name = c.st, c.n, c.name
        op = n.get("op")
        if op in ("==", "!=") and self.role == "loop" and len(([c.objpath] if "obj" in n else []) + c.argpaths) == 2:
            paths = ([c.objpath] if "obj" in n else []) + c.argpaths
            ks = [self.elem_of(p) for p in paths]
            if any(k is not None for k in ks) and "time_point" in str(n.get("ptys", "")) + str(n.get("qn", "")) + str([c.fn.nodes[a].get("ty") for a in n["args"]]):
                k = next(k for k in ks if k is not None)
                eq = self.mark(st, ("same", k)) if ("found", k) in st.ts else st
                return [(TRUE if op == "==" else FALSE, eq), (FALSE if op == "==" else TRUE, self.mark(st, ("differs", k)))]
        if op in ("<", ">", "<=", ">=") and self.role == "loop":
            paths = ([c.objpath] if "obj" in n else []) + c.argpaths
            if len(paths) == 2 and all(self.elem_of(p) is not None for p in paths):
                a, b = (self.elem_of(p) for p in paths)
                st = self.drop(st, lambda q: q[0] == "cmp")
                lt, gt = self.mark(st, ("cmp", a, b)), self.mark(st, ("cmp", b, a))
                return [(TRUE, lt if op[0] == "<" else gt), (FALSE, gt if op[0] == "<" else lt)]
        if op == "=" and self.role == "loop" and c.objpath is not None and c.args and c.args[0] is not None and c.args[0][0] == "it" and self.map_of(c.args[0][1]):
            k = c.args[0][2]
            if any(q[0] == "cmp" and q[2] == k for q in st.ts):
                self.report("earliest-first", self.label(), c.fn, c.node, "the timers thread waits for a timer that expires later than another one", st)
            return None
        r = self.map_op(sim, c)
        if r is not None:
            return r
        if name == "handleTimerEvent" and c.args:
            return self.expire(sim, c)
        if self.role == "expiry":
            if op == "=" and c.objpath is not None and c.argpaths and self.elem_of(c.argpaths[0]) is not None and c.key not in self.p.fns:
                st = sim.kill_path(st, c.objpath).copy()
                st.heap[c.objpath + ("#nt",)] = self.elem_of(c.argpaths[0])
                if any(q[0] == "exp" for q in st.ts):
                    st.heap[c.objpath + ("#nt",)] = U
                return [(("p", c.objpath), st)]
            if name == "connected" and c.objpath is not None:
                # a native timer that was replaced is not connected any more
                k = st.heap.get(c.objpath + ("#nt",))
                yes = self.mark(st, ("same", k)) if k is not None and k != U and any(q[0] == "g" for q in st.ts) else st
                no = self.mark(st, ("differs",)) if k != U else st
                return [(TRUE, yes), (FALSE, no)]
        if self.role == "loop" and str(n.get("cls", "")).endswith(("UniqueLock", "unique_lock<std::mutex>")) and name in ("lock", "unlock"):
            if name == "unlock":
                self.unsettled(c, st)
                return [(U, self.leave_lock(st, True))]
            return [(U, st)]
        if self.role == "loop" and name.startswith("wait") and ("Condition" in str(n.get("cls", "")) or "condition" in str(n.get("cls", ""))):
            self.count("waits", c.fn.loc(c.node))
            self.unsettled(c, st)
            st = self.drop(self.leave_lock(st, False), lambda q: q[0] in ("timeout", "woken", "due", "post", "again", "over", "settled"))
            if n.get("ty") == "bool":
                return [(TRUE, self.mark(st, ("woken",))), (FALSE, self.mark(st, ("timeout",), note=("time to wait has elapsed", c.fn, c.node)))]
            return [(U, st)]
        if op == "=" and c.objpath is not None and self.role == "loop":
            k = self.elem_of(c.objpath)
            if k is not None:
                c.st = self.reschedule(c.fn, c.node, k, st)
                return None
        for p, v in [(c.objpath, c.obj)] + ([(sim.loc(c.fn, n["obj"], c.depth, st), None)] if "obj" in n else []) + list(zip(c.argpaths, c.args)):
            k = self.elem_of(p)
            k = self.elem_of_val(v) if k is None else k
            if k is not None and name in DESTROY:
                st = self.mark(st, ("destroy", k), ("destroy:" + name, k))
            if k is not None and name in ("g_source_unref",):
                st = self.mark(st, ("unref", k))
        if c.key not in self.p.fns:
            if name == "setSingleShot" and c.args and self.role == "startTimerImpl":
                v, st = self.sval2(sim, c, 0, st)
                o = c.objpath if c.objpath is not None else c.obj
                st = self.mark(st, ("single", o, "param" if v == S else "wrong" if sim.eqv(st, v, S) is False or sim.const_of(st, v) == 1 and sim.const_of(st, S) != 1 else None))
            st = self.given(sim, c, st)
            lam = [v for v in c.args if v is not None and v[0] == "lam"]
            lam += [sim.peek(st, p) for p in c.argpaths if p is not None and sim.peek(st, p) is not None and sim.peek(st, p)[0] == "lam" and not lam]
            if lam and self.role == "startTimerImpl" and not c.qn.startswith("std::") and self.p.fns.get(lam[0][1]) is not None and lam[0][1] in self.relevant:
                # the platform calls it later: the native timer is created then
                outs = []
                for rv, s in sim.call_lambda(lam[0], c.depth, st, [], []):
                    outs.append((U, s))
                return outs
        c.st = st
        return None

    def expire(self, sim, c):
        st = c.st
        k = self.key(sim, c)
        st = c.st
        self.count("expiries", c.fn.loc(c.node))
        if self.role == "loop":
            if any(q[0] == "armed" for q in st.ts) and ("armed", k) not in st.ts and not any(q[0] == "armed" and q[1] == U for q in st.ts) and not (k[0] == "s" and isinstance(k[1], tuple) and len(k[1]) == 3):
                self.report("expired-entry-still-valid", self.label(), c.fn, c.node, "the event of another timer is triggered", st)
            elif not any(q[0] == "armed" for q in st.ts):
                self.report("expired-entry-still-valid", self.label(), c.fn, c.node, "a timer event is triggered on a path that does not establish that the timer is still running and was not restarted", st)
            if not {("timeout",), ("due",)} & st.ts or ("woken",) in st.ts:
                self.report("not-early", self.label(), c.fn, c.node, "a timer event is triggered on a path on which the timer's interval may not have elapsed", st)
            st = self.mark(self.drop(st, lambda q: q[0] in ("armed", "timeout", "due", "found", "same", "again", "over", "settled")), ("post",))
        elif any(q[0] == "exp" for q in st.ts):
            self.report("forwarded-once", self.label(), c.fn, c.node, "one expiry is reported twice", st)
        if self.role == "expiry":
            # other threads may start or stop the timer meanwhile
            cont = ("this", self.x.native[self.cls][1])
            st = sim.kill_path(st, cont)
            st = self.drop(st, lambda q: q[0] in ("was", "wasnot", "same", "differs", "del"))
        v, st = sim.fresh(st, (c.depth, c.fn.key, c.node), False)
        over = sim.setfact(st, v, ("c", 0))
        again = sim.addne(st, v, 0)
        return [(v, self.mark(over, ("exp", k), ("over",), note=("expiry is handled (timer is over)", c.fn, c.node))), (v, self.mark(again, ("exp", k), ("again",), note=("expiry is handled (timer continues)", c.fn, c.node)))]

    def on_branch(self, sim, fn, node, truth, st):
        n = fn.nodes[node]
        while n["k"] in ("Cast",) or n["k"] == "Un" and n["op"] == "!":
            if n["k"] == "Un":
                truth = not truth
            n = fn.nodes[n["c"][0]]
        if n["k"] == "Bin" and n["op"] in ("==", "!=") and any(fn.nodes[i]["k"] == "Null" or fn.nodes[i]["k"] == "Cast" and fn.nodes[fn.nodes[i]["c"][0]]["k"] == "Null" for i in n["c"]):
            if truth == (n["op"] == "=="):
                st = self.mark(st, ("null",))
        elif is_ptr(n.get("ty", "")) and not truth:
            st = self.mark(st, ("null",))
        if self.role == "expiry":
            for q, v in st.facts.items():
                if q[0] == "eqf" and v[0] == "c":
                    for k in (self.elem_of_val(q[1]), self.elem_of_val(q[2])):
                        if k is not None:
                            if not v[1] or any(x[0] == "g" for x in st.ts):
                                st = self.mark(st, ("same", k) if v[1] else ("differs",))
        if self.role == "loop" and n["k"] == "Bin" and n["op"] in ("<", ">", "<=", ">="):
            vals = [fn.nodes[i] for i in n["c"]]
            cs = []
            for i in n["c"]:
                m = fn.nodes[i]
                while m["k"] == "Cast":
                    m = fn.nodes[m["c"][0]]
                cs.append(m.get("val") if m["k"] == "Lit" else m.get("cv"))
            for i, kk in ((0, cs[1]), (1, cs[0])):
                if kk is None or cs[i] is not None or "unsigned" in vals[i].get("ty", ""):
                    continue
                o = n["op"] if i == 0 else {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[n["op"]]
                o = o if truth else {"<": ">=", ">": "<=", "<=": ">", ">=": "<"}[o]
                # remaining time is at most 0 (1 ms of rounding is granted)
                if (o == "<=" and kk <= 0) or (o == "<" and kk <= 1):
                    st = self.mark(st, ("due",))
        return st

    def finish(self, sim, fn, rv, st):
        cont = ("this", self.x.native[self.cls][1])
        now = self.has(st, cont, T)
        bad = lambda rule, msg: self.report(rule, self.label(), fn, None, msg, st)
        was = True if ("was", T) in st.ts else False
        if self.role == "startTimerImpl":
            if was and self.rec is None and ("put", T) not in st.ts:
                self.x.keeps = True
                return      # callers have to stop the previous timer first (rule old-native-stopped)
            if ("ms",) not in st.ts:
                bad("native-started", "no native timer with the requested interval is created")
            if now is not True:
                bad("native-started", "a started native timer is not recorded: it can not be stopped")
            stored = sim.peek(st, self.elem(cont, T) + ("second",))
            if stored is not None and stored[0] == "p" and ("single", stored[1], "wrong") in st.ts:
                bad("native-started", "a periodic timer is started as single-shot timer")
            if self.rec is None and ("id",) not in st.ts:
                bad("native-started", "the native timer does not know which timer it belongs to")
        elif self.role == "stopTimerImpl":
            for q in st.ts:
                if q[0] == "owe" and ("destroy", q[1]) not in st.ts:
                    self.report("native-destroyed", self.label(), self.p.fns[q[2]], q[3], "a native timer is forgotten without being stopped", st)
            if was and ("del", T) not in st.ts or now is True:
                bad("native-stopped-impl", "a stopped native timer is still recorded")
            if not was and ("wasnot", T) not in st.ts and ("del", T) not in st.ts:
                bad("native-stopped-impl", "a native timer may keep running")
        elif self.role == "expiry":
            exp = [q for q in st.ts if q[0] == "exp"]
            if not exp:
                if ("null",) not in st.ts:
                    bad("forwarded-once", "the expiry of a native timer is ignored")
                return
            k = exp[0][1]
            over = ("over",) in st.ts
            v = sim.const_of(st, rv)
            if fn.ret != "void":
                r = sim.resolve(st, rv) if rv is not None else None
                if r is None or r == over:
                    bad("expiry-continues", "the platform is told that a timer %s although it %s" % (("continues", "is over") if over else ("is over", "continues")))
            gone = any(q[0] == "del" and q[1] == k for q in st.ts) or any(q[0] == "wasnot" and q[1] == k for q in st.ts)
            dele = any(q[0] == "del" for q in st.ts)
            looked = any(q[0] in ("was", "wasnot") for q in st.ts)
            if over and not gone and not (looked and dele) and ("differs",) not in st.ts:
                bad("expired-forgotten", "the native timer of an expired single-shot timer stays recorded: the timer can not be started again")
            if not over and dele:
                bad("expiry-continues", "the native timer of a periodic timer is forgotten when it expires")
        elif self.role == "stop-all":
            if ("cleared",) not in st.ts and ("end",) not in st.ts:
                bad("native-destroyed", "native timers may keep running after the dispatcher was stopped")


NATIVE_RULES = ("native-started", "native-stopped-impl", "native-destroyed", "forwarded-once", "expiry-continues", "expired-forgotten", "expired-entry-still-valid", "not-early", "earliest-first")


@functools.lru_cache(None)
def run_native(config):
    prog = model.load(config)
    x = TimerParts(prog)
    bad, counts, n = [], {}, 0

    def go(cls, f, role, args):
        nonlocal n
        c = NativeClient(x, cls, role)
        st = State(ts=frozenset())
        for v in (T, M, S):
            st.heap[("this", "#pin", v[1])] = v
        st.facts[M] = ("ne", frozenset((0,)))
        sim = Sim(prog, c)
        outs = sim.run(f, args=args, st=st)
        for rv, s in outs:
            c.finish(sim, f, rv, s)
        n += len(outs)
        bad.extend(c.bad)
        for k, v in c.counts.items():
            counts.setdefault((role, k), set()).update(v)

    hte = x.m["handleTimerEvent"].key
    for cls in sorted(x.native):
        own = [f for f in prog.fns.values() if f.cls == cls and f.blocks and f.kind not in ("ctor", "dtor")]
        for f in own:
            if f.name in ("startTimerImpl", "stopTimerImpl"):
                go(cls, f, f.name, params(f, (T,)))
        direct = lambda f: {n["fn"] for n in f.nodes if n["k"] == "Call" and n.get("fn")}
        reach = {f.key for f in own if hte in direct(f)}
        while True:
            more = {f.key for f in own if f.key not in reach and direct(f) & reach}
            if not more:
                break
            reach |= more
        reach = [f for f in own if f.key in reach]
        roots = [f for f in reach if not any(g.key != f.key and f.key in direct(g) for g in reach)]
        if not roots:
            raise model.AnalysisBroken("%s: function that handles expired timers not found" % cls)
        timed = NativeClient(x, cls, "").rec is not None
        for f in roots:
            go(cls, f, "loop" if timed else "expiry", {i: ("p", (("o", "param:%d" % i),)) for i, q in enumerate(f.params) if is_ptr(q["type"])})
        if not timed:
            fld = x.native[cls]
            st = next((f for f in own if f.name == "stop"), None)
            if st is None:
                raise model.AnalysisBroken("%s has no stop()" % cls)
            go(cls, st, "stop-all", {})
    return x, bad, counts, n


@check("P24", "Every path of the timer operations of the dispatcher's base class, of every platform's start/stop of native timers and of the functions that handle an expiry, with presence of the timer and of "
       "its handler, mode and outcome as branches.", ASSUME, TECH)
def p24(rep, tier):
    for config in configs(tier):
        x2, bad2, counts2, n2 = run_native(config)
        x, bad, counts, n = run_base(config)
        bad = bad + bad2
        for rule in BASE_RULES + NATIVE_RULES:
            mine = [b for b in bad if b[0] == rule]
            for r, key, loc, msg, path in mine:
                rep.violate(r, key, loc, msg, path)
            if not mine:
                rep.ob(rule, True)
        for k, v in sorted(counts.items()) + sorted(("%s_%s" % k, v) for k, v in counts2.items()):
            rep.stat(k, len(v))
        rep.stat("path_classes", n + n2)
        rep.stat("dispatchers", len(x.native))
        if not rep.violations:
            for k in ("accesses", "native", "handler-calls"):
                if not counts.get(k):
                    raise model.AnalysisBroken("%s not recognised" % k)
            for k in (("loop", "expiries"), ("expiry", "expiries"), ("loop", "waits")):
                if not counts2.get(k):
                    raise model.AnalysisBroken("%s of the %s not recognised" % (k[1], k[0]))
