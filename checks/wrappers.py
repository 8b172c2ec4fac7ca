"""P11: the library's own synchronisation primitives."""
import functools
import os
import subprocess
from engine.registry import check
from engine import model
from engine.sim import Client, Sim, State, U, TRUE, FALSE, NULL, tmpl, trace_list
from checks.concurrency import ASSUME, configs, norm
from checks.transition import TECH

NS = "hsmcpp::"
M1, M2 = (("o", "m1"),), (("o", "m2"),)
MS = ("s", ("timeout",), False)
FLAGV = {True: TRUE, False: FALSE}
LOCKING = ("LockGuard", "CriticalSection")


class WrapClient(Client):
    """ts: marks ('held',mutex) ('slept',) ('ok',)/('nok',) outcome of the predicate when it was last evaluated under the lock ('timeout',) ('notified',how) ('ms',) sleeps as long as requested"""
    eq_facts = True
    compact = True

    def __init__(self, prog, label):
        self.p, self.label = prog, label
        self.bad = []
        self.ops = set()
        self.cvcls = NS + "ConditionVariable"

    def inline(self, sim, fn, call_fn):
        return not (fn.cls == self.cvcls and not self.label.startswith("ConditionVariable"))

    def stable(self, path):
        return True

    def mark(self, st, *items, note=None):
        return st.with_ts(st.ts | frozenset(items), note)

    def drop(self, st, pred):
        return st.with_ts(frozenset(k for k in st.ts if not pred(k)))

    def join_key(self, st):
        return (st.ts, frozenset(st.env.items()), frozenset(st.heap.items()))

    def report(self, rule, f, node, msg, st):
        path = ["%s at %s" % (x[0], x[1].loc(x[2])) for x in trace_list(st) if isinstance(x, tuple) and len(x) == 3]
        self.bad.append((rule, self.label + " " + msg, f.loc(node), self.label + "(): " + msg, path))

    def mutex(self, path):
        """name of the mutex a path belongs to: ('this','mSync') or the object outside"""
        if path is None:
            return None
        return path[:1] if isinstance(path[0], tuple) and path[0][0] == "o" else path[:2]

    def lock(self, sim, c, st, p):
        m = self.mutex(p)
        self.ops.add(c.fn.loc(c.node))
        if ("held", m) in st.ts:
            self.report("lock-once", c.fn, c.node, "a mutex is locked which the thread holds already", st)
        return self.mark(st, ("held", m), note=("mutex is locked", c.fn, c.node))

    def unlock(self, sim, fn, node, st, p):
        m = self.mutex(p)
        self.ops.add(fn.loc(node))
        if ("held", m) not in st.ts:
            self.report("lock-once", fn, node, "a mutex is unlocked which the thread does not hold", st)
        return self.drop(st, lambda q: q == ("held", m))

    # ---- std::unique_lock
    def ul(self, st, p):
        m, own = st.heap.get(p + ("#m",)), st.heap.get(p + ("#own",), FALSE)
        return (m[1] if m is not None and m[0] == "p" else None), own == TRUE

    def setul(self, st, p, m, own):
        st = st.copy()
        st.heap[p + ("#m",)] = ("p", m) if m is not None else NULL
        st.heap[p + ("#own",)] = TRUE if own else FALSE
        return st

    def on_construct(self, sim, c):
        st, cls, n = c.st, tmpl(c.n["cls"]), c.n
        if cls in ("std::unique_lock", "std::lock_guard", "std::scoped_lock") and c.target is not None:
            if n.get("move") and c.argpaths[0] is not None:
                m, own = self.ul(st, c.argpaths[0])
                return [self.setul(self.setul(st, c.target, m, own), c.argpaths[0], None, False)]
            if not n["args"]:
                return [self.setul(st, c.target, None, False)]
            how = str(n.get("ptys", ""))
            p = c.argpaths[0]
            if "adopt_lock" in how:
                if ("held", self.mutex(p)) not in st.ts:
                    self.report("lock-once", c.fn, c.node, "a mutex is adopted which the thread does not hold", st)
                return [self.setul(st, c.target, p, True)]
            if "defer_lock" in how:
                return [self.setul(st, c.target, p, False)]
            if "try_to_lock" in how:
                return [self.setul(self.lock(sim, c, st, p), c.target, p, True), self.setul(st, c.target, p, False)]
            return [self.setul(self.lock(sim, c, st, p), c.target, p, True)]
        if cls == "std::chrono::duration" and c.target is not None and c.args:
            v = sim.peek(st, c.argpaths[0]) if c.argpaths[0] is not None else c.args[0]
            if v is None or v[0] == "p":
                v = c.args[0]
            if v == MS:
                st = st.copy()
                st.heap[c.target + ("#dur",)] = ("c", n.get("ty", ""))
                return [st]
            src = st.heap.get(c.argpaths[0] + ("#dur",)) if c.argpaths[0] is not None else None
            if src is not None:
                st = st.copy()
                st.heap[c.target + ("#dur",)] = src
                return [st]
        if cls == "std::function" and c.target is not None and c.argpaths and c.argpaths[0] is not None:
            v = st.heap.get(c.argpaths[0] + ("#pred",))
            lam = sim.peek(st, c.argpaths[0]) or c.args[0]
            if v is not None or lam is not None and lam[0] == "lam":
                st = st.copy()
                if v is not None:
                    st.heap[c.target + ("#pred",)] = v
                else:
                    st.heap[c.target + ("#lam",)] = lam
                return [st]
        return None

    def on_destroy(self, sim, path, rec, loc, st):
        if st.heap.get(path + ("#own",)) is not None:
            m, own = self.ul(st, path)
            fn, node = loc if isinstance(loc, tuple) and hasattr(loc[0], "loc") else (self.root, None)
            if own and m is not None:
                st = self.unlock(sim, fn, node, st, m)
            return [self.setul(st, path, None, False)]
        return [st]

    root = None

    def pred(self, sim, c, i, st):
        """the predicate handed to a wait: 'given', ('lam',...) or None"""
        if i >= len(c.args):
            return None
        for p in (c.argpaths[i],):
            if p is not None:
                if st.heap.get(p + ("#pred",)) is not None:
                    return "given"
                if st.heap.get(p + ("#lam",)) is not None:
                    return st.heap[p + ("#lam",)]
                v = sim.peek(st, p)
                if v is not None and v[0] == "lam":
                    return v
        v = c.args[i]
        return v if v is not None and v[0] == "lam" else None

    def evaluate(self, sim, c, lam, st):
        """a closure used as predicate, evaluated while the lock is held -> [(truth, state)]"""
        outs = []
        for rv, s in sim.call_lambda(lam, c.depth, st, [], []):
            r = sim.resolve(s, rv) if rv is not None else None
            for truth in ((True, False) if r is None else (r,)):
                s2 = sim.assume(s, rv, truth) if rv is not None and r is None else s
                if s2 is not None:
                    outs.append((truth, s2))
        return outs

    def on_call(self, sim, c):
        st, qn, name, n = c.st, c.qn, c.name, c.n
        cls = qn.rsplit("::", 1)[0]
        if cls == "std::mutex":
            if name == "lock":
                return [(U, self.lock(sim, c, st, c.objpath))]
            if name == "unlock":
                return [(U, self.unlock(sim, c.fn, c.node, st, c.objpath))]
            if name == "try_lock":
                return [(TRUE, self.lock(sim, c, st, c.objpath)), (FALSE, st)]
            return None
        if cls == "std::unique_lock" and c.objpath is not None:
            m, own = self.ul(st, c.objpath)
            if name == "operator=" and c.argpaths[0] is not None:
                if own:
                    st = self.unlock(sim, c.fn, c.node, st, m)
                m2, own2 = self.ul(st, c.argpaths[0])
                return [(("p", c.objpath), self.setul(self.setul(st, c.objpath, m2, own2), c.argpaths[0], None, False))]
            if name == "release":
                return [(("p", m) if m is not None else NULL, self.setul(st, c.objpath, None, False))]
            if name == "unlock":
                return [(U, self.setul(self.unlock(sim, c.fn, c.node, st, m), c.objpath, m, False))]
            if name == "lock":
                return [(U, self.setul(self.lock(sim, c, st, m), c.objpath, m, True))]
            if name in ("owns_lock", "operator bool"):
                return [(TRUE if own else FALSE, st)]
            if name == "mutex":
                return [(("p", m) if m is not None else NULL, st)]
            return None
        if cls.startswith("std::condition_variable"):
            if name.startswith("notify"):
                return [(U, self.mark(st, ("notified", name), note=("%s()" % name, c.fn, c.node)))]
            if name.startswith("wait"):
                self.ops.add(c.fn.loc(c.node))
                m, own = self.ul(st, c.argpaths[0]) if c.argpaths[0] is not None else (None, False)
                if not own or ("held", self.mutex(m)) not in st.ts:
                    self.report("wait-with-lock", c.fn, c.node, "waits with a lock that is not held", st)
                st = self.drop(st, lambda q: q[0] in ("ok", "nok", "timeout"))
                st = self.mark(st, ("slept",), note=("sleeps", c.fn, c.node))
                timed = name != "wait"
                if timed and c.argpaths[1] is not None:
                    d = st.heap.get(c.argpaths[1] + ("#dur",))
                    if d is not None and "ratio<1, 1000>" not in str(d[1]):
                        self.report("timeout", c.fn, c.node, "the timeout is not used as a number of milliseconds", st)
                    elif name == "wait_for" and d is None and self.timed_root:
                        self.report("timeout", c.fn, c.node, "does not wait as long as requested", st)
                k = 2 if timed else 1
                if len(c.args) > k:
                    p = self.pred(sim, c, k, st)
                    if p == "given":
                        outs = [(TRUE, self.mark(st, ("ok",)))]
                        if timed:
                            outs.append((FALSE, self.mark(st, ("nok",), ("timeout",))))
                        return outs
                    if p is not None:
                        outs = []
                        for truth, s in self.evaluate(sim, c, p, st):
                            if truth:
                                outs.append((TRUE, self.drop(s, lambda q: q == ("nok",))))
                            elif timed:
                                outs.append((FALSE, self.mark(s, ("timeout",))))
                        return outs
                    return None
                if timed:
                    return [(("c", 0), st), (("c", 1), self.mark(st, ("timeout",)))]
                return [(U, st)]
            return None
        if name == "operator()" and c.objpath is not None and st.heap.get(c.objpath + ("#pred",)) is not None:
            held = any(q[0] == "held" for q in st.ts)
            if not held:
                self.report("wait-with-lock", c.fn, c.node, "the predicate is evaluated without the lock", st)
            st = self.drop(st, lambda q: q[0] in ("ok", "nok"))
            return [(TRUE, self.mark(st, ("ok",))), (FALSE, self.mark(st, ("nok",)))]
        if name == "operator bool" and c.objpath is not None and st.heap.get(c.objpath + ("#pred",)) is not None:
            return [(st.heap[c.objpath + ("#pred",)], st)]
        if name == "operator bool" and c.objpath is not None and st.heap.get(c.objpath + ("#lam",)) is not None:
            return [(TRUE, st)]
        if name == "operator()" and c.objpath is not None and st.heap.get(c.objpath + ("#lam",)) is not None:
            return sim.call_lambda(st.heap[c.objpath + ("#lam",)], c.depth, st, c.args, c.argpaths)
        if c.n.get("cls") == self.cvcls and not self.label.startswith("ConditionVariable"):
            # used by the flag: what the class guarantees
            if name == "notify":
                return [(U, self.mark(st, ("notified", "notify_all")))]
            if name.startswith("wait") and c.argpaths[0] is not None:
                l = c.argpaths[0]
                m, own = st.heap.get(l + (self.f_mutex,)), st.heap.get(l + (self.f_own,))
                if own != TRUE or m is None or m[0] != "p" or ("held", self.mutex(m[1])) not in st.ts:
                    self.report("wait-with-lock", c.fn, c.node, "waits with a lock that is not held", st)
                    return [(U, st)]
                k = 2 if name == "wait_for" else 1
                p = self.pred(sim, c, k, st)
                st = self.mark(st, ("slept",))
                outs = []
                for v in (TRUE, FALSE):
                    s = st.copy()
                    s.heap[self.flag] = v       # other threads change the flag meanwhile
                    for truth, s2 in (self.evaluate(sim, c, p, s) if p is not None and p != "given" else [(True, s)]):
                        if truth or name == "wait_for":
                            s2 = s2.copy()
                            s2.heap[l + (self.f_own,)] = FALSE
                            outs.append((TRUE if truth else FALSE, self.unlock(sim, c.fn, c.node, s2, m[1])))
                return outs
        if c.objpath is not None and c.objpath == self.flag:
            v = st.heap.get(c.objpath)
            if name in ("load",) or name.startswith("operator ") or name == "operator bool":
                return [(v, st)]
            if name in ("store", "exchange", "operator="):
                a = c.args[0]
                k = sim.const_of(st, a) if a is not None else None
                st = st.copy()
                st.heap[c.objpath] = ("c", k) if k is not None else U
                return [(v, st)]
            if name.startswith("compare_exchange"):
                raise model.AnalysisBroken("compare_exchange on the flag is not modelled")
        return None

    def on_subobject_end(self, sim, fn, depth, e, st):
        return st if isinstance(st, list) else [st]

    flag = None
    timed_root = False


@functools.lru_cache(None)
def run(config):
    prog = model.load(config)
    bad, ops, n, classes = [], set(), 0, set()

    def methods(cls):
        fs = [f for f in prog.fns.values() if f.cls == NS + cls and f.blocks and f.kind != "lambda"]
        if not fs:
            raise model.AnalysisBroken("class %s not found" % cls)
        classes.add(cls)
        return fs

    def fld(cls, pred):
        r = [f["name"] for f in prog.classes[NS + cls]["fields"] if pred(norm(f["type"]))]
        if len(r) != 1:
            raise model.AnalysisBroken("fields of %s not recognised" % cls)
        return r[0]

    def go(f, label, st, args=None, **kw):
        nonlocal n
        c = WrapClient(prog, label)
        c.root = f
        for k, v in kw.items():
            setattr(c, k, v)
        outs = Sim(prog, c).run(f, args=args, st=st)
        n += len(outs)
        return c, outs

    def done(c):
        bad.extend(c.bad)
        ops.update(c.ops)

    # ---- mutex
    for f in methods("Mutex"):
        lab = "Mutex::" + f.name
        mtx = fld("Mutex", lambda t: t == "std::mutex")
        hold = ("held", ("this", mtx))
        if f.name in ("lock", "unlock"):
            st = State(ts=frozenset([hold] if f.name == "unlock" else []))
            c, outs = go(f, lab, st)
            for rv, s in outs:
                if (hold in s.ts) != (f.name == "lock"):
                    c.report("faithful", f, None, "the mutex is not %sed" % f.name, s)
            done(c)
        if f.name == "nativeHandle":
            c, outs = go(f, lab, State(ts=frozenset()))
            for rv, s in outs:
                if rv != ("p", ("this", mtx)):
                    c.report("faithful", f, None, "the handle of another mutex is returned", s)
            done(c)
    # ---- scoped locks
    for cls in LOCKING:
        for f in methods(cls):
            refs = [x["name"] for x in prog.classes[NS + cls]["fields"] if norm(x["type"]).rstrip(" &*") == NS + "Mutex"]
            if f.kind == "ctor" and len(f.params) == 1 and not f.copyctor and not f.movector:
                c, outs = go(f, cls, State(ts=frozenset()), {0: ("alias", M1)})
                for rv, s in outs:
                    if ("held", M1) not in s.ts:
                        c.report("faithful", f, None, "the constructor does not lock the mutex", s)
                done(c)
            if f.kind == "dtor":
                st = State(ts=frozenset([("held", M1)]))
                for x in refs:
                    st.heap[("this", x)] = ("ref", M1)
                c, outs = go(f, "~" + cls, st)
                for rv, s in outs:
                    if ("held", M1) in s.ts:
                        c.report("faithful", f, None, "the destructor does not unlock the mutex", s)
                done(c)
    # ---- UniqueLock
    fm = fld("UniqueLock", lambda t: t.replace("const", "").replace(" ", "") == NS + "Mutex*")
    fo = fld("UniqueLock", lambda t: t == "bool")
    PRE = {"empty": (None, False), "unlocked": (1, False), "locked": (1, True)}

    def put(st, path, m, own):
        st.heap[path + (fm,)] = ("p", m) if m is not None else NULL
        st.heap[path + (fo,)] = TRUE if own else FALSE
        if own:
            st.ts |= {("held", m)}

    def get(sim_st, path):
        m, o = sim_st.heap.get(path + (fm,)), sim_st.heap.get(path + (fo,))
        return (m[1] if m is not None and m[0] == "p" else None if m == NULL else "?"), (True if o == TRUE else False if o == FALSE else "?")

    src = (("o", "src"),)
    seen = set()
    for f in methods("UniqueLock"):
        two = f.movector or f.name == "operator="
        if f.copyctor or f.defaulted and f.kind == "ctor":
            continue
        role = "move" if f.movector else "ctor" if f.kind == "ctor" else "dtor" if f.kind == "dtor" else "assign" if f.name == "operator=" else f.name
        seen.add(role)
        lab = "UniqueLock::" + f.name
        for p1, (m, o) in PRE.items():
            if f.kind == "ctor" and p1 != "empty":
                continue
            for p2, (m2, o2) in (PRE.items() if two else [(None, (None, False))]):
                st = State(ts=frozenset())
                if f.kind != "ctor":
                    put(st, ("this",), M1 if m else None, o)
                args = {}
                if two:
                    put(st, src, M2 if m2 else None, o2)
                    args = {0: ("alias", src)}
                elif role == "ctor":
                    args = {0: ("alias", M1)}
                c, outs = go(f, lab, st, args, f_mutex=fm, f_own=fo)
                for rv, s in outs:
                    mm, oo = get(s, ("this",))
                    h1, h2 = ("held", M1) in s.ts, ("held", M2) in s.ts
                    bad_ = lambda rule, msg: c.report(rule, f, None, msg + " (called for %s lock%s)" % ({"empty": "an empty", "unlocked": "an unlocked", "locked": "a locked"}[p1], (", moved from %s one" % p2) if two else ""), s)
                    if role == "dtor":
                        if h1:
                            bad_("faithful", "the mutex stays locked")
                        continue
                    if two:
                        ms, os_ = get(s, src)
                        if (mm, oo) != (M2 if m2 else None, o2):
                            bad_("faithful", "the lock is not taken over")
                        if (ms, os_) != (None, False):
                            bad_("faithful", "the source of a move still refers to the mutex")
                        if h1:
                            bad_("faithful", "the lock held before stays locked for ever")
                        if h2 != o2:
                            bad_("faithful", "moving a lock changes the state of the mutex")
                        continue
                    want = {"ctor": (M1, True, True), "lock": (M1 if m else None, bool(m), bool(m)), "unlock": (M1 if m else None, False, False), "release": (None, False, o)}.get(role, (M1 if m else None, o, o))
                    if oo != want[1] or h1 != want[2]:
                        bad_("faithful", "the mutex is %s and the lock says that it %s it" % ("locked" if h1 else "not locked", "owns" if oo is True else "does not own"))
                    elif mm != want[0]:
                        bad_("faithful", "the lock forgets its mutex or keeps one it gave up")
                    if role in ("owns_lock", "operator bool"):
                        if sim_truth(rv) is not o:
                            bad_("faithful", "tells the wrong state")
                    if role in ("mutex", "release"):
                        got = rv[1] if rv is not None and rv[0] == "p" else None if rv == NULL else "?"
                        if got != (M1 if m else None):
                            bad_("faithful", "returns another mutex")
                done(c)
    for x in ("ctor", "dtor", "lock", "unlock"):
        if x not in seen:
            raise model.AnalysisBroken("UniqueLock has no " + x)
    # ---- ConditionVariable
    for f in methods("ConditionVariable"):
        lab = "ConditionVariable::" + f.name
        if f.name in ("wait", "wait_for"):
            pi = next((i for i, q in enumerate(f.params) if "std::function" in q["type"]), None)
            ti = next((i for i, q in enumerate(f.params) if norm(q["type"]).replace("const ", "") == "int"), None)
            for given in (True, False):
                st = State(ts=frozenset())
                lk, pr = (("o", "sync"),), (("o", "pred"),)
                put(st, lk, M1, True)
                st.heap[pr + ("#pred",)] = TRUE if given else FALSE
                args = {0: ("alias", lk)}
                if pi is not None:
                    args[pi] = ("alias", pr)
                if ti is not None:
                    args[ti] = MS
                    st.heap[("this", "#pin", "ms")] = MS
                c, outs = go(f, lab, st, args, f_mutex=fm, f_own=fo, timed_root=ti is not None)
                for rv, s in outs:
                    bad_ = lambda rule, msg: c.report(rule, f, None, msg + (" (with predicate)" if given else " (without predicate)"), s)
                    mm, oo = get(s, lk)
                    if ("held", M1) in s.ts or oo is not False:
                        bad_("wait-releases", "the lock is not released on return, or does not know it")
                    r = sim_truth(rv) if f.name == "wait_for" else True
                    if f.name == "wait_for" and r is None:
                        bad_("wait-until", "the result does not tell why the wait ended")
                    elif given and (("ok",) if r else ("nok",)) not in s.ts:
                        bad_("wait-until", "returns although the predicate was not %s when it was checked last" % ("fulfilled" if r else "unfulfilled"))
                    elif not given and ("slept",) not in s.ts:
                        bad_("wait-until", "does not wait")
                    elif not given and f.name == "wait_for" and r == (("timeout",) in s.ts):
                        bad_("wait-until", "the result does not tell whether the time has elapsed")
                done(c)
        if f.name == "notify":
            c, outs = go(f, lab, State(ts=frozenset()), f_mutex=fm, f_own=fo)
            for rv, s in outs:
                if ("notified", "notify_all") not in s.ts:
                    c.report("wakes-all", f, None, "not all waiting threads are woken up", s)
            done(c)
    # ---- AtomicFlag
    val = fld("AtomicFlag", lambda t: t in ("std::atomic_bool", "std::atomic<bool>"))
    fmx = fld("AtomicFlag", lambda t: t == NS + "Mutex")
    flag = ("this", val)
    for f in methods("AtomicFlag"):
        lab = "AtomicFlag::" + f.name
        if f.kind in ("ctor", "dtor"):
            continue
        for v in (True, False):
            for old in ((True, False) if f.name == "wait" else (None,)):
                st = State(ts=frozenset())
                st.heap[flag] = FLAGV[v]
                c, outs = go(f, lab, st, {0: FLAGV[old]} if old is not None else {}, f_mutex=fm, f_own=fo, flag=flag)
                for rv, s in outs:
                    bad_ = lambda msg: c.report("flag", f, None, msg, s)
                    now = s.heap.get(flag)
                    if f.name == "test_and_set" and (now != TRUE or sim_truth(rv) is not v):
                        bad_("the flag is not set or its previous value is not returned")
                    if f.name == "clear" and now != FALSE:
                        bad_("the flag is not cleared")
                    if f.name == "test" and (sim_truth(rv) is not v or now != FLAGV[v]):
                        bad_("the value of the flag is not returned")
                    if f.name == "notify" and not any(q[0] == "notified" for q in s.ts):
                        bad_("waiting threads are not woken up")
                    if f.name == "wait":
                        if now == FLAGV[old]:
                            bad_("returns although the flag still has the old value")
                        if any(q[0] == "held" for q in s.ts):
                            bad_("the mutex of the flag stays locked")
                        if v != old and ("slept",) in s.ts:
                            bad_("waits although the flag has changed already")
                    if f.name == "lock":
                        p = rv[1] if rv is not None and rv[0] == "p" else None
                        mm, oo = get(s, p) if p else (None, None)
                        if oo is not True or mm is None or mm == "?" or ("held", mm[:2]) not in s.ts or mm[:2] != ("this", fmx):
                            bad_("does not return a lock that holds the mutex of the flag")
                if not outs and not (f.name == "wait" and v == old):
                    c.report("flag", f, None, "never returns", State(ts=frozenset()))
                done(c)
    return bad, ops, n, classes


def sim_truth(v):
    return True if v == TRUE else False if v == FALSE else None


def witness(config):
    src = os.path.join(model.VERIF, "witness", "noncopyable.cpp")
    r = subprocess.run(["clang++", "-fsyntax-only"] + model.config_flags(config) + [src], capture_output=True, text=True)
    errs = [l for l in r.stderr.splitlines() if "error:" in l]
    return r.returncode, errs


RULES = ("faithful", "lock-once", "wait-with-lock", "wait-releases", "wait-until", "timeout", "wakes-all", "flag", "single-owner")


@check("P11", "Every method of Mutex, LockGuard, CriticalSection, UniqueLock, ConditionVariable and AtomicFlag from every state of its object (UniqueLock: empty, unlocked, locked; for moves of both objects): typestate of the "
       "mutex against what the object says, outcome of waits; copying is excluded by a compile-time witness.", ["std::mutex, std::condition_variable and std::atomic behave as documented", "wait() is called with a locked lock"],
       "typestate over path-sensitive abstract interpretation + compile-time witness (static_assert)")
def p11(rep, tier):
    for config in configs(tier):
        bad, ops, n, classes = run(config)
        rc, errs = witness(config)
        if rc != 0:
            mine = [e for e in errs if "static assertion failed" in e or "static_assert failed" in e]
            if not mine:
                raise model.AnalysisBroken("witness does not compile: " + "; ".join(errs)[:400])
            for e in mine:
                rep.violate("single-owner", e.split(": ", 3)[-1], "witness/noncopyable.cpp", e.split("error: ")[-1])
        for rule in RULES:
            mine = [b for b in bad if b[0] == rule]
            for r, key, loc, msg, path in mine:
                rep.violate(r, key, loc, msg, path)
            if not mine:
                rep.ob(rule, True)
        rep.stat("lock_operations", len(ops))
        rep.stat("path_classes", n)
        rep.stat("classes", len(classes))
        if not rep.violations and len(ops) < 4:
            raise model.AnalysisBroken("operations on mutexes not recognised")
