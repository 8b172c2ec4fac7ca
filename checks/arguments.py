"""P27: the arguments of an event reach every callback it causes."""
from engine.registry import check
from engine import model
from engine.events import INSERT
from engine.sim import Sim, State, U, TRUE, tmpl
from engine.rolesets import closure_roles
from checks.concurrency import ASSUME, configs, norm
from checks.transition import TransClient, explore, TECH
from checks.outcome import OutcomeClient
from checks.queue import QueueClient, Parts

TAG = "#args"
EV = ("c", "arguments of the event")
RULES = ("callback-arguments", "continuation-arguments", "posted-arguments", "dispatched-arguments", "arguments-survive-copies", "accessor")


def plain(ty):
    return norm(ty).replace("const", "").replace("&", "").strip()


def is_vec(ty):
    t = plain(ty)
    return "Variant" in t and ("vector<" in t or t.endswith("VariantVector_t"))


class Args:
    """mixin: which event the arguments in an object come from"""

    def tagof(self, sim, st, path):
        if path is not None and len(path) >= 1 and path + (TAG,) not in st.heap and path + ("*ptr",) not in st.heap and path + ("*", TAG) in st.heap:
            return st.heap[path + ("*", TAG)]
        while path is not None and len(path) >= 1:
            v = st.heap.get(path + (TAG,))
            if v is not None:
                return v
            p = st.heap.get(path + ("*ptr",))
            if p is not None and p[0] == "p" and p[1] != path:
                v = st.heap.get(p[1] + (TAG,))
                if v is not None:
                    return v
            path = path[:-1]
        return None

    def given(self, sim, st, path):
        """the object holds the arguments of the event (nothing, if the event has none)"""
        t = self.tagof(sim, st, path)
        if t is None and getattr(self, "evpath", None):
            ev = self.evpath(sim)
            if ev is not None:
                q = ev + (self.f_args, "?")
                return sim.resolve(st, st.heap.get(q, ("s", ("ld", q), True))) is False
        return t == EV

    def join_key(self, st):
        """events with and without arguments are kept apart"""
        return super().join_key(st), frozenset((k, v) for k, v in st.facts.items() if k[0] == "s" and isinstance(k[1], tuple) and k[1][0] == "ld" and isinstance(k[1][1], tuple) and k[1][1][-2:] == (self.f_args, "?"))

    def settag(self, st, path, tag):
        if tag is None or st.heap.get(path + (TAG,)) == tag:
            return st
        st = st.copy()
        st.heap[path + (TAG,)] = tag
        return st

    def on_copy(self, sim, st, src, dst):
        h = getattr(super(), "on_copy", None)
        if h:
            st = h(sim, st, src, dst)
        return self.settag(st, dst, self.tagof(sim, st, src))

    def args_call(self, sim, c):
        """accessor of the arguments, other methods of the event, make_shared"""
        st, n = c.st, c.n
        ev = self.roles.event_cls
        f = self.p.fns.get(c.key)
        if f is not None and f.cls == ev and "obj" in n and c.objpath is not None and f.kind not in ("ctor", "dtor") and not f.name.startswith("operator"):
            if is_vec(f.ret):
                self.count("accessor", f.key)
                return [(("p", c.objpath + (self.f_args, "*")), st)]
        if tmpl(n.get("qn", "")) in ("std::make_shared",) and len(c.args) == 1 and c.argpaths[0] is not None:
            t = self.tagof(sim, st, c.argpaths[0])
            if t is not None:
                return [(v, self.settag(s, v[1], t) if v is not None and v[0] == "p" else s) for v, s in sim.default_call(c)]
        return None

    def vecarg(self, c):
        for i, ty in enumerate(c.n.get("ptys", ())):
            if is_vec(ty) and i < len(c.argpaths):
                return i
        return None


def args_field(prog, ev):
    fs = [f["name"] for f in prog.classes[ev]["fields"] if "Variant" in norm(f["type"]) and "_ptr<" in norm(f["type"])] or \
         [f["name"] for f in prog.classes[ev]["fields"] if is_vec(f["type"])]
    if len(fs) != 1:
        raise model.AnalysisBroken("arguments of a pending event not found")
    return fs[0]


class ArgTrans(Args, TransClient):
    def __init__(self, prog, roles, root):
        self.f_args = args_field(prog, roles.event_cls)
        super().__init__(prog, roles, root)
        self.noinline.add(roles.impl_of("transitionExWithArgsArray").key)     # posting is analysed on its own
        # functions that only create continuations are analysed on their own, too
        self.cont = {}
        for k in prog.callgraph_closure([root.key]):
            f = prog.fns.get(k)
            if f is None or f.key == root.key or not f.cls == root.cls or closure_roles(prog, roles, k):
                continue
            i = next((i for i, q in enumerate(f.params) if plain(q["type"]) == roles.event_cls), None)
            if i is not None and any((n.get("owner"), n.get("name")) == roles.queue for g in prog.callgraph_closure([k]) if g in prog.fns for n in prog.fns[g].nodes if n["k"] == "Field"):
                self.cont[k] = i
        self.cont.pop(root.key, None)
        self.noinline |= set(self.cont)

    def interesting(self, f, n):
        if n["k"] == "Field" and (n.get("owner"), n["name"]) == self.roles.queue:
            return f.cls == self.root.cls
        return super().interesting(f, n)

    def bad27(self, rule, key, fn, node, msg, st):
        self.report(rule, key, fn, node, msg, st)

    def callback(self, sim, c, cb):
        role, cls, rec = cb
        i = self.vecarg_cb(c)
        if i is not None and role in ("TRANS", "ENTER", "CHANGED"):
            ok = self.given(sim, c.st, c.argpaths[i])
            restore = ("veto",) in c.st.ts and role != "TRANS"
            self.count("arguments-" + role, c.fn.loc(c.node))
            if not ok and not restore:
                self.bad27("callback-arguments", {"TRANS": "transition callback", "ENTER": "enter callback", "CHANGED": "state callback"}[role], c.fn, c.node,
                           "a callback is executed without the arguments of the event that caused the transition", c.st)
        return super().callback(sim, c, cb)

    def vecarg_cb(self, c):
        return len(c.argpaths) - 1 if c.argpaths else None

    def on_call(self, sim, c):
        r = self.args_call(sim, c)
        if r is not None:
            return r
        if c.key in self.cont:
            src = c.argpaths[self.cont[c.key]]
            self.count("hand-over", c.fn.loc(c.node))
            if src is None or self.tagof(sim, c.st, src + (self.f_args,)) != EV:
                self.bad27("continuation-arguments", "continuation", c.fn, c.node, "an event that continues (or is generated by) a transition does not carry the arguments of the event that caused it", c.st)
            return None
        if c.name in INSERT and c.objpath is not None and "obj" in c.n and self.owner.get(c.objpath) == self.roles.queue and c.args:
            src = c.argpaths[-1]
            self.count("continuation", c.fn.loc(c.node))
            if src is None or self.tagof(sim, c.st, src + (self.f_args,)) != EV:
                self.bad27("continuation-arguments", "continuation", c.fn, c.node, "an event that continues (or is generated by) a transition does not carry the arguments of the event that caused it", c.st)
            return [(U, sim.kill_elems(c.st, c.objpath))]
        return super().on_call(sim, c)


class ArgOutcome(Args, OutcomeClient):
    def __init__(self, prog, roles, root, inner, hier):
        self.f_args = args_field(prog, roles.event_cls)
        super().__init__(prog, roles, root, inner, hier)

    def on_call(self, sim, c):
        r = self.args_call(sim, c)
        if r is not None:
            return r
        ev = self.evpath(sim)
        if c.key == self.inner.key:
            i = next(i for i, p in enumerate(self.inner.params) if plain(p["type"]) == self.roles.event_cls)
            self.count("hand-over", c.fn.loc(c.node))
            if c.argpaths[i] is None or self.tagof(sim, c.st, c.argpaths[i] + (self.f_args,)) != EV:
                self.report("dispatched-arguments", "transition", c.fn, c.node, "a transition is executed with an event that does not carry its arguments", c.st)
        cb = self.is_cb(c, sim)
        if cb is not None and cb[0] == "FAILED":
            self.count("arguments-FAILED", c.fn.loc(c.node))
            if not self.given(sim, c.st, c.argpaths[-1]):
                self.report("callback-arguments", "failure callback", c.fn, c.node, "the failed-transition callback is not given the arguments of the event that failed", c.st)
        return super().on_call(sim, c)


class ArgQueue(Args, QueueClient):
    def __init__(self, parts, root, role, flags=()):
        self.f_args = args_field(parts.p, parts.roles.event_cls)
        super().__init__(parts, root, role, flags)

    def copy_event(self, sim, c, st, src, dst):
        t = EV if len(src) > 1 and self.is_queue(src[:-1]) else self.tagof(sim, st, src + (self.f_args,))
        st = super().copy_event(sim, c, st, src, dst)
        return self.settag(st, dst + (self.f_args,), t)

    def on_call(self, sim, c):
        r = self.args_call(sim, c)
        return r if r is not None else super().on_call(sim, c)

    def method(self, sim, c):
        keep = {k: v for k, v in c.st.heap.items() if k[-1] == TAG}
        r = super().method(sim, c)
        if r is None:
            return r
        out = []
        for v, s in r:
            for k, t in keep.items():
                s = self.settag(s, k[:-1], t)
            out.append((v, s))
        return out

    def dispatch(self, sim, c):
        i = next(i for i, q in enumerate(self.x.event_fn.params) if plain(q["type"]) == self.roles.event_cls)
        self.count("hand-over", c.fn.loc(c.node))
        if c.argpaths[i] is None or self.tagof(sim, c.st, c.argpaths[i] + (self.f_args,)) != EV:
            self.report("dispatched-arguments", "dispatching", c.fn, c.node, "the event is processed without the arguments it was queued with", c.st)
        return super().dispatch(sim, c)

    def insert(self, sim, c, name, st, q):
        if self.role == "post":
            src = c.argpaths[-1] if c.argpaths else None
            self.count("posted", c.fn.loc(c.node))
            if src is None or self.tagof(sim, st, src + (self.f_args,)) != EV:
                self.report("posted-arguments", "posting", c.fn, c.node, "an event is queued without the arguments it was posted with", st)
        return super().insert(sim, c, name, st, q)


class ArgMember(Args, QueueClient):
    """special members and accessors of the event, executed on their own"""
    compact = False

    def __init__(self, parts, root):
        self.f_args = args_field(parts.p, parts.roles.event_cls)
        super().__init__(parts, root, "member")
        self.noinline -= {f.key for f in parts.p.fns.values() if f.cls == parts.roles.event_cls}

    def interesting(self, f, n):
        return f.cls == self.roles.event_cls

    def inline(self, sim, fn, call_fn):
        return fn.cls == self.roles.event_cls and fn.kind != "dtor"

    def stable(self, path):
        return True

    def on_compare(self, sim, op, a, b, st):
        """an event is never moved into itself"""
        if op in ("==", "!=") and a[0] == "p" and b[0] == "p" and a[1] != b[1] and ("this",) in (a[1], b[1]):
            return ("c", int(op == "!="))
        return None

    def on_construct(self, sim, c):
        return None

    def on_destroy(self, sim, path, rec, loc, st):
        return [st]

    def on_call(self, sim, c):
        return None


def members(rep_bad, x, counts):
    p, ev = x.p, x.roles.event_cls
    fa = args_field(p, ev)
    for f in p.fns.values():
        if f.cls != ev or not f.blocks:
            continue
        src = next((i for i, q in enumerate(f.params) if plain(q["type"]) == ev), None)
        if src is not None and len(f.params) == 1 and (f.kind == "ctor" or f.name == "operator=") and not f.implicit:
            c = ArgMember(x, f)
            sim = Sim(p, c)
            sp = (("o", "param:" + f.params[src]["name"]),)
            st0 = State(ts=frozenset())
            st0.heap[sp + (fa, TAG)] = EV
            for rv, st in sim.run(f, st=st0):
                counts.setdefault("copies", set()).add(f.key)
                if c.tagof(sim, st, ("this", fa)) != EV:
                    rep_bad.append(("arguments-survive-copies", f.short(), f.loc(), "the arguments of the event are lost when it is %s" % ("moved" if "&&" in f.params[0]["type"] else "copied"), []))
        elif is_vec(f.ret) and not f.params:
            c = ArgMember(x, f)
            sim = Sim(p, c)
            st0 = State(ts=frozenset())
            st0.heap[("this", fa, TAG)] = EV
            st0.heap[("this", fa, "?")] = TRUE
            for rv, st in sim.run(f, st=st0):
                counts.setdefault("accessor-checked", set()).add(f.key)
                t = c.tagof(sim, st, rv[1]) if rv is not None and rv[0] == "p" else None
                if t != EV:
                    rep_bad.append(("accessor", f.short(), f.loc(), "the arguments of an event are read from somewhere else", []))


def run(config):
    prog = model.load(config)
    x = Parts(prog)
    roles = x.roles
    fa = args_field(prog, roles.event_cls)
    bad, counts, npaths = [], {}, 0

    def go(c, f, args=None, tagged=()):
        nonlocal npaths
        sim = Sim(prog, c)
        st0 = State(ts=frozenset())
        for q in f.params:
            if plain(q["type"]) == roles.event_cls:
                st0.heap[(("o", "param:" + q["name"]), fa, TAG)] = EV
            elif is_vec(q["type"]):
                st0.heap[(("o", "param:" + q["name"]), TAG)] = EV
        outs = sim.run(f, args=args, st=st0)
        npaths += len(outs)
        for b in c.bad:
            if b[0] in RULES:
                bad.append((b[0], "%s in %s" % (b[1], f.short())) + tuple(b[2:]))
        for k, v in c.counts.items():
            counts.setdefault(k, set()).update(v)

    todo, done = [x.inner.key], set()
    while todo:
        k = todo.pop()
        if k in done:
            continue
        done.add(k)
        c = ArgTrans(prog, roles, prog.fns[k])
        go(c, prog.fns[k])
        todo += sorted(c.cont)
    base = TransClient(prog, roles, x.inner)
    go(ArgOutcome(prog, roles, x.event_fn, x.inner, base.hier), x.event_fn)
    bools = [i for i, p in enumerate(x.post.params) if norm(p["type"]) == "bool"]
    for cl in (0, 1):
        for sy in (0, 1):
            go(ArgQueue(x, x.post, "post", {"clear": cl, "sync": sy, "timeout": ("s", ("timeout",), False)}), x.post, {bools[0]: ("c", cl), bools[1]: ("c", sy)})
    go(ArgQueue(x, x.dispatch, "dispatch", {}), x.dispatch)
    members(bad, x, counts)
    return bad, counts, npaths


@check("P27", "Provenance of the argument list on every path: from the API into the queued event, through every copy and move of the event, out of the queue into the function that executes it, "
       "into continuations, and to every transition, enter, state and failure callback.", ASSUME, TECH)
def p27(rep, tier):
    for config in configs(tier):
        bad, counts, npaths = run(config)
        for rule in RULES:
            mine = [b for b in bad if b[0] == rule]
            seen = set()
            for r, key, loc, msg, path in mine:
                if (key, loc) not in seen:
                    seen.add((key, loc))
                    rep.violate(r, key, loc, msg, path)
            if not mine:
                rep.ob(rule, True)
        for k in ("arguments-TRANS", "arguments-ENTER", "arguments-CHANGED", "arguments-FAILED", "continuation", "posted", "hand-over"):
            rep.stat(k, len(counts.get(k, ())))
            if not counts.get(k) and not rep.violations:
                raise model.AnalysisBroken("%s not recognised" % k)
        rep.stat("path_classes", npaths)
        rep.stat("copies", len(counts.get("copies", ())))
