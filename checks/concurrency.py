"""P01-P03, P05: lockset, lock-order and callback-under-lock rules over the interprocedural lock study."""
import re
from engine.registry import check
from engine import lockdata, locks, model
from engine.locks import IMPL, FACADE, BASE, CONTAINERS

ASSUME = ["user callbacks do not throw", "release(), stop() and destruction are not invoked from inside a callback of the same machine",
          "configuration methods (register*, setInitialState) run before initialize(), as documented",
          "glib, glibmm, Qt and libstdc++ primitives behave as documented"]


def configs(tier):
    return ("posix",) if tier == "quick" else ("posix", "posix-trace", "posix-min")


def norm(ty):
    return ty.replace("const ", "").replace("mutable ", "").replace("volatile ", "").strip()


def is_container(ty):
    return norm(ty).startswith(CONTAINERS)


def is_shared_object(ty):
    t = norm(ty)
    m = re.match(r"std::unique_ptr<([\w:]+)", t)
    if m and not m.group(1).startswith(("hsmcpp::", "std::")):
        return False                 # handle of a native library object: its own library's rules apply
    return t.startswith(CONTAINERS + ("std::shared_ptr", "std::weak_ptr", "std::unique_ptr", "std::function", "std::basic_filebuf",
                                      "std::basic_string", "std::basic_ostream", "std::basic_ofstream", "std::filebuf"))


def is_scalar(ty, prog):
    t = norm(ty)
    if t.endswith("]"):
        return False
    if t in ("bool", "char", "short", "int", "long", "long long", "unsigned int", "unsigned long", "unsigned char", "unsigned short",
             "unsigned long long", "float", "double", "size_t"):
        return True
    return t in prog.enums


def real(held):
    return frozenset(h for h in held if h != "global:INTERRUPTS" and not h.startswith("?") and h != "local")


def owners(prog):
    r = {IMPL, FACADE}
    for d in prog.concrete_dispatchers():
        r.add(d)
        r.update(prog.superclasses(d))
    return r


def role_of(d, root):
    r = d.roles[root]
    if r == "setup":
        return "release" if root.endswith("release") else "init"
    return r


def concurrent(d, op, ra, rb, roota, rootb):
    """may two accesses made from these entry points overlap in time?"""
    s = {ra, rb}
    if s == {"init", "loop"} and op[0] in (IMPL, FACADE):
        return False                 # the machine's own handlers run only after its own events; start-up gating is P10
    if "owner" in s:
        return False                 # documented as not thread-safe
    if "init" in s:
        return s == {"init", "loop"}  # initialize() precedes every other use, but its dispatcher is already running
    if s == {"release"}:
        return False
    if s == {"loop"}:
        return roota != rootb and d.threads >= 2
    return True


def threads_of(prog, disp):
    """number of own threads the dispatcher has (std::thread members)"""
    n = 0
    for c in [disp] + prog.superclasses(disp):
        n += sum(1 for f in prog.classes.get(c, {}).get("fields", ()) if f["type"] in ("std::thread", "std::jthread"))
    return n


def short(o):
    return "%s::%s" % (o[0].replace("hsmcpp::", "").replace("HierarchicalStateMachine::Impl", "Impl"), o[1])


def race_pairs(rep, rule, data, select):
    total_fields = 0
    for d in data:
        prog = model.load(d.config)
        d.threads = threads_of(prog, d.disp)
        own = owners(prog)
        acc = {}
        for (op, kind, held), fnk, loc, root, stk in d.accesses:
            if op[0] not in own:
                continue
            ty = d.ftype.get(op, "")
            if lockdata.sync_type(ty) or not select(ty, op, prog):
                continue
            acc.setdefault(op, []).append((role_of(d, root), root, kind, real(held), loc, stk))
        for op, l in sorted(acc.items()):
            total_fields += 1
            # fold identical (role, root, write, held)
            g = {}
            for a in l:
                g.setdefault((a[0], a[1], a[2] != "r", a[3]), a)
            g = list(g.items())
            npairs = 0
            for i, (ka, a) in enumerate(g):
                for kb, b in g[i:]:
                    if not (ka[2] or kb[2]) or not concurrent(d, op, ka[0], kb[0], ka[1], kb[1]):
                        continue
                    if ka is kb and ka[0] != "any":
                        continue
                    npairs += 1
                    common = ka[3] & kb[3]
                    if common:
                        rep.ob(rule)
                        continue
                    w, o = (a, b) if ka[2] else (b, a)
                    rep.violate(rule, "%s:%s|%s" % (short(op), w[5][-1] if w[5] else "?", o[5][-1] if o[5] else "?"), w[4],
                                "%s is modified (locks held: %s) while %s may access it at %s (locks held: %s) with no common lock [%s]" % (
                                    short(op), ", ".join(sorted(w[3])) or "none", o[1], o[4], ", ".join(sorted(o[3])) or "none",
                                    d.disp.split("::")[-1]),
                                ["write path: " + " -> ".join(w[5]), "other path: " + " -> ".join(o[5])])
            if npairs:
                rep.samples.append("%s [%s]: %d conflicting pairs share a lock" % (short(op), d.disp.split("::")[-1], npairs))
    rep.stat("shared_fields", total_fields)
    return total_fields


def base_stats(rep, data):
    rep.stat("dispatchers", sorted({d.disp.split("::")[-1] + "/" + d.config for d in data}))
    rep.stat("entry_points", sum(len(d.roles) for d in data))
    rep.stat("functions_inlined", sum(d.inlined for d in data))
    rep.stat("accesses", sum(len(d.accesses) for d in data))


@check("P01", "Lockset analysis: every pair of accesses to a shared queue, registry, reference or log object that can be made "
       "concurrently from two public entry points / dispatcher threads, at least one of them a write, must hold a common mutex. "
       "Accesses and locksets come from an interprocedural path-merging abstract interpretation of every thread-safe API, release() "
       "and every dispatcher loop, with virtual calls resolved to each concrete dispatcher.", ASSUME,
       technique="interprocedural lockset dataflow over clang CFGs")
def p01(rep, tier):
    data = lockdata.collect(configs(tier))
    base_stats(rep, data)
    race_pairs(rep, "common-lock", data, lambda ty, op, p: is_shared_object(ty))
    rep.floor("common-lock", 20, "conflicting access pairs on shared containers")


@check("P05", "Lockset analysis restricted to scalar flags and counters: every boolean, integer or enumeration member that is written from "
       "one thread and accessed from another is an atomic or all concurrent pairs hold a common mutex.", ASSUME,
       technique="interprocedural lockset dataflow over clang CFGs")
def p05(rep, tier):
    data = lockdata.collect(configs(tier))
    base_stats(rep, data)
    race_pairs(rep, "scalar-common-lock", data, lambda ty, op, p: is_scalar(ty, p))
    # atomics that are shared: count as discharged by type
    at = set()
    for d in data:
        for (op, kind, held), fnk, loc, root, stk in d.accesses:
            if "std::atomic" in d.ftype.get(op, ""):
                at.add((d.disp, op))
    for a in sorted(at):
        rep.ob("atomic-flag", sample="%s [%s]" % (short(a[1]), a[0].split("::")[-1]))
    rep.floor("atomic-flag", 2, "atomic stop flags")


def lock_graph(data):
    edges = {}
    selfs = []
    for d in data:
        for (held, lock, again), fnk, loc, root, stk in d.acquires:
            if lock == "global:INTERRUPTS" or lock.startswith("?") or lock == "local":
                continue
            if again:
                selfs.append((d, lock, loc, root, stk))
            for h in real(held):
                if h != lock:
                    edges.setdefault((h, lock), (d, loc, root, stk))
    return edges, selfs


def cycles(edges):
    import networkx as nx
    g = nx.DiGraph()
    g.add_edges_from(edges)
    return [sorted(c) for c in nx.strongly_connected_components(g) if len(c) > 1]


def find_cycle(edges, comp):
    comp = set(comp)
    succ = {}
    for a, b in edges:
        if a in comp and b in comp:
            succ.setdefault(a, []).append(b)
    start = sorted(comp)[0]
    path, seen = [start], {start}
    while True:
        n = sorted(succ[path[-1]])[0]
        path.append(n)
        if n in seen:
            return path[path.index(n):]
        seen.add(n)


def sccs(edges):
    succ = {}
    nodes = set()
    for a, b in edges:
        succ.setdefault(a, set()).add(b)
        nodes |= {a, b}
    reach = {}
    for n in nodes:
        seen, todo = set(), [n]
        while todo:
            x = todo.pop()
            for y in succ.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        reach[n] = seen
    res, done = [], set()
    for n in sorted(nodes):
        if n in done:
            continue
        c = {m for m in reach[n] if n in reach[m]}
        if n in reach[n]:
            c.add(n)
        if len(c) > 1:
            res.append(c)
            done |= c
    return res


def lk(x):
    return x.replace("hsmcpp::", "").replace("HierarchicalStateMachine::Impl", "Impl")


def callback_edges(data):
    """locks held while user code runs -> locks user code may take by calling the thread-safe API"""
    edges = {}
    for d in data:
        api = {}
        for (held, lock, again), fnk, loc, root, stk in d.acquires:
            if d.roles[root] in ("any", "owner") and lock != "global:INTERRUPTS" and not lock.startswith("?") and lock != "local":
                api.setdefault(lock, (loc, root))
        for (held, sig), fnk, loc, root, stk in d.usercalls:
            for h in real(held):
                for l, (aloc, aroot) in api.items():
                    edges.setdefault((h, l), (d, loc, root, stk, aloc, aroot, sig))
    return edges


@check("P02", "The graph 'lock A is held while lock B is acquired' over all entry points, dispatcher loops and user-callback sites (user code "
       "may call every thread-safe API) must be acyclic; no mutex is acquired while already held; every entry point returns with the "
       "locks it started with; no thread is joined and no condition is awaited while an unrelated mutex is held.", ASSUME,
       technique="interprocedural lock-order graph, cycle detection")
def p02(rep, tier):
    data = lockdata.collect(configs(tier))
    base_stats(rep, data)
    edges, selfs = lock_graph(data)
    cb = callback_edges(data)
    for d, lock, loc, root, stk in selfs:
        rep.violate("no-recursive-lock", "%s in %s" % (lk(lock), stk[-1] if stk else "?"), loc,
                    "%s is acquired while already held (entry point %s)" % (lk(lock), root), [" -> ".join(stk)])
    alle = dict(edges)
    for k, v in cb.items():
        if k[0] != k[1]:
            alle.setdefault(k, v)
    for e in alle:
        rep.ob("lock-order", sample="%s -> %s" % (lk(e[0]), lk(e[1])))
    for c in sccs(alle):
        rest = [(e, v) for e, v in sorted(alle.items()) if e[0] in c and e[1] in c]
        e0, v0 = rest[0]
        rep.violate("lock-order", "cycle " + " / ".join(sorted(lk(x) for x in c)), v0[1],
                    "lock order cycle between " + ", ".join(sorted(lk(x) for x in c)),
                    ["%s -> %s at %s via %s%s" % (lk(e[0]), lk(e[1]), v[1], " -> ".join(v[3]),
                                                  (" (user callback may call %s)" % v[5]) if len(v) > 4 else "") for e, v in rest])
    nroots = 0
    for d in data:
        nroots += len(d.roles)
        for f, loc, l in d.unbalanced:
            rep.violate("balanced", "%s leaves %s" % (f, ", ".join(lk(x) for x in l)), loc, "%s returns while holding %s" % (f, ", ".join(l)))
        for (cv, lock, held, qn), fnk, loc, root, stk in d.waits:
            others = real(held) - ({lock} if lock else set())
            rep.check(not others, "wait-holds-nothing-else", "%s in %s" % (lk(cv), stk[-1]), loc,
                      "waiting on %s while holding %s (entry point %s)" % (lk(cv), ", ".join(lk(x) for x in others), root), [" -> ".join(stk)])
            rep.check(lock is not None, "wait-with-lock", "%s in %s" % (lk(cv), stk[-1]), loc,
                      "condition %s is awaited without holding its lock" % lk(cv), [" -> ".join(stk)])
        for (held,), fnk, loc, root, stk in d.joins:
            rep.check(not real(held), "join-holds-nothing", stk[-1], loc, "thread joined while holding %s" % ", ".join(held), [" -> ".join(stk)])
    rep.ob("balanced", n=nroots)
    rep.stat("locks", len({x for e in edges for x in e}))
    rep.floor("lock-order", 5, "nested acquisitions")


@check("P03", "No user-supplied callback (condition, transition, enter, exit, changed, failed-transition, action) is invoked while a mutex "
       "that the thread-safe API acquires is held: at every std::function call that is not one of the library's own handlers, the "
       "interprocedural lockset is intersected with the locks acquired by every thread-safe entry point.", ASSUME,
       technique="interprocedural lockset dataflow at callback call sites")
def p03(rep, tier):
    data = lockdata.collect(configs(tier))
    base_stats(rep, data)
    sites = set()
    for d in data:
        api = {}
        for (held, lock, again), fnk, loc, root, stk in d.acquires:
            if d.roles[root] in ("any", "owner"):
                api.setdefault(lock, root)
        for (held, sig), fnk, loc, root, stk in d.usercalls:
            sites.add((loc, sig))
            bad = [h for h in real(held) if h in api]
            rep.check(not bad, "callback-without-api-lock", "%s called in %s" % (sig, stk[-1]), loc,
                      "user callback %s runs while %s is held, which %s acquires (entry point %s)" % (
                          sig, ", ".join(lk(b) for b in bad), api.get(bad[0]) if bad else "", root), [" -> ".join(stk)],
                      sample="%s at %s holds {%s}" % (sig, loc, ", ".join(sorted(lk(x) for x in real(held)))))
    rep.stat("callback_sites", len(sites))
    if len(sites) < 5:
        raise model.AnalysisBroken("only %d user callback call sites found" % len(sites))
