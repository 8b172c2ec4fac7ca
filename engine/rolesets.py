"""Which user callbacks a function may (transitively) invoke, and the function that executes one transition."""
from .events import IMPL, machine, sig_of, Roles
from .model import AnalysisBroken


def direct_roles(prog, roles, f):
    r = f._extra.get("cbroles")
    if r is not None:
        return r
    r = set()
    cands = {}
    for (c, nm), role in roles.cb.items():
        cands.setdefault(nm, set()).add((c, role))
    for n in f.nodes:
        if n["k"] == "Call" and n.get("name") == "operator()" and "obj" in n and str(n.get("cls", "")).startswith("std::function"):
            i = n["obj"]
            while f.nodes[i]["k"] == "Cast" or (f.nodes[i]["k"] == "Call" and f.nodes[i].get("name") == "move" and f.nodes[i]["args"]):
                i = f.nodes[i]["c"][0] if f.nodes[i]["k"] == "Cast" else f.nodes[i]["args"][0]
            m = f.nodes[i]
            if m["k"] == "Field" and (m.get("owner"), m["name"]) in roles.cb:
                r.add(roles.cb[(m["owner"], m["name"])])
                continue
            s = sig_of(m.get("ty", "") if "function" in m.get("ty", "") else m.get("vty", ""))
            if s is None:
                continue
            # a copy of a callback: which callback fields does this function (or the argument) mention?
            near = {roles.cb[(x.get("owner"), x["name"])] for x in f.nodes if x["k"] == "Field" and (x.get("owner"), x["name"]) in roles.cb}
            same = {role for (c, nm), role in roles.cb.items() for fl in prog.classes[c]["fields"] if fl["name"] == nm and sig_of(fl["type"]) == s}
            r |= (near & same) or same
    f._extra["cbroles"] = r
    return r


def closure_roles(prog, roles, key, memo=None, skip=()):
    memo = memo if memo is not None else prog.__dict__.setdefault("_cbclosure", {})
    seen, todo, res = {key}, [key], set()
    if key in memo:
        return memo[key]
    while todo:
        k = todo.pop()
        f = prog.fns.get(k)
        if f is None:
            continue
        res |= direct_roles(prog, roles, f)
        for c in prog.callees(f):
            g = prog.fns.get(c)
            if g is not None and c not in seen and machine(g):
                seen.add(c)
                todo.append(c)
    memo[key] = res
    return res


def transition_root(prog, roles):
    """the innermost implementation function that selects, exits, executes and enters: one transition from one source state"""
    need = {"EXIT", "TRANS", "ENTER", "COND"}
    full = [f for f in prog.fns.values() if f.cls == IMPL and f.kind not in ("ctor", "dtor") and need <= closure_roles(prog, roles, f.key)]
    inner = [f for f in full if not any(g.key != f.key and g.key in prog.callgraph_closure([f.key]) for g in full)]
    if len(inner) != 1:
        raise AnalysisBroken("function that executes a single transition is ambiguous: %s" % [f.short() for f in inner])
    return inner[0], full
