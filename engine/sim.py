"""Path-sensitive, interprocedural abstract interpreter over the extracted CFGs.

States are explored as a fixpoint over (block, abstract state); project functions are inlined by context (with
memoisation), so helper extraction, renaming of private functions, statement reordering and loop rewrites do not change
what is concluded.  Nothing is executed and no path formula is solved: the value domain is finite (constants, opaque
symbols created at a program point, access paths), branches refine facts about symbols.

Values (hashable tuples):
  ('c', n)            constant (bool/int/enum)
  ('null',)           null pointer
  ('s', id, isbool)   opaque symbol, id is a program point in a context (or a derived tuple)
  ('p', path)         pointer/reference to a location
  ('it', path, sym)   iterator into container at path
  ('lam', key, caps)  closure
  ('not', v) ('eq', v, w)  unevaluated predicates
  ('u',)              unknown
Paths are tuples: (root, step, step...).  Roots: 'this', ('v',depth,id), ('t',depth,node), ('g',name), ('o',name).
Steps: field names, ('[]', sym) container element, '*' pointee, '?' truth value of a nullable object.
"""
import re
import sys
from .model import AnalysisBroken

sys.setrecursionlimit(20000)
U = ("u",)
TRUE = ("c", 1)
FALSE = ("c", 0)
NULL = ("null",)


def is_ptr(ty):
    t = ty.rstrip()
    while t.endswith(("const", "volatile")):
        t = t[:-5 if t.endswith("const") else -8].rstrip()
    return t.endswith("*")


class State:
    __slots__ = ("env", "heap", "facts", "ts", "trace", "_key")

    def __init__(self, env=None, heap=None, facts=None, ts=None, trace=None):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.facts = facts if facts is not None else {}
        self.ts = ts
        self.trace = trace
        self._key = None

    def copy(self):
        return State(dict(self.env), dict(self.heap), dict(self.facts), self.ts, self.trace)

    def key(self):
        if self._key is None:
            self._key = (frozenset(self.env.items()), frozenset(self.heap.items()), frozenset(self.facts.items()), self.ts)
        return self._key

    def with_ts(self, ts, note=None):
        s = State(self.env, self.heap, self.facts, ts, self.trace)
        if note is not None:
            s.trace = (self.trace, note)
        return s

    def note(self, n):
        return State(self.env, self.heap, self.facts, self.ts, (self.trace, n))


def trace_list(st, limit=40):
    r = []
    t = st.trace
    while t is not None and len(r) < limit:
        r.append(t[1])
        t = t[0]
    return list(reversed(r))


def contains(v, sub):
    if v == sub:
        return True
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, tuple):
                if contains(x, sub):
                    return True
    return False


def subst(v, sub, rep):
    if v == sub:
        return rep
    if isinstance(v, tuple):
        return tuple(subst(x, sub, rep) if isinstance(x, tuple) else x for x in v)
    return v


READ_METHODS = {"begin", "end", "rbegin", "rend", "cbegin", "cend", "find", "front", "back", "equal_range", "lower_bound",
                "upper_bound", "count", "empty", "size", "data", "get", "operator*", "operator->", "lock", "expired", "operator bool",
                "capacity", "at", "c_str", "length", "joinable", "get_id", "load", "test", "unique", "use_count", "first", "second",
                "base", "str", "is_open", "connected", "native_handle", "id", "rdbuf"}
ITER_METHODS = {"begin", "end", "rbegin", "rend", "cbegin", "cend", "find", "lower_bound", "upper_bound", "erase", "insert", "emplace", "equal_range"}
PASS_FUNCS = {"std::move", "std::forward", "std::addressof", "std::ref", "std::cref", "std::as_const", "std::static_pointer_cast",
              "std::dynamic_pointer_cast", "std::__addressof"}


def tmpl(qn):
    """std::vector<int>::push_back -> std::vector::push_back"""
    if "<" not in qn or "operator<" in qn:
        return qn
    out, d = [], 0
    for ch in qn:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    return "".join(out)


class Client:
    """Override hooks.  Every hook returning states returns a list of State (or (value, State) for calls)."""
    max_states = 60000
    track_this_loads = False
    eq_facts = False
    count_consts = False     # ++ and -- of small known numbers are computed (loops over short arrays are unrolled)
    compact = False          # drop variables and locations that can no longer be named
    join_key = None          # optional method: partition key for flow-sensitive joining

    def inline(self, sim, fn, call_fn):
        return True

    def stable(self, path):
        r = path[0]
        return isinstance(r, tuple) and r[0] in ("v", "t", "o")

    # value hooks
    def on_call(self, sim, c):
        """c: Call record. Return None for default handling, or list of (val, state)."""
        return None

    def on_construct(self, sim, c):
        return None

    def on_destroy(self, sim, path, rec, line, st):
        return [st]

    def on_subobject_end(self, sim, fn, depth, e, st):
        """a destructor destroys a member ('m', name, class) or a base class ('b', class)"""
        return [st]

    def on_store(self, sim, fn, node, path, v, st):
        """an assignment is about to store v"""
        return st

    def on_access(self, sim, fn, node, path, kind, st):
        return st

    def on_return(self, sim, fn, depth, val, st):
        return st

    def on_enter(self, sim, fn, depth, st):
        return st

    def on_branch(self, sim, fn, node, truth, st):
        return st

    def on_compare(self, sim, op, a, b, st):
        """value of a comparison of two values, None if the client knows nothing about it"""
        return None

    def on_dead(self, sim, st, live):
        """symbols outside `live` can no longer be named by the program"""
        return st


class Call:
    __slots__ = ("fn", "node", "n", "depth", "st", "name", "qn", "key", "obj", "objpath", "args", "argpaths", "target", "stack")


class Sim:
    def __init__(self, prog, client, dispatcher=None, max_depth=24):
        self.p = prog
        self.client = client
        self.dispatcher = dispatcher       # concrete class used for dispatcher virtual calls
        self.memo = {}
        self.stack = []
        self.max_depth = max_depth
        self.nstates = 0
        self.inlined = set()
        self.blocks_seen = 0

    # ------------------------------------------------------------------ state helpers
    def gc(self, st):
        """drop facts about symbols nobody refers to"""
        if not st.facts:
            return st
        used = set()

        def walk(v):
            if isinstance(v, tuple):
                if v and v[0] == "s" and len(v) == 3:
                    used.add(v)
                for x in v:
                    if isinstance(x, tuple):
                        walk(x)
        for k, v in st.env.items():
            walk(v)
        for k, v in st.heap.items():
            walk(k)
            walk(v)
        walk(st.ts)
        # facts on element symbols are kept only if used
        def named(s):
            if s[0] != "s":
                return s[1] in used and s[2] in used
            return s in used or (isinstance(s[1], tuple) and s[1] and s[1][0] == "isend" and s[1][1] in used)
        drop = [s for s in st.facts if not named(s)]
        if drop:
            st = st.copy()
            for s in drop:
                del st.facts[s]
        return st

    def fresh(self, st, ident, isbool=False):
        """(re)create symbol; older copies of the same symbol become constants (if known) or unknown"""
        s = ("s", ident, isbool)
        h = getattr(self.client, "on_fresh", None)
        if h:
            st = h(st, s)
        rep = st.facts.get(s)
        rep = rep if rep is not None and rep[0] == "c" else U
        dirty = s in st.facts or (self.client.eq_facts and any(k[0] == "eqf" and (contains(k[1], s) or contains(k[2], s)) for k in st.facts))
        if not dirty:
            for v in st.env.values():
                if contains(v, s):
                    dirty = True
                    break
        if not dirty:
            for k, v in st.heap.items():
                if contains(k, s) or contains(v, s):
                    dirty = True
                    break
        if dirty:
            st = st.copy()
            st.facts.pop(s, None)
            for k in [k for k in st.facts if contains(k, s)]:
                del st.facts[k]
            for k in list(st.env):
                v = st.env[k]
                if contains(v, s):
                    st.env[k] = rep if v == s else subst(v, s, U)
            for k in list(st.heap):
                v = st.heap[k]
                if contains(k, s):
                    del st.heap[k]
                elif contains(v, s):
                    st.heap[k] = rep if v == s else subst(v, s, U)
        return s, st

    def sym(self, fn, node, depth, st, isbool=None):
        if isbool is None:
            isbool = fn.nodes[node].get("ty") in ("bool", "const bool")
        return self.fresh(st, (depth, fn.key, node), isbool)

    def kill_path(self, st, path):
        ks = [k for k in st.heap if k[:len(path)] == path]
        if ks:
            st = st.copy()
            for k in ks:
                del st.heap[k]
        return st

    def store(self, st, path, val):
        st = self.kill_path(st, path)
        st = st.copy()
        if len(path) == 1 and isinstance(path[0], tuple) and path[0][0] == "v":
            st.env[path[0]] = val
        else:
            if val == U:
                st.heap.pop(path, None)
            else:
                st.heap[path] = val
        return st

    def load(self, st, path, isbool=False, force=False):
        """value stored at path; creates a stable symbol if the client considers the path stable. -> (val, st)"""
        if len(path) == 1 and path[0] in st.env:
            v = st.env[path[0]]
            if v[0] != "p" or True:
                return v, st
        if path in st.heap:
            return st.heap[path], st
        if force or self.client.stable(path):
            v = ("s", ("ld", path), isbool)
            st = st.copy()
            if len(path) == 1 and isinstance(path[0], tuple) and path[0][0] == "v":
                st.env[path[0]] = v
            else:
                st.heap[path] = v
            return v, st
        return None, st

    # ------------------------------------------------------------------ facts
    def resolve(self, st, v):
        """-> True/False/None truthiness"""
        if v is None:
            return None
        t = v[0]
        if t == "c":
            return v[1] != 0
        if t == "null":
            return False
        if t in ("p", "it", "lam"):
            return True
        if t == "s":
            f = st.facts.get(v)
            if f is None:
                return None
            if f[0] == "c":
                return f[1] != 0
            if f[0] == "ne" and 0 in f[1]:
                return True
            return None
        if t == "not":
            r = self.resolve(st, v[1])
            return None if r is None else (not r)
        if t == "eq":
            return self.eqv(st, v[1], v[2])
        return None

    def const_of(self, st, v):
        if v is None:
            return None
        if v[0] == "c":
            return v[1]
        if v[0] == "null":
            return 0
        if v[0] == "s":
            f = st.facts.get(v)
            if f is not None and f[0] == "c":
                return f[1]
        if v[0] in ("not", "eq"):
            r = self.resolve(st, v)
            if r is not None:
                return 1 if r else 0
        return None

    def eqv(self, st, a, b):
        if a is None or b is None:
            return None
        ca, cb = self.const_of(st, a), self.const_of(st, b)
        if ca is not None and cb is not None:
            return ca == cb
        if a == b and a != U and a[0] != "it":
            return True
        if a[0] == "it" and b[0] == "it" and a[2] == ("END",) and b[2] == ("END",):
            return True
        if a[0] == "p" and b[0] == "p" and a[1] and b[1] and a[1][:-1] == b[1][:-1] and all(isinstance(x[1][-1], tuple) and x[1][-1][0] == "[]" and isinstance(x[1][-1][1], int) for x in (a, b)):
            return False
        if a[0] == "s" and b[0] == "s":
            f = st.facts.get(self.eqkey(a, b))
            if f is not None:
                return f[1] != 0
        for x, c in ((a, cb), (b, ca)):
            if c is not None:
                if x[0] == "s":
                    f = st.facts.get(x)
                    if f is not None and f[0] == "ne" and c in f[1]:
                        return False
                if c == 0 and x[0] in ("p", "lam"):
                    return False
                if x[0] in ("not", "eq"):
                    r = self.resolve(st, x)
                    if r is not None:
                        return (1 if r else 0) == c
        return None

    def assume(self, st, v, truth):
        """refine; returns state or None if contradictory"""
        if v is None:
            return st
        r = self.resolve(st, v)
        if r is not None:
            return st if r == truth else None
        t = v[0]
        if t == "s":
            if truth and v[2]:
                return self.setfact(st, v, ("c", 1))
            if truth:
                return self.addne(st, v, 0)
            return self.setfact(st, v, ("c", 0))
        if t == "not":
            return self.assume(st, v[1], not truth)
        if t == "eq":
            a, b = v[1], v[2]
            for x, y in ((a, b), (b, a)):
                c = self.const_of(st, y)
                if c is None:
                    continue
                if x[0] == "s":
                    if truth:
                        return self.setfact(st, x, ("c", c))
                    if x[2] and c in (0, 1):
                        return self.setfact(st, x, ("c", 1 - c))
                    return self.addne(st, x, c)
                if x[0] in ("not", "eq") and c in (0, 1):
                    return self.assume(st, x, (c == 1) == truth)
            if a[0] == "s" and b[0] == "s" and a != b and self.client.eq_facts:
                st = st.copy()
                st.facts[self.eqkey(a, b)] = ("c", 1 if truth else 0)
        return st

    def eqkey(self, a, b):
        return ("eqf", a, b) if repr(a) <= repr(b) else ("eqf", b, a)

    def setfact(self, st, s, f):
        old = st.facts.get(s)
        if old is not None:
            if old[0] == "ne" and f[0] == "c" and f[1] in old[1]:
                return None
            if old[0] == "c" and f[0] == "c" and old[1] != f[1]:
                return None
        st = st.copy()
        st.facts[s] = f
        return st

    def addne(self, st, s, c):
        old = st.facts.get(s)
        if old is not None and old[0] == "c":
            return None if old[1] == c else st
        cs = (old[1] if old is not None else frozenset()) | {c}
        st = st.copy()
        st.facts[s] = ("ne", cs)
        return st

    # ------------------------------------------------------------------ expression evaluation (pure, given tmps)
    def decl_path(self, fn, depth, did):
        return (("v", depth, did),)

    def ref_loc(self, fn, depth, n, st):
        """location of a DeclRef"""
        if "global" in n:
            return (("g", n["global"]),)
        k = ("v", depth, n["id"])
        a = st.env.get(("a", depth, n["id"]))     # alias (reference variable / by-ref capture)
        if a is not None:
            return a
        return (k,)

    def loc(self, fn, node, depth, st):
        """access path of an lvalue/object expression, or None"""
        if node is None or node < 0:
            return None
        n = fn.nodes[node]
        k = n["k"]
        if k == "Ref":
            return self.ref_loc(fn, depth, n, st)
        if k == "This":
            return None
        if k == "Field":
            if n["arrow"]:
                b = self.val(fn, n["base"], depth, st)
                if b is not None and b[0] == "p":
                    return self.deref_field(st, b[1] + (n["name"],))
                if b is not None and b[0] in ("s",):
                    return (("o", b),) + (n["name"],)
                return None
            b = self.loc(fn, n["base"], depth, st)
            if b is None:
                return None
            return self.deref_field(st, b + (n["name"],))
        t = st.env.get(("tmp", depth, node))
        if k in ("Call",):
            if t is not None and t[0] == "p":
                return t[1]
            return None
        if k in ("Construct", "InitList", "Lambda"):
            if t is not None and t[0] == "p":
                return t[1]
            return None
        if k == "Un" and n["op"] == "*":
            v = self.val(fn, n["c"][0], depth, st)
            if v is not None and v[0] == "p":
                return v[1]
            if v is not None and v[0] == "it":
                return v[1] + (("[]", v[2]),)
            if v is not None and v[0] == "s":
                return (("o", v),)
            return None
        if k == "Cast":
            return self.loc(fn, n["c"][0], depth, st)
        if k == "Cond":
            c = self.resolve(st, self.val(fn, n["c"][0], depth, st))
            if c is None:
                return None
            return self.loc(fn, n["c"][1] if c else n["c"][2], depth, st)
        if k == "Index":
            base = fn.nodes[n["c"][0]]
            if base.get("ty", "").rstrip(" const").endswith("*"):
                b = self.val(fn, n["c"][0], depth, st)
                e = self.element(b, self.const_of(st, self.val(fn, n["c"][1], depth, st)))
                if e is not None:
                    return e[1]
            b = self.loc(fn, n["c"][0], depth, st)
            i = self.const_of(st, self.val(fn, n["c"][1], depth, st))
            return b + (("[]", "i" if i is None else i),) if b is not None else None
        if k == "Assign":
            return self.loc(fn, n["c"][0], depth, st)
        if k == "Un" and n["op"] in ("++", "--"):
            return self.loc(fn, n["c"][0], depth, st)
        return None

    def deref_field(self, st, path):
        """reference-typed fields alias other locations"""
        v = st.heap.get(path)
        if v is not None and v[0] == "ref":
            return v[1]
        return path

    def val(self, fn, node, depth, st):
        """abstract value of expression; does not create new symbols (reads tmps)"""
        if node is None or node < 0:
            return None
        n = fn.nodes[node]
        k = n["k"]
        t = st.env.get(("tmp", depth, node))
        if t is not None:
            if t[0] == "p" and self.lv_scalar(n):
                return self.peek(st, t[1])
            return t
        if k in ("Lit", "EnumC"):
            return ("c", n["val"]) if "val" in n else U
        if k == "Null":
            return NULL
        if k == "SizeOf":
            return ("c", n["val"]) if "val" in n else U
        if k == "This":
            v = st.env.get(("this", depth))
            return v if v is not None else ("p", ("this",))
        if k == "Ref":
            if "cv" in n:
                return ("c", n["cv"])
            l = self.ref_loc(fn, depth, n, st)
            if n.get("ty", "").endswith("]"):
                return ("p", l + (("[]", 0),))
            v = self.peek(st, l)
            return v
        if k in ("Field", "Index"):
            l = self.loc(fn, node, depth, st)
            if l is not None and n.get("ty", "").endswith("]"):     # array: pointer to its first element
                return ("p", l + (("[]", 0),))
            return self.peek(st, l) if l is not None else None
        if k == "Un":
            op = n["op"]
            if op == "!":
                v = self.val(fn, n["c"][0], depth, st)
                if v is None:
                    return None
                r = self.resolve(st, v)
                return ("not", v) if r is None else ("c", 0 if r else 1)
            if op == "&":
                l = self.loc(fn, n["c"][0], depth, st)
                return ("p", l) if l is not None else None
            if op == "*":
                l = self.loc(fn, node, depth, st)
                return self.peek(st, l) if l is not None else None
            if op == "-":
                v = self.val(fn, n["c"][0], depth, st)
                c = self.const_of(st, v)
                return ("c", -c) if c is not None else None
            return None
        if k == "Bin":
            op = n["op"]
            if op in ("&&", "||"):
                a = self.val(fn, n["c"][0], depth, st)
                ra = self.resolve(st, a)
                if ra is not None:
                    if op == "&&" and not ra:
                        return FALSE
                    if op == "||" and ra:
                        return TRUE
                    b = self.val(fn, n["c"][1], depth, st)
                    return b
                b = self.val(fn, n["c"][1], depth, st)
                rb = self.resolve(st, b)
                if rb is not None:
                    if op == "&&" and not rb:
                        return FALSE
                    if op == "||" and rb:
                        return TRUE
                return None
            if op in ("==", "!="):
                a = self.val(fn, n["c"][0], depth, st)
                b = self.val(fn, n["c"][1], depth, st)
                if a is None or b is None:
                    return None
                r = self.eqv(st, a, b)
                if r is not None:
                    return ("c", int(r == (op == "==")))
                if a == U or b == U:
                    return None
                r = self.client.on_compare(self, op, a, b, st)
                if r is not None:
                    return r
                v = ("eq", a, b)
                return v if op == "==" else ("not", v)
            if op in ("<", ">", "<=", ">="):
                a, b = self.val(fn, n["c"][0], depth, st), self.val(fn, n["c"][1], depth, st)
                r = self.client.on_compare(self, op, a, b, st)
                if r is not None:
                    return r
                a, b = self.const_of(st, a), self.const_of(st, b)
                if a is not None and b is not None:
                    return ("c", int({"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]))
                # an unsigned number compared with the smallest ones: same as (in)equality with 0
                for i, k, o in ((0, b, op), (1, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op])):
                    if k not in (0, 1) or not fn.nodes[n["c"][i]].get("ty", "").replace("const ", "").startswith(("unsigned", "size_t", "std::size_t", "uint")):
                        continue
                    x = self.val(fn, n["c"][i], depth, st)
                    if x is None or x == U or (o, k) not in ((">", 0), ("<=", 0), (">=", 1), ("<", 1)):
                        continue
                    r = self.eqv(st, x, FALSE)
                    pos = o in (">", ">=")
                    if r is not None:
                        return ("c", int(r != pos))
                    return ("not", ("eq", x, FALSE)) if pos else ("eq", x, FALSE)
                return None
            if op == ",":
                return self.val(fn, n["c"][1], depth, st)
            if op in ("+", "-"):
                if self.client.count_consts:
                    a, b = [self.const_of(st, self.val(fn, n["c"][i], depth, st)) for i in (0, 1)]
                    if isinstance(a, int) and isinstance(b, int) and 0 <= (a + b if op == "+" else a - b) <= 8:
                        return ("c", a + b if op == "+" else a - b)
                return self.element(self.val(fn, n["c"][0], depth, st), self.const_of(st, self.val(fn, n["c"][1], depth, st)), op)
            return None
        if k == "Cond":
            c = self.resolve(st, self.val(fn, n["c"][0], depth, st))
            if c is None:
                return None
            return self.val(fn, n["c"][1] if c else n["c"][2], depth, st)
        if k == "Cast":
            return self.val(fn, n["c"][0], depth, st)
        if k == "Assign":
            l = self.loc(fn, n["c"][0], depth, st)
            return self.peek(st, l) if l is not None else None
        if k == "InitList" and len(n["c"]) == 1:
            return self.val(fn, n["c"][0], depth, st)
        if k == "FnRef":
            return ("lam", n["fn"], ())
        if k == "Construct" and len(n["args"]) == 1:
            return None
        return None

    @staticmethod
    def scalar_array(ty):
        """number of elements of a short array of pointers or numbers"""
        m = re.match(r"(.*?)\s*\[(\d+)\]$", ty)
        if not m or int(m.group(2)) > 16:
            return 0
        e = m.group(1).replace("const", "").strip()
        return int(m.group(2)) if e.endswith("*") or e in ("int", "unsigned int", "bool", "char", "long", "unsigned long") else 0

    @staticmethod
    def element(p, k, op="+"):
        """pointer to an element of an array with a known index, moved by k"""
        if p is None or k is None or p[0] != "p" or not p[1] or not isinstance(p[1][-1], tuple) or p[1][-1][0] != "[]" or not isinstance(p[1][-1][1], int):
            return None
        i = p[1][-1][1] + (k if op == "+" else -k)
        return ("p", p[1][:-1] + (("[]", i),)) if 0 <= i <= 16 else None

    @staticmethod
    def lv_scalar(n):
        """a call that returns a reference to a scalar: its value is what is stored there"""
        return n["k"] == "Call" and n.get("lv") and (not n.get("rec") or is_ptr(n.get("ty", ""))) and n.get("name") not in ("operator=",)

    def peek(self, st, l):
        if l is None:
            return None
        if len(l) == 1 and l[0] in st.env:
            return st.env[l[0]]
        return st.heap.get(l)

    # ------------------------------------------------------------------ execution
    def run(self, fn, this=("p", ("this",)), args=None, st=None):
        """execute fn from its entry; returns list of (retval, state)"""
        st = st if st is not None else State()
        st = st.copy()
        depth = 0
        st.env[("this", depth)] = this
        for i, prm in enumerate(fn.params):
            a = (args or {}).get(i)
            if a is not None:
                if a[0] == "alias":
                    st.env[("a", depth, prm["id"])] = a[1]
                else:
                    st.env[("v", depth, prm["id"])] = a
            elif prm["type"].endswith("&"):
                st.env[("a", depth, prm["id"])] = (("o", "param:" + prm["name"]),)
        return self.exec_fn(fn, depth, st)

    def exec_fn(self, fn, depth, st):
        self.inlined.add(fn.key)
        self.stack.append(fn.key)
        try:
            st = self.client.on_enter(self, fn, depth, st)
            if not fn.blocks:
                return [(U, st)]
            results = {}
            seen = {}
            jk = self.client.join_key
            if jk is not None:
                return self.exec_join(fn, depth, st, jk)
            work = [(fn.entry, st)]
            while work:
                b, s = work.pop()
                if self.client.compact:
                    s = self.compact(fn, depth, b, s)
                s = self.gc(s)
                kk = (b, s.key())
                if kk in seen:
                    continue
                seen[kk] = True
                self.nstates += 1
                self.blocks_seen += 1
                if self.nstates > self.client.max_states:
                    raise AnalysisBroken("state limit exceeded in %s" % fn.key)
                if b == fn.exit:
                    rv = s.env.get(("ret", depth), None)
                    # leave frame
                    out = self.leave(s, depth)
                    for o in (self.client.on_return(self, fn, depth, rv, out),):
                        if o is None:
                            continue
                        results.setdefault((rv, o.key()), (rv, o))
                    continue
                for nb, ns in self.exec_block(fn, depth, fn.blocks[b], s):
                    work.append((nb, ns))
            return list(results.values())
        finally:
            self.stack.pop()

    @staticmethod
    def live_in(fn):
        """block -> ids of the local variables that may still be mentioned (backward dataflow)"""
        r = fn._extra.get("live")
        if r is not None:
            return r
        use, kill = {}, {}
        for bid, b in fn.blocks.items():
            u, seen = set(), set()
            todo = [e[1] for e in b["e"] if e[0] in ("s", "t") and isinstance(e[1], int)]
            for e in b["e"]:
                if e[0] == "d":
                    u.add(e[1])
                if e[0] == "i" and e[1].get("init", -1) is not None and e[1].get("init", -1) >= 0:
                    todo.append(e[1]["init"])
            if b.get("t") and b["t"].get("cond", -1) >= 0:
                todo.append(b["t"]["cond"])
            dec = set()
            while todo:
                i = todo.pop()
                if i in seen or i is None or i < 0:
                    continue
                seen.add(i)
                n = fn.nodes[i]
                if n["k"] == "Ref" and "id" in n:
                    u.add(n["id"])
                if n["k"] == "Lambda":
                    u.update(c["id"] for c in n["caps"] if "id" in c)
                if n["k"] == "Decl":
                    dec.update(v["id"] for v in n["vars"])
                todo.extend(ch for ch, _ in fn.kids(i))
            use[bid], kill[bid] = u, dec
        live = {b: set(use[b]) for b in fn.blocks}
        changed = True
        while changed:
            changed = False
            for bid, b in fn.blocks.items():
                n = set(use[bid])
                for x in b["s"]:
                    if x is not None:
                        n |= live[x] - kill[bid]
                if n != live[bid]:
                    live[bid] = n
                    changed = True
        fn._extra["live"] = live
        return live

    def compact(self, fn, depth, b, st):
        live = self.live_in(fn).get(b, ())
        dead = [k for k in st.env if k[0] in ("v", "a") and k[1] == depth and k[2] not in live]
        if dead:
            keep = set()
            for k in dead:
                if k[0] == "v":
                    root = k
                    if any(contains(v, root) for k2, v in st.env.items() if k2 != k) or any(contains(v, root) for v in st.heap.values()):
                        keep.add(k)
            dead = [k for k in dead if k not in keep]
        if dead:
            st = st.copy()
            for k in dead:
                del st.env[k]
        return self.sweep(st, b == fn.exit)

    @staticmethod
    def base_syms(v, out):
        if isinstance(v, tuple):
            if len(v) == 3 and v[0] == "s" and isinstance(v[1], tuple) and v[1] and isinstance(v[1][0], int):
                out.add(v)
                return
            for x in v:
                if isinstance(x, tuple):
                    Sim.base_syms(x, out)

    def sweep(self, st, atexit=False):
        """drop what is only reachable through symbols that no variable holds any more"""
        live = set()
        for k, v in st.env.items():
            self.base_syms(v, live)
        rest = []
        for k, v in st.heap.items():
            ks = set()
            self.base_syms(k, ks)
            if ks:
                rest.append((k, ks, v))
            else:
                self.base_syms(v, live)
        if not rest and not st.ts:
            return st
        changed = True
        while changed and rest:
            changed = False
            nxt = []
            for k, ks, v in rest:
                if ks <= live:
                    n = len(live)
                    self.base_syms(v, live)
                    changed = changed or len(live) != n
                else:
                    nxt.append((k, ks, v))
            rest = nxt
        if rest:
            st = st.copy()
            for k, ks, v in rest:
                del st.heap[k]
        return self.client.on_dead(self, st, live)

    def exec_join(self, fn, depth, st, jk):
        """flow-sensitive mode: states with the same client key are joined at every block"""
        import heapq
        ins = {}
        heap = []
        queued = set()

        def push(b, s):
            if self.client.compact:
                s = self.compact(fn, depth, b, s)
            s = self.gc(s)
            k = (b, jk(s))
            old = ins.get(k)
            if old is not None:
                if old.key() == s.key():
                    return
                s = self.join(old, s)
                if s.key() == old.key():
                    return
            ins[k] = s
            if k not in queued:
                queued.add(k)
                heapq.heappush(heap, (-b, len(ins), k))
        push(fn.entry, st)
        results = {}
        while heap:
            _, _, k = heapq.heappop(heap)
            queued.discard(k)
            b, s = k[0], ins[k]
            self.nstates += 1
            if self.nstates > self.client.max_states:
                raise AnalysisBroken("state limit exceeded in %s" % fn.key)
            if b == fn.exit:
                continue
            for nb, ns in self.exec_block(fn, depth, fn.blocks[b], s):
                push(nb, ns)
        for k, s in ins.items():
            if k[0] != fn.exit:
                continue
            rv = s.env.get(("ret", depth), None)
            out = self.leave(s, depth)
            o = self.client.on_return(self, fn, depth, rv, out)
            if o is not None:
                results.setdefault((rv, o.key()), (rv, o))
        return list(results.values())

    def join(self, a, b):
        sticky = getattr(self.client, "sticky", None)

        def inter(x, y):
            if x is y:
                return x
            r = {k: v for k, v in x.items() if y.get(k) == v}
            if sticky is not None:
                for m, o in ((x, y), (y, x)):
                    for k, v in m.items():
                        if k not in o and sticky(k):
                            r[k] = v
            return r
        facts = {}
        for k, v in a.facts.items():
            w = b.facts.get(k)
            if w is None:
                continue
            if w == v:
                facts[k] = v
            elif v[0] == "ne" and w[0] == "ne" and (v[1] & w[1]):
                facts[k] = ("ne", v[1] & w[1])
            elif v[0] == "ne" and w[0] == "c" and w[1] not in v[1]:
                facts[k] = v
            elif w[0] == "ne" and v[0] == "c" and v[1] not in w[1]:
                facts[k] = w
        return State(inter(a.env, b.env), inter(a.heap, b.heap), facts, a.ts, a.trace)

    def leave(self, st, depth):
        ne = {}
        for k, v in st.env.items():
            if len(k) >= 2 and isinstance(k[1], int) and k[0] in ("v", "a", "tmp", "this", "ret", "cl", "t") and k[1] >= depth:
                continue
            ne[k] = v
        nh = {}
        for k, v in st.heap.items():
            r = k[0]
            if isinstance(r, tuple) and r[0] in ("v", "t") and r[1] >= depth:
                # keep objects that are still referenced by outer values? (returned by value: moved out before)
                continue
            nh[k] = v
        return self.gc(State(ne, nh, st.facts, st.ts, st.trace))

    def exec_block(self, fn, depth, b, st):
        states = [st]
        for e in b["e"]:
            nxt = []
            for s in states:
                for s2 in self.exec_elem(fn, depth, e, s):
                    if s2 is not None:
                        nxt.append(s2)
            # dedupe
            if len(nxt) > 1:
                d = {}
                for s in nxt:
                    d.setdefault(s.key(), s)
                nxt = list(d.values())
            states = nxt
            if not states:
                return
        if b.get("noreturn"):
            return
        succs = b["s"]
        t = b.get("t")
        for s in states:
            if not t or len(succs) < 2 or "cond" not in t or t.get("tempdtor"):
                for x in succs:
                    if x is not None:
                        yield x, s
                continue
            if t["k"] == "SwitchStmt":
                yield from self.do_switch(fn, depth, b, t, s)
                continue
            cond = t["cond"]
            s = self.materialize(fn, cond, depth, s)
            for idx, truth in ((0, True), (1, False)):
                x = succs[idx] if idx < len(succs) else None
                if x is None:
                    continue
                s2 = self.refine(fn, cond, depth, s, truth)
                if s2 is None:
                    continue
                s2 = self.client.on_branch(self, fn, cond, truth, s2)
                if s2 is None:
                    continue
                if t["k"] != "BinaryOperator" and t["k"] != "ConditionalOperator":
                    s2 = self.purge(fn, cond, depth, s2)
                yield x, s2

    def do_switch(self, fn, depth, b, t, s):
        cond = t["cond"]
        s = self.materialize(fn, cond, depth, s)
        v = self.val(fn, cond, depth, s)
        if v is None:
            l = self.loc(fn, cond, depth, s)
            if l is not None:
                v, s = self.load(s, l, False, True) if self.client.stable(l) else (None, s)
        vals = []
        default = []
        for x in b["s"]:
            if x is None:
                continue
            lab = fn.blocks[x].get("l")
            if lab and lab["k"] == "CaseStmt" and "val" in lab:
                vals.append((x, lab["val"]))
            else:
                default.append(x)
        for x, c in vals:
            s2 = s
            if v is not None:
                s2 = self.assume(s, ("eq", v, ("c", c)), True)
            if s2 is not None:
                s2 = self.client.on_branch(self, fn, cond, ("case", c), s2)
                if s2 is not None:
                    yield x, self.purge(fn, cond, depth, s2)
        for x in default:
            s2 = s
            for _, c in vals:
                if v is not None and s2 is not None:
                    s2 = self.assume(s2, ("eq", v, ("c", c)), False)
            if s2 is not None:
                s2 = self.client.on_branch(self, fn, cond, ("default", tuple(sorted(c for _, c in vals))), s2)
                if s2 is not None:
                    yield x, self.purge(fn, cond, depth, s2)

    def keeps(self, n, l):
        """does a repeated read of this location yield the same value?"""
        ty = n.get("ty", "")
        return self.client.stable(l) or (ty.endswith("const") and is_ptr(ty))

    def materialize(self, fn, node, depth, st):
        """ensure scalar leaves of a condition have symbols, so that refinement sticks"""
        n = fn.nodes[node]
        k = n["k"]
        if ("tmp", depth, node) in st.env:
            if self.lv_scalar(n):
                st = self.load_lv(fn, node, depth, st)
            return st
        if k in ("Bin", "Un", "Cond", "Cast", "Assign"):
            for c in n["c"]:
                st = self.materialize(fn, c, depth, st)
            return st
        if k in ("Ref", "Field", "Index") and "cv" not in n and not n.get("ty", "").endswith("]"):
            l = self.loc(fn, node, depth, st)
            if l is not None and self.peek(st, l) is None:
                isb = n.get("ty") in ("bool", "const bool")
                if self.keeps(n, l):
                    _, st = self.load(st, l, isb, True)
                else:
                    s, st = self.sym(fn, node, depth, st, isb)
                    st = st.copy()
                    st.env[("tmp", depth, node)] = s
        return st

    def load_lv(self, fn, node, depth, st):
        t = st.env[("tmp", depth, node)]
        if t[0] == "p" and self.peek(st, t[1]) is None:
            isb = fn.nodes[node].get("ty") in ("bool", "const bool")
            if self.client.stable(t[1]):
                _, st = self.load(st, t[1], isb)
            else:
                s, st = self.sym(fn, node, depth, st, isb)
                st = st.copy()
                st.env[("tmp", depth, node)] = s
        return st

    def refine(self, fn, node, depth, st, truth):
        n = fn.nodes[node]
        k = n["k"]
        if k == "Bin" and n["op"] in ("&&", "||"):
            a, b = n["c"]
            conj = n["op"] == "&&"
            if truth == conj:
                st = self.refine(fn, a, depth, st, truth)
                return self.refine(fn, b, depth, st, truth) if st is not None else None
            ra = self.resolve(st, self.val(fn, a, depth, st))
            rb = self.resolve(st, self.val(fn, b, depth, st))
            if ra == conj:
                return self.refine(fn, b, depth, st, truth)
            if rb == conj:
                return self.refine(fn, a, depth, st, truth)
            return st
        if k == "Un" and n["op"] == "!":
            return self.refine(fn, n["c"][0], depth, st, not truth)
        v = self.val(fn, node, depth, st)
        if v is None or v == U:
            # remember the branch outcome of opaque conditions within the full expression
            st = st.copy()
            st.env[("tmp", depth, node)] = ("c", 1 if truth else 0)
            return st
        return self.assume(st, v, truth)

    def purge(self, fn, node, depth, st):
        root = fn.roots[node]
        ks = [k for k in st.env if k[0] == "tmp" and k[1] == depth and fn.roots[k[2]] == root]
        if ks:
            st = st.copy()
            for k in ks:
                del st.env[k]
        return st

    # ------------------------------------------------------------------ elements
    def exec_elem(self, fn, depth, e, st):
        kind = e[0]
        if kind == "s":
            node = e[1]
            n = fn.nodes[node]
            outs = self.exec_node(fn, depth, node, n, st)
            if node not in fn.parents and n["k"] not in ("Lit",) and node not in self.conds(fn):
                outs = [self.purge(fn, node, depth, s) for s in outs if s is not None]
            return outs
        if kind == "d":
            path = (("v", depth, e[1]),)
            a = st.env.get(("a", depth, e[1]))
            if a is not None:       # lifetime-extended temporary: path of temp
                path = a
            outs = self.client.on_destroy(self, path, e[2], (fn, e[3]), st)
            res = []
            for s in outs:
                s = self.kill_path(s, path)
                if path[0] in s.env or ("a", depth, e[1]) in s.env:
                    s = s.copy()
                    s.env.pop(path[0], None)
                    s.env.pop(("a", depth, e[1]), None)
                res.append(s)
            return res
        if kind == "t":
            path = self.loc(fn, e[1], depth, st)
            if path is None or not (isinstance(path[0], tuple) and path[0][0] == "t"):
                return [st]
            return self.client.on_destroy(self, path, e[2], (fn, fn.nodes[e[1]]["line"]), st)
        if kind == "i":
            io = e[1]
            if io.get("delegating") and (io.get("init") or -1) >= 0:
                this = st.env.get(("this", depth), ("p", ("this",)))
                l = self.loc(fn, io["init"], depth, st)
                if this[0] == "p" and l is not None and isinstance(l[0], tuple) and l[0][0] == "t":
                    st = self.copy_obj(st, l, this[1])
                    st = self.client_move(st, l, this[1])
                    st = self.purge(fn, io["init"], depth, st)
                return [st]
            if "field" in io and "init" in io:
                this = st.env.get(("this", depth), ("p", ("this",)))
                if this[0] == "p":
                    path = this[1] + (io["field"],)
                    init = io["init"]
                    if io["ftype"].endswith("&"):
                        l = self.loc(fn, init, depth, st)
                        if l is not None:
                            st = st.copy()
                            st.heap[path] = ("ref", l)
                        return [st]
                    l = self.loc(fn, init, depth, st)
                    v = self.val(fn, init, depth, st)
                    if self.is_record(fn, init) and l is not None:
                        st = self.copy_obj(st, l, path)
                    else:
                        st = self.store(st, path, v if v is not None else U)
                    st = self.client.on_access(self, fn, init, path, "w", st) if io.get("written") else st
                    if init >= 0:
                        st = self.purge(fn, init, depth, st)
            return [st]
        if kind in ("m", "b"):
            return self.client.on_subobject_end(self, fn, depth, e, st)
        return [st]

    @staticmethod
    def conds(fn):
        """conditions of branches and initializers of members: their value is needed later on"""
        r = fn._extra.get("conds")
        if r is None:
            r = fn._extra["conds"] = {b["t"]["cond"] for b in fn.blocks.values() if b.get("t") and "cond" in b["t"]} | {e[1]["init"] for b in fn.blocks.values() for e in b["e"] if e[0] == "i" and (e[1].get("init") or -1) >= 0}
        return r

    def is_record(self, fn, node):
        n = fn.nodes[node]
        ty = n.get("ty", "")
        return bool(n.get("rec")) and not is_ptr(ty)

    def usage(self, fn, node):
        """how the enclosing expression uses the lvalue `node`: r, w, rw, base, addr"""
        par = fn.parents.get(node)
        if par is None:
            return "r"
        pi, role = par
        pn = fn.nodes[pi]
        k = pn["k"]
        if k == "Assign" and role == "c0":
            return "w" if pn["op"] == "=" else "rw"
        if k == "Un" and pn["op"] in ("++", "--"):
            return "rw"
        if k == "Un" and pn["op"] == "&":
            return "addr"
        if k == "Field" and not pn["arrow"]:
            return "base"
        if k == "Cast":
            return self.usage(fn, pi)
        if k == "Call":
            if role == "obj":
                if pn.get("cconst"):
                    return "r"
                nm = pn.get("name", "")
                if nm in READ_METHODS or nm.startswith("operator ") or nm == "operator()":
                    return "r"
                return "w"
            if role.startswith("arg"):
                j = int(role[3:])
                pt = pn.get("ptys", [])
                if j < len(pt):
                    t = pt[j]
                    if t.endswith("&&"):
                        return "w" if tmpl(pn.get("qn", "")) in ("std::move",) and self._moved(fn, pi) else "r" if tmpl(pn.get("qn", "")) == "std::move" else "w"
                    if t.endswith("&") and not t.startswith("const "):
                        q = tmpl(pn.get("qn", ""))
                        if q == "std::move":
                            return "w" if self._moved(fn, pi) else "r"
                        return "w"
                return "r"
        if k == "Construct" and role.startswith("arg"):
            j = int(role[3:])
            pt = pn.get("ptys", [])
            if j < len(pt) and pt[j].endswith("&&"):
                return "w"
            return "r"
        return "r"

    def _moved(self, fn, callnode):
        par = fn.parents.get(callnode)
        if par is None:
            return False
        pn = fn.nodes[par[0]]
        if pn["k"] == "Construct":
            return True
        if pn["k"] in ("Call", "Assign"):
            pt = pn.get("ptys", [])
            if par[1].startswith("arg"):
                j = int(par[1][3:])
                return j < len(pt) and (pt[j].endswith("&&") or not pt[j].endswith("&"))
        return pn["k"] == "Decl"

    def exec_node(self, fn, depth, node, n, st):
        k = n["k"]
        if k in ("Lit", "EnumC", "Null", "Str", "This", "FnRef", "Method", "SizeOf", "FloatLit"):
            return [st]
        if k in ("Ref", "Field"):
            l = self.loc(fn, node, depth, st)
            if l is not None:
                u = self.usage(fn, node)
                if u != "base":
                    st = self.client.on_access(self, fn, node, l, u, st)
                if st is None:
                    return []
                # scalar read of an unknown location: create symbol at the read point
                if u == "r" and not self.is_record(fn, node) and "cv" not in n and not n.get("ty", "").endswith("]") and self.peek(st, l) is None:
                    isb = n.get("ty") in ("bool", "const bool")
                    if self.keeps(n, l):
                        _, st = self.load(st, l, isb, True)
                    else:
                        s, st = self.sym(fn, node, depth, st, isb)
                        st = st.copy()
                        st.env[("tmp", depth, node)] = s
            return [st]
        if k == "Call":
            return self.do_call(fn, depth, node, n, st)
        if k == "Construct":
            return self.do_construct(fn, depth, node, n, st)
        if k == "Decl":
            for v in n["vars"]:
                st = self.do_decl(fn, depth, v, st)
            return [st]
        if k == "Assign":
            lh = n["c"][0]
            while fn.nodes[lh]["k"] == "Cast":
                lh = fn.nodes[lh]["c"][0]
            if fn.nodes[lh]["k"] in ("Call", "Un"):      # *pointer = value, *ptr_object = value
                l = self.loc(fn, lh, depth, st)
                if l is not None:
                    st = self.client.on_access(self, fn, lh, l, "w" if n["op"] == "=" else "rw", st)
            return [self.do_assign(fn, depth, node, n, st)]
        if k == "Un" and n["op"] in ("++", "--"):
            l = self.loc(fn, n["c"][0], depth, st)
            if l is not None:
                old = self.peek(st, l)
                if n.get("post") and (old is None or old[0] not in ("s", "c")):
                    old, st = self.fresh(st, (depth, fn.key, node, "old"), False)
                s = self.element(old, 1, n["op"][0])
                if s is None and self.client.count_consts and old is not None and old[0] == "c" and 0 <= old[1] < 8:
                    s = ("c", old[1] + (1 if n["op"] == "++" else -1))
                if s is None:
                    s, st = self.sym(fn, node, depth, st)
                st = self.store(st, l, s)
                if n.get("post"):
                    st = self.settmp(st, depth, node, U if contains(old, s) else old)
            return [st]
        if k == "Return":
            c = n["c"][0] if n["c"] else -1
            st = st.copy()
            if c >= 0:
                st = self.materialize(fn, c, depth, st) if not self.is_record(fn, c) else st
                if self.lv_scalar(fn.nodes[c]) and not fn.ret.endswith("&"):
                    st = self.materialize(fn, c, depth, st)
                v = self.val(fn, c, depth, st)
                l = self.loc(fn, c, depth, st)
                if fn.ret.endswith("&") or (self.is_record(fn, c) and l is not None and (v is None or v[0] not in ("it", "lam"))):
                    v = ("p", l) if l is not None else U
                    if not fn.ret.endswith("&") and l is not None:
                        # move the object out of the frame
                        dst = (("t", depth - 1, ("ret", fn.key)),)
                        st = self.copy_obj(st, l, dst)
                        st = self.client_move(st, l, dst)
                        v = ("p", dst)
                if v is not None and v[0] in ("eq", "not"):
                    r = self.resolve(st, v)
                    if r is not None:
                        v = ("c", int(r))
                st = st.copy()
                st.env[("ret", depth)] = v if v is not None else U
            return [st]
        if k == "Bin" and n["op"] in ("&&", "||"):
            return [st]
        if k == "InitList" and len(n["c"]) > 1 and self.scalar_array(n.get("ty", "")) == len(n["c"]):
            st = st.copy()
            path = (("t", depth, node),)
            for j, ch in enumerate(n["c"]):
                v = self.val(fn, ch, depth, st)
                if v is not None and v != U:
                    st.heap[path + (("[]", j),)] = v
                else:
                    st.heap.pop(path + (("[]", j),), None)
            st.heap[path + ("#n",)] = ("c", len(n["c"]))
            st.env[("tmp", depth, node)] = ("p", path)
            return [st]
        if k == "InitList" and len(n["c"]) > 1 and len((self.p.classes.get(n.get("rec")) or {}).get("fields", ())) == len(n["c"]) and not self.p.superclasses(n["rec"]):
            path = (("t", depth, node),)
            st = self.kill_path(st, path)
            for f, ch in zip(self.p.classes[n["rec"]]["fields"], n["c"]):
                l = self.loc(fn, ch, depth, st) if fn.nodes[ch].get("rec") else None
                if l is not None:
                    st = self.copy_obj(st, l, path + (f["name"],))
                    continue
                v = self.val(fn, ch, depth, st)
                if v is not None and v != U:
                    st = st.copy()
                    st.heap[path + (f["name"],)] = v
            st = st.copy()
            st.env[("tmp", depth, node)] = ("p", path)
            return [st]
        if k == "Lambda":
            caps = []
            for c in n["caps"]:
                if c.get("this"):
                    caps.append(("this", st.env.get(("this", depth), ("p", ("this",)))))
                else:
                    fake = {"id": c["id"]}
                    l = self.ref_loc(fn, depth, fake, st)
                    if c["byref"]:
                        caps.append((c["id"], ("alias", l)))
                    else:
                        v = self.peek(st, l)
                        if v is not None and v[0] in ("c", "lam", "p", "it", "s", "null"):
                            caps.append((c["id"], v))
                        else:
                            caps.append((c["id"], ("alias", l)))
            st = st.copy()
            st.env[("tmp", depth, node)] = ("lam", n["fn"], tuple(caps))
            return [st]
        if k == "New":
            s, st = self.sym(fn, node, depth, st, False)
            st = st.copy()
            path = (("o", s),)
            if n["init"] >= 0:
                l = self.loc(fn, n["init"], depth, st)
                if l is not None and fn.nodes[n["init"]]["k"] == "Construct":
                    st = self.copy_obj(st, l, path)
                    st = st.copy()
            st.env[("tmp", depth, node)] = ("p", path)
            r = self.client_new(fn, node, n, st)
            return [r]
        return [st]

    def client_new(self, fn, node, n, st):
        h = getattr(self.client, "on_new", None)
        return h(self, fn, node, n, st) if h else st

    def client_move(self, st, src, dst):
        h = getattr(self.client, "on_move", None)
        return h(self, st, src, dst) if h else st

    def do_decl(self, fn, depth, v, st):
        init = v["init"]
        vid = v["id"]
        vpath = (("v", depth, vid),)
        if v.get("static"):
            return st
        if v["isref"]:
            l = self.loc(fn, init, depth, st)
            if l is None and init >= 0:
                val = self.val(fn, init, depth, st)
                st = self.kill_path(st, vpath).copy()
                st.env.pop(("a", depth, vid), None)
                st.env[vpath[0]] = val if val is not None else U
                return st
            st = st.copy()
            if l is not None:
                st.env[("a", depth, vid)] = l
            return st
        if init < 0:
            st = self.kill_path(st, vpath).copy()
            st.env.pop(vpath[0], None)
            return st
        n = fn.nodes[init]
        if n["k"] == "Construct" and not n.get("elided_to_temp") and fn.ctor_target.get(init) == vid:
            return st            # constructed in place
        val = self.val(fn, init, depth, st)
        l = self.loc(fn, init, depth, st)
        if v["rec"] and not is_ptr(v["ty"]):
            if val is not None and val[0] in ("it", "lam"):
                st = self.kill_path(st, vpath).copy()
                st.env[vpath[0]] = val
                return st
            if l is not None:
                st = self.copy_obj(st, l, vpath)
                if isinstance(l[0], tuple) and l[0][0] == "t":
                    st = self.client_move(st, l, vpath)
                return st
            st = self.kill_path(st, vpath).copy()
            st.env.pop(vpath[0], None)
            return st
        if val is None or val == U:
            st = self.materialize(fn, init, depth, st)
            val = self.val(fn, init, depth, st)
        if val is not None and val[0] in ("eq", "not"):
            r = self.resolve(st, val)
            if r is not None:
                val = ("c", int(r))
        if val is None:
            val, st = self.fresh(st, (depth, fn.key, "decl", vid), v["ty"] in ("bool", "const bool"))
        return self.store(st, vpath, val)

    def do_assign(self, fn, depth, node, n, st):
        lhs, rhs = n["c"]
        l = self.loc(fn, lhs, depth, st)
        if n["op"] != "=":
            if l is not None:
                s, st = self.sym(fn, node, depth, st)
                st = self.store(st, l, s)
            return st
        v = self.val(fn, rhs, depth, st)
        if v is None or v == U:
            st = self.materialize(fn, rhs, depth, st)
            v = self.val(fn, rhs, depth, st)
        if v is None:
            v, st = self.sym(fn, node, depth, st)
        if v[0] in ("eq", "not"):
            r = self.resolve(st, v)
            if r is not None:
                v = ("c", int(r))
        if l is None:
            return st
        if l[-1] == ("[]", "i"):
            st = self.kill_elems(st, l[:-1])
        return self.store(self.client.on_store(self, fn, node, l, v, st), l, v)

    def copy_obj(self, st, src, dst):
        """copy abstract object state from src to dst"""
        if src == dst:
            return st
        st2 = self.kill_path(st, dst).copy()
        if len(dst) == 1:
            st2.env.pop(dst[0], None)
        # keep nullability correlated
        q = src + ("?",)
        if q not in st2.heap and self.client.stable(src):
            st2.heap[q] = ("s", ("ld", q), True)
        for k, v in st.heap.items():
            if k[:len(src)] == src:
                st2.heap[dst + k[len(src):]] = v
        if q in st2.heap:
            st2.heap[dst + ("?",)] = st2.heap[q]
        if len(src) == 1 and src[0] in st.env:
            v = st.env[src[0]]
            if len(dst) == 1:
                st2.env[dst[0]] = v
            else:
                st2.heap[dst] = v
        elif src in st.heap:
            v = st.heap[src]
            if len(dst) == 1:
                st2.env[dst[0]] = v
        h = getattr(self.client, "on_copy", None)
        if h:
            st2 = h(self, st2, src, dst)
        return st2

    # ------------------------------------------------------------------ calls
    def do_construct(self, fn, depth, node, n, st):
        tgt = fn.ctor_target.get(node)
        path = (("v", depth, tgt),) if tgt is not None else (("t", depth, node),)
        st = self.kill_path(st, path)
        if path[0] in st.env:
            st = st.copy()
            st.env.pop(path[0], None)
        if tgt is not None:
            st = st.copy()
            st.env.pop(("a", depth, tgt), None)
        c = Call()
        c.fn, c.node, c.n, c.depth, c.st = fn, node, n, depth, st
        c.name, c.qn, c.key = "ctor", n["cls"], n["fn"]
        c.obj, c.objpath = ("p", path), path
        for a in n["args"]:
            if self.lv_scalar(fn.nodes[a]) and ("tmp", depth, a) in st.env and self.client.stable(self.loc(fn, a, depth, st) or (("u",),)):
                st = self.load_lv(fn, a, depth, st)
        c.st = st
        c.args = [self.val(fn, a, depth, st) for a in n["args"]]
        c.argpaths = [self.loc(fn, a, depth, st) for a in n["args"]]
        c.target = path
        r = self.client.on_construct(self, c)
        if r is not None:
            return [self.settmp(s, depth, node, ("p", path)) for s in r]
        st = c.st
        # iterator / lambda / function wrappers: keep the value
        if (n["copy"] or n["move"]) and c.args:
            if c.argpaths[0] is not None and (c.args[0] is None or c.args[0][0] not in ("lam", "it")):
                st = self.copy_obj(st, c.argpaths[0], path)
                if isinstance(c.argpaths[0][0], tuple) and c.argpaths[0][0][0] == "t":
                    st = self.client_move(st, c.argpaths[0], path)
                elif n["move"]:
                    st = self.client_move(st, c.argpaths[0], path)
                return [self.settmp(st, depth, node, ("p", path))]
            if c.args[0] is not None:
                st = st.copy()
                st.env[path[0]] = c.args[0]
                return [self.settmp(st, depth, node, c.args[0] if c.args[0][0] in ("lam", "it") else ("p", path))]
        cls = n["cls"]
        if cls.startswith("std::function") or cls.startswith("std::shared_ptr") or cls.startswith("std::unique_ptr") or cls.startswith("std::weak_ptr"):
            truth = None
            if not c.args or (c.args[0] is not None and c.args[0][0] == "null"):
                truth = FALSE
            elif c.args[0] is not None and c.args[0][0] in ("lam",):
                truth = TRUE
            elif c.argpaths[0] is not None:
                st = self.copy_obj(st, c.argpaths[0], path)
            elif c.args[0] is not None and c.args[0][0] == "p":
                truth = TRUE
                st = st.copy()
                st.heap[path + ("*ptr",)] = c.args[0]
            if truth is not None:
                st = st.copy()
                st.heap[path + ("?",)] = truth
            if c.args and c.args[0] is not None and c.args[0][0] == "lam":
                st = st.copy()
                st.env[path[0]] = c.args[0]
                return [self.settmp(st, depth, node, ("p", path))]
            return [self.settmp(st, depth, node, ("p", path))]
        if len(c.args) == 1 and c.args[0] is not None and c.args[0][0] in ("it", "lam"):
            st = st.copy()
            st.env[path[0]] = c.args[0]
            return [self.settmp(st, depth, node, c.args[0])]
        target = self.p.fns.get(n["fn"])
        if target is not None and self.can_inline(target, fn):
            res = []
            for rv, s in self.inline_call(target, depth, st, ("p", path), c.args, c.argpaths, n):
                res.append(self.settmp(s, depth, node, ("p", path)))
            return res
        return [self.settmp(st, depth, node, ("p", path))]

    def settmp(self, st, depth, node, v):
        st = st.copy()
        st.env[("tmp", depth, node)] = v
        return st

    def can_inline(self, target, caller):
        if target.key in self.stack or len(self.stack) >= self.max_depth:
            return False
        if not target.blocks:
            return False
        return self.client.inline(self, target, caller)

    def inline_call(self, target, depth, st, this, args, argpaths, n):
        d = depth + 1
        s = st.copy()
        if this is not None:
            s.env[("this", d)] = this
        for i, prm in enumerate(target.params):
            if i >= len(args):
                break
            pk = ("v", d, prm["id"])
            isref = prm["type"].endswith("&") or "(&)" in prm["type"]
            l, v = argpaths[i], args[i]
            if isref:
                if l is not None:
                    s.env[("a", d, prm["id"])] = l
                else:
                    if v is not None and v[0] in ("eq", "not"):
                        r = self.resolve(s, v)
                        v = ("c", int(r)) if r is not None else v
                    s.env[pk] = v if v is not None else U
            elif prm["rec"] and not is_ptr(prm["type"]):
                if v is not None and v[0] in ("lam", "it"):
                    s.env[pk] = v
                elif l is not None:
                    s = self.copy_obj(s, l, (pk,))
                    s = s.copy()
            else:
                if v is not None and v[0] in ("eq", "not"):
                    r = self.resolve(s, v)
                    v = ("c", int(r)) if r is not None else v
                if v is not None:
                    s.env[pk] = v
                else:
                    s.env[pk] = ("s", (d, target.key, "param", i), prm["type"] in ("bool", "const bool"))
        mk = (target.key, d, s.key(), tuple(self.stack[-0:]) if False else None)
        hit = self.memo.get(mk)
        if hit is not None:
            out = []
            for rv, o in hit:
                o2 = State(o.env, o.heap, o.facts, o.ts, o.trace if o.trace is not s.trace else s.trace)
                out.append((rv, o2))
            return out
        res = self.exec_fn(target, d, s)
        self.memo[mk] = res
        return res

    def call_lambda(self, lam, depth, st, args=None, argpaths=None):
        """inline a closure value"""
        target = self.p.fns.get(lam[1])
        if target is None or not self.can_inline(target, None):
            return [(U, st)]
        d = depth + 1
        s = st.copy()
        this = None
        for cid, v in lam[2]:
            if cid == "this":
                this = v
                s.env[("this", d)] = v
            elif v[0] == "alias":
                s.env[("a", d, cid)] = v[1]
            else:
                s.env[("v", d, cid)] = v
        args = args or []
        for i, prm in enumerate(target.params):
            l = argpaths[i] if argpaths and i < len(argpaths) else None
            v = args[i] if i < len(args) else None
            if (prm["type"].endswith("&") or "(&)" in prm["type"]) and l is not None:
                s.env[("a", d, prm["id"])] = l
            elif v is not None:
                s.env[("v", d, prm["id"])] = v
        mk = (target.key, d, s.key(), "lam")
        if mk in self.memo:
            return self.memo[mk]
        res = self.exec_fn(target, d, s)
        self.memo[mk] = res
        return res

    def resolve_virtual(self, n, c):
        key = n["fn"]
        if not n.get("virt"):
            return key
        cls = n.get("cls", "")
        if self.dispatcher and (cls == "hsmcpp::IHsmEventDispatcher" or cls in self.p.superclasses(self.dispatcher)):
            k = self.p.final_overrider(key, self.dispatcher)
            return k or key
        return key

    def do_call(self, fn, depth, node, n, st):
        c = Call()
        c.fn, c.node, c.n, c.depth, c.st = fn, node, n, depth, st
        c.name = n.get("name", "")
        c.qn = tmpl(n.get("qn", ""))
        c.key = self.resolve_virtual(n, c) if "fn" in n else None
        c.obj = self.val(fn, n["obj"], depth, st) if "obj" in n else None
        c.objpath = None
        if "obj" in n:
            if n.get("arrow"):
                c.objpath = c.obj[1] if c.obj is not None and c.obj[0] == "p" else ((("o", c.obj),) if c.obj is not None and c.obj[0] == "s" else None)
            else:
                c.objpath = self.loc(fn, n["obj"], depth, st)
        for a in n["args"]:
            if self.lv_scalar(fn.nodes[a]) and ("tmp", depth, a) in st.env and self.client.stable(self.loc(fn, a, depth, st) or (("u",),)):
                st = self.load_lv(fn, a, depth, st)
        c.st = st
        c.args = [self.val(fn, a, depth, st) for a in n["args"]]
        c.argpaths = [self.loc(fn, a, depth, st) for a in n["args"]]
        c.target = None
        r = self.client.on_call(self, c)
        if r is not None:
            return [self.settmp(s, depth, node, v if v is not None else U) for v, s in r]
        outs = self.default_call(c)
        return [self.settmp(s, depth, node, v if v is not None else U) for v, s in outs]

    def truth_path(self, path):
        return path + ("?",)

    def load_truth(self, c, path, st):
        q = self.truth_path(path)
        v = st.heap.get(q)
        if v is None:
            if self.client.stable(path):
                v, st = self.load(st, q, True, True)
            else:
                v, st = self.sym(c.fn, c.node, c.depth, st, True)
        return v, st

    def default_call(self, c):
        fn, node, n, depth, st = c.fn, c.node, c.n, c.depth, c.st
        qn, name = c.qn, c.name
        if n.get("noreturn"):
            return []
        if qn in PASS_FUNCS and c.args is not None and len(c.args) == 1:
            if c.argpaths[0] is not None:
                return [(("p", c.argpaths[0]) if self.is_record(fn, n["args"][0]) or True else c.args[0], st)] if self._rec_or_lv(fn, n["args"][0]) else [(c.args[0], st)]
            return [(c.args[0], st)]
        target = self.p.fns.get(c.key) if c.key else None
        # closure call
        if name == "operator()" and c.obj is not None and c.obj[0] == "lam":
            return self.call_lambda(c.obj, depth, st, c.args, c.argpaths)
        if name == "operator()" and target is not None and target.kind == "lambda":
            lv = self.peek(st, c.objpath) if c.objpath is not None else None
            if lv is not None and lv[0] == "lam":
                return self.call_lambda(lv, depth, st, c.args, c.argpaths)
        if target is not None and self.can_inline(target, fn):
            this = None
            if target.cls and not target.static:
                this = ("p", c.objpath) if c.objpath is not None else (c.obj if c.obj is not None else ("p", (("o", "?"),)))
            res = []
            for rv, s in self.inline_call(target, depth, st, this, c.args, c.argpaths, n):
                res.append(self.bind_ret(c, rv, s))
            return res
        h = getattr(self.client, "on_opaque", None)
        if h:
            st = h(self, c, st)
            if st is None:
                return []
        if target is not None:
            # project function that is irrelevant to the client: havoc what it may write
            for i, a in enumerate(n["args"]):
                pt = n["ptys"][i] if i < len(n["ptys"]) else ""
                if (pt.endswith("&") and not pt.startswith("const ")) and c.argpaths[i] is not None:
                    st = self.havoc(st, c.argpaths[i])
            if c.objpath is not None and not n.get("cconst") and isinstance(c.objpath[0], tuple):
                st = self.havoc(st, c.objpath)
            v, st = self.sym(fn, node, depth, st)
            return [(v, st)]
        return self.std_call(c, st)

    def _rec_or_lv(self, fn, node):
        return True

    def bind_ret(self, c, rv, s):
        """returned objects: move from callee's return slot to this call's temporary"""
        if rv is not None and rv[0] == "p" and isinstance(rv[1][0], tuple) and rv[1][0][0] == "t" and isinstance(rv[1][0][2], tuple) and rv[1][0][2][0] == "ret":
            dst = (("t", c.depth, c.node),)
            s = self.copy_obj(s, rv[1], dst)
            s = self.client_move(s, rv[1], dst)
            s = self.kill_path(s, rv[1])
            return ("p", dst), s
        return rv, s

    def havoc(self, st, path):
        st = self.kill_path(st, path)
        if len(path) == 1 and path[0] in st.env:
            st = st.copy()
            st.env[path[0]] = U
        return st

    def std_call(self, c, st):
        fn, node, n, depth = c.fn, c.node, c.n, c.depth
        qn, name = c.qn, c.name
        op = n.get("op")
        ty = n.get("ty", "")
        objp = c.objpath
        if name in ("begin", "end", "size") and objp is not None and "std::initializer_list" in qn and st.heap.get(objp + ("#n",)) is not None:
            k = st.heap[objp + ("#n",)]
            return [(k if name == "size" else ("p", objp + (("[]", 0 if name == "begin" else k[1]),)), st)]
        # nullable objects
        if name == "operator bool" and objp is not None:
            v, st = self.load_truth(c, objp, st)
            return [(v, st)]
        if op in ("==", "!=") and "obj" not in n and len(n["args"]) == 2:
            nulls = [i for i in (0, 1) if fn.nodes[n["args"][i]]["k"] == "Null" or (c.args[i] is not None and c.args[i][0] == "null")]
            if len(nulls) == 1:
                other = 1 - nulls[0]
                pth = c.argpaths[other]
                if pth is not None:
                    v, st = self.load_truth(c, pth, st)
                    r = self.resolve(st, v)
                    if r is not None:
                        return [(("c", int(r == (op == "!="))), st)]
                    return [(v if op == "!=" else ("not", v), st)]
            # iterator comparison
        if op in ("==", "!="):
            vals = ([c.obj] if "obj" in n else []) + list(c.args)
            its = [v for v in vals if v is not None and v[0] == "it"]
            if its:
                kinds = [v for v in its if isinstance(v[2], tuple) and v[2] and v[2][0] == "END"]
                others = [v for v in its if v not in kinds]
                if len(kinds) == 2 and len(its) == 2:
                    return [(("c", int(op == "==")), st)]
                if len(kinds) == 1 and len(others) == 1:
                    s = ("s", ("isend", others[0][2]), True)
                    return [(s if op == "==" else ("not", s), st)]
            s, st = self.sym(fn, node, depth, st, True)
            return [(s, st)]
        if name in ("operator*", "operator->") and "obj" in n:
            o = c.obj
            if o is None and objp is not None:
                o = self.peek(st, objp)
            if o is not None and o[0] == "it":
                return [(("p", o[1] + (("[]", o[2]),)), st)]
            if objp is not None:
                ptr = st.heap.get(objp + ("*ptr",))
                if ptr is not None and ptr[0] == "p":
                    return [(ptr, st)]
                return [(("p", objp + ("*",)), st)]
            if o is not None and o[0] in ("s",):
                return [(("p", (("o", o),)), st)]
            return [(U, st)]
        if name == "get" and objp is not None and "obj" in n and not c.args:
            return [(("p", objp + ("*",)), st)]
        if name in ("lock",) and qn.startswith("std::weak_ptr"):
            dst = (("t", depth, node),)
            s, st = self.sym(fn, node, depth, st, True)
            st = self.kill_path(st, dst).copy()
            st.heap[dst + ("?",)] = s
            if objp is not None:
                st.heap[dst + ("*ptr",)] = ("p", objp + ("*",))
            return [(("p", dst), st)]
        if name == "reset" and objp is not None and ("_ptr" in qn):
            st = self.kill_path(st, objp).copy()
            st.heap[objp + ("?",)] = FALSE if not c.args else TRUE
            if c.args and c.args[0] is not None and c.args[0][0] == "p":
                st.heap[objp + ("*ptr",)] = c.args[0]
            return [(U, st)]
        if name == "swap":
            a, b = (objp, c.argpaths[0]) if "obj" in n and len(c.args) == 1 else tuple(c.argpaths) if qn == "std::swap" and len(c.args) == 2 else (None, None)
            ty = n.get("cls", "") if "obj" in n else (n.get("ptys") or [""])[0]
            if a is not None and b is not None and a != b and ("_ptr<" in str(ty) or "_ptr" in str(n.get("cls", ""))):
                tmp = (("t", depth, ("swap", node)),)
                st = self.copy_obj(st, a, tmp)
                st = self.copy_obj(st, b, a)
                st = self.copy_obj(st, tmp, b)
                return [(U, self.kill_path(st, tmp))]
        if qn in ("std::make_shared", "std::make_unique"):
            dst = (("t", depth, node),)
            st = self.kill_path(st, dst).copy()
            st.heap[dst + ("?",)] = TRUE
            return [(("p", dst), st)]
        # iterator increments
        if op in ("++", "--") and objp is not None:
            o = self.peek(st, objp)
            if o is not None and o[0] == "it":
                if c.args and o[2] == ("s", (depth, fn.key, node), False):
                    # postfix: the old position is still used, name the new one differently
                    s, st = self.fresh(st, (depth, fn.key, node, "b"), False)
                else:
                    s, st = self.sym(fn, node, depth, st, False)
                # drop end-facts of old iterator position
                st = st.copy()
                nv = ("it", o[1], s)
                if len(objp) == 1:
                    st.env[objp[0]] = nv
                else:
                    st.heap[objp] = nv
                e = ("s", ("isend", s), True)
                st.facts.pop(e, None)
                return [(o if c.args else ("p", objp), st)]     # postfix: the old position
        if op == "=" and objp is not None:
            v = c.args[0] if c.args else None
            src = c.argpaths[0] if c.argpaths else None
            if v is not None and v[0] in ("it", "lam"):
                st = self.kill_path(st, objp).copy()
                if len(objp) == 1:
                    st.env[objp[0]] = v
                else:
                    st.heap[objp] = v
                if v[0] == "lam":
                    st.heap[objp + ("?",)] = TRUE
                return [(("p", objp), st)]
            if v is not None and v[0] == "null":
                st = self.kill_path(st, objp).copy()
                st.heap[objp + ("?",)] = FALSE
                return [(("p", objp), st)]
            if src is not None:
                st = self.copy_obj(st, src, objp)
                return [(("p", objp), st)]
            st = self.havoc(st, objp)
            return [(("p", objp), st)]
        if objp is not None and qn.startswith("std::") and "obj" in n:
            isconst = n.get("cconst")
            if name in ("begin", "rbegin", "cbegin", "find", "lower_bound", "upper_bound"):
                s, st = self.sym(fn, node, depth, st, False)
                st = st.copy()
                st.facts.pop(("s", ("isend", s), True), None)
                return [(("it", objp, s), st)]
            if name in ("end", "rend", "cend"):
                return [(("it", objp, ("END",)), st)]
            if name in ("erase", "insert", "emplace") and ("iterator" in ty):
                st = self.kill_elems(st, objp)
                s, st = self.sym(fn, node, depth, st, False)
                return [(("it", objp, s), st)]
            if name == "equal_range":
                return [(("p", objp + ("#range",)), st)]
            if name in ("front", "back", "at", "operator[]"):
                if name == "operator[]" and c.args and self.const_of(st, c.args[0]) is not None:
                    ident = ("c", self.const_of(st, c.args[0]))
                    return [(("p", objp + (("[]", ident),)), st)]
                s, st = self.sym(fn, node, depth, st, False)
                return [(("p", objp + (("[]", s),)), st)]
            if not isconst and name not in READ_METHODS:
                st = self.kill_elems(st, objp)
        # lambdas passed to algorithms / condition variables run in the caller's context
        outs = [st]
        for v in c.args:
            if v is not None and v[0] == "lam" and qn.startswith("std::") and not qn.startswith(("std::thread", "std::function", "std::bind")):
                nxt = []
                for s in outs:
                    for rv, s2 in self.call_lambda(v, depth, s):
                        nxt.append(s2)
                outs = nxt
        res = []
        for s in outs:
            for i, a in enumerate(n["args"]):
                pt = n["ptys"][i] if i < len(n.get("ptys", [])) else ""
                if (pt.endswith("&") and not pt.startswith("const ") and not pt.endswith("&&")) and c.argpaths[i] is not None:
                    s = self.havoc(s, c.argpaths[i])
                elif pt.endswith("*") and not pt.startswith("const ") and c.args[i] is not None and c.args[i][0] == "p" and c.args[i][1] != ("this",):
                    s = self.havoc(s, c.args[i][1])
            if self.is_record(fn, node) or n.get("lv"):
                dst = (("t", depth, node),)
                s = self.kill_path(s, dst)
                res.append((("p", dst), s))
            else:
                v, s = self.sym(fn, node, depth, s)
                res.append((v, s))
        return res

    def kill_elems(self, st, path):
        L = len(path)
        ks = [k for k in st.heap if k[:L] == path and len(k) > L and isinstance(k[L], tuple) and k[L][0] == "[]"]
        if ks:
            st = st.copy()
            for k in ks:
                del st.heap[k]
        return st
