"""P28: a Variant stands for one value of one type."""
import re
from engine.registry import check
from engine import model
from engine.events import INSERT
from engine.sim import Client, Sim, State, U, TRUE, FALSE, NULL
from checks.concurrency import ASSUME, configs, norm
from checks.transition import TECH

CLS = "hsmcpp::Variant"
V = "hsmcpp::Variant"
STR = "std::basic_string<char>"
TABLE = {
    "BYTE_1": ("signed char", 1), "BYTE_2": ("short", 2), "BYTE_4": ("int", 4), "BYTE_8": ("long", 8),
    "UBYTE_1": ("unsigned char", 1), "UBYTE_2": ("unsigned short", 2), "UBYTE_4": ("unsigned int", 4), "UBYTE_8": ("unsigned long", 8),
    "DOUBLE": ("double", 8), "BOOL": ("bool", 1), "STRING": (STR, 0), "BYTEARRAY": ("std::vector<unsigned char>", 0),
    "VECTOR": ("std::vector<%s>" % V, 0), "LIST": ("std::list<%s>" % V, 0), "MAP": ("std::map<%s, %s>" % (V, V), 0),
    "PAIR": ("std::pair<%s, %s>" % (V, V), 0),
}
OF_TYPE = {t: e for e, (t, s) in TABLE.items()}
SIGNED = ("BYTE_1", "BYTE_2", "BYTE_4", "BYTE_8")
UNSIGNED = ("UBYTE_1", "UBYTE_2", "UBYTE_4", "UBYTE_8")
NUMERIC = SIGNED + UNSIGNED + ("DOUBLE",)
PREDICATES = {
    "isNumeric": NUMERIC, "isSignedNumeric": SIGNED + ("DOUBLE",), "isUnsignedNumeric": UNSIGNED, "isBool": ("BOOL",), "isString": ("STRING",),
    "isByteArray": ("BYTEARRAY",), "isVector": ("VECTOR",), "isList": ("LIST",), "isMap": ("MAP",), "isPair": ("PAIR",), "isCustomType": ("CUSTOM",),
    "isEmpty": ("UNKNOWN",), "operator bool": tuple(TABLE) + ("CUSTOM",),
}
GETTERS = {"getByteArray": "BYTEARRAY", "getVector": "VECTOR", "getList": "LIST", "getMap": "MAP", "getPair": "PAIR", "getCustomType": "CUSTOM",
           "toVector": "VECTOR", "toList": "LIST", "toMap": "MAP", "toPair": "PAIR"}
CONVERSIONS = {
    "toInt64": NUMERIC + ("BOOL", "STRING"), "toUInt64": NUMERIC + ("BOOL", "STRING"), "toDouble": NUMERIC + ("BOOL", "STRING"),
    "toBool": NUMERIC + ("BOOL", "STRING"), "toString": tuple(TABLE), "toByteArray": tuple(e for e in TABLE if e != "MAP"),
}
COMPARE = ("operator==", "operator!=", "operator>", "operator>=", "operator<", "operator<=")
RULES = ("value-matches-type", "read-as-stored-type", "comparison-of-different-types", "copy-is-independent", "handlers-of-one-type", "source-outlives-target",
         "comparison-result", "predicate", "getter-of-another-type", "conversion-uses-value", "raw-bytes", "self-assignment")


def plain(t):
    t = re.sub(r"\b(const|volatile)\b", "", norm(t)).strip()
    return re.sub(r"\s*[&*]+\s*$", "", t).strip()


class Layout:
    """the members of Variant, found by their types"""

    def __init__(self, prog):
        c = prog.classes.get(CLS)
        if c is None:
            raise model.AnalysisBroken("class Variant not found")
        self.type = self.data = self.alloc = self.cmp = None
        for f in c["fields"]:
            t = norm(f["type"])
            if t.endswith("Variant::Type"):
                self.type = f["name"]
            elif t == "std::shared_ptr<void>":
                self.data = f["name"]
            elif "shared_ptr<void>" in t and "(" in t:
                self.alloc = f["name"]
            elif "(" in t and t.count("void *") == 2:
                self.cmp = f["name"]
        if None in (self.type, self.data, self.alloc, self.cmp):
            raise model.AnalysisBroken("members of Variant not recognised")
        e = prog.enums.get(CLS + "::Type")
        if e is None:
            raise model.AnalysisBroken("Variant::Type not found")
        self.E = {x["name"].rsplit("::", 1)[-1]: x["value"] for x in e["values"]}
        self.name = {v: k for k, v in self.E.items()}
        unknown = set(self.E) - set(TABLE) - {"UNKNOWN", "CUSTOM"}
        if unknown or set(TABLE) - set(self.E):
            raise model.AnalysisBroken("unknown Variant types %s" % sorted(unknown))


class VarClient(Client):
    max_states = 20000
    eq_facts = True

    def __init__(self, prog, lay, params=(), watch=False):
        self.p = prog
        self.L = lay
        self.params = set(params)      # parameters whose value can be stored in the object
        self.watch = watch
        self.bad = []
        self.counts = {}
        self.lt = {}

    def stable(self, path):
        return True

    def count(self, k, what):
        self.counts.setdefault(k, set()).add(what)

    def inline(self, sim, fn, call_fn):
        return fn.cls == CLS

    # ------------------------------------------------------------------ types of handlers
    def lamtypes(self, key, seen=None):
        """the C++ types a handler of untyped memory works on"""
        seen = set() if seen is None else seen
        if key in seen:
            return set()
        seen.add(key)
        f = self.p.fns.get(key)
        r = set()
        if f is None:
            return r
        for n in (f.nodes.values() if isinstance(f.nodes, dict) else f.nodes):
            if n is None:
                continue
            k = n["k"]
            if k == "New":
                r.add(plain(n["ty"]))
            elif k == "Cast" and n["ty"].rstrip().endswith(("*", "&")) and plain(n["ty"]) != "void":
                r.add(plain(n["ty"]))
            elif k == "Lambda":
                r |= self.lamtypes(n["fn"], seen)
            elif k == "Call" and "fn" in n:
                m = re.match(r"std::make_shared<(.*?)(,|>\()", n["fn"])
                if m and n["fn"].startswith("std::make_shared"):
                    r.add(plain(n["ty"][len("std::shared_ptr<"):-1]) if n["ty"].startswith("std::shared_ptr<") else plain(m.group(1)))
                elif self.p.fns.get(n["fn"]) is not None and not n["fn"].startswith(CLS + "::operator"):
                    r |= self.lamtypes(n["fn"], seen)
        r.discard("void")
        return r

    def lamtype(self, lam):
        key = lam[1]
        if key not in self.lt:
            ts = self.lamtypes(key)
            self.lt[key] = next(iter(ts)) if len(ts) == 1 else ("mixed", tuple(sorted(ts)))
            self.count("handlers", key)
        return self.lt[key]

    def tag(self, st, path):
        v = st.heap.get(path) if len(path) > 1 else st.env.get(path[0], st.heap.get(path))
        if v is not None and v[0] == "lam":
            return self.lamtype(v)
        if v is not None and v[0] == "s" and isinstance(v[1], tuple) and v[1][0] == "cmp":
            return ("of", v[1][1])
        t = st.heap.get(path + ("#ty",))
        return t[1] if t is not None else None

    def own(self, st, path):
        t = st.heap.get(path + ("#own",))
        return t[1] if t is not None else None

    def given(self, st, path, label, e):
        """an object of type e in a consistent state"""
        L = self.L
        st.heap[path + (L.type,)] = ("c", L.E[e])
        some = TRUE if e != "UNKNOWN" else FALSE
        st.heap[path + (L.data, "?")] = some
        st.heap[path + (L.alloc, "?")] = some
        st.heap[path + (L.data, "#own")] = ("c", ("obj", label))
        st.heap[path + (L.data, "#ty")] = ("c", ("of", label))
        st.heap[path + (L.alloc, "#ty")] = ("c", ("of", label))
        st.heap[path + (L.cmp,)] = ("s", ("cmp", label), False)
        st.heap[path + (L.cmp, "#ty")] = ("c", ("of", label))
        st.heap[path + (L.cmp, "?")] = some

    def report(self, rule, key, fn, node, msg, st):
        self.bad.append((rule, key, fn.loc(node), msg, ()))

    # ------------------------------------------------------------------ life time of the source
    def released(self, st):
        for k, v in st.heap.items():
            if k[-1] == "#own" and v == ("c", ("obj", "this")) and st.heap.get(k[:-1] + ("?",)) != FALSE:
                return False
        return True

    def use(self, sim, fn, node, path, st):
        if self.watch and path is not None and path and isinstance(path[0], tuple) and path[0][0] == "o" and path[0][1] in self.params and self.released(st):
            self.report("source-outlives-target", "source read after the old value was released in %s" % fn.key.replace(CLS + "::", ""), fn, node,
                        "%s is read after the old value of the target, which may own it, was released" % path[0][1].split(":")[1], st)

    def on_access(self, sim, fn, node, path, kind, st):
        self.use(sim, fn, node, path, st)
        return st

    def on_move(self, sim, st, src, dst):
        if st.heap.get(src + ("#own",)) is not None or st.heap.get(src + ("#ty",)) is not None:
            st = st.copy()
            for k in ("#own", "#ty"):
                st.heap.pop(src + (k,), None)
            st.heap[src + ("?",)] = FALSE
        return st

    def owner(self, st, path):
        if path is None:
            return None
        if path[-1] == self.L.data:
            return path[:-1]
        o = self.own(st, path)
        if o and o[0] == "obj":
            return ("this",) if o[1] == "this" else (("o", o[1]),)
        return None

    def etype(self, sim, st, obj):
        v = st.heap.get(obj + (self.L.type,))
        c = sim.const_of(st, v) if v is not None else None
        return None if c is None else self.L.name.get(c)

    def pointee(self, v):
        """object whose value a raw pointer points to"""
        if v is not None and v[0] == "p" and len(v[1]) >= 2 and v[1][-1] == "*":
            return v[1][:-1]
        return None

    def same_value(self, sim, st, a, b):
        """do two pointers to values point to the same one?  (two objects never share their value)"""
        if a is None or b is None or self.own(st, a) is None or self.own(st, b) is None and st.heap.get(b + ("?",)) != FALSE:
            if a is None or b is None or st.heap.get(a + ("?",)) != FALSE:
                return None
        na, nb = (sim.const_of(st, st.heap[x + ("?",)]) if x + ("?",) in st.heap else None for x in (a, b))
        if na is None or nb is None:
            return None
        if not na or not nb:
            return na == nb
        oa, ob = self.own(st, a), self.own(st, b)
        return None if oa is None or ob is None else oa == ob

    def on_compare(self, sim, op, a, b, st):
        if self.forced is not None and (a == DIFF) != (b == DIFF) and op in ("<", "<=", ">", ">="):
            # distance of two values compared with the precision
            near = self.forced[0] == self.forced[1]
            return ("c", int(near == ((a == DIFF) == (op in ("<", "<=")))))
        if op in ("==", "!="):
            r = self.same_value(sim, st, self.pointee(a), self.pointee(b))
            if r is not None:
                return ("c", int(r == (op == "==")))
        return None

    def on_call(self, sim, c):
        st, n, L = c.st, c.n, self.L
        if n.get("op") in ("==", "!=") and len(c.argpaths) + ("obj" in n) == 2:
            ps = ([c.objpath] if "obj" in n else []) + list(c.argpaths)
            if all(p is not None and len(p) > 1 for p in ps):
                r = self.same_value(sim, st, ps[0], ps[1])
                if r is not None:
                    return [(("c", int(r == (n["op"] == "=="))), st)]
        for a in list(c.argpaths) + [c.objpath] + [v[1] for v in c.args if v is not None and v[0] == "p"]:
            self.use(sim, c.fn, c.node, a, st)
        # lambda converted to a function pointer
        if c.obj is not None and c.obj[0] == "lam" and c.name.startswith("operator ") and "(*)" in c.name:
            return [(c.obj, st)]
        # typed view of the data
        if c.qn in ("std::static_pointer_cast", "std::reinterpret_pointer_cast"):
            src = c.argpaths[0]
            ty = n.get("ty", "")
            t = plain(ty[len("std::shared_ptr<"):-1]) if ty.startswith("std::shared_ptr<") else None
            o = self.owner(st, src)
            if o is not None and t is not None and t != "void":
                st = self.read(sim, c, o, t, st)
            if src is not None:
                dst = (("t", c.depth, c.node),)
                st = sim.copy_obj(st, src, dst)
                return [(("p", dst), st)]
        if c.qn in ("std::make_shared", "std::allocate_shared") and n.get("ty", "").startswith("std::shared_ptr<"):
            dst = (("t", c.depth, c.node),)
            st = sim.kill_path(st, dst).copy()
            st.heap[dst + ("?",)] = TRUE
            st.heap[dst + ("#ty",)] = ("c", plain(n["ty"][len("std::shared_ptr<"):-1]))
            st.heap[dst + ("#own",)] = ("c", ("fresh", c.node))
            return [(("p", dst), st)]
        # the handlers
        cp = c.objpath if c.name == "operator()" else None
        if cp is None and "callee" in n:
            cp = sim.loc(c.fn, n["callee"], c.depth, st)
        if cp is not None and cp[-1] == L.alloc:
            dst = (("t", c.depth, c.node),)
            st = sim.kill_path(st, dst).copy()
            t = self.tag(st, cp)
            a = c.args[0] if c.args else None
            d = self.pointee(a)
            truth = TRUE
            if d is not None and self.owner(st, d) is not None:
                o = self.owner(st, d)
                truth = st.heap.get(d + ("?",), TRUE)
                if self.tag(st, d) != t:
                    self.report("value-matches-type", "value copied by the handler of another type in %s" % c.fn.short(), c.fn, c.node, "the value is copied by the handler of %s, but it is %s" % (t, self.tag(st, d)), st)
            elif a is not None and a[0] == "p":
                at = plain(c.fn.nodes[n["args"][0]].get("ty", ""))
                if at not in ("void", t) and not (isinstance(t, tuple) and t[0] == "mixed"):
                    self.report("value-matches-type", "value copied by the handler of another type in %s" % c.fn.short(), c.fn, c.node, "a value of type %s is copied as %s" % (at, t), st)
            self.count("allocations", (c.fn.key, c.node))
            st.heap[dst + ("?",)] = truth
            if t is not None:
                st.heap[dst + ("#ty",)] = ("c", t)
            st.heap[dst + ("#own",)] = ("c", ("fresh", c.node))
            return [(("p", dst), st)]
        if cp is not None and cp[-1] == L.cmp:
            objs = [self.owner(st, self.pointee(a)) for a in c.args]
            self.count("compares", (c.fn.key, c.node))
            if len(objs) == 2 and None not in objs:
                A, B = objs
                ea, eb = self.etype(sim, st, A), self.etype(sim, st, B)
                same = A == B or (ea == eb and ea not in (None, "CUSTOM", "UNKNOWN")) or \
                    (ea == eb and sim.eqv(st, st.heap.get(A + (L.cmp,)), st.heap.get(B + (L.cmp,))) is True)
                if not same:
                    self.report("comparison-of-different-types", "values compared as another type in %s" % c.fn.short(), c.fn, c.node,
                                "values of type %s and %s are compared by reading one as the other%s" % (ea, eb, "" if ea != "CUSTOM" or eb != "CUSTOM" else " (custom types may differ)"), st)
                if any(st.heap.get(o + (L.data, "?")) == FALSE for o in (A, B)):
                    self.report("comparison-of-different-types", "missing value compared in %s" % c.fn.short(), c.fn, c.node, "an empty object is compared by value", st)
            if self.forced is not None and len(objs) == 2 and None not in objs and objs[0] != objs[1]:
                a, b = self.forced
                r = (a > b) - (a < b)
                return [(("c", r if objs[0] == ("this",) else -r), st)]
            s, st = sim.sym(c.fn, c.node, c.depth, st, False)
            return [(s, st)]
        if self.forced is not None and c.name in ("toInt64", "toUInt64", "toDouble") and c.objpath is not None and (c.objpath == ("this",) or isinstance(c.objpath[0], tuple) and c.objpath[0][0] == "o"):
            if "DOUBLE" in (self.etype(sim, st, ("this",)), self.etype(sim, st, self.other)) and c.name != "toDouble":
                self.report("comparison-result", "%s of a DOUBLE in %s" % (c.name, c.fn.short()), c.fn, c.node, "a DOUBLE takes part in a comparison by %s" % c.name, st)
            if self.etype(sim, st, c.objpath) not in CONVERSIONS[c.name]:
                self.report("comparison-result", "%s in %s" % (c.name, c.fn.short()), c.fn, c.node, "an object of type %s is compared by %s" % (self.etype(sim, st, c.objpath), c.name), st)
            return [(("c", self.forced[0 if c.objpath == ("this",) else 1]), st)]
        if self.forced is not None and c.name in ("abs", "fabs", "fabsl") and len(c.args) == 1:
            return [(DIFF, st)]
        # raw bytes
        if c.name == "resize" and c.objpath is not None and c.args:
            k = sim.const_of(st, c.args[0])
            st = sim.kill_path(st, c.objpath + ("#size",)).copy()
            if k is not None:
                st.heap[c.objpath + ("#size",)] = ("c", k)
            return [(U, st)]
        if c.name == "data" and c.objpath is not None and "std::vector" in c.qn:
            return [(("p", c.objpath + ("#buf",)), st)]
        if c.name in ("memcpy", "memmove", "copy_n", "__builtin_memcpy") and len(c.args) == 3:
            d = self.pointee(c.args[1])
            o = self.owner(st, d)
            if o is not None:
                k = sim.const_of(st, c.args[2])
                e = self.etype(sim, st, o)
                self.count("raw", (c.fn.key, c.node))
                if e is None or e not in TABLE or TABLE[e][1] == 0 or (k is not None and k != TABLE[e][1]):
                    self.report("raw-bytes", "bytes of a value of type %s in %s" % (e, c.fn.short()), c.fn, c.node, "%s bytes are copied from a value of type %s" % (k, e), st)
                a = c.args[0]
                if a is not None and a[0] == "p" and a[1][-1] == "#buf":
                    z = st.heap.get(a[1][:-1] + ("#size",))
                    if z is not None and k is not None and z[1] < k:
                        self.report("raw-bytes", "buffer for a value of type %s in %s" % (e, c.fn.short()), c.fn, c.node, "%s bytes are copied into a buffer of %s" % (k, z[1]), st)
                st = st.with_ts(st.ts | {("read", o)})
                return [(U, st)]
        # member-wise operations on the members
        if n.get("op") == "=" and c.objpath is not None and c.argpaths and c.argpaths[0] is not None and (c.args[0] is None or c.args[0][0] not in ("lam", "null")):
            src, dst = c.argpaths[0], c.objpath
            if dst[-1] in (L.data, L.alloc, L.cmp) or self.tag(st, src) is not None or self.own(st, src) is not None:
                if src == dst:
                    return [(("p", dst), st)]
                lam = st.heap.get(src) if len(src) > 1 else st.env.get(src[0])
                st = sim.copy_obj(st, src, dst)
                if lam is not None and lam[0] == "lam":
                    st = sim.store(st, dst, lam)
                if n["ptys"] and n["ptys"][0].endswith("&&"):
                    st = self.on_move(sim, st, src, dst)
                return [(("p", dst), st)]
        if c.name == "swap" and c.objpath is not None and len(c.args) == 1 and c.argpaths[0] is not None:
            return [(U, self.swap(sim, st, c.objpath, c.argpaths[0]))]
        if c.qn == "std::swap" and len(c.args) == 2 and None not in c.argpaths:
            return [(U, self.swap(sim, st, c.argpaths[0], c.argpaths[1]))]
        return None

    def swap(self, sim, st, a, b):
        tmp = (("t", 0, "swap"),)
        va, vb = st.heap.get(a), st.heap.get(b)
        st = sim.copy_obj(st, a, tmp)
        st = sim.copy_obj(st, b, a)
        st = sim.copy_obj(st, tmp, b)
        st = sim.kill_path(st, tmp).copy()
        for d, v in ((a, vb), (b, va)):
            if v is not None and len(d) > 1:
                st.heap[d] = v
        return st

    def on_construct(self, sim, c):
        st, n = c.st, c.n
        for a in c.argpaths:
            self.use(sim, c.fn, c.node, a, st)
        if n["cls"] == CLS and (n["copy"] or n["move"]) and not n.get("elidable"):
            target = self.p.fns.get(n["fn"])
            if target is not None and not target.implicit and not target.defaulted and sim.can_inline(target, c.fn):
                return [s for rv, s in sim.inline_call(target, c.depth, st, ("p", c.target), c.args, c.argpaths, n)]
        if n["cls"].startswith("std::shared_ptr") and c.args and not n["copy"] and not n["move"]:
            src = c.fn.nodes[n["args"][0]]
            if src["k"] == "New":
                t = plain(src["ty"])
                if len(c.args) > 1:
                    d = c.args[1]
                    dt = self.lamtype(d) if d is not None and d[0] == "lam" else None
                    if dt is not None and dt != t:
                        self.report("handlers-of-one-type", "deleter of %s in %s" % (t, c.fn.short()), c.fn, c.node, "a value of type %s is released as %s" % (t, dt), st)
                    self.count("handlers", (c.fn.key, c.node))
                st = st.copy()
                p = c.target
                st.heap[p + ("?",)] = TRUE
                st.heap[p + ("#ty",)] = ("c", t)
                st.heap[p + ("#own",)] = ("c", ("fresh", c.node))
                return [st]
            if c.argpaths[0] is not None and (c.args[0] is None or c.args[0][0] != "null"):
                st = sim.copy_obj(st, c.argpaths[0], c.target)
                if n["ptys"] and n["ptys"][0].endswith("&&"):
                    st = self.on_move(sim, st, c.argpaths[0], c.target)
                return [st]
        return None

    def read(self, sim, c, o, t, st):
        e = self.etype(sim, st, o)
        self.count("reads", (c.fn.key, c.node, t))
        who = c.fn.short()
        if e is None:
            self.report("read-as-stored-type", "value read as %s in %s" % (t, who), c.fn, c.node, "a value of unknown type is read as %s" % t, st)
        elif e == "UNKNOWN":
            self.report("read-as-stored-type", "empty object read as %s in %s" % (t, who), c.fn, c.node, "an empty object is read as %s" % t, st)
        elif e != "CUSTOM" and TABLE[e][0] != t:
            self.report("read-as-stored-type", "%s read as %s in %s" % (e, t, who), c.fn, c.node, "a value of type %s (%s) is read as %s" % (e, TABLE[e][0], t), st)
        elif e == "CUSTOM" and t in OF_TYPE and self.root != "getCustomType":
            self.report("read-as-stored-type", "CUSTOM read as %s in %s" % (t, who), c.fn, c.node, "a custom value is read as %s" % t, st)
        return st.with_ts(st.ts | {("read", o)})

    root = ""
    forced = None       # comparison: values the objects are taken to hold
    outcome = None      # comparison handler: the relation of the two values


DIFF = ("s", ("distance",), False)


def side(x):
    """0/1: the value comes from the first/second argument of a comparison handler"""
    r = set()

    def walk(y):
        if isinstance(y, tuple):
            if len(y) == 2 and y[0] == "o" and y[1] in ("left", "right"):
                r.add(0 if y[1] == "left" else 1)
            for z in y:
                walk(z)
    walk(x)
    return next(iter(r)) if len(r) == 1 else None


class HandlerClient(Client):
    """runs a comparison handler for two values in a given relation (-1, 0, 1)"""
    count_consts = True

    def __init__(self, rel):
        self.rel = rel
        self.used = 0

    def stable(self, path):
        return True

    def inline(self, sim, fn, call_fn):
        return False

    def relation(self, op, a, b):
        if a is None or b is None or a == b or op not in ("==", "!=", "<", ">", "<=", ">="):
            return None
        r = self.rel if a == 0 else -self.rel
        self.used += 1
        return ("c", int({"==": r == 0, "!=": r != 0, "<": r < 0, ">": r > 0, "<=": r <= 0, ">=": r >= 0}[op]))

    def on_compare(self, sim, op, a, b, st):
        return self.relation(op, side(a), side(b))

    def on_call(self, sim, c):
        op = c.n.get("op")
        if op in ("==", "!=", "<", ">", "<=", ">="):
            ps = ([c.objpath] if "obj" in c.n else []) + list(c.argpaths)
            if len(ps) == 2:
                r = self.relation(op, side(ps[0]), side(ps[1]))
                if r is not None:
                    return [(r, c.st)]
        return None


class Checker:
    def __init__(self, prog):
        self.p = prog
        self.L = Layout(prog)
        self.bad = []
        self.counts = {}
        self.npaths = 0

    def absorb(self, cl, outs, f):
        self.bad += cl.bad
        for k, v in cl.counts.items():
            self.counts.setdefault(k, set()).update(v)
        self.npaths += len(outs)

    def consistent(self, cl, sim, st, obj, f, what, fn=None):
        """the state of an object: returns its type (or None) and reports inconsistencies"""
        L = self.L
        v = st.heap.get(obj + (L.type,))
        k = sim.const_of(st, v) if v is not None else None
        d = st.heap.get(obj + (L.data, "?"))
        d = sim.const_of(st, d) if d is not None else None
        loc = f.loc()
        where = "%s after %s" % (what, f.short())

        def rep(msg):
            self.bad.append(("value-matches-type", where, loc, msg, ()))
        if k is None:
            if v is not None or not cl.missing_ok:
                rep("the type of %s is not determined" % what)
            return None
        e = L.name.get(k)
        if e == "UNKNOWN":
            if d != 0:
                rep("%s is of type UNKNOWN but still holds a value" % what)
            return e
        if d != 1:
            rep("%s is of type %s but may hold no value" % (what, e))
            return e
        t, a, c = (cl.tag(st, obj + (x,)) for x in (L.data, L.alloc, L.cmp))
        for name, x in (("copied", a), ("compared", c)):
            if x != t:
                rep("the value of %s is %s but is %s as %s" % (what, desc(t), name, desc(x)))
        if isinstance(t, tuple) and t[0] == "of":
            if self.given.get(t[1]) != e:
                rep("%s is of type %s but holds the value of type %s of %s" % (what, e, self.given.get(t[1]), t[1]))
        elif isinstance(t, tuple):
            pass
        elif e != "CUSTOM" and t != TABLE[e][0]:
            rep("%s is of type %s but holds %s" % (what, e, t))
        return e

    def mixed(self, cl):
        for key, t in cl.lt.items():
            if isinstance(t, tuple):
                f = self.p.fns[key]
                self.bad.append(("handlers-of-one-type", "handler with %s" % ", ".join(t[1]), f.loc(), "a handler of untyped memory works on different types: %s" % ", ".join(t[1]), ()))

    # ------------------------------------------------------------------ constructors and assignments
    def expected(self, f):
        ps = [plain(p["type"]) for p in f.params]
        if any(p.endswith("Variant::Type") or p == "std::shared_ptr<void>" for p in ps):
            return None
        if not ps:
            return "UNKNOWN"
        if len(ps) == 2:
            return "BYTEARRAY" if ps[0] == "char" and norm(f.params[0]["type"]).endswith("*") else "PAIR"
        if ps[0] == V:
            return "copy"
        if ps[0] == "char":
            return "STRING"
        if f.name == "makeCustom":
            return "CUSTOM"
        if ps[0] in OF_TYPE:
            return OF_TYPE[ps[0]]
        for c in ("vector", "list", "map"):
            if ps[0].startswith("std::%s<" % c):
                return c.upper()
        return "CUSTOM"

    def mutators(self):
        fns = [f for f in self.p.fns.values() if f.cls == CLS and f.kind in ("ctor", "method") and not f.implicit]
        nctor = 0
        for f in sorted(fns, key=lambda f: f.key):
            isctor, isassign, ismake, isclear = f.kind == "ctor", f.name == "operator=", f.name in ("make", "makeCustom"), f.name == "clear"
            if not (isctor or isassign or ismake or isclear):
                continue
            e = self.expected(f) if not isclear else "UNKNOWN"
            if e is None:
                continue
            nctor += 1
            srcs = sorted(self.L.E) if e == "copy" else [None]
            mine = ["UNKNOWN", None] if (isassign or isclear) else [None]
            for s in srcs:
                for t in (["UNKNOWN", "DOUBLE", "STRING", "CUSTOM"] + ([s] if s not in ("UNKNOWN", "DOUBLE", "STRING", "CUSTOM", None) else []) if (isassign or isclear) else [None]):
                    self.mutate(f, e, s, t, isctor, ismake)
            if e == "copy" and isassign:
                for s in sorted(self.L.E):
                    self.selfassign(f, s)
        self.counts["entry points that set a value"] = set(range(nctor))

    def mutate(self, f, e, src, mine, isctor, ismake):
        refs = ["param:" + p["name"] for p in f.params if norm(p["type"]).endswith("&")]
        cl = VarClient(self.p, self.L, refs, watch=mine not in (None, "UNKNOWN"))
        cl.missing_ok = False
        cl.root = f.name
        sim = Sim(self.p, cl)
        st = State(ts=frozenset())
        self.given = {}
        if mine is not None:
            cl.given(st, ("this",), "this", mine)
            self.given["this"] = mine
        vpath = None
        if src is not None:
            vpath = (("o", "param:" + f.params[0]["name"]),)
            cl.given(st, vpath, vpath[0][1], src)
            self.given[vpath[0][1]] = src
        outs = sim.run(f, st=st)
        self.absorb(cl, outs, f)
        self.mixed(cl)
        for rv, s in outs:
            obj = ("this",)
            if ismake:
                if rv is None or rv[0] != "p":
                    self.bad.append(("value-matches-type", "result of %s" % f.short(), f.loc(), "the result is not determined", ()))
                    continue
                obj = rv[1]
            got = self.consistent(cl, sim, s, obj, f, "the object")
            want = src if e == "copy" else e
            if got is not None and got != want:
                self.bad.append(("value-matches-type", "type after %s" % f.key.replace(CLS + "::", ""), f.loc(), "%s sets an object of type %s, %s is expected" % (f.short(), got, want), ()))
            if vpath is not None:
                ismove = norm(f.params[0]["type"]).endswith("&&")
                self.consistent(cl, sim, s, vpath, f, "the source")
                o1, o2 = cl.own(s, obj + (self.L.data,)), cl.own(s, vpath + (self.L.data,))
                if o1 is not None and o1 == o2 and s.heap.get(obj + (self.L.data, "?")) != FALSE and s.heap.get(vpath + (self.L.data, "?")) != FALSE:
                    self.bad.append(("copy-is-independent", "value shared by two objects after %s" % f.short(), f.loc(), "both objects refer to the same value", ()))
                if not ismove:
                    k = self.etype(sim, s, vpath)
                    if k != src or (src != "UNKNOWN" and o2 != ("obj", vpath[0][1])):
                        self.bad.append(("copy-is-independent", "source changed by %s" % f.short(), f.loc(), "the source of a copy is changed", ()))
                if got == src and src != "UNKNOWN" and self.L.E and cl.tag(s, obj + (self.L.data,)) != ("of", vpath[0][1]):
                    self.bad.append(("value-matches-type", "value after %s" % f.short(), f.loc(), "the value is not the one of the source (it is %s)" % (desc(cl.tag(s, obj + (self.L.data,))),), ()))

    def etype(self, sim, st, obj):
        v = st.heap.get(obj + (self.L.type,))
        c = sim.const_of(st, v) if v is not None else None
        return None if c is None else self.L.name.get(c)

    def selfassign(self, f, s):
        cl = VarClient(self.p, self.L)
        cl.missing_ok = False
        cl.root = f.name
        sim = Sim(self.p, cl)
        st = State(ts=frozenset())
        self.given = {"this": s}
        cl.given(st, ("this",), "this", s)
        outs = sim.run(f, args={0: ("alias", ("this",))}, st=st)
        self.absorb(cl, outs, f)
        for rv, x in outs:
            got = self.consistent(cl, sim, x, ("this",), f, "the object assigned to itself")
            if got is not None and got != s and not norm(f.params[0]["type"]).endswith("&&"):
                self.bad.append(("self-assignment", "value lost by %s" % f.short(), f.loc(), "an object of type %s is of type %s after it was assigned to itself" % (s, got), ()))

    # ------------------------------------------------------------------ accessors
    def accessors(self):
        fns = [f for f in self.p.fns.values() if f.cls == CLS and f.kind == "method" and not f.implicit]
        found = {}
        for f in sorted(fns, key=lambda f: f.key):
            nm = f.name
            if nm in COMPARE and len(f.params) == 1:
                found.setdefault("compare", set()).add(nm)
                for a in sorted(self.L.E):
                    for b in sorted(self.L.E):
                        self.compare(f, a, b)
                continue
            if nm not in PREDICATES and nm not in GETTERS and nm not in CONVERSIONS:
                continue
            found.setdefault("accessors", set()).add(f.key)
            for e in sorted(self.L.E):
                cl = VarClient(self.p, self.L)
                cl.root = nm
                sim = Sim(self.p, cl)
                st = State(ts=frozenset())
                cl.given(st, ("this",), "this", e)
                outs = sim.run(f, st=st)
                self.absorb(cl, outs, f)
                for rv, s in outs:
                    if nm in PREDICATES:
                        k = sim.const_of(s, rv) if rv is not None else None
                        if k != int(e in PREDICATES[nm]):
                            self.bad.append(("predicate", "%s for %s" % (nm, e), f.loc(), "%s() is %s for an object of type %s" % (nm, k, e), ()))
                    read = ("read", ("this",)) in s.ts
                    if nm in GETTERS and nm.startswith("get"):
                        q = s.heap.get(rv[1] + ("?",)) if rv is not None and rv[0] == "p" else None
                        q = sim.const_of(s, q) if q is not None else None
                        if (GETTERS[nm] == e) != (q == 1) or (q not in (0, 1)):
                            self.bad.append(("getter-of-another-type", "%s of %s" % (nm, e), f.loc(), "%s() returns %s for an object of type %s" % (nm, {0: "nothing", 1: "a value", None: "an undetermined result"}[q], e), ()))
                    if nm in GETTERS and nm.startswith("to") and read and GETTERS[nm] != e:
                        self.bad.append(("getter-of-another-type", "%s of %s" % (nm, e), f.loc(), "%s() uses the value of an object of type %s" % (nm, e), ()))
                    if (nm in CONVERSIONS and e in CONVERSIONS[nm] or nm in GETTERS and GETTERS[nm] == e) and not read:
                        self.bad.append(("conversion-uses-value", "%s of %s" % (nm, e), f.loc(), "%s() of an object of type %s does not depend on its value" % (nm, e), ()))
        self.counts["compare"] = found.get("compare", set())
        self.counts["accessors"] = found.get("accessors", set())

    def compare(self, f, a, b):
        """results for all pairs of types and all relations of the values"""
        nm = f.name[len("operator"):]
        vpath = (("o", "param:" + f.params[0]["name"]),)
        both = a in NUMERIC and b in NUMERIC
        for rel in (-1, 0, 1):
            cl = VarClient(self.p, self.L)
            cl.root, cl.forced, cl.other = f.name, (5, 5 - rel), vpath
            sim = Sim(self.p, cl)
            st = State(ts=frozenset())
            cl.given(st, ("this",), "this", a)
            cl.given(st, vpath, vpath[0][1], b)
            if a == b and a != "UNKNOWN":
                # values of the same type; other types that are CUSTOM as well are covered by the symbolic run
                st.heap[vpath + (self.L.cmp,)] = st.heap[("this", self.L.cmp)]
            outs = sim.run(f, st=st)
            self.absorb(cl, outs, f)
            if a == "UNKNOWN" and b == "UNKNOWN":
                want = {"==": 1, "!=": 0, ">": 0, ">=": 1, "<": 0, "<=": 1}[nm]
            elif both or a == b:
                want = int({"==": rel == 0, "!=": rel != 0, "<": rel < 0, ">": rel > 0, "<=": rel <= 0, ">=": rel >= 0}[nm])
            else:
                want = {"==": 0, "!=": 1, ">": 0, ">=": 0}.get(nm)
            for rv, s in outs:
                k = sim.const_of(s, rv) if rv is not None else None
                if k is not None and want is not None and k != want:
                    self.bad.append(("comparison-result", "%s of %s and %s" % (f.name, a, b), f.loc(),
                                     "%s is %s for values of type %s and %s, of which the first one is %s" % (f.name, bool(k), a, b, {-1: "less", 0: "equal", 1: "greater"}[rel]), ()))
        if a == b == "CUSTOM":
            cl = VarClient(self.p, self.L)
            cl.root = f.name
            sim = Sim(self.p, cl)
            st = State(ts=frozenset())
            cl.given(st, ("this",), "this", a)
            cl.given(st, vpath, vpath[0][1], b)
            outs = sim.run(f, st=st)
            self.absorb(cl, outs, f)

    def handlers(self):
        """the comparison handler of every type tells less, equal and greater apart"""
        n = 0
        for f in sorted(self.p.fns.values(), key=lambda f: f.key):
            ps = [norm(p["type"]).replace(" ", "") for p in f.params]
            if f.kind not in ("lambda", "fn", "method", "function") or ps != ["void*", "void*"] or norm(f.ret or "") != "int" or "variant" not in (f.file or ""):
                continue
            n += 1
            for rel in (-1, 0, 1):
                cl = HandlerClient(rel)
                sim = Sim(self.p, cl)
                st = State(ts=frozenset())
                for w in ("left", "right"):
                    st.env[("o", w)] = st.heap[(("o", w),)] = ("s", ("value", ("o", w)), False)
                outs = sim.run(f, args={0: ("p", (("o", "left"),)), 1: ("p", (("o", "right"),))}, st=st)
                self.npaths += len(outs)
                for rv, s in outs:
                    k = sim.const_of(s, rv) if rv is not None else None
                    if k is not None and (k > 0) - (k < 0) != rel or k is None and cl.used == 0:
                        self.bad.append(("comparison-result", "comparison handler " + f.key.split("@")[-1].replace(CLS + "::", ""), f.loc(), "the comparison handler returns %s if the first value is %s" % (k, {-1: "less", 0: "equal", 1: "greater"}[rel]), ()))
        self.counts["comparison handlers"] = set(range(n))


def desc(t):
    if isinstance(t, tuple) and t[0] == "of":
        return "the one of %s" % t[1].replace("param:", "")
    return str(t)


@check("P28", "Abstract interpretation of every constructor, assignment, accessor and comparison of Variant for every pair of types: the type of the object, the C++ type of the value it holds and the types its "
       "copy, compare and release handlers work on are tracked through all copies and moves, and every typed access is compared with them.", ASSUME, TECH)
def p28(rep, tier):
    for config in configs(tier):
        prog = model.load(config, ("witness/variant.cpp",))
        x = Checker(prog)
        x.mutators()
        x.accessors()
        x.handlers()
        seen = set()
        for rule in RULES:
            mine = [b for b in x.bad if b[0] == rule]
            for r, key, loc, msg, path in mine:
                if (r, key) not in seen:
                    seen.add((r, key))
                    rep.violate(r, key, loc, msg, path)
            if not mine:
                rep.ob(rule, True)
        for k, v in sorted(x.counts.items()):
            rep.stat(k.replace(" ", "_"), len(v))
        for k in ("allocations", "handlers", "compares", "entry points that set a value", "compare", "accessors"):
            if not x.counts.get(k) and not rep.violations:
                raise model.AnalysisBroken("%s not recognised" % k)
        rep.stat("path_classes", x.npaths)
