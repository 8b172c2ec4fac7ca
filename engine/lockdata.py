"""Runs the lock study for every concrete dispatcher in parallel and returns plain data."""
from concurrent.futures import ProcessPoolExecutor
import multiprocessing
from . import model, locks
from .model import AnalysisBroken

_prog = None


class D:
    pass


def _job(arg):
    config, disp = arg
    p = model.load(config)
    s = locks.Study(p, disp)
    d = D()
    d.disp = disp
    d.roles = dict(s.roles)
    d.ftype = dict(s.c.ftype)

    def fr(x):
        what, fn, node, root, stk = x
        return (what, fn.key, fn.loc(node), root, tuple(p.fns[k].short() if k in p.fns else str(k) for k in stk))
    d.accesses = [fr(x) for x in s.c.accesses]
    d.acquires = [fr(x) for x in s.c.acquires]
    d.usercalls = [fr(x) for x in s.c.usercalls]
    d.notifies = [fr(x) for x in s.c.notifies]
    d.waits = [fr(x) for x in s.c.waits]
    d.masks = [fr(x) for x in s.c.masks]
    d.joins = [fr(x) for x in s.c.joins]
    d.allocs = [fr(x) for x in s.c.allocs]
    d.unbalanced = [(f.short(), f.loc(), l) for f, l in s.c.unbalanced]
    d.internal = [f.short() for f in s.internal]
    d.inlined = len(s.sim.inlined)
    d.guard_ops = s.c.guard_ops
    return d


def collect(configs=("posix",)):
    jobs = []
    for c in configs:
        p = model.load(c)
        ds = p.concrete_dispatchers()
        if not ds:
            raise AnalysisBroken("no concrete dispatcher found")
        jobs += [(c, d) for d in ds]
    with ProcessPoolExecutor(min(8, len(jobs)), mp_context=multiprocessing.get_context("fork")) as ex:
        res = list(ex.map(_job, jobs))
    for (c, d), r in zip(jobs, res):
        r.config = c
        if not r.accesses or not r.acquires:
            raise AnalysisBroken("lock study of %s found no shared accesses" % d)
    return res


def sync_type(ty):
    ty = ty.replace("const ", "").replace("mutable ", "")
    return any(x in ty for x in ("hsmcpp::Mutex", "std::mutex", "ConditionVariable", "condition_variable", "hsmcpp::AtomicFlag",
                                 "std::atomic", "std::once_flag"))
