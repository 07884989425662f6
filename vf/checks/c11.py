"""C11 worker processes: parallel regime estimation against serial estimation, under injected delays and faults."""
import multiprocessing as mp
import multiprocessing.pool as mpp
import os
import time
import numpy as np
from .. import models
from ..core import Skip, StopCase
from . import c10

RULE = ("Every regime estimator with separate estimation by regime, 2-5 regimes, run serially and with cores, the number of "
        "workers set to 1-8 and a random delay injected into every task so that completion order is a chosen permutation "
        "of submission order; a recorder in the parent and in the workers logs submissions and completions; everything "
        "reachable from the two results is compared. In fault cases one task is made to fail and must surface.")
CASE_LIMIT = 90


class InjectedFault(Exception):
    pass


_LOG = None


def _delayed(i, delay, fault, func, args, kw):
    """runs inside the worker"""
    time.sleep(delay)
    if fault:
        raise InjectedFault("task %d" % i)
    r = func(*args, **kw)
    with _LOG.get_lock():
        n = _LOG[0]
        _LOG[0] = n + 1
        _LOG[1 + n] = i + 1
    return r


class Recorder:
    """wraps submission to process pools: numbers the tasks, injects delays and faults"""

    def __init__(self, order, step, fault=None, workers=None):
        self.order, self.step, self.fault, self.workers = order, step, fault, workers
        self.submitted = 0
        self.pools = []

    def __enter__(self):
        global _LOG
        _LOG = mp.Array("i", 64)
        self.orig, self.cpu = mpp.Pool.apply_async, os.cpu_count
        rec = self

        def apply_async(pool, func, args=(), kwds={}, *a, **k):
            i = rec.submitted
            rec.submitted += 1
            if pool not in rec.pools:
                rec.pools.append(pool)
            d = rec.step * rec.order[i % len(rec.order)]
            return rec.orig(pool, _delayed, (i, d, rec.fault == i, func, tuple(args), dict(kwds)), {}, *a, **k)
        mpp.Pool.apply_async = apply_async
        if self.workers:
            os.cpu_count = lambda: self.workers
        return self

    def __exit__(self, *exc):
        mpp.Pool.apply_async, os.cpu_count = self.orig, self.cpu
        self.completed = [v - 1 for v in _LOG[1:1 + _LOG[0]]]
        for p in self.pools:
            p.terminate()
        self.pools = []
        return False


def differ(ctx, key, a, b):
    bad = []
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b:
            bad.append(k + " (only in one)")
        elif isinstance(a[k], str) or isinstance(b[k], str):
            if a[k] != b[k]:
                bad.append(k)
        else:
            u, v = np.asarray(a[k], float), np.asarray(b[k], float)
            if u.shape != v.shape or not np.allclose(u, v, rtol=1e-9, atol=1e-11 * (1 + np.nanmax(np.abs(u), initial=0)),
                                                      equal_nan=True):
                bad.append(k)
    ctx.ok(key, not bad, "differs in %s" % bad[:6])


def make(ctx, label, R=(2, 3, 4, 5), sep=(True, True, True, False)):
    for attempt in range(12):
        try:
            m = models.make(ctx, label, R=ctx.pick("nreg", R), sep=ctx.pick("sep", sep))
            c10.estimable(m)
            if "Lag" in m.cls or "Combo" in m.cls or m.kw.get("add_wy"):
                c10.admissible(m)
            return m
        except Skip:
            ctx.idx += 1000       # other picks, same stream
    raise Skip("no estimable instance")


def mk(label):
    def case(ctx):
        import spreg
        m = make(ctx, label)
        R = m.g.R
        ctx.sig = [m.d.n, R, ctx.idx]
        serial = ctx.run("serial", m.call, spreg)
        order = [int(v) for v in ctx.rng.permutation(R)]
        if ctx.pick("reverse", [True, False]):
            order = list(range(R))[::-1]
        workers = ctx.pick("workers", [1, 2, 3, 8])
        cores = ctx.pick("cores", [True, True, 1, 4])
        with Recorder(order, ctx.pick("step", [.05, .02, 0.])) as rec:
            rec.workers = workers
            os.cpu_count = lambda: workers
            par = ctx.run("parallel", m.call, spreg, cores=cores)
        os.cpu_count = rec.cpu
        multi = getattr(par, "multi", None)
        ctx.note(submitted=rec.submitted, completion_order=rec.completed, multi=bool(multi))
        ctx.cfg["reordered"] = rec.completed != sorted(rec.completed)
        differ(ctx, "same_results", models.flat(serial), models.flat(par))
        ctx.ok("same_summary", serial.summary == par.summary, "summaries differ")
        ctx.ok("same_kind", hasattr(serial, "multi") == hasattr(par, "multi"))
        if multi:
            ctx.ok("every_regime_once", list(multi) == list(serial.multi) and len(multi) == R, "regimes %s" % list(multi))
            if rec.submitted:
                ctx.ok("every_task_completed_once", sorted(rec.completed) == list(range(rec.submitted)),
                       "submitted %d completed %s" % (rec.submitted, rec.completed))
            for r in range(R):
                u = np.asarray(par.u, float)[m.g.ids(r)]
                ctx.close("residuals_of_the_right_regime", np.asarray(multi[m.g.keys[r]].u, float), u, rtol=1e-9)
    return case


def case_fault(ctx):
    """one worker fails: the estimator must not return results"""
    import spreg
    label = ctx.pick("label", models.REGIMES)
    m = make(ctx, label, (2, 3, 4), [True])
    ctx.sig = [m.d.n, m.g.R, ctx.idx]
    with Recorder([0], 0., fault=int(ctx.rng.integers(m.g.R))) as rec:
        try:
            with ctx.quiet():
                r = m.call(spreg, cores=True)
        except InjectedFault:
            ctx.ok("fault_surfaces", True)
            return
        except Exception as e:
            ctx.ok("fault_surfaces", rec.submitted > 0, "%s" % e)
            return
    if not rec.submitted:
        raise Skip("estimated without workers")
    ctx.ok("fault_surfaces", False, "a worker failed and %s was returned" % type(r).__name__)


SUBS = {l: (mk(l), 16, 160) for l in models.REGIMES}
SUBS["fault"] = (case_fault, 45, 450)
