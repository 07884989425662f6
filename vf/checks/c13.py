"""C13 order independence: the same observations listed in another order."""
import numpy as np
from .. import models, relate
from ..core import Skip
from . import c10, c11

RULE = ("Every public estimator fitted twice on the same data: once as generated, once with observations, weights, kernels, "
        "regimes, coordinates and all columns listed in a random order (also the reversal and the sort by outcome) and with the "
        "weights' identifiers kept, renamed or retyped; every value reachable from the two results is compared after mapping "
        "per-observation rows, per regime where estimation is separate, per period for panels.")
CASE_LIMIT = 90


def instance(ctx, label, **how):
    for attempt in range(12):
        try:
            m = models.make(ctx, label, **how)
            if m.g is not None and label not in models.SURS:
                c10.estimable(m)
                if "Lag" in m.cls or "Combo" in m.cls or m.kw.get("add_wy"):
                    c10.admissible(m)
                    k = m.d.k
                    lags = int(m.kw.get("w_lags", 1)) + int(m.kw.get("slx_lags", 0))
                    if k > 5 and min(len(m.g.ids(r)) for r in range(m.g.R)) < k * (1 + lags) + 8:
                        raise Skip("more instruments than observations in a regime")
            return m
        except Skip:
            ctx.idx += 1000
    raise Skip("no estimable instance")


def mk(label):
    def case(ctx):
        import spreg
        m = instance(ctx, label)
        n = m.d.n
        how = ctx.pick("order", ["random", "random", "reverse", "sort", "same"])
        if how == "random":
            p = ctx.rng.permutation(n)
        elif how == "reverse":
            p = np.arange(n)[::-1].copy()
        elif how == "sort":
            y = m.d.bigy[0] if label in models.SURS else m.d.y[:n]
            p = np.argsort(y.ravel(), kind="stable")
        else:
            p = np.arange(n)
        idk = ctx.pick("relabel", ["keep", "int", "str", "rev"]) if how != "same" else ctx.pick("relabel2", ["int", "str", "rev", "mixed"])
        ids = {"keep": None, "int": list(range(n)), "str": ["z%d" % i for i in range(n)], "rev": list(range(n))[::-1],
               "mixed": [int(i) * 3 - 50 for i in ctx.rng.permutation(n)]}[idk]
        ctx.sig = [n, label, ctx.idx]
        kw = relate.permuted(m, p, ids)
        try:
            with ctx.quiet():
                a = m.call(spreg)
            if label == "Panel_RE_Error":
                with ctx.quiet():
                    getattr(spreg, m.cls)(**kw)
        except np.linalg.LinAlgError:
            if label == "Panel_RE_Error":
                raise Skip("singular covariance of the deprecated random effects model")
            raise
        except Exception as e:
            if "power expansion" in str(e) and m.cls.startswith("GM_Lag") and m.kw["w"].transform != "R":
                raise Skip("reduced form out of reach of the power expansion")
            raise
        b = ctx.run("permuted_fit", getattr(spreg, m.cls), **kw)
        if label == "ML_ErrorRE" and (a.phi < 1e-6) != (b.phi < 1e-6):
            raise Skip("the optimiser was caught in the stationary point phi = 0 once")
        tol = 1e-3 if label == "NSLX" else 1e-4 if m.iterative else 1e-7
        key = "reordered"
        if label in ("ML_ErrorRE", "Panel_RE_Error") and "symmetric_w" not in m.tags:
            key = "reordered.eigenvectors-of-other-weights-not-orthonormal"
        relate.compare(ctx, key, models.flat(a), models.flat(b), tol, relate.row_map(m, p),
                       skip=("e_filtered",) if label == "Panel_RE_Error" else ())      # whitened up to a rotation
        ctx.note(values=len(models.flat(a)))
    return case


SUBS = {label: (mk(label), 12, 150) for label in models.ALL}
