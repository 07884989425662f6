"""C33 options that only ask for more output never change what is estimated."""
import inspect
import re
import numpy as np
from .. import models
from ..core import Skip
from . import c13

RULE = ("Every public estimator fitted twice on the same data and estimation options: once with every reporting option off, once with "
        "a random selection of them (vm, latex, non-spatial and spatial diagnostics, Moran, White, VIF, impacts, names, progress "
        "printing) on; every value reachable from both results is compared exactly, and the report of the first is contained in "
        "that of the second.  Options that change inference only (robust, sig2n_k) leave coefficients, predictions and residuals.")
CASE_LIMIT = 90
NAMES = re.compile(r"(^|\.)name_(ds|w|gwk)$|(^|\.)title$")


def par_of(spreg, m):
    par = dict(inspect.signature(getattr(spreg, m.cls).__init__).parameters)
    return par


def reporting(ctx, m, spreg):
    """(off, on): values of the reporting options"""
    par = par_of(spreg, m)
    panel = m.label in models.PANEL
    w_ok = "w" in m.kw
    on, off = {}, {}
    for o in ("vm", "latex"):
        if o in par:
            off[o], on[o] = False, ctx.pick(o, [True, False])
    if "nonspat_diag" in par:
        off["nonspat_diag"], on["nonspat_diag"] = False, ctx.pick("nonspat_diag", [True, True, False])
    if "spat_diag" in par:
        ok = w_ok or m.label == "Probit" and "w" in m.kw
        off["spat_diag"], on["spat_diag"] = False, bool(ok and ctx.pick("spat_diag", [True, True, False]))
    if "moran" in par:
        off["moran"], on["moran"] = False, bool(w_ok and on.get("spat_diag") and ctx.pick("moran", [True, False]))
    for o in ("white_test", "vif"):
        if o in par:
            off[o], on[o] = False, ctx.pick(o, [True, False])
    if "spat_impacts" in par:
        off["spat_impacts"], on["spat_impacts"] = None, ctx.pick("spat_impacts", ["simple", "full", ["simple", "full"], "all"])
    if m.cls == "NSLX":
        off.update(conv_flag=0, verbose=False)
        on.update(conv_flag=ctx.pick("conv_flag", [0, 1]), verbose=ctx.pick("verbose", [False, True]))
    if m.cls == "SUR":
        off["verbose"], on["verbose"] = False, ctx.pick("verbose", [False, True])
    if "summ" in par:
        pass
    if "name_ds" in par:
        on["name_ds"] = "another.csv"
    if "name_w" in par and w_ok:
        on["name_w"] = "weights of mine"
    return off, on


def drop(kw, off):
    return {k: v for k, v in kw.items() if k not in off}


def mk(label):
    def case(ctx):
        import spreg
        m = c13.instance(ctx, label)
        off, on = reporting(ctx, m, spreg)
        rest = drop(m.kw, off)
        ctx.sig = [label, ctx.idx, m.d.n]
        cls = getattr(spreg, m.cls)
        try:
            with ctx.quiet():
                a = cls(**rest, **off)
        except np.linalg.LinAlgError:
            raise Skip("refused without reports")
        except Exception as e:
            if "power expansion" in str(e):
                raise Skip("reduced form out of reach of the power expansion")
            raise
        b = ctx.run("fit_with_reports", cls, **{**rest, **on})
        fa, fb = models.flat(a), models.flat(b)
        n = lost = 0
        for k, v in fa.items():
            if NAMES.search(k) or k in off:
                continue
            if k not in fb:
                lost += 1
                if not ctx.ok("kept", False, "%s is only there without reports" % k):
                    break
                continue
            n += 1
            w = fb[k]
            same = models.same(v, w) or not isinstance(v, str) and not isinstance(w, str) and (np.shape(v) == np.shape(w) and np.allclose(np.asarray(v, float), np.asarray(w, float), rtol=1e-11,
                                                                                 atol=1e-13, equal_nan=True))
            if not ctx.ok("same", same, "%s changes: %s, %s with %s" % (k, np.ravel(v)[:4], np.ravel(w)[:4], sorted(o for o in on if on[o]))):
                break
        ctx.note(compared=n, more=len(set(fb) - set(fa)))
        ctx.ok("compared", n >= 5, "%d values" % n)
        if hasattr(a, "summary") and not on.get("latex"):
            gap = missing(a.summary, b.summary)
            ctx.ok("report_kept", not gap, "lines of the plain report that the longer one lacks: %s" % gap[:3])
        inference(ctx, m, cls, rest, off, a)
    return case


def missing(s, t):
    """lines with coefficients or figures of one report that do not occur in another"""
    have = {" ".join(l.split()) for l in t.split("\n")}
    out = []
    for l in s.split("\n"):
        v = " ".join(l.split())
        if not re.search(r"\d", v) or re.match(r"(Data set|Weights matrix|SPATIAL PSEUDO)", v, re.I) or v.startswith(">"):
            continue
        if v not in have and not any(h.startswith(v) for h in have):
            out.append(v)
    return out


def inference(ctx, m, cls, rest, off, a):
    """options that choose the covariance estimator"""
    if m.label in models.SURS or m.label in models.PANEL or "robust" in rest and rest["robust"] == "hac":
        return
    par = inspect.signature(cls.__init__).parameters
    alt = {}
    if "robust" in par and rest.get("robust") is None:
        alt["robust"] = ctx.pick("robust", ["white", None])
    if "sig2n_k" in par:
        alt["sig2n_k"] = ctx.pick("sig2n_k", [True, False])
    if not alt:
        return
    kw = {**rest, **off, **alt}
    b = ctx.run("fit_other_covariance", cls, **kw)
    fa, fb = models.flat(a), models.flat(b)
    for k in ("betas", "u", "predy", "utu", "rho", "e_pred", "predy_e", "r2", "pr2", "pr2_e"):
        for q in fa:
            if q == k or q.startswith("multi{") and q.endswith("." + k):
                if q in fb and not isinstance(fa[q], str):
                    ctx.close("covariance_only." + k, fb[q], fa[q], rtol=1e-11, scale=np.max(np.abs(fa[q])) if np.size(fa[q]) else 1)


SUBS = {label: (mk(label), 5, 60) for label in models.CROSS + models.PANEL + models.SURS}
