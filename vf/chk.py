"""Monitors shared by several properties."""
import numpy as np
from scipy import stats


def base_match(ctx, reg, r, pre="", rtol=1e-7, vm=True):
    """coefficients, residuals, predictions, variance against an oracle object"""
    sb = np.max(np.abs(r.b))
    ctx.close(pre + "betas", reg.betas, r.b, rtol=rtol)
    ctx.close(pre + "u", reg.u, r.u, rtol=rtol, scale=np.max(np.abs(reg.y)))
    ctx.close(pre + "predy", reg.predy, r.predy, rtol=rtol, scale=np.max(np.abs(reg.y)))
    if vm:
        ctx.close(pre + "vm", reg.vm, r.vm, rtol=max(rtol, 1e-6))
        ctx.close(pre + "vm_diag", np.diag(reg.vm) / np.diag(r.vm), np.ones(len(r.vm)), rtol=max(rtol * 100, 1e-5))


def table(ctx, reg, betas=None, vm=None, pre="table.", dist="z", df=None, names=None):
    """output table rows carry the coefficients, their standard errors, statistics and p-values"""
    o = reg.output
    if betas is None:
        betas = np.asarray(reg.betas, float).reshape(-1)
    if vm is None:
        vm = np.asarray(reg.vm, float)
    betas = np.asarray(betas, float).reshape(-1)
    if names is not None:
        ctx.ok(pre + "names", list(o["var_names"]) == list(names), "%s vs %s" % (list(o["var_names"]), list(names)))
    ctx.close(pre + "coef", np.asarray(o["coefficients"], float), betas, rtol=1e-10)
    se = np.sqrt(np.diag(vm))
    if np.all(np.isfinite(se)) and np.all(se > 0):
        ctx.close(pre + "se", np.asarray(o["std_err"], float) / se, np.ones_like(se), rtol=1e-8)
        z = betas / se
        ctx.close(pre + "zt", np.asarray(o["zt_stat"], float) / np.where(z == 0, 1, z), np.where(z == 0, 0, 1.0), rtol=1e-8)
        p = 2 * stats.t.sf(np.abs(z), df) if dist == "t" else 2 * stats.norm.sf(np.abs(z))
        ctx.close(pre + "p", np.asarray(o["prob"], float), p, rtol=0, atol=1e-8)


def fit_stats(ctx, reg, r, pre=""):
    ctx.close(pre + "utu", reg.utu, r.utu, rtol=1e-8)
    ctx.close(pre + "sig2n", reg.sig2n, r.sig2n, rtol=1e-8)
    ctx.close(pre + "sig2n_k", reg.sig2n_k, r.sig2n_k, rtol=1e-8)
    ctx.close(pre + "sig2", reg.sig2, r.sig2, rtol=1e-8)
    ctx.ok(pre + "n_k", reg.n == r.n and reg.k == r.k, "n,k = %s,%s vs %s,%s" % (reg.n, reg.k, r.n, r.k))
    y = np.asarray(reg.y, float)
    ctx.close(pre + "mean_y", reg.mean_y, y.mean(), rtol=1e-9, scale=np.abs(y).max())
    ctx.close(pre + "std_y", reg.std_y, y.std(ddof=1), rtol=1e-9)
