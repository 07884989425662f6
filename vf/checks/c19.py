"""C19 probit: maximum likelihood, what follows from it, and the spatial-error tests."""
import numpy as np
from scipy import stats
from scipy.stats import norm
from .. import gen, ref
from ..core import Skip

RULE = ("Non-separable binary outcomes with rare, balanced and frequent positives, indicator, skewed and scaled regressors, with and "
        "without lagged regressors, on symmetric and directed maps: the probit estimator is run with every optimiser, starting "
        "value and scale option and compared with a safeguarded Newton maximiser of the exact likelihood; every derived quantity "
        "and spatial test is recomputed, and the outcome is recoded to check the symmetry of all results.")
CASE_LIMIT = 60
C = np.column_stack


def loglik(b, X, s):
    return float(norm.logcdf(s * (X @ b)).sum())


def derivs(b, X, s):
    z = s * (X @ b)
    lam = np.exp(norm.logpdf(z) - norm.logcdf(z))
    g = X.T @ (s * lam)
    H = -(X * (lam * (lam + z))[:, None]).T @ X
    return g, H


def maximise(X, y):
    s = 2 * y - 1
    b = np.zeros(X.shape[1])
    L = loglik(b, X, s)
    for it in range(200):
        g, H = derivs(b, X, s)
        d = np.linalg.solve(-H, g)
        t = 1.
        while t > 1e-8 and loglik(b + t * d, X, s) < L - 1e-12:
            t /= 2
        b = b + t * d
        L = loglik(b, X, s)
        if float(g @ d) < 1e-18:
            break
    return b, L, np.linalg.inv(-derivs(b, X, s)[1])


def data(ctx, spatial=True):
    rng = ctx.rng
    n = int(rng.integers(45, 260))
    k = ctx.pick("k", [1, 2, 3, 5])
    d = gen.dataset(rng, n=n, k=k, kind=ctx.pick("W", gen.ALL_KINDS), transform=ctx.pick("transform", ["r", "o", "b"]),
                    ids=ctx.pick("ids", ["int", "str", "perm"]), style=ctx.pick("style", ["mixed", "normal", "lognormal", "binary"]))
    sc = ctx.pick("scale", [1., 1., 30., .05])
    d.x = d.x * sc
    d.X = C([np.ones(d.n), d.x])
    xs = (d.x - d.x.mean(0)) / d.x.std(0)
    lam = ctx.pick("lam", [0., 0., .6, -.5]) / max(1., np.abs(np.linalg.eigvals(d.W)).max())
    e = np.linalg.solve(np.eye(d.n) - lam * d.W, rng.normal(size=d.n))
    cut = ctx.pick("prevalence", [0., .8, -1., 1.3])
    ys = xs @ rng.uniform(-.9, .9, k) + e
    d.y = (ys > cut * ys.std() + ys.mean()).astype(float).reshape(-1, 1)
    if ctx.pick("surprise", [False, False, False, True]):
        # an observation that the rest of the sample makes very unlikely
        sig = xs @ rng.uniform(.8, 1.6, k)
        d.y = (sig + rng.normal(size=d.n) > 0).astype(float).reshape(-1, 1)
        far = np.argmax(np.abs(sig))
        d.y[far] = 1 - d.y[far]
    return d


def setup(ctx):
    d = data(ctx)
    slx = ctx.pick("slx_lags", [0, 0, 0, 1, 2])
    kw, X = {}, d.X
    if slx:
        kw.update(slx_lags=slx)
        src = d.x
        if ctx.pick("slx_vars", ["all", "list"]) == "list":
            sel = [bool(v) for v in ctx.rng.integers(0, 2, d.k)]
            sel[int(ctx.rng.integers(d.k))] = True
            kw["slx_vars"] = sel
            src = d.x[:, np.flatnonzero(sel)]
        X = C([X, ref.lags(d.W, src, slx)])
    y = d.y.ravel()
    if min(y.sum(), (1 - y).sum()) < 5 or np.linalg.cond(X / np.linalg.norm(X, axis=0)) > 1e3:
        raise Skip("too few positives or collinear")
    b, L, V = maximise(X, y)
    if np.abs(X @ b).max() > 5.5 or np.linalg.norm(derivs(b, X, 2 * y - 1)[0] / np.linalg.norm(X, axis=0)) > 1e-6:
        raise Skip("(nearly) separable")
    if np.abs(X @ b).min() < 1e-4:
        raise Skip("a predicted probability of one half is classified by rounding")
    ctx.sig = [d.n, ctx.idx]
    ctx.note(n=d.n, positives=int(y.sum()))
    return d, X, y, b, L, V, kw


def estimates(ctx, pre, reg, X, y, b, L, V, tol=2e-3):
    se = np.sqrt(np.diag(V))
    ctx.close(pre + "betas", np.ravel(reg.betas) / se, b / se, rtol=0, atol=tol)
    # the log-likelihood is flat at its maximum
    ctx.close(pre + "logl", reg.logl, L, rtol=0, atol=max(1e-6, .5 * X.shape[1] * tol ** 2))
    got = np.ravel(reg.betas)
    g, H = derivs(got, X, 2 * y - 1)
    ctx.close(pre + "stationary", g * se, np.zeros(len(g)), rtol=0, atol=tol)
    Vi = np.linalg.inv(-H)
    sd = np.sqrt(np.diag(Vi))
    ctx.close(pre + "vm", np.asarray(reg.vm) / np.outer(sd, sd), Vi / np.outer(sd, sd), rtol=0, atol=1e-6)


def derived(ctx, pre, reg, X, y, scalem):
    """everything that follows from the reported coefficients and covariance"""
    n, k = X.shape
    b, V = np.ravel(reg.betas), np.asarray(reg.vm)
    t = lambda a, g, w, r=1e-7, at=1e-10: ctx.close(pre + a, np.ravel(g), np.ravel(w), rtol=r, atol=at)
    xb = X @ b
    P = norm.cdf(xb)
    t("xb", reg.xb, xb)
    t("predy", reg.predy, P)
    t("predybin", reg.predybin, (P > .5) * 1)
    t("phiy", reg.phiy, norm.pdf(xb))
    t("u_naive", reg.u_naive, y - P, 1e-6)
    ugen = np.where(y == 1, np.exp(norm.logpdf(xb) - norm.logcdf(xb)), -np.exp(norm.logpdf(xb) - norm.logsf(xb)))
    t("u_gen", reg.u_gen, ugen, 1e-5)
    t("logl_at_betas", reg.logl, norm.logcdf((2 * y - 1) * xb).sum())
    # LR test, pseudo R2
    p = y.mean()
    L0 = n * (p * np.log(p) + (1 - p) * np.log(1 - p))
    LR = 2 * (reg.logl - L0)
    t("L0", reg.L0, L0)
    t("LR", reg.LR[0], LR)
    ctx.ok(pre + "LR_df", reg.LRtest["df"] == k - 1, "%s, %d restrictions" % (reg.LRtest["df"], k - 1))
    ctx.pclose(pre + "LR_p", reg.LR[1], stats.chi2.sf(LR, k - 1))
    t("LRtest", [reg.LRtest["likr"], reg.LRtest["L0"]], [LR, L0])
    ctx.pclose(pre + "LRtest_p", reg.LRtest["p-value"], stats.chi2.sf(LR, k - 1))
    t("mcfadden", reg.mcfadrho, 1 - reg.logl / L0)
    # prediction table
    hat = P > .5
    cells = dict(actpos=(y == 1).sum(), actneg=(y == 0).sum(), predpos=hat.sum(), predneg=(~hat).sum(), truepos=(hat & (y == 1)).sum(),
                 trueneg=(~hat & (y == 0)).sum(), falsepos=(hat & (y == 0)).sum(), falseneg=(~hat & (y == 1)).sum())
    for a, v in cells.items():
        ctx.ok(pre + "predtable." + a, int(reg.predtable[a]) == int(v), "%s, counted %d" % (reg.predtable[a], v))
    tpr, tnr = 100. * cells["truepos"] / cells["actpos"], 100. * cells["trueneg"] / cells["actneg"]
    t("fit", [reg.fit[a] for a in ("TPR", "TNR", "BA", "PREDPC")], [tpr, tnr, (tpr + tnr) / 2, 100. * (hat == (y == 1)).mean()])
    t("predpc", reg.predpc, 100. * (hat == (y == 1)).mean())
    # coefficients table
    se = np.sqrt(np.diag(V))
    t("std_err", reg.std_err, se)
    zs = np.array(reg.z_stat, float)
    t("z", zs[:, 0], b / se, 1e-6)
    ctx.pclose(pre + "z_p", zs[:, 1], 2 * norm.sf(np.abs(b / se)))
    # marginal effects and their variance
    xm = X.mean(0)
    m = float(xm @ b)
    scale = norm.pdf(m) if scalem == "xmean" else norm.pdf(xb).mean()
    t("scale", reg.scale, scale)
    t("slopes", reg.slopes, scale * b[1:])
    J = scale * (np.eye(k) - m * np.outer(b, xm))
    Vs = (J @ V @ J.T)[1:, 1:]
    sd = np.sqrt(np.diag(Vs))
    nz = np.outer(sd, sd)
    ctx.close(pre + "slopes_vm", np.asarray(reg.slopes_vm) / nz, Vs / nz, rtol=1e-5, atol=1e-7)
    t("slopes_std_err", reg.slopes_std_err, sd, 1e-5)
    zs = np.array(reg.slopes_z_stat, float)
    t("slopes_z", zs[:, 0], scale * b[1:] / sd, 1e-5)
    ctx.pclose(pre + "slopes_p", zs[:, 1], 2 * norm.sf(np.abs(scale * b[1:] / sd)))
    if scalem == "phimean":
        J = np.mean([norm.pdf(v) * (np.eye(k) - v * np.outer(b, r)) for v, r in zip(xb, X)], axis=0)
        Vd = (J @ V @ J.T)[1:, 1:]
        dd = np.sqrt(np.diag(Vd))
        ctx.close(pre + "slopes_vm_average_delta", np.asarray(reg.slopes_vm) / np.outer(dd, dd), Vd / np.outer(dd, dd), rtol=1e-4, atol=1e-5)


def spatial(W, P, phi, u, ug):
    v = P * (1 - P)
    n = len(u)
    s2 = float((phi ** 2 / v).sum()) / n
    tw, twp = float(np.trace(W @ W)), float(np.trace(W.T @ W))
    pinkse = float(ug @ W @ ug) ** 2 / (s2 ** 2 * (tw + twp))
    A = W * v[None, :]
    kp = float(u @ W @ u) / np.sqrt(np.trace(A @ A) + float(((W ** 2) * np.outer(v, v)).sum()))
    us = u / np.sqrt(v)
    ps = float(us @ W @ us) ** 2 / (tw + twp)
    return pinkse, kp, ps


def tests(ctx, pre, reg, W):
    a = [np.ravel(getattr(reg, v)) for v in ("predy", "phiy", "u_naive", "u_gen")]
    pk, kp, ps = spatial(W, *a)
    sp(ctx, pre, (reg.Pinkse_error, reg.KP_error, reg.PS_error), (pk, kp, ps))


def sp(ctx, pre, got, want):
    for nm, g, w in zip(("Pinkse", "KP", "PS"), got, want):
        ctx.close(pre + nm, g[0], w, rtol=1e-6, atol=1e-9)
        ctx.pclose(pre + nm + "_p", g[1], 2 * norm.sf(abs(w)) if nm == "KP" else stats.chi2.sf(w, 1))


def fit(ctx):
    import spreg
    d, X, y, b, L, V, kw = setup(ctx)
    scalem = ctx.pick("scalem", ["phimean", "xmean"])
    opt = ctx.pick("optim", ["newton", "newton", "ncg", "bfgs"])
    if np.linalg.cond(X) > 15:
        opt = "newton"                      # the stopping rules of the other optimisers are absolute
    start = ctx.pick("bstart", [None, None, "zeros", "near", "off"])
    if start:
        s = np.sqrt(np.diag(V))
        v = {"zeros": 0 * b + 1e-9, "near": b + .1 * s, "off": b + 1.5 * s * np.sign(ctx.rng.normal(size=len(b)))}[start]
        kw["bstart"] = [float(q) for q in v]
    wform = ctx.pick("wform", ["W", "graph"])
    w = d.w
    if wform == "graph":
        from libpysal import graph
        w = graph.Graph.from_W(d.w)
        if not np.allclose(w.sparse.toarray(), d.W) or "slx_lags" in kw:
            w = d.w
    yv = d.y
    yf = ctx.pick("yform", ["float", "int", "flat", "series"])
    if yf == "int":
        yv = d.y.astype(int)
    elif yf == "flat":
        yv = d.y.ravel()
    elif yf == "series":
        import pandas as pd
        yv = pd.Series(d.y.ravel(), name="burn")
    diag = ctx.pick("spat_diag", [True, True, False])
    reg = ctx.run("Probit", spreg.Probit, yv, d.x, w=w if diag or "slx_lags" in kw else None, optim=opt, scalem=scalem, spat_diag=diag, **kw)
    if opt != "newton" and reg.warning is True:
        raise Skip("optimiser reports that it did not converge")
    if opt == "newton" and start == "off" and reg.warning is True:
        raise Skip("Newton-Raphson from a remote start did not converge")
    ctx.close("x", reg.x, X, rtol=1e-9, atol=1e-10)
    if opt in ("newton", "ncg"):
        ctx.ok("converged", reg.warning is not True, "flagged as not converged")
    estimates(ctx, opt + ".", reg, X, y, b, L, V, 2e-3 if opt == "newton" else 2e-2 if opt == "ncg" else 2e-2)
    derived(ctx, scalem + ".", reg, X, y, scalem)
    if diag:
        tests(ctx, "", reg, d.W)
        from spreg import sp_tests
        for form in ("W", "sparse"):
            ww = d.w if form == "W" else d.w.sparse
            try:
                with ctx.quiet():
                    r = sp_tests(obj_list=[d.w, reg.xb, reg.u_naive, reg.u_gen])
                sp(ctx, "sp_tests.", r, spatial(d.W, *[np.ravel(getattr(reg, v)) for v in ("predy", "phiy", "u_naive", "u_gen")]))
            except Exception as e:
                ctx.fail("sp_tests.exception", "%s: %s" % (type(e).__name__, e))
    s = reg.summary
    import re
    m = re.search(r"LR test \(p-value\)\s*:\s*([-\d.]+)", s)
    if ctx.ok("summary.LR", m is not None, ""):
        ctx.close("summary.LR_p", float(m.group(1)), reg.LR[1], rtol=0, atol=6e-5)


def agree(ctx):
    """optimisers, recoding of the outcome, prediction flag"""
    import spreg
    d, X, y, b, L, V, kw = setup(ctx)
    se = np.sqrt(np.diag(V))
    a = ctx.run("Probit", spreg.Probit, d.y, d.x, w=d.w, spat_diag=True, **kw)
    f = ctx.run("Probit_recoded", spreg.Probit, 1 - d.y, d.x, w=d.w, spat_diag=True, **kw)
    ctx.close("recoded.betas", -f.betas, a.betas, rtol=1e-4, atol=2e-4 * se.max())
    ctx.close("recoded.vm", np.asarray(f.vm) / np.outer(se, se), np.asarray(a.vm) / np.outer(se, se), rtol=0, atol=5e-4)
    ctx.close("recoded.predy", 1 - f.predy, a.predy, rtol=0, atol=1e-4)
    for v in ("u_naive", "u_gen", "slopes"):
        ctx.close("recoded." + v, -getattr(f, v), getattr(a, v), rtol=1e-3, atol=1e-4)
    for v in ("logl", "mcfadrho", "predpc"):
        ctx.close("recoded." + v, getattr(f, v), getattr(a, v), rtol=1e-6, atol=1e-6)
    ctx.close("recoded.LR", f.LR, a.LR, rtol=1e-5, atol=1e-6)
    ctx.close("recoded.fit", [f.fit["TNR"], f.fit["TPR"]], [a.fit["TPR"], a.fit["TNR"]], rtol=1e-9)
    for v in ("Pinkse_error", "KP_error", "PS_error"):
        ctx.close("recoded." + v, getattr(f, v), getattr(a, v), rtol=5e-3, atol=1e-3)
    shown = ctx.run("Probit_predflag", spreg.Probit, d.y, d.x, w=d.w, predflag=True, **kw)
    ctx.ok("prediction_table_printed_on_request", "CONFUSION MATRIX" in shown.summary and "CONFUSION MATRIX" not in a.summary, "")
    base = ctx.run("BaseProbit", spreg.probit.BaseProbit, d.y, X, optim=ctx.pick("optim", ["newton", "ncg", "bfgs"]) if np.linalg.cond(X) < 15 else "newton")
    if base.warning is not True:
        estimates(ctx, "base.", base, X, y, b, L, V, 2e-2)


SUBS = {"fit": (fit, 260, 2500), "agree": (agree, 120, 1200)}
