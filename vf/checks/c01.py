"""C01 OLS / SLX: exact least squares, variances, covariances."""
import numpy as np
from .. import gen, ref, chk
from ..core import Skip

RULE = ("Random data sets (mixed designs incl. binary/lognormal columns, seven weight layouts, three transforms) "
        "crossed with covariance type, dof option, lag order and lag selection by balanced choice.")


def slx_X(ctx, d, slx, sel):
    X = d.X
    if slx:
        x = d.x if sel is None else d.x[:, np.flatnonzero(sel)]
        X = np.hstack([X, ref.lags(d.W, x, slx)])
    if X.shape[1] > d.n - 8 or np.linalg.cond(X / np.linalg.norm(X, axis=0)) > 1e6:
        raise Skip("ill-conditioned")
    return X


def case_ols(ctx):
    import spreg
    rng = ctx.rng
    kind = ctx.pick("W", gen.ALL_KINDS)
    tr = ctx.pick("transform", ["r", "o", "b"])
    rob = ctx.pick("robust", [None, "white", "hac"])
    dof = ctx.pick("sig2n_k", [True, False])
    slx = ctx.pick("slx_lags", [0, 0, 1, 2, 3])
    k = ctx.pick("k", [1, 2, 3, 5])
    selm = ctx.pick("slx_vars", ["All", "list"]) if slx else "All"
    d = gen.dataset(rng, k=k, kind=kind, transform=tr, het=bool(ctx.idx % 2), lam=.3,
                    ids=ctx.pick("ids", ["int", "str", "perm"]))
    sel = None
    if selm == "list":
        sel = [bool(v) for v in rng.integers(0, 2, k)]
        if not any(sel):
            sel[int(rng.integers(k))] = True
    X = slx_X(ctx, d, slx, sel)
    kw = {}
    K = None
    if rob == "hac":
        kern = ctx.pick("kernel", ["triangular", "quadratic", "quartic", "gaussian"])
        g, K = gen.kernel(rng, d.n, kern, k=int(rng.integers(4, 9)))
        kw["gwk"] = g
    if rob and float(np.max(np.sum(np.linalg.qr(X)[0] ** 2, axis=1))) > 1 - 1e-6:
        raise Skip("an observation fitted perfectly: robust variance zero but for rounding")
    ctx.sig = [d.n, round(float(d.y.sum()), 6)]
    ctx.note(n=d.n, k=X.shape[1], y_head=[round(float(v), 4) for v in d.y[:3, 0]])
    reg = ctx.run("OLS", spreg.OLS, d.y, d.x, w=d.w, robust=rob, sig2n_k=dof, slx_lags=slx,
                  slx_vars="All" if sel is None else sel, nonspat_diag=True, vm=bool(ctx.idx % 2), **kw)
    r = ref.ols(d.y, X, dof, rob, K)
    r.b = r.b
    chk.base_match(ctx, reg, r)
    chk.fit_stats(ctx, reg, r)
    ctx.close("x", reg.x, X, rtol=1e-9)
    ctx.close("xtx", reg.xtx, X.T @ X, rtol=1e-9)
    ctx.close("r2", reg.r2, r.r2, rtol=0, atol=1e-8)
    ctx.close("ar2", reg.ar2, r.ar2, rtol=0, atol=1e-8)
    for nme in ("logll", "aic", "schwarz"):
        ctx.close(nme, getattr(reg, nme), getattr(r, nme), rtol=1e-8)
    if np.all(np.diag(r.vm) > 0):
        chk.table(ctx, reg, dist="t", df=r.n - r.k, pre="table.")
    # the definition itself: no perturbation of the coefficients lowers the SSR
    b = np.asarray(reg.betas, float)
    s0 = float(((d.y - X @ b) ** 2).sum())
    for _ in range(6):
        dv = rng.normal(size=b.shape) * (np.abs(b) + .1) * 10. ** -rng.integers(1, 4)
        s1 = float(((d.y - X @ (b + dv)) ** 2).sum())
        ctx.ok("ssr_minimum", s1 >= s0 * (1 - 1e-12), "SSR %.12g < %.12g" % (s1, s0))


def case_kernel_slx(ctx):
    """SLX with kernel weights: the kernel's off-diagonal values are the lag weights"""
    import spreg
    rng = ctx.rng
    n = int(rng.integers(30, 70))
    k = ctx.pick("k", [1, 2, 3])
    x = gen.design(rng, n, k)
    kern = ctx.pick("kernel", ["triangular", "quadratic", "gaussian"])
    g, K = gen.kernel(rng, n, kern, k=6)
    W = K - np.diag(np.diag(K))
    X = np.hstack([np.ones((n, 1)), x, W @ x])
    if np.linalg.cond(X / np.linalg.norm(X, axis=0)) > 1e6:
        raise Skip("ill-conditioned")
    y = (1 + x @ gen.beta(rng, k) + rng.normal(size=n)).reshape(-1, 1)
    ctx.sig = [n, round(float(y.sum()), 6)]
    reg = ctx.run("OLS", spreg.OLS, y, x, w=g, slx_lags=1)
    chk.base_match(ctx, reg, ref.ols(y, X))


def case_base(ctx):
    from spreg.ols import BaseOLS, BaseWLS
    rng = ctx.rng
    n = int(rng.integers(8, 120))
    k = min(ctx.pick("k", [1, 2, 4, 6]), n - 4)
    x = gen.design(rng, n, k)
    X = np.hstack([np.ones((n, 1)), x]) if ctx.pick("constant", [True, False]) else x
    if np.linalg.cond(X / np.linalg.norm(X, axis=0)) > 1e5:
        raise Skip("ill-conditioned")
    y = (x @ gen.beta(rng, k) + rng.normal(size=n)).reshape(-1, 1)
    ctx.sig = [n, round(float(y.sum()), 6)]
    dof = ctx.pick("dof", [True, False])
    rob = ctx.pick("robust", [None, "white"])
    if rob and float(np.max(np.sum(np.linalg.qr(X)[0] ** 2, axis=1))) > 1 - 1e-6:
        raise Skip("an observation fitted perfectly: robust variance zero but for rounding")
    reg = ctx.run("BaseOLS", BaseOLS, y, X, robust=rob, sig2n_k=dof)
    r = ref.ols(y, X, dof, rob)
    chk.base_match(ctx, reg, r)
    chk.fit_stats(ctx, reg, r)
    wt = rng.uniform(.2, 3, (n, 1))
    reg = ctx.run("BaseWLS", BaseWLS, y, X, wt)
    s = np.sqrt(wt)
    rw = ref.ols(y * s, X * s)
    ctx.close("wls.betas", reg.betas, rw.b, rtol=1e-7)
    ctx.close("wls.vm", reg.vm, rw.vm, rtol=1e-6)
    ctx.close("wls.u", reg.u, y - X @ rw.b, rtol=1e-7, scale=np.abs(y).max())
    ctx.close("wls.predy", reg.predy, X @ rw.b, rtol=1e-7, scale=np.abs(y).max())


SUBS = {"ols": (case_ols, 500, 6000), "kernel_slx": (case_kernel_slx, 60, 600), "base": (case_base, 250, 3000)}
