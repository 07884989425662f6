"""C02 two-stage least squares."""
import numpy as np
from .. import gen, ref, chk
from ..core import Skip

RULE = ("Random identified systems (1-2 endogenous regressors, exactly or over-identified, with SLX terms) crossed "
        "with covariance type and dof option; plus instrument-recombination and OLS-limit relations.")


def system(ctx, slx_ok=True):
    rng = ctx.rng
    nend = ctx.pick("nend", [1, 1, 2, 3])
    over = ctx.pick("over", [0, 1, 2])
    k = ctx.pick("k", [1, 2, 4])
    kind = ctx.pick("W", gen.ALL_KINDS)
    d = gen.dataset(rng, n=int(rng.integers(45, 110)), k=k, kind=kind, transform=ctx.pick("transform", ["r", "o", "b"]),
                    het=bool(ctx.idx % 2), nend=nend, niv=nend + over)
    return d


def well(Z, H):
    for A in (Z, H):
        if np.linalg.cond(A / np.linalg.norm(A, axis=0)) > 1e5:
            raise Skip("ill-conditioned")
    Q, _ = np.linalg.qr(H)
    QZ = Q.T @ Z
    if np.linalg.cond(QZ / np.linalg.norm(Z, axis=0)) > 300:
        raise Skip("weak instruments")


def case_tsls(ctx):
    import spreg
    rng = ctx.rng
    d = system(ctx)
    rob = ctx.pick("robust", [None, "white", "hac", "ogmm"])
    dof = ctx.pick("sig2n_k", [False, True])
    slx = ctx.pick("slx_lags", [0, 0, 1, 2])
    sel = None
    X = d.X
    if slx:
        if ctx.pick("slx_vars", ["All", "list"]) == "list":
            sel = [bool(v) for v in rng.integers(0, 2, d.k)]
            sel[int(rng.integers(d.k))] = True
        x = d.x if sel is None else d.x[:, np.flatnonzero(sel)]
        X = np.hstack([X, ref.lags(d.W, x, slx)])
    Z, H = np.hstack([X, d.yend]), np.hstack([X, d.q])
    well(Z, H)
    K, kw = None, {}
    if rob == "hac":
        g, K = gen.kernel(rng, d.n, ctx.pick("kernel", ["triangular", "quadratic", "gaussian"]), k=6)
        kw["gwk"] = g
    ctx.sig = [d.n, round(float(d.y.sum()), 6)]
    ctx.note(n=d.n, z=Z.shape[1], h=H.shape[1])
    diag = ctx.pick("nonspat_diag", [True, False])
    reg = ctx.run("TSLS", spreg.TSLS, d.y, d.x, d.yend, d.q, w=d.w, robust=rob, sig2n_k=dof, slx_lags=slx,
                  slx_vars="All" if sel is None else sel, nonspat_diag=diag, **kw)
    if rob == "ogmm":
        # the front end documents "ogmm" for two-step GMM only on the regime class; here it is White
        r = ref.tsls(d.y, Z, H, dof, "white")
    else:
        r = ref.tsls(d.y, Z, H, dof, rob, K)
    chk.base_match(ctx, reg, r)
    chk.fit_stats(ctx, reg, r)
    ctx.close("z", reg.z, Z, rtol=1e-9)
    ctx.close("h", reg.h, H, rtol=1e-9)
    u = np.asarray(reg.u, float)
    Q, _ = np.linalg.qr(H)
    g = (Q.T @ Z).T @ (Q.T @ u)
    ctx.close("moment_conditions", g / (np.linalg.norm(Z, axis=0).reshape(-1, 1) * np.linalg.norm(u)), np.zeros_like(g),
              rtol=0, atol=1e-9)
    if np.all(np.diag(r.vm) > 0):
        chk.table(ctx, reg)
    ctx.close("pr2", reg.pr2, np.corrcoef(d.y.ravel(), r.predy.ravel())[0, 1] ** 2, rtol=0, atol=1e-8)


def case_relations(ctx):
    """OLS limit and invariance to recombination of the instruments"""
    import spreg
    rng = ctx.rng
    d = system(ctx)
    rob = ctx.pick("robust", [None, "white"])
    Z, H = np.hstack([d.X, d.yend]), np.hstack([d.X, d.q])
    well(Z, H)
    ctx.sig = [d.n, round(float(d.y.sum()), 6)]
    a = ctx.run("TSLS", spreg.TSLS, d.y, d.x, d.yend, d.q, robust=rob)
    m = d.q.shape[1]
    while True:
        T = rng.normal(size=(m, m))
        if np.linalg.cond(T) < 20:
            break
    q2 = d.q @ T + d.x @ rng.normal(0, .3, (d.k, m)) + rng.normal()
    b = ctx.run("TSLS", spreg.TSLS, d.y, d.x, d.yend, q2, robust=rob)
    ctx.close("recombined.betas", b.betas, a.betas, rtol=1e-6)
    ctx.close("recombined.vm", b.vm, a.vm, rtol=1e-5)
    o = ref.ols(d.y, Z, False, rob)
    e = ctx.run("TSLS", spreg.TSLS, d.y, d.x, d.yend, d.yend.copy(), robust=rob, nonspat_diag=False)
    ctx.close("ols_limit.betas", e.betas, o.b, rtol=1e-6)
    ctx.close("ols_limit.vm", e.vm, o.vm, rtol=1e-5)


def case_base(ctx):
    from spreg.twosls import BaseTSLS
    rng = ctx.rng
    d = system(ctx)
    H = np.hstack([d.X, d.q])
    Z = np.hstack([d.X, d.yend])
    well(Z, H)
    ctx.sig = [d.n, round(float(d.y.sum()), 6)]
    rob = ctx.pick("robust", [None, "white"])
    dof = ctx.pick("dof", [True, False])
    reg = ctx.run("BaseTSLS", BaseTSLS, d.y, d.X, d.yend, h=H if ctx.idx % 2 else None, q=None if ctx.idx % 2 else d.q,
                  robust=rob, sig2n_k=dof)
    r = ref.tsls(d.y, Z, H, dof, rob)
    chk.base_match(ctx, reg, r)
    chk.fit_stats(ctx, reg, r)
    ctx.close("varb", reg.varb, r.varb, rtol=1e-6)
    ctx.close("hthi", reg.hthi, np.linalg.inv(H.T @ H), rtol=1e-5)
    ctx.close("pfora1a2", reg.pfora1a2, d.n * np.linalg.inv(H.T @ H) @ H.T @ Z @ r.varb, rtol=1e-5)


SUBS = {"tsls": (case_tsls, 400, 5000), "relations": (case_relations, 150, 2000), "base": (case_base, 150, 1500)}
