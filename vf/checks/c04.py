"""C04 ML spatial lag: optimum of the likelihood, for every method."""
import numpy as np
from .. import gen, ref, chk
from ..core import Skip

RULE = ("Random lag / Durbin data over seven weight layouts (row-standardised, or general weights scaled to unit "
        "spectral radius) crossed with evaluation method, true coefficient and Durbin selection.")
ASSUMPTIONS = ["spectral radius of the weights is at most one (the estimator searches (-1, 1))"]


def mldata(ctx, err=False):
    rng = ctx.rng
    kind = ctx.pick("W", gen.ALL_KINDS)
    tr = ctx.pick("weights", ["r", "r", "scaled"])
    k = ctx.pick("k", [1, 2, 3, 5])
    rho = ctx.pick("rho", [-.6, -.2, 0., .3, .5, .7, .85])
    n = int(rng.integers(36, 100))
    if tr == "r":
        d = gen.dataset(rng, n=n, k=k, kind=kind, transform="r", rho=0 if err else rho, lam=rho if err else 0,
                        ids=ctx.pick("ids", ["int", "str", "perm"]))
    else:
        A, xy = gen.base_matrix(rng, n, kind)
        A = A / np.max(np.abs(np.linalg.eigvals(A)))
        ws = gen.make_w(A, gen.make_ids(rng, len(A), "int"), "o", xy, kind)
        d = gen.dataset(rng, n=n, k=k)
        d.ws, d.w, d.W, d.n = ws, ws.w, ws.full, ws.n
        d.x = gen.design(rng, d.n, k, "normal")
        d.X = np.hstack([np.ones((d.n, 1)), d.x])
        e = rng.normal(size=d.n)
        y = 1 + d.x @ gen.beta(rng, k)
        d.y = (y + gen.sar_solve(d.W, rho, e) if err else gen.sar_solve(d.W, rho, y + e)).reshape(-1, 1)
    slx = ctx.pick("slx_lags", [0, 0, 1, 2])
    sel = None
    X = d.X
    if slx:
        if ctx.pick("slx_vars", ["All", "list"]) == "list":
            sel = [bool(v) for v in rng.integers(0, 2, k)]
            sel[int(rng.integers(k))] = True
        X = np.hstack([X, ref.lags(d.W, d.x if sel is None else d.x[:, np.flatnonzero(sel)], slx)])
    if np.linalg.cond(X / np.linalg.norm(X, axis=0)) > 1e5:
        raise Skip("ill-conditioned")
    meth = ctx.pick("method", ["full", "LU", "ord", "FULL"])
    ctx.sig = [d.n, round(float(d.y.sum()), 6)]
    ctx.note(n=d.n, k=X.shape[1])
    return d, X, slx, sel, meth, tr


def opt_checks(ctx, f, est, ll, pre="", opt=None):
    r, v, nloc = opt or ref.maximise(f)
    if nloc > 1:
        ctx.cfg["edge"] = True
        # several local optima: the estimate must still be one of them
        h = 1e-3
        fe = f(est)
        ctx.ok(pre + "local_optimum", fe >= max(f(min(est + h, .99999)), f(max(est - h, -.99999))) - 1e-6)
        ctx.close(pre + "logll_at_estimate", ll, fe, rtol=1e-9, atol=1e-6)
        return
    fe = f(est)
    ctx.ok(pre + "beats_every_alternative", fe >= v - 1e-6 - 1e-9 * abs(v),
           "loglik %.9f at %.6f < %.9f at %.6f" % (fe, est, v, r))
    ctx.close(pre + "optimum", est, r, rtol=0, atol=2e-4)
    ctx.close(pre + "logll_at_estimate", ll, fe, rtol=1e-9, atol=1e-6)
    for t in ctx.rng.uniform(-.99, .99, 5):
        ctx.ok(pre + "beats_random_alternative", fe >= f(t) - 1e-6)


def vm_check(ctx, key, got, V, Vknown=None):
    """covariance in correlation units; Vknown: value explained by the recorded finding"""
    s = np.sqrt(np.diag(V))
    got = np.asarray(got, float)
    if Vknown is not None and got.shape == V.shape and np.max(np.abs(got - V) / np.outer(s, s)) > 2e-4:
        if np.max(np.abs(got - Vknown) / np.outer(s, s)) <= 2e-4:
            ctx.checks[key] = ctx.checks.get(key, 0) + 1
            ctx.fail(key + "-of-symmetrised-weights", "covariance is that of the symmetrised weights")
            return
    ctx.close(key, got / np.outer(s, s), V / np.outer(s, s), rtol=0, atol=2e-4)


def structure(d):
    sym = np.allclose((d.W != 0), (d.W != 0).T)
    rb = np.allclose(d.W * (d.W != 0).sum(1, keepdims=True), (d.W != 0))
    return ("sym" if sym else "asym") + ("-binary" if rb else "-general")


def case_lag(ctx):
    import spreg
    d, X, slx, sel, meth, tr = mldata(ctx)
    key = "ML_Lag.%s" % meth.lower()
    st = ctx.cfg["structure"] = structure(d)
    pre = "lag.%s." % meth.lower()
    if meth == "ord":
        pre = "lag.ord-%s." % st
    f = ref.lag_conc(d.y, X, d.W)
    opt = ref.maximise(f)
    if abs(opt[0]) > .985:
        raise Skip("optimum at the boundary of the parameter space")
    reg = ctx.run(key, spreg.ML_Lag, d.y, d.x, d.w, slx_lags=slx, slx_vars="All" if sel is None else sel, method=meth,
                  spat_impacts=ctx.pick("imp", ["simple", "full", None]), spat_diag=ctx.pick("diag", [True, False]))
    rho = float(np.asarray(reg.rho).reshape(-1)[0])
    opt_checks(ctx, f, rho, float(np.asarray(reg.logll).reshape(-1)[0]), pre, opt)
    # everything else follows from rho
    o = ref.ols(d.y - rho * (d.W @ d.y), X)
    k = X.shape[1]
    sy = np.abs(d.y).max()
    ctx.close(pre + "betas", reg.betas, np.vstack([o.b, [[rho]]]), rtol=1e-6)
    ctx.close(pre + "u", reg.u, o.u, rtol=1e-6, scale=sy)
    ctx.close(pre + "predy", reg.predy, d.y - o.u, rtol=1e-6, scale=sy)
    ctx.close(pre + "sig2", reg.sig2, o.sig2n, rtol=1e-6)
    pe = np.asarray(reg.predy_e, float).reshape(-1, 1)
    if abs(rho) < .97:
        ctx.close(pre + "reduced_form", pe - rho * d.W @ pe, X @ o.b, rtol=1e-5, scale=max(sy, np.abs(pe).max()))
        V = ref.ml_lag_vm(X, d.W, o.b, rho, o.sig2n)
        Vs = ref.ml_lag_vm(X, d.W, o.b, rho, o.sig2n, ref.sym_similar(d.W)) if pre == "lag.ord-sym-binary." else None
        vm_check(ctx, pre + "vm", reg.vm, V[:-1, :-1], None if Vs is None else Vs[:-1, :-1])
        vm_check(ctx, pre + "vm1", reg.vm1, V, Vs)
    ctx.close(pre + "e_pred", reg.e_pred, d.y - pe, rtol=1e-8, scale=max(sy, np.abs(pe).max()))
    ll = float(np.asarray(reg.logll).reshape(-1)[0])
    ctx.close(pre + "aic", reg.aic, 2 * (k + 1) - 2 * ll, rtol=1e-9)
    ctx.close(pre + "schwarz", reg.schwarz, (k + 1) * np.log(d.n) - 2 * ll, rtol=1e-9)
    ctx.close(pre + "pr2", reg.pr2, np.corrcoef(d.y.ravel(), np.asarray(reg.predy).ravel())[0, 1] ** 2, rtol=0, atol=1e-7)
    chk.table(ctx, reg, pre="table.")


def case_methods(ctx):
    """the three evaluation methods agree"""
    import spreg
    d, X, slx, sel, meth, tr = mldata(ctx)
    f = ref.lag_conc(d.y, X, d.W)
    r, v, nloc = ref.maximise(f)
    if abs(r) > .97 or nloc > 1:
        raise Skip("boundary or several optima")
    regs = {}
    for m in ("full", "lu", "ord"):
        regs[m] = ctx.run("ML_Lag." + m, spreg.ML_Lag, d.y, d.x, d.w, slx_lags=slx,
                          slx_vars="All" if sel is None else sel, method=m, spat_impacts=None)
    sb = structure(d) == "sym-binary" and tr == "r"
    for m in ("lu", "ord"):
        a, b = regs["full"], regs[m]
        ctx.close("agree.%s.rho" % m, b.rho, a.rho, rtol=0, atol=1e-4)
        ctx.close("agree.%s.betas" % m, b.betas, a.betas, rtol=0, atol=1e-3 * max(1, np.abs(a.betas).max()))
        ctx.close("agree.%s.logll" % m, b.logll, a.logll, rtol=1e-8)
        s = np.sqrt(np.diag(a.vm))
        ctx.close("agree.%s.se" % (m + "-symbinary" if sb and m == "ord" else m), np.sqrt(np.diag(b.vm)) / s, np.ones_like(s), rtol=2e-3)


SUBS = {"lag": (case_lag, 400, 5000), "methods": (case_methods, 120, 1500)}
