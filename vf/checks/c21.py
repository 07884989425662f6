"""C21 ML panel estimators against the exact Gaussian likelihood of the stacked model."""
import numpy as np
from numpy.linalg import inv, slogdet
from scipy import optimize
from .. import gen, models, ref, chk
from ..core import Skip
from . import c20
from .c20 import within, means, one, usable, give, slx

RULE = ("Random balanced panels with row-standardised or symmetric weights: every reported spatial and variance parameter is compared "
        "with a global search of the exact likelihood evaluated densely; coefficients, residuals, variance, log-likelihood, "
        "information criteria and covariance are re-evaluated at the reported parameters; current and deprecated implementations "
        "are fitted to the same data.")
ASSUMPTIONS = ["spectral radius of the weights is at most one", "covariances are compared with the inverse information matrix of the model"]
CASE_LIMIT = 90


def symmetric_w(rng, N, ids):
    """symmetric weights of spectral radius one with a simple spectrum"""
    A, xy = gen.base_matrix(rng, N, "dist")
    A *= rng.uniform(.7, 1.3, A.shape)
    A = (A + A.T) / 2
    A /= np.max(np.abs(np.linalg.eigvalsh(A)))
    return gen.make_w(A, gen.make_ids(rng, N, ids), "o", xy, "dist")


def data(ctx, kind, sym=False, ks=(1, 2, 3), mu=(0., .5, 1.5)):
    rng = ctx.rng
    p = c20.P()
    p.T, p.k = ctx.pick("T", [2, 3, 5]), ctx.pick("k", list(ks))
    N = int(rng.integers(max(14, p.k * p.T + 4), max(14, p.k * p.T + 4) + 20))
    ids = ctx.pick("ids", ["int", "str", "perm"])
    if sym:
        p.ws = symmetric_w(rng, N, ids)
    else:
        p.ws = gen.weights(rng, N, ctx.pick("W", gen.ALL_KINDS), "r", ids)
    p.w, p.W, p.N = p.ws.w, p.ws.full, p.ws.n
    N = p.N
    if p.k * p.T > N:
        raise Skip("more columns than units")
    true = ctx.pick("true", [-.4, 0., .3, .6, .85])
    p.y, p.x = models.panel_data(rng, N, p.T, p.k, p.W, "", true if kind == "lag" else 0., true if kind == "err" else 0.,
                                 ctx.pick("mu", list(mu)), ctx.pick("sig", [.4, 1.]))
    p.n = N * p.T
    if ctx.pick("form", ["plain", "plain", "integers", "scaled"]) == "integers":
        p.x = np.round(p.x * 4).astype(int)
    elif ctx.cfg["form"] == "scaled":
        p.y = p.y * 50
    return p


def lndet(W, r):
    return slogdet(np.eye(len(W)) - r * W)[1]


def kron(p, A):
    return np.kron(np.eye(p.T), A)


def gauss(ee, n):
    return -.5 * n * (np.log(2 * np.pi) + 1 + np.log(ee / n))


def lag_like(p, y, X):
    Wn = kron(p, p.W)
    r = ref.ols(y, X, dof=False)
    wy = Wn @ y
    r1 = ref.ols(wy, X, dof=False)
    ev = np.linalg.eigvals(p.W)

    def f(rho):
        e = r.u - rho * r1.u
        return gauss(float((e ** 2).sum()), p.n) + p.T * float(np.log(np.abs(1 - rho * ev)).sum())
    return f


def err_like(p, y, X):
    Wn = kron(p, p.W)
    wy, wX = Wn @ y, Wn @ X
    ev = np.linalg.eigvals(p.W)

    def f(l):
        return gauss(ref.ols(y - l * wy, X - l * wX).utu, p.n) + p.T * float(np.log(np.abs(1 - l * ev)).sum())
    return f


def optimum(ctx, f, at, ll, pre, lo=-.985, tol=2e-6):
    """the reported value of the one-dimensional parameter is the global maximum of its likelihood"""
    v, best, nloc = ref.maximise(f, -.9999, .9999, 80)
    if abs(v) > .985:
        raise Skip("optimum at the boundary of the parameter space")
    ctx.close(pre + "logll_at_value", ll, f(at), rtol=0, atol=1e-7 * max(1, abs(ll)))
    if nloc > 1:
        ctx.cfg["multimodal"] = True
        h = 1e-3
        ctx.ok(pre + "local_maximum", f(at) >= max(f(at + h), f(at - h)) - 1e-9 * abs(ll))
        return
    ctx.ok(pre + "maximum", f(at) >= best - tol * max(1., 1e-3 * abs(best)), "likelihood %.9g at %.7f, %.9g at %.7f" % (f(at), at, best, v))
    ctx.close(pre + "value", at, v, rtol=0, atol=3e-4)


def scalars(ctx, reg, pre, ll, k, n):
    ctx.close(pre + "aic", reg.aic, 2 * k - 2 * ll, rtol=1e-9)
    ctx.close(pre + "schwarz", reg.schwarz, k * np.log(n) - 2 * ll, rtol=1e-9)


def vmat(ctx, key, got, V):
    s = np.sqrt(np.diag(V))
    ctx.close(key, np.asarray(got) / np.outer(s, s), V / np.outer(s, s), rtol=0, atol=2e-4)


def lag_info(p, X, W, rho, b, s2):
    """inverse information matrix of (b, rho, sigma2)"""
    M = W @ inv(np.eye(p.N) - rho * W)
    m = kron(p, M) @ X @ b
    k = X.shape[1]
    I = np.zeros((k + 2, k + 2))
    I[:k, :k] = X.T @ X / s2
    I[:k, k] = I[k, :k] = (X.T @ m).ravel() / s2
    I[k, k] = p.T * (np.trace(M @ M) + np.trace(M.T @ M)) + float((m.T @ m).item()) / s2
    I[k, k + 1] = I[k + 1, k] = p.T * np.trace(M) / s2
    I[k + 1, k + 1] = p.n / (2 * s2 ** 2)
    return inv(I), I


def val(a):
    return float(np.asarray(a).reshape(-1)[0])


# ------------------------------------------------------------------ models
def case_pooled(ctx):
    import spreg
    p = data(ctx, "err", mu=(0.,))
    kw, X = slx(ctx, p)
    X = usable(np.hstack([one(p.n), X]), 1e-4)
    y, x = give(ctx, p)
    meth = ctx.pick("method", ["LU", "full", "ord"])
    reg = ctx.run("ML_ErrorPooled", spreg.ML_ErrorPooled, y, x, p.w, method=meth, nonspat_diag=ctx.pick("diag", [True, False]), **kw)
    pre = "pooled.%s." % meth.lower()
    lam, ll = val(reg.lam), val(reg.logll)
    f = err_like(p, p.y, X)
    optimum(ctx, f, lam, ll, pre)
    Wn = kron(p, p.W)
    F = lambda a: a - lam * Wn @ a
    o = ref.ols(F(p.y), F(X), dof=False)
    u = p.y - X @ o.b
    sy = np.abs(p.y).max()
    ctx.close(pre + "betas", reg.betas, np.vstack([o.b, [[lam]]]), rtol=1e-6)
    ctx.close(pre + "u", reg.u, u, rtol=1e-6, scale=sy)
    ctx.close(pre + "e_filtered", reg.e_filtered, F(u), rtol=1e-6, scale=sy)
    ctx.close(pre + "sig2", reg.sig2, o.sig2n, rtol=1e-6)
    vmat(ctx, pre + "vm", reg.vm, ref.ml_err_vm(F(X), Wn, lam, o.sig2n))
    scalars(ctx, reg, pre, ll, X.shape[1], p.n)
    chk.table(ctx, reg)


def case_errfe(ctx):
    import spreg
    p = data(ctx, "err", ctx.pick("sym", [False, False, True]))
    cls = ctx.pick("class", ["ML_ErrorFE", "ML_ErrorFE", "Panel_FE_Error"])
    kw, X = slx(ctx, p, cls == "ML_ErrorFE")
    yd, Xd = within(p.y, p.N), within(np.asarray(X, float), p.N)
    usable(Xd, 1e-4)
    if p.n - p.N - X.shape[1] < 3:
        raise Skip("no degrees of freedom")
    y, x = give(ctx, p, None if cls == "ML_ErrorFE" else ctx.pick("layout_", ["long", "wide", "wide_frame", "long_frame"]))
    reg = ctx.run(cls, getattr(spreg, cls), y, x, p.w, **kw)
    pre = "errfe." if cls == "ML_ErrorFE" else "dep.errfe."
    lam, ll = val(reg.lam), val(reg.logll)
    f = err_like(p, yd, Xd)
    if cls != "ML_ErrorFE":
        # the deprecated class leaves the log of nT out of its likelihood
        ctx.close(pre + "logll", ll, f(lam), rtol=1e-8)
        ll2 = ll + p.n / 2. * np.log(p.n)
    else:
        ll2 = ll
    optimum(ctx, f, lam, ll2, pre)
    F = lambda a: a - lam * kron(p, p.W) @ a
    o = ref.ols(F(yd), F(Xd), dof=False)
    u = yd - Xd @ o.b
    sy = np.abs(p.y).max()
    ctx.close(pre + "betas", reg.betas, np.vstack([o.b, [[lam]]]), rtol=1e-6)
    ctx.close(pre + "u", reg.u, u, rtol=1e-6, scale=sy)
    ctx.close(pre + "predy", reg.predy, Xd @ o.b, rtol=1e-6, scale=sy)
    ctx.close(pre + "e_filtered", reg.e_filtered, F(u), rtol=1e-6, scale=sy)
    ctx.close(pre + "sig2", reg.sig2, o.sig2n, rtol=1e-6)
    M = p.W @ inv(np.eye(p.N) - lam * p.W)
    s2 = o.sig2n
    I = np.array([[p.T * (np.trace(M @ M) + np.trace(M.T @ M)), p.T * np.trace(M) / s2], [p.T * np.trace(M) / s2, p.n / (2 * s2 ** 2)]])
    k = X.shape[1]
    V = np.zeros((k + 1, k + 1))
    V[:k, :k] = s2 * o.xtxi
    V[k, k] = inv(I)[0, 0]
    vmat(ctx, pre + "vm", reg.vm, V)
    vmat(ctx, pre + "varb", reg.varb, V[:k, :k])
    vmat(ctx, pre + "vm1", reg.vm1, inv(I))
    scalars(ctx, reg, pre, ll, k, p.n)
    ctx.ok(pre + "n_t", reg.n == p.n and reg.t == p.T)
    if cls == "ML_ErrorFE":
        mu = means(p.y, p.N) - means(X, p.N) @ o.b
        ctx.close(pre + "mu_i", reg.mu_i, mu, rtol=1e-6, scale=sy)
        ctx.close(pre + "mean_mu_i", reg.mean_mu_i, mu.mean(), rtol=1e-6, scale=sy)
        chk.table(ctx, reg)


def case_lagfe(ctx):
    import spreg
    p = data(ctx, "lag", ctx.pick("sym", [False, False, True]))
    cls = ctx.pick("class", ["ML_LagFE", "ML_LagFE", "Panel_FE_Lag"])
    kw, X = slx(ctx, p, cls == "ML_LagFE")
    yd, Xd = within(p.y, p.N), within(np.asarray(X, float), p.N)
    usable(Xd, 1e-4)
    if p.n - p.N - X.shape[1] < 3:
        raise Skip("no degrees of freedom")
    y, x = give(ctx, p, None if cls == "ML_LagFE" else ctx.pick("layout_", ["long", "wide", "wide_frame", "long_frame"]))
    reg = ctx.run(cls, getattr(spreg, cls), y, x, p.w, **kw)
    pre = "lagfe." if cls == "ML_LagFE" else "dep.lagfe."
    rho, ll = val(reg.rho), val(reg.logll)
    f = lag_like(p, yd, Xd)
    if cls != "ML_LagFE":
        ctx.close(pre + "logll", ll, f(rho), rtol=1e-8)
        ll2 = ll + p.n / 2. * np.log(p.n)
    else:
        ll2 = ll
    optimum(ctx, f, rho, ll2, pre)
    Wn = kron(p, p.W)
    o = ref.ols(yd - rho * Wn @ yd, Xd, dof=False)
    sy = np.abs(p.y).max()
    lag_rest(ctx, reg, p, pre, yd, Xd, rho, o, sy)
    V, I = lag_info(p, Xd, p.W, rho, o.b, o.sig2n)
    vmat(ctx, pre + "vm1", reg.vm1, V)
    vmat(ctx, pre + "vm", reg.vm, V[:-1, :-1])
    vmat(ctx, pre + "varb", reg.varb, inv(I[:-1, :-1]))
    scalars(ctx, reg, pre, ll, X.shape[1] + 1, p.n)
    if cls == "ML_LagFE":
        mu = means(p.y, p.N) - rho * p.W @ means(p.y, p.N) - means(X, p.N) @ o.b
        ctx.close(pre + "mu_i_of_the_lag_model", reg.mu_i, mu, rtol=1e-6, scale=sy)
        ctx.close(pre + "mu_i_without_lag", reg.mu_i, mu + rho * p.W @ means(p.y, p.N), rtol=1e-6, scale=sy)
        chk.table(ctx, reg)


def lag_rest(ctx, reg, p, pre, y, X, rho, o, sy, extra=()):
    Wn = kron(p, p.W)
    u = o.u
    ctx.close(pre + "betas", reg.betas, np.vstack([o.b, [[rho]]] + [[[e]] for e in extra]), rtol=1e-6)
    ctx.close(pre + "u", reg.u, u, rtol=1e-6, scale=sy)
    ctx.close(pre + "predy", reg.predy, y - u, rtol=1e-6, scale=sy)
    ctx.close(pre + "sig2", reg.sig2, o.sig2n, rtol=1e-6)
    pe = np.linalg.solve(np.eye(p.n) - rho * Wn, X @ o.b)
    ctx.close(pre + "predy_e", reg.predy_e, pe, rtol=1e-4, scale=sy + np.abs(pe).max())
    ctx.close(pre + "e_pred", reg.e_pred, y - pe, rtol=1e-4, scale=sy + np.abs(pe).max())
    ctx.ok(pre + "n_t", reg.n == p.n and reg.t == p.T)


def quasi(a, N, phi):
    T = len(a) // N
    return a - (1 - phi) * np.tile(means(a, N), (T, 1))


def case_lagre(ctx):
    import spreg
    p = data(ctx, "lag", ctx.pick("sym", [False, False, True]), mu=(.5, 1.5))
    cls = ctx.pick("class", ["ML_LagRE", "ML_LagRE", "Panel_RE_Lag"])
    kw, X = slx(ctx, p, cls == "ML_LagRE")
    X = usable(np.hstack([one(p.n), X]), 1e-4)
    Wn = kron(p, p.W)
    ev = np.linalg.eigvals(p.W)

    def like(rho, phi):
        yq, Xq = quasi(p.y, p.N, phi), quasi(X, p.N, phi)
        e = ref.ols(yq - rho * Wn @ yq, Xq).utu
        return gauss(e, p.n) + p.T * float(np.log(np.abs(1 - rho * ev)).sum()) + p.N * np.log(phi)

    def prof(phi):
        yq, Xq = quasi(p.y, p.N, phi), quasi(X, p.N, phi)
        a, b = ref.ols(yq, Xq).u, ref.ols(Wn @ yq, Xq).u
        aa, ab, bb = float((a * a).sum()), float((a * b).sum()), float((b * b).sum())
        g = lambda r: gauss(aa - 2 * r * ab + r * r * bb, p.n) + p.T * float(np.log(np.abs(1 - r * ev)).sum())
        return ref.maximise(g, -.9999, .9999, 40)
    pf = lambda phi: prof(phi)[1] + p.N * np.log(phi)
    ph, best, nloc = ref.maximise(pf, 1e-3, .9999, 40)
    rh, _, nr = prof(ph)
    if abs(rh) > .985 or not .01 < ph < .99:
        raise Skip("optimum at the boundary of the parameter space")
    y, x = give(ctx, p, None if cls == "ML_LagRE" else ctx.pick("layout_", ["long", "wide", "wide_frame", "long_frame"]))
    reg = ctx.run(cls, getattr(spreg, cls), y, x, p.w, **kw)
    pre = "lagre." if cls == "ML_LagRE" else "dep.lagre."
    rho, phi, ll = val(reg.rho), val(reg.phi), val(reg.logll)
    ctx.note(rho=rho, phi=phi)
    ctx.close(pre + "logll", ll, like(rho, phi), rtol=0, atol=1e-6 * max(1, abs(ll)))
    if cls != "ML_LagRE":
        ctx.close(pre + "logll_as_coded", ll, like(rho, phi) - p.N * np.log(phi), rtol=0, atol=1e-6 * max(1, abs(ll)))
    if nloc > 1 or nr > 1:
        ctx.cfg["multimodal"] = True
    else:
        ctx.ok(pre + "maximum", like(rho, phi) >= best - 1e-4 * max(1, 1e-3 * abs(best)), "likelihood %.9g at (%.6f, %.6f), %.9g at (%.6f, %.6f)"
               % (like(rho, phi), rho, phi, best, rh, ph))
        ctx.close(pre + "rho", rho, rh, rtol=0, atol=3e-3)
        ctx.close(pre + "phi", phi, ph, rtol=0, atol=3e-3)
    yq, Xq = quasi(p.y, p.N, phi), quasi(X, p.N, phi)
    o = ref.ols(yq - rho * Wn @ yq, Xq, dof=False)
    sy = np.abs(p.y).max()
    lag_rest(ctx, reg, p, pre, yq, Xq, rho, o, sy, (phi,))
    V, I = lag_info(p, Xq, p.W, rho, o.b, o.sig2n)
    vmat(ctx, pre + "varb", reg.varb, inv(I[:-1, :-1]))
    # joint information of (b, rho, phi, sigma2)
    k = X.shape[1]
    M = p.W @ inv(np.eye(p.N) - rho * p.W)
    J = np.zeros((k + 3, k + 3))
    J[:k + 1, :k + 1] = I[:k + 1, :k + 1]
    J[k, k + 1] = J[k + 1, k] = -2 / phi * np.trace(M)
    J[k, k + 2] = J[k + 2, k] = I[k, k + 1]
    J[k + 1, k + 1] = 2 * p.N / phi ** 2
    J[k + 1, k + 2] = J[k + 2, k + 1] = -p.N / (phi * o.sig2n)
    J[k + 2, k + 2] = p.n / (2 * o.sig2n ** 2)
    JV = inv(J)
    s = np.sqrt(np.diag(JV))
    ctx.close(pre + "information_matrix", np.asarray(reg.vm1) / np.outer(s, s), JV / np.outer(s, s), rtol=0, atol=1e-3)
    # as coded (Elhorst 2014), so that other changes are still seen
    E = np.zeros((k + 3, k + 3))
    E[:k + 1, :k + 1] = I[:k + 1, :k + 1]
    E[k, k + 1] = E[k + 1, k] = -np.trace(M) / o.sig2n
    E[k, k + 2] = E[k + 2, k] = I[k, k + 1]
    E[k + 1, k + 1] = p.N * (1 + 1 / phi ** 2)
    E[k + 2, k + 1] = -p.N / o.sig2n
    E[k + 1, k + 2] = -p.N / o.sig2n if cls == "ML_LagRE" else -p.N / o.sig2n ** 2
    E[k + 2, k + 2] = J[k + 2, k + 2]
    EV = inv(E)
    ctx.close(pre + "vm1_as_coded", np.asarray(reg.vm1) / np.abs(EV).max(), EV / np.abs(EV).max(), rtol=0, atol=1e-5)
    ctx.close(pre + "vm_of_vm1", reg.vm, np.asarray(reg.vm1)[:-1, :-1], rtol=1e-12)
    scalars(ctx, reg, pre, ll, k + 1, p.n)
    if cls == "ML_LagRE":
        if np.all(np.diag(reg.vm) > 0):
            chk.table(ctx, reg)


def re_like(p, X):
    """exact likelihood of the error model with random effects; phi = variance of the effects over that of the innovations"""
    Wn = kron(p, p.W)
    wy, wX = Wn @ p.y, Wn @ X
    yb, Xb = means(p.y, p.N), means(X, p.N)

    def white(l, phi):
        B = np.eye(p.N) - l * p.W
        BB = B.T @ B
        Vb = p.T * phi * np.eye(p.N) + inv(BB)
        L = np.linalg.cholesky(inv(Vb))
        sT = np.sqrt(p.T)
        yw = np.vstack([within(p.y - l * wy, p.N), sT * L.T @ yb])
        Xw = np.vstack([within(X - l * wX, p.N), sT * L.T @ Xb])
        return yw, Xw, Vb, B

    def f(l, phi):
        yw, Xw, Vb, B = white(l, phi)
        q = ref.ols(yw, Xw).utu
        return gauss(q, p.n) - .5 * slogdet(Vb)[1] + (p.T - 1) * slogdet(B)[1]
    return f, white


def case_errre(ctx):
    import spreg
    sym = ctx.pick("sym", [True, True, False])
    p = data(ctx, "err", sym, mu=(.5, 1.5))
    kw, X = slx(ctx, p)
    X = usable(np.hstack([one(p.n), X]), 1e-4)
    f, white = re_like(p, X)
    best, arg = -np.inf, None
    for l0 in (-.5, 0., .4, .8):
        for q0 in (.1, 1., 5.):
            r = optimize.minimize(lambda t: -f(t[0], np.exp(t[1])), [l0, np.log(q0)], method="L-BFGS-B",
                                  bounds=[(-.995, .995), (-9, 6)])
            if -r.fun > best:
                best, arg = -r.fun, (float(r.x[0]), float(np.exp(r.x[1])))
    if abs(arg[0]) > .98 or not 1e-3 < arg[1] < 200:
        raise Skip("optimum at the boundary of the parameter space")
    y, x = give(ctx, p)
    reg = ctx.run("ML_ErrorRE", spreg.ML_ErrorRE, y, x, p.w, **kw)
    lam, phi, ll = val(reg.lam), val(reg.phi), val(reg.logll)
    ctx.note(lam=lam, phi=phi)
    pre = "errre." if sym else "errre.not-symmetric."
    at = f(lam, max(phi, 1e-12))
    if phi < 1e-6:
        ctx.ok("errre.maximum.caught-at-zero-effects", at >= best - 1e-2, "likelihood %.8g at (%.5f, %.3g), %.8g at %s" % (at, lam, phi, best, arg))
        raise Skip("caught at zero effects") if at < best - 1e-2 else Skip("no effects")
    ctx.ok(pre + "maximum", at >= best - 2e-3 * max(1., 1e-3 * abs(best)), "likelihood %.8g at (%.5f, %.5f), %.8g at (%.5f, %.5f)" % ((at, lam, phi, best) + arg))
    ctx.close(pre + "logll", ll, at, rtol=0, atol=1e-6 * max(1, abs(ll)))
    yw, Xw, Vb, B = white(lam, phi)
    o = ref.ols(yw, Xw, dof=False)
    s2 = o.utu / p.n           # the whitened data have N rows more
    sy = np.abs(p.y).max()
    u = p.y - X @ o.b
    ctx.close("errre.betas", np.asarray(reg.betas)[:-2], o.b, rtol=1e-6)
    ctx.close("errre.params", np.asarray(reg.betas)[-2:], [[lam], [phi * s2]], rtol=1e-6)
    ctx.close("errre.u", reg.u, u, rtol=1e-6, scale=sy)
    ctx.close("errre.predy", reg.predy, p.y - u, rtol=1e-6, scale=sy)
    ctx.close("errre.sig2", reg.sig2, s2, rtol=1e-6)
    ctx.close("errre.sig2_u", reg.sig2_u, phi * s2, rtol=1e-6)
    ctx.close("errre.whitened_ssr", float((np.asarray(reg.e_filtered) ** 2).sum()), p.n * s2, rtol=1e-6)
    k = X.shape[1]
    vmat(ctx, "errre.vm_betas", np.asarray(reg.vm)[:k, :k], s2 * o.xtxi)
    ctx.close("errre.vm_cross", np.asarray(reg.vm)[:k, k:], np.zeros((k, 2)), rtol=0, atol=1e-12)
    # information of (lambda, variance of the effects, variance of the innovations)
    A = inv(B.T @ B)
    dA = A @ (p.W.T @ B + B.T @ p.W) @ A
    E, Jb = np.eye(p.T) - 1. / p.T, np.ones((p.T, p.T)) / p.T
    blocks = lambda w, b: (w, b)
    # V = s2 * (E kron A + J kron Vb)
    D = [blocks(s2 * dA, s2 * dA), blocks(np.zeros_like(A), p.T * np.eye(p.N)), blocks(A, A)]
    Ai, Vi = inv(A) / s2, inv(Vb) / s2
    I = np.zeros((3, 3))
    for i in range(3):
        for j in range(3):
            I[i, j] = .5 * (p.T - 1) * np.trace(Ai @ D[i][0] @ Ai @ D[j][0]) + .5 * np.trace(Vi @ D[i][1] @ Vi @ D[j][1])
    IV = inv(I)[:2, :2]
    sd = np.sqrt(np.diag(IV))
    ctx.close("errre.vm_variance_parameters", np.asarray(reg.vm)[k:, k:] / np.outer(sd, sd), IV / np.outer(sd, sd), rtol=0, atol=1e-2)
    # as coded, so that other changes are still seen
    re_as_coded(ctx, "errre.vm_variance_parameters_as_coded", np.asarray(reg.vm)[k:, k:], p, lam, np.sqrt(phi), s2)
    scalars(ctx, reg, "errre.", ll, k, p.n)
    if np.all(np.diag(reg.vm) > 0):
        chk.table(ctx, reg)


def symmetrisable(p):
    """row-standardised symmetric contiguity"""
    B = p.W > 0
    return np.array_equal(B, B.T) and all(np.ptp(r[r > 0]) < 1e-12 for r in p.W if r.any())


def re_as_coded(ctx, key, got, p, lam, root, s2, W=None):
    """covariance of (lambda, variance of the effects) of the random effects error model as both implementations code it"""
    W = p.W if W is None else W
    B = np.eye(p.N) - lam * W
    A = inv(B.T @ B)
    G = (W.T @ B + B.T @ W) @ A
    vi = inv(p.T * root * np.eye(p.N) + A)
    S = vi @ A
    tr = lambda *m: float(np.trace(np.linalg.multi_dot(m) if len(m) > 1 else m[0]))
    C = np.array([[(p.T - 1) / 2 * tr(G) ** 2 + .5 * tr(S, G) ** 2, p.T / (2 * s2) * tr(S, G, vi), ((p.T - 1) * tr(G) + tr(S, G, S)) / (2 * s2)],
                  [0, p.T ** 2 / (2 * s2 ** 2) * tr(vi) ** 2, p.T / (2 * s2 ** 2) * tr(S, vi)],
                  [0, 0, ((p.T - 1) * p.N + tr(S) ** 2) / (2 * s2 ** 2)]])
    C = np.triu(C) + np.triu(C, 1).T
    CV = inv(C)[:2, :2]
    cs = np.sqrt(np.abs(np.diag(CV)))
    ctx.close(key, got / np.outer(cs, cs), CV / np.outer(cs, cs), rtol=0, atol=1e-3)


def case_deprecated(ctx):
    """current and deprecated implementation of one model on the same panel"""
    import spreg
    pair = ctx.pick("pair", [("ML_LagFE", "Panel_FE_Lag"), ("ML_ErrorFE", "Panel_FE_Error"), ("ML_LagRE", "Panel_RE_Lag"),
                             ("ML_ErrorRE", "Panel_RE_Error"), ("GM_ErrorRE", "GM_KKP")])
    kind = "lag" if "Lag" in pair[0] else "err"
    p = data(ctx, kind, pair[0] == "ML_ErrorRE" and ctx.pick("sym", [True, False, False]), mu=(1.,))
    X = np.hstack([one(p.n), np.asarray(p.x, float)])
    usable(X, 1e-3)
    if "FE" in pair[0]:
        usable(within(np.asarray(p.x, float), p.N), 1e-3)
        if p.n - p.N - p.k < 3:
            raise Skip("no degrees of freedom")
    y, x = give(ctx, p, ctx.pick("layout", ["long", "wide", "wide_frame", "long_frame"]))
    a = ctx.run(pair[0], getattr(spreg, pair[0]), y, x, p.w)
    b = ctx.run(pair[1] + (".unsymmetrisable" if pair[1] == "Panel_RE_Error" and not symmetrisable(p) else ""),
                getattr(spreg, pair[1]), y, x, p.w)
    pre = "agree.%s." % pair[0]
    if pair[0] == "ML_ErrorRE":
        if val(a.phi) < 1e-6 or val(b.phi) < 1e-6:
            raise Skip("caught at zero effects")
        if ctx.cfg["sym"]:
            # the likelihood of the deprecated class as coded: without n/2 log n, its phi the square root of the variance ratio
            f, _ = re_like(p, X)
            at = lambda l, q: f(l, q ** 2) - p.n / 2. * np.log(p.n)
            lam, phi, ll = val(b.lam), val(b.phi), val(b.logll)
            ctx.close("agree.Panel_RE_Error.logll_as_coded", ll, at(lam, phi), rtol=0, atol=1e-6 * max(1, abs(ll)))
            ctx.close("agree.Panel_RE_Error.aic", val(b.aic), 2 * X.shape[1] - 2 * ll, rtol=1e-9)
            ctx.close("agree.Panel_RE_Error.schwarz", val(b.schwarz), X.shape[1] * np.log(p.n) - 2 * ll, rtol=1e-9)
            h = 2e-3
            near = [at(lam + d, phi * e) for d in (-h, 0, h) for e in (1 - h, 1, 1 + h) if abs(lam + d) < .999]
            ctx.ok("agree.Panel_RE_Error.local_maximum", ll >= max(near) - 1e-3, "%r below %r nearby" % (ll, max(near)))
        k = X.shape[1]
        if ctx.cfg["sym"] or symmetrisable(p):
            d = np.sqrt((p.W > 0).sum(1, keepdims=True).clip(1))
            re_as_coded(ctx, "agree.Panel_RE_Error.vm_variance_parameters_as_coded", np.asarray(b.vm)[k:, k:], p, val(b.lam), val(b.phi), val(b.sig2),
                        None if ctx.cfg["sym"] else d * p.W / d.T)
        if symmetrisable(p):
            pre += "symmetrised."
        else:
            pre += "other."
    if abs(val(np.asarray(a.betas)[-1 if "FE" in pair[0] else -2])) > .97:
        raise Skip("near the boundary")
    s = np.sqrt(np.abs(np.diag(a.vm)))
    ctx.close(pre + "betas", np.asarray(b.betas).ravel(), np.asarray(a.betas).ravel(), rtol=1e-3, atol=1e-3)
    nb = len(s) if pair[0] in ("ML_LagFE", "ML_ErrorFE", "GM_ErrorRE") else p.k + 1
    ctx.close(pre + "vm", np.asarray(b.vm)[:nb, :nb] / np.outer(s, s)[:nb, :nb], np.asarray(a.vm)[:nb, :nb] / np.outer(s, s)[:nb, :nb], rtol=0, atol=6e-2 if "RE" in pair[0] else 1e-2)
    ctx.close(pre + "u", b.u, a.u, rtol=1e-3, scale=np.abs(p.y).max())
    ctx.ok(pre + "names", [str(t).replace("sigma2_u", "sig2_u") for t in a.name_x] == [str(t) for t in b.name_x], "%s %s" % (a.name_x, b.name_x))
    if pair[0] == "ML_ErrorRE":
        ctx.close("agree.%s.logll" % pair[0], val(b.logll), val(a.logll), rtol=1e-6)


SUBS = {"pooled": (case_pooled, 50, 600), "errfe": (case_errfe, 60, 800), "lagfe": (case_lagfe, 60, 800), "lagre": (case_lagre, 50, 500),
        "errre": (case_errre, 45, 450), "deprecated": (case_deprecated, 60, 600)}
