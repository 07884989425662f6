"""C20 panel estimators by least squares and moments against dense textbook evaluations of the stacked data."""
import numpy as np
from numpy.linalg import inv
from scipy import stats
from .. import gen, models, ref, chk
from ..core import Skip
from . import c06, c07

RULE = ("Pooled, within (fixed effects), Swamy-Arora random effects, GM pooled error and KKP random effects models on balanced "
        "panels: coefficients, residuals, effects, variance components, covariances and Hausman test against dense evaluation on "
        "the stacked long data; moment-based parameters judged by the criterion of the published moment conditions; every "
        "accepted layout (long, wide, arrays, frames, series) of one panel must give the result of the long layout.")
CASE_LIMIT = 90


class P:
    pass


def panel(ctx, kinds=None, ks=(1, 2, 3), Ts=(2, 3, 5, 8), rho=0., lam=0., special=True, kind="", N=None, symmetric=False, transform=None, mu=None):
    """a balanced panel, long format; .x without constant"""
    rng = ctx.rng
    p = P()
    p.T = ctx.pick("T", list(Ts))
    p.k = ctx.pick("k", list(ks))
    N = N or int(rng.integers(max(9, p.k * p.T + 3), max(9, p.k * p.T + 3) + 22))
    tr = transform or ctx.pick("transform", ["r", "r", "o", "b"])
    pool = kinds or (gen.SYM_KINDS if symmetric else gen.ALL_KINDS)
    ws = gen.weights(rng, N, ctx.pick("W", pool), tr, ctx.pick("ids", ["int", "str", "perm"]))
    p.ws, p.w, p.W, p.N = ws, ws.w, ws.full, ws.n
    N = p.N
    if p.k * p.T > N:
        raise Skip("more columns than units")
    top = np.max(np.abs(np.linalg.eigvals(p.W))) or 1.
    mu = ctx.pick("mu", [0., .4, 1.5]) if mu is None else mu
    p.y, p.x = models.panel_data(rng, N, p.T, p.k, p.W / max(top, 1.), kind, rho, lam, mu, ctx.pick("sig", [.3, 1.]))
    p.special = ctx.pick("special", ["none", "none", "dummy", "trend", "integers", "scale", "invariant", "brief"]) if special else "none"
    if p.special == "dummy":
        p.x[:, -1] = rng.integers(0, 2, N * p.T)
    elif p.special == "trend":
        p.x[:, -1] = np.tile(rng.normal(size=N), p.T) * (1 + np.repeat(np.arange(p.T), N)) + rng.normal(0, .3, N * p.T)
    elif p.special == "integers":
        p.x = np.round(p.x * 4).astype(int)
    elif p.special == "brief":                             # differs from itself in one period only
        v = np.tile(rng.normal(size=N), (p.T, 1))
        v[int(rng.integers(p.T))] += rng.normal(size=N)
        p.x[:, -1] = v.ravel()
    elif p.special == "scale":
        p.x = p.x * 10. ** rng.integers(-3, 4, p.k)
        p.y = p.y * 100
    elif p.special == "invariant" and p.k > 1:
        p.x[:, 0] = np.tile(rng.normal(size=N), p.T)
    p.inv = p.special == "invariant" and p.k > 1
    p.n = N * p.T
    return p


def within(a, N):
    T = len(a) // N
    return a - np.tile(a.reshape(T, N, -1).mean(axis=0), (T, 1))


def means(a, N):
    T = len(a) // N
    return a.reshape(T, N, -1).mean(axis=0)


def give(ctx, p, layout=None):
    """the panel in one of the layouts the functions accept -> (y, x)"""
    import pandas as pd
    layout = layout or ctx.pick("layout", ["long", "wide", "wide_frame", "long_frame", "long_flat"])
    p.layout = layout
    yw, xw = models.wide(p.y, p.N, p.T), models.wide(p.x, p.N, p.T)
    names = ["inc", "unemp", "age", "dens"][:p.k]
    if layout == "long":
        return p.y.copy(), p.x.copy()
    if layout == "wide":
        return yw, xw
    if layout == "wide_frame":
        return (pd.DataFrame(yw, columns=["HR%d" % t for t in range(p.T)]),
                pd.DataFrame(xw, columns=["%s%d" % (v, t) for v in names for t in range(p.T)]))
    if layout == "long_frame":
        return pd.DataFrame(p.y, columns=["HR"]), pd.DataFrame(p.x, columns=names)
    return p.y.ravel().copy(), p.x.copy()


def slx(ctx, p, allow=True):
    """(keywords, stacked regressors without constant)"""
    X = np.asarray(p.x, float)
    L = ctx.pick("slx_lags", [0, 0, 1, 2]) if allow else 0
    if not L:
        return {}, X
    kw = {"slx_lags": L}
    sel = np.ones(p.k, bool)
    if p.k > 1 and ctx.pick("slx_vars", ["all", "some"]) == "some":
        sel = ctx.rng.random(p.k) < .5
        sel[ctx.rng.integers(p.k)] = True
        kw["slx_vars"] = [bool(s) for s in sel]
    Wn = np.kron(np.eye(p.T), p.W)
    return kw, np.hstack([X, ref.lags(Wn, X[:, sel], L)])


def usable(X, tol=1e-6):
    Z = X / np.where(np.abs(X).max(axis=0) > 0, np.abs(X).max(axis=0), 1)
    if np.linalg.svd(Z, compute_uv=False)[-1] < tol:
        raise Skip("collinear design")
    return X


def one(n):
    return np.ones((n, 1))


# ------------------------------------------------------------------ pooled
def case_pooled(ctx):
    import spreg
    p = panel(ctx)
    kw, X = slx(ctx, p)
    X = usable(np.hstack([one(p.n), X]))
    robust = ctx.pick("robust", [None, None, "white"])
    y, x = give(ctx, p)
    diag = ctx.pick("diag", [True, False])
    reg = ctx.run("PooledOLS", spreg.PooledOLS, y, x, p.w, robust=robust, spat_diag=diag, nonspat_diag=not diag, **kw)
    r = ref.ols(p.y, X, dof=True, robust=robust)
    chk.base_match(ctx, reg, r)
    chk.fit_stats(ctx, reg, r)
    chk.table(ctx, reg, dist="t", df=p.n - X.shape[1])
    ctx.close("r2", reg.r2, r.r2, rtol=0, atol=1e-9)
    ctx.close("ar2", reg.ar2, r.ar2, rtol=0, atol=1e-9)
    ctx.close("logll", reg.logll, r.logll, rtol=1e-9)
    ctx.close("aic", reg.aic, r.aic, rtol=1e-9)
    ctx.close("schwarz", reg.schwarz, r.schwarz, rtol=1e-9)
    ctx.close("f", reg.f_stat[0], r.f, rtol=1e-7)
    ctx.pclose("f_p", reg.f_stat[1], r.f_p)
    ctx.ok("t", reg.t == p.T)


# ------------------------------------------------------------------ fixed effects
def case_fe(ctx):
    import spreg
    p = panel(ctx)
    kw, X = slx(ctx, p, not p.inv)
    Xd = within(X, p.N)
    if p.inv:
        # a regressor that does not vary within units is dropped (documented)
        X, Xd = X[:, 1:], Xd[:, 1:]
    usable(Xd)
    if p.n - p.N - X.shape[1] < 2:
        raise Skip("no degrees of freedom")
    yd = within(p.y, p.N)
    y, x = give(ctx, p)
    reg = ctx.run("PanelFE", spreg.PanelFE, y, x, p.w, **kw)
    r = ref.ols(yd, Xd, dof=False)
    sy = np.abs(p.y).max()
    ctx.close("betas", reg.betas, r.b, rtol=1e-7)
    s2 = r.utu / (p.n - p.N)
    ctx.close("sig2", reg.sig2, s2, rtol=1e-8)
    sd = np.sqrt(np.diag(s2 * r.xtxi))
    ctx.close("vm", np.asarray(reg.vm) / np.outer(sd, sd), s2 * r.xtxi / np.outer(sd, sd), rtol=0, atol=1e-6)
    ctx.close("xtxi", np.asarray(reg.xtxi) / np.outer(sd, sd) * s2, s2 * r.xtxi / np.outer(sd, sd), rtol=0, atol=1e-6)
    ctx.close("std_err", reg.std_err, sd, rtol=1e-6)
    mu = means(p.y, p.N) - means(X, p.N) @ r.b
    ctx.close("fixed_effects", reg.fixed_effects, mu, rtol=1e-6, scale=sy)
    ctx.close("mu_i", reg.mu_i, mu, rtol=1e-6, scale=sy)
    ctx.close("mean_mu_i", reg.mean_mu_i, mu.mean(), rtol=1e-6, scale=sy)
    # least squares with a dummy for every unit
    Dm = np.tile(np.eye(p.N), (p.T, 1))
    full = np.linalg.lstsq(np.hstack([X, Dm]), p.y, rcond=None)[0]
    nb = X.shape[1]
    ctx.close("lsdv_betas", np.asarray(reg.betas) / sd.reshape(-1, 1), full[:nb] / sd.reshape(-1, 1), rtol=1e-5, atol=1e-5)
    ctx.close("lsdv_effects", reg.fixed_effects, full[nb:], rtol=1e-5, scale=sy)
    e = np.asarray(reg.u) - np.tile(np.asarray(reg.fixed_effects), (p.T, 1))
    ctx.close("u_less_effects", e, r.u, rtol=1e-6, scale=sy)
    ctx.close("u", reg.u, p.y - X @ r.b, rtol=1e-7, scale=sy)
    ctx.close("predy", reg.predy, X @ r.b, rtol=1e-7, scale=sy)
    chk.table(ctx, reg)
    ctx.ok("n_t_k_df", reg.n == p.n and reg.t == p.T and reg.k == X.shape[1] and reg.df_resid == p.n - p.N)
    if not p.inv:
        ctx.ok("names_given", len(reg.name_x) == nb)


def case_fe_fit(ctx):
    """log-likelihood, information criteria and F statistic of the fixed-effects fit"""
    import spreg
    p = panel(ctx, special=False)
    X = np.asarray(p.x, float)
    usable(within(X, p.N))
    reg = ctx.run("PanelFE", spreg.PanelFE, p.y, X, p.w)
    r = ref.ols(within(p.y, p.N), within(X, p.N), dof=False)
    ll = -.5 * p.n * (np.log(2 * np.pi) + np.log(r.utu / p.n) + 1)
    ctx.close("within_logll", reg.logll, ll, rtol=1e-8)
    tss = float((within(p.y, p.N) ** 2).sum())
    k = X.shape[1]
    F = (tss - r.utu) / k / (r.utu / (p.n - p.N - k))
    ctx.close("within_F", reg.f_stat[0], F, rtol=1e-6)


# ------------------------------------------------------------------ random effects
def case_re(ctx):
    import spreg
    p = panel(ctx)
    kw, X = slx(ctx, p)
    X = usable(np.hstack([one(p.n), X]))
    N, T, k = p.N, p.T, X.shape[1]
    if N - k < 2:
        raise Skip("between regression has no degrees of freedom")
    xm, ym = means(X, N), means(p.y, N)
    usable(xm)
    xd, yd = within(X, N), within(p.y, N)
    vary = np.abs(xd).max(axis=0) > 1e-9 * np.abs(X).max(axis=0)
    usable(xd[:, vary])
    if N * T - N - vary.sum() < 2:
        raise Skip("no degrees of freedom")
    fe = ref.ols(yd, xd[:, vary], dof=False)
    se = fe.utu / (N * T - N - vary.sum())
    be = ref.ols(ym, xm, dof=True)
    sm = be.sig2 - se / T
    y, x = give(ctx, p)
    reg = ctx.run("PanelRE", spreg.PanelRE, y, x, p.w, spat_diag=ctx.pick("diag", [True, False]), **kw)
    neg = sm < 0
    ctx.cfg["floored"] = bool(neg)
    if abs(sm) < 1e-9 * se:
        raise Skip("variance component on its bound")
    if neg:
        ctx.ok("floor_notice", "variance is negative" in (getattr(reg, "warning", "") or ""), "no notice of the negative variance")
        sm = 0.
    ctx.close("sigma2_epsilon", reg.sigma2_epsilon, se, rtol=1e-7)
    ctx.close("sigma2_mu", reg.sigma2_mu, sm, rtol=1e-7, scale=be.sig2 + se)
    th = 1 - np.sqrt(se / (se + T * sm))
    ctx.close("theta", reg.theta, th, rtol=0, atol=1e-7)
    # feasible generalised least squares with the full covariance of the composite error
    V = np.kron(np.ones((T, T)), np.eye(N)) * sm + np.eye(N * T) * se
    Vi = inv(V)
    A = X.T @ Vi @ X
    b = np.linalg.solve(A, X.T @ Vi @ p.y)
    sc = np.sqrt(np.diag(inv(A))).reshape(-1, 1)
    ctx.close("betas", np.asarray(reg.betas) / sc, b / sc, rtol=1e-6, atol=1e-6)
    sy = np.abs(p.y).max()
    ctx.close("u", reg.u, p.y - X @ b, rtol=1e-7, scale=sy)
    ctx.close("predy", reg.predy, X @ b, rtol=1e-7, scale=sy)
    ys, xs = p.y - th * np.tile(ym, (T, 1)), X - th * np.tile(xm, (T, 1))
    q = ref.ols(ys, xs, dof=False)
    ctx.close("sig2", reg.sig2, q.sig2n, rtol=1e-6)
    vm = q.sig2n * q.xtxi
    sd = np.sqrt(np.diag(vm))
    ctx.close("vm", np.asarray(reg.vm) / np.outer(sd, sd), vm / np.outer(sd, sd), rtol=0, atol=1e-6)
    chk.table(ctx, reg)
    # Hausman test
    d = fe.b - b[vary]
    M = se * fe.xtxi - vm[np.ix_(vary, vary)]
    sdm = np.sqrt(np.abs(np.diag(se * fe.xtxi)))
    Mn = M / np.outer(sdm, sdm)
    ctx.ok("hausman_df", reg.hausman_df == vary.sum())
    if np.linalg.cond(Mn) < 1e8 and np.min(np.abs(np.linalg.eigvalsh(Mn))) > 1e-7:
        dn = d / sdm.reshape(-1, 1)
        h = float((dn.T @ inv(Mn) @ dn).item())
        ctx.close("hausman", reg.hausman_stat, h, rtol=1e-4, atol=1e-6)
        ctx.close("hausman_p", reg.hausman_p, stats.chi2.sf(h, vary.sum()) if h > 0 else 1., rtol=0, atol=1e-4)
    if neg:
        r = ref.ols(p.y, X)
        ctx.close("floored_is_pooled", np.asarray(reg.betas) / sc, r.b / sc, rtol=1e-6, atol=1e-6)
    ctx.note(theta=float(th))


# ------------------------------------------------------------------ GM error
def case_gmpooled(ctx):
    import spreg
    p = panel(ctx, Ts=(2, 3, 4), ks=(1, 2), lam=ctx.pick("lam", [0., .4, .7]), N=int(ctx.rng.integers(16, 34)), transform="r")
    if p.special in ("scale", "trend"):
        raise Skip("design not used here")
    kw, X = slx(ctx, p)
    X = usable(np.hstack([one(p.n), X]), 1e-4)
    Wn = np.kron(np.eye(p.T), p.W)
    y, x = give(ctx, p)
    step1c, it = ctx.pick("step1c", [False, False, True]), ctx.pick("max_iter", [1, 1, 5])
    reg = ctx.run("GM_ErrorPooled", spreg.GM_ErrorPooled, y, x, p.w, max_iter=it, step1c=step1c,
                  nonspat_diag=ctx.pick("diag", [True, False]), **kw)
    ch = c07.Chain("het", Wn, p.y, X, X)
    c07.judge(ctx, reg, ch, "pooled.", step1c, it)
    ctx.ok("t", reg.t == p.T)


def kkp_moments(W, u, i):
    """moment conditions of Kapoor, Kelejian and Prucha: rows of G (lam, lam^2, variance), g"""
    N = len(W)
    T = len(u) // N
    Q = np.kron(np.eye(T) - np.ones((T, T)) / T, np.eye(N)) if i == 0 else np.kron(np.ones((T, T)) / T, np.eye(N))
    Wn = np.kron(np.eye(T), W)
    a, b, c = u, Wn @ u, Wn @ Wn @ u
    m = N * (T - 1) if i == 0 else N
    q = lambda s, t: float((s.T @ Q @ t).item()) / m
    tr = float(np.trace(W.T @ W)) / N
    G = np.array([[2 * q(a, b), -q(b, b), 1.], [2 * q(c, b), -q(c, c), tr], [q(a, c) + q(b, b), -q(b, c), 0.]])
    return G, np.array([q(a, a), q(b, b), q(a, b)])


def tau(W, spreg_form=False):
    N = len(W)
    A = W.T @ W
    t12 = 2 * np.trace(A) / N
    t22 = 2 * np.trace(A @ A) / N
    if spreg_form:
        t12, t22 = t12 / N, t22 / 2
    t23 = np.trace(A @ (W + W.T)) / N
    t33 = np.trace(W @ W + A) / N
    return np.array([[2., t12, 0.], [t12, t22, t23], [0., t23, t33]])


def kkp_judge(ctx, reg, y, X, W, full, pre, T):
    n, k = X.shape
    N = len(W)
    B = np.asarray(reg.betas, float).ravel()
    ctx.ok(pre + "n_coef", len(B) == k + 3)
    b, (lam, sv, s1) = B[:k].reshape(-1, 1), B[k:]
    u0 = y - X @ np.linalg.lstsq(X, y, rcond=None)[0]
    G0, g0 = kkp_moments(W, u0, 0)
    G1, g1 = kkp_moments(W, u0, 1)
    # initial estimates (unweighted, within moments)
    f0 = ref.kp_crit(G0, g0)
    l1, v1, nloc1 = ref.minimise(f0)
    res = g0 - G0[:, 0] * l1 - G0[:, 1] * l1 ** 2
    sv1 = max(0., float(G0[:, 2] @ res / (G0[:, 2] @ G0[:, 2])))
    ul = u0 - l1 * np.kron(np.eye(T), W) @ u0
    s11 = float(((np.tile(means(ul, N), (T, 1))) ** 2).sum()) / N
    if sv1 <= 1e-8 * s11 or abs(l1) > .985:
        raise Skip("initial estimates at a bound")

    def crit_of(Tm):
        Ti = inv(Tm)
        w0, w1 = Ti * (T - 1) / sv1 ** 2, Ti / s11 ** 2

        def parts(l):
            out = []
            for G, g, w in ((G0, g0, w0), (G1, g1, w1)):
                r = g - G[:, 0] * l - G[:, 1] * l * l
                c = G[:, 2]
                s = max(0., float(c @ w @ r / (c @ w @ c)))
                r = r - c * s
                out.append((float(r @ w @ r), s))
            return out

        def at(l, a, c):
            r0 = g0 - G0 @ np.array([l, l * l, a])
            r1 = g1 - G1 @ np.array([l, l * l, c])
            return float(r0 @ w0 @ r0 + r1 @ w1 @ r1)
        return (lambda l: sum(t[0] for t in parts(l))), parts, at
    key = pre + ("full_weights." if full else "")
    # lambda times the spectral radius of unnormalised weights may be far from one: the six moments are badly scaled
    wild = np.max(np.abs(np.linalg.eigvals(W))) > 1.05
    for form in ([True, False] if full else [False]):
        crit, parts, at = crit_of(tau(W, form) if full else np.eye(3))
        kk = key if not full else (pre + "full_weights.as_coded." if form else pre + "full_weights.published.")
        l2, v2, nloc = ref.minimise(crit)
        f = at(lam, sv, s1)
        scale = max(crit(0.), v2, 1e-300)
        if wild or c06.weak(crit, l2, v2) or nloc > 1 or nloc1 > 1:
            ctx.cfg["weak"] = True
            continue
        ctx.ok(kk + "minimises_moments", f <= v2 + 2e-4 * scale + 5e-3 * v2 + 1e-9,
               "criterion %.8g at (%.5f, %.5g, %.5g), minimum %.8g at lambda %.5f" % (f, lam, sv, s1, v2, l2))
        ctx.close(kk + "lambda", lam, l2, rtol=0, atol=5e-3)
        if full and form is False:
            continue
        pa = parts(l2)
        ctx.close(kk + "sigma2_v", sv, pa[0][1], rtol=2e-2)
        ctx.close(kk + "sigma2_1", s1, pa[1][1], rtol=2e-2)
    # generalised least squares at the reported parameters
    F = lambda a: a - lam * np.kron(np.eye(T), W) @ a
    th = 1 - np.sqrt(sv) / np.sqrt(s1)
    Om = np.eye(n) - th * np.kron(np.ones((T, T)) / T, np.eye(N))
    r = ref.ols(Om @ F(y), Om @ F(X), dof=True)
    sd = np.sqrt(np.diag(r.vm))
    ctx.close(pre + "betas", b / sd.reshape(-1, 1), r.b / sd.reshape(-1, 1), rtol=1e-6, atol=1e-6)
    sy = np.abs(y).max()
    u = y - X @ r.b
    ctx.close(pre + "u", reg.u, u, rtol=1e-6, scale=sy)
    ctx.close(pre + "predy", reg.predy, y - u, rtol=1e-6, scale=sy)
    ctx.close(pre + "e_filtered", reg.e_filtered, F(u), rtol=1e-6, scale=sy)
    ctx.close(pre + "vm", np.asarray(reg.vm) / np.outer(sd, sd), r.vm / np.outer(sd, sd), rtol=0, atol=1e-5)
    z = r.b.ravel() / sd
    return sd, z


def case_kkp(ctx):
    import spreg
    p = panel(ctx, Ts=(2, 3, 5), ks=(1, 2), lam=ctx.pick("lam", [0., .4, .7]), kind="kkp", N=int(ctx.rng.integers(20, 45)),
              transform=ctx.pick("transform_", ["r", "r", "r", "b"]),
              mu=ctx.pick("mu_", [.5, 1.5]))
    if p.special in ("scale", "trend"):
        raise Skip("design not used here")
    full = ctx.pick("full_weights", [False, False, True])
    dep = ctx.pick("class", ["GM_ErrorRE", "GM_ErrorRE", "GM_KKP"])
    kw, X = slx(ctx, p, dep == "GM_ErrorRE")
    X = usable(np.hstack([one(p.n), X]), 1e-4)
    y, x = give(ctx, p, None if dep == "GM_ErrorRE" else ctx.pick("layout_", ["long", "wide", "wide_frame", "long_frame"]))
    reg = ctx.run(dep, getattr(spreg, dep), y, x, p.w, full_weights=full, **kw)
    sd, z = kkp_judge(ctx, reg, p.y, X, p.W, full, "", p.T)
    o = reg.output if hasattr(reg, "output") else None
    if o is not None:
        k = len(sd)
        ctx.close("table.coef", np.asarray(o["coefficients"], float), np.asarray(reg.betas, float).ravel(), rtol=1e-9)
        ctx.close("table.se", np.asarray(o["std_err"][:k], float) / sd, np.ones(k), rtol=1e-5)
    ctx.close("z", np.array([v[0] for v in reg.z_stat[:len(z)]]), z, rtol=1e-5, atol=1e-5)


def case_kkp_regimes(ctx):
    """deprecated KKP with regimes: all coefficients by regime, one error process"""
    import spreg
    p = panel(ctx, Ts=(2, 3, 4), ks=(1, 2), lam=ctx.pick("lam", [0., .5]), kind="kkp", N=int(ctx.rng.integers(24, 40)), special=False,
              mu=1.)
    reg_n = ctx.pick("regime_length", ["n", "nt"])
    codes = ctx.rng.integers(0, 2, p.N)
    codes[:2] = [0, 1]
    lab = ctx.pick("labels", ["str", "int"])
    names = ["b", "a"] if lab == "str" else [7, 3]
    r = [names[c] for c in codes]
    if min((codes == 0).sum(), (codes == 1).sum()) * p.T < 3 * (p.k + 1):
        raise Skip("small regime")
    long = [r[i] for _ in range(p.T) for i in range(p.N)]
    keys = sorted(set(r))
    cl = np.array([keys.index(v) for v in long])
    X0 = np.hstack([one(p.n), p.x])
    X = usable(np.hstack([X0 * (cl == j).reshape(-1, 1) for j in (0, 1)]), 1e-4)
    y, x = give(ctx, p, ctx.pick("layout", ["long", "wide"]))
    reg = ctx.run("GM_KKP", spreg.GM_KKP, y, x, p.w, regimes=r if reg_n == "n" else long, full_weights=False)
    sd, z = kkp_judge(ctx, reg, p.y, X, p.W, False, "", p.T)
    ctx.close("z", np.array([v[0] for v in reg.z_stat[:len(z)]]), z, rtol=1e-5, atol=1e-5)
    b = np.asarray(reg.betas, float).ravel()
    V = np.asarray(reg.vm)
    k = X0.shape[1]
    ctx.ok("chow_shape", np.asarray(reg.chow.regi).shape == (k, 2), str(np.asarray(reg.chow.regi).shape))
    for j in range(k):
        R = np.zeros((1, 2 * k))
        R[0, j], R[0, k + j] = 1, -1
        wv = float((R @ b[:2 * k]).item() ** 2 / (R @ V[:2 * k, :2 * k] @ R.T).item())
        ctx.close("chow", reg.chow.regi[j][0], wv, rtol=1e-6, atol=1e-9)
    R = np.hstack([np.eye(k), -np.eye(k)])
    d = R @ b[:2 * k]
    ctx.close("chow_joint", reg.chow.joint[0], float(d @ inv(R @ V[:2 * k, :2 * k] @ R.T) @ d), rtol=1e-6)


# ------------------------------------------------------------------ layouts
CLASSES = ["PooledOLS", "PanelFE", "PanelRE", "GM_ErrorPooled", "ML_ErrorPooled", "GM_ErrorRE", "ML_ErrorFE", "ML_ErrorRE", "ML_LagFE",
           "ML_LagRE"]


def case_layout(ctx):
    """one panel in every accepted layout gives the result of the long layout, for every panel model"""
    import spreg
    cls = ctx.pick("class", CLASSES)
    rng = ctx.rng
    p = panel(ctx, Ts=(2, 3, 4), ks=(2, 3), kinds=["rook", "queen", "ring", "gabriel"], transform="r", special=False,
              rho=.3 if "Lag" in cls else 0., lam=.3 if "Error" in cls else 0., N=int(rng.integers(18, 30)), mu=1.)
    N, T = p.N, p.T
    what = ctx.pick("columns", ["varying", "adopted", "adopted_first", "binary"])
    D = (rng.random(N * T) < .5).astype(float)
    if what.startswith("adopted"):
        D[:N * (T - 1)] = 0.          # a treatment nobody has before the last period: constant within periods
        if T > 2:
            D[N * (T - 2):N * (T - 1)] = (rng.random(N) < .4)
    if what != "varying":
        p.x = np.column_stack([D, p.x[:, :1]]) if what == "adopted_first" else np.column_stack([p.x[:, :1], D])
        p.k = 2
        p.y = p.y + .6 * D.reshape(-1, 1)
    if p.k * T > N:
        raise Skip("more columns than units")
    X = np.hstack([one(p.n), p.x]) if "FE" not in cls else within(p.x, N)
    usable(X, 1e-3)
    if cls == "PanelRE":
        usable(means(np.hstack([one(p.n), p.x]), N), 1e-3)
    kw, _ = slx(ctx, p)
    C = getattr(spreg, cls)
    a = ctx.run(cls + ".long", C, p.y.copy(), p.x.copy(), p.w, **kw)
    layout = ctx.pick("layout", ["wide", "wide_frame", "long_frame", "wide_named", "long_flat"])
    if layout == "wide_named":
        y, x = give(ctx, p, "wide")
        kw = dict(kw, name_y=["HR%d" % t for t in range(T)],
                  name_x=["%s%d" % (v, t) for v in ["inc", "unemp", "age"][:p.k] for t in range(T)])
    else:
        y, x = give(ctx, p, layout)
    b = ctx.run(cls + "." + layout, C, y, x, p.w, **kw)
    fa, fb = models.flat(a), models.flat(b)
    named = layout in ("wide_frame", "long_frame", "wide_named")
    if named:
        base = ["inc", "unemp", "age"][:p.k]
        got = [t for t in b.name_x if t in base]
        ctx.ok("names", got == base, "%s" % b.name_x)
        ctx.ok("name_y", b.name_y == "HR", str(b.name_y))
    tol = 1e-6 if cls[:2] in ("GM", "ML") else 1e-9       # iterative searches amplify the order of summation
    for key in sorted(set(fa) | set(fb)):
        if "name" in key or "var_names" in key:
            continue
        ctx.ok("same." + what.split("_")[0], key in fa and key in fb, "%s only in one layout" % key)
        va, vb = fa[key], fb[key]
        if isinstance(va, str) or isinstance(vb, str):
            continue
        va, vb = np.asarray(va, float), np.asarray(vb, float)
        ctx.ok("same." + what.split("_")[0], va.shape == vb.shape, "%s %s: shapes %s %s" % (cls, key, va.shape, vb.shape))
        if va.shape == vb.shape:
            fin = np.isfinite(va)
            ctx.close("same." + what.split("_")[0], np.where(fin, vb, 0), np.where(fin, va, 0), rtol=tol, atol=tol / 10)


SUBS = {"pooled": (case_pooled, 60, 800), "fe": (case_fe, 80, 1000), "fe_fit": (case_fe_fit, 6, 60), "re": (case_re, 80, 1000),
        "gmpooled": (case_gmpooled, 40, 500), "kkp": (case_kkp, 60, 700), "kkp_regimes": (case_kkp_regimes, 25, 250),
        "layout": (case_layout, 80, 1000)}
