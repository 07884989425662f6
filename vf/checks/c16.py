"""C16 non-spatial diagnostics against their textbook definitions."""
import numpy as np
from scipy import stats
from .. import models, gen
from ..core import Skip
from . import c08, c13

RULE = ("Fits on hostile designs (indicator variables coded 0/1, -1/1, -.5/.5 and 1/2, sets of dummies, polynomials, variables "
        "proportional to a sign pattern, strong collinearity, heavy-tailed and heteroskedastic errors, tiny samples) and the whole "
        "registry of estimators: F, t, R2, likelihood and information criteria, condition number, Jarque-Bera, Breusch-Pagan, "
        "Koenker-Bassett, White, variance inflation, pseudo-R2, Durbin-Wu-Hausman and likelihood-ratio results are recomputed "
        "from the data and the reported residuals with orthogonal projections, with p-values of the stated distributions.")
CASE_LIMIT = 60
C = np.column_stack


def ss(v):
    return float((np.asarray(v) ** 2).sum())


def basis(Z):
    """orthonormal basis of the columns of Z and their rank"""
    Z = Z / np.where(np.linalg.norm(Z, axis=0) == 0, 1, np.linalg.norm(Z, axis=0))
    U, s, _ = np.linalg.svd(Z, full_matrices=False)
    r = int((s > 1e-9 * s[0]).sum())
    gap = s[r - 1] / s[0]
    if gap < 1e-6:
        raise Skip("rank of the auxiliary regressors is a matter of rounding")
    return U[:, :r], r


def ols_diag(ctx, reg, X, y, pre, white=True, vif=True, robust=False, names=None):
    n, k = X.shape
    b, *_ = np.linalg.lstsq(X, y, rcond=None)
    e = y - X @ b
    e = np.ravel(e)
    sse = float(e @ e)
    s2 = sse / n
    tss = float(((y - y.mean()) ** 2).sum())
    R2 = 1 - sse / tss
    t = lambda k_, g, w, tol=1e-6, **q: ctx.close(pre + k_, g, w, rtol=tol, **q)
    t("r2", reg.r2, R2, atol=1e-9)
    t("ar2", reg.ar2, 1 - (1 - R2) * (n - 1) / (n - k), atol=1e-9)
    F = ((tss - sse) / (k - 1)) / (sse / (n - k))
    t("f", reg.f_stat[0], F)
    ctx.pclose(pre + "f_p", reg.f_stat[1], stats.f.sf(F, k - 1, n - k))
    ll = -n / 2 * (np.log(2 * np.pi) + np.log(s2) + 1)
    t("logll", reg.logll, ll)
    t("aic", reg.aic, 2 * k - 2 * ll)
    t("schwarz", reg.schwarz, k * np.log(n) - 2 * ll)
    t("sig2ML", reg.sig2ML, s2)
    if not robust:
        V = np.linalg.inv(X.T @ X) * sse / (n - k)
        tt = b.ravel() / np.sqrt(np.diag(V))
        order = np.argsort if pre == "pooled." else lambda v: np.arange(len(v))       # order of rows: C08
        g = np.array(reg.t_stat)
        t("t", g[order(g[:, 0]), 0], tt[order(tt)], 1e-5)
        ctx.pclose(pre + "t_p", g[order(g[:, 0]), 1], 2 * stats.t.sf(np.abs(tt[order(tt)]), n - k))
    S = X / np.linalg.norm(X, axis=0)
    sv = np.linalg.svd(S, compute_uv=False)
    ci = sv[0] / sv[-1]
    t("condition", reg.mulColli, ci, 1e-5)
    m = [np.mean(e ** j) for j in (2, 3, 4)]
    jb = n * ((m[1] / m[0] ** 1.5) ** 2 / 6 + (m[2] / m[0] ** 2 - 3) ** 2 / 24)
    t("jb", reg.jarque_bera["jb"], jb)
    ctx.ok(pre + "jb_df", reg.jarque_bera["df"] == 2, "")
    ctx.pclose(pre + "jb_p", reg.jarque_bera["pvalue"], stats.chi2.sf(jb, 2))
    bp_kb(ctx, pre, reg.breusch_pagan, reg.koenker_bassett, e, C([np.ones(n), X ** 2]))
    if white and not robust:
        if ci > 30 * (1 + 1e-6):
            ctx.ok(pre + "white_collinear", isinstance(reg.white, str) and "multicollinearity" in reg.white, str(reg.white))
        elif ci < 30 * (1 - 1e-6):
            W = C([np.ones(n), X] + [X[:, i] * X[:, j] for i in range(k) for j in range(i, k)])
            U, r = basis(W)
            if r >= n:
                return
            v = e ** 2
            pv = U @ (U.T @ v)
            wh = n * (1 - float(((v - pv) ** 2).sum()) / float(((v - v.mean()) ** 2).sum()))
            if r < n - 1:
                t("white", reg.white["wh"], wh, 1e-5)
                ctx.ok(pre + "white_df", reg.white["df"] == r - 1, "%s, rank %d" % (reg.white["df"], r))
                ctx.pclose(pre + "white_p", reg.white["pvalue"], stats.chi2.sf(wh, r - 1))


def bp_kb(ctx, pre, bp, kb, e, Z, tol=1e-5):
    e = np.ravel(e)
    U, r = basis(Z)
    g = e ** 2 / np.mean(e ** 2) - 1
    want = .5 * float(((U.T @ g) ** 2).sum())
    if bp is not None:
        ctx.close(pre + "bp", bp["bp"], want, rtol=tol, atol=1e-9)
        ctx.ok(pre + "bp_df", bp["df"] == r - 1, "%s, rank %d" % (bp["df"], r))
        ctx.pclose(pre + "bp_p", bp["pvalue"], stats.chi2.sf(want, r - 1))
    if kb is not None:
        h = e ** 2 - np.mean(e ** 2)
        want = float(((U.T @ h) ** 2).sum()) / np.mean(h ** 2)
        ctx.close(pre + "kb", kb["kb"], want, rtol=tol, atol=1e-9)
        ctx.ok(pre + "kb_df", kb["df"] == r - 1, "%s, rank %d" % (kb["df"], r))
        ctx.pclose(pre + "kb_p", kb["pvalue"], stats.chi2.sf(want, r - 1))


def design(ctx, n, name="design"):
    rng = ctx.rng
    how = ctx.pick(name, ["normal", "indicator", "effect1", "effect.5", "one_two", "dummies", "poly", "signed", "collinear", "scaled",
                          "counts", "mixed"])
    z = rng.normal(size=n)
    D = (np.arange(n) % 3 == 0).astype(float)
    rng.shuffle(D)
    if how == "normal":
        x = rng.normal(size=(n, int(rng.integers(1, 4)))) + 1
    elif how == "indicator":
        x = C([z, D])
    elif how == "effect1":
        x = C([z, 2 * D - 1])
    elif how == "effect.5":
        x = C([z, D - .5])
    elif how == "one_two":
        x = C([z, D + 1])
    elif how == "dummies":
        g = rng.permutation(np.arange(n) % 4)
        x = C([z] + [(g == v).astype(float) for v in range(1, 4)])
    elif how == "poly":
        z = np.round(z, 1)
        x = C([z, z ** 2]) if rng.uniform() < .5 else C([z, z ** 2, z ** 3])
    elif how == "signed":
        z = np.abs(z) + .1
        x = C([z, z * np.where(rng.uniform(size=n) < .5, -1, 1)])
    elif how == "collinear":
        x = C([z, z + 10 ** rng.uniform(-2, -.5) * rng.normal(size=n)])
    elif how == "scaled":
        x = rng.normal(size=(n, 2)) * np.array([1e3, 1e-3]) + np.array([5e3, 0])
    elif how == "counts":
        x = C([rng.poisson(2, n), rng.integers(0, 3, n)]).astype(float)
    else:
        x = C([z, D, D * z])
    return x.astype(float)


def outcome(ctx, x):
    rng = ctx.rng
    n = len(x)
    err = ctx.pick("errors", ["normal", "heavy", "hetero", "skewed", "tiny", "group"])
    e = rng.normal(size=n)
    xs = (x - x.mean(0)) / x.std(0)
    if err == "heavy":
        e = rng.standard_t(2, n)
    elif err == "hetero":
        e = e * np.exp(.6 * xs[:, 0])
    elif err == "skewed":
        e = rng.exponential(1, n) - 1
    elif err == "tiny":
        e = e * (1e-3 if ctx.cfg["design"] != "scaled" else .1)     # digits lost to large means
    elif err == "group":
        e = e * np.where(x[:, -1] > np.median(x[:, -1]), 3, .3)
    return (2 + xs @ rng.normal(0, 1, x.shape[1]) + e).reshape(-1, 1)


def ols(ctx):
    import spreg
    n = int(ctx.rng.integers(14, 120)) if ctx.pick("n", ["small", "any"]) == "any" else int(ctx.rng.integers(12, 30))
    x = design(ctx, n)
    y = outcome(ctx, x)
    X = C([np.ones(n), x])
    if n <= X.shape[1] + 4 or np.linalg.matrix_rank(X / np.linalg.norm(X, axis=0), tol=1e-8) < X.shape[1]:
        raise Skip("singular design")
    ctx.sig = [n, ctx.idx]
    robust = ctx.pick("robust", [None, None, "white"])
    reg = ctx.run("OLS", spreg.OLS, y, x, white_test=True, vif=True, robust=robust)
    ols_diag(ctx, reg, X, y, "", robust=bool(robust))
    # variance inflation
    v = ctx.run("vif", spreg.vif, reg)
    k = X.shape[1]
    for j in range(1, k):
        o = np.delete(X, j, 1)
        r = X[:, j] - o @ np.linalg.lstsq(o, X[:, j], rcond=None)[0]
        tol = float(r @ r) / float(((X[:, j] - X[:, j].mean()) ** 2).sum())
        ctx.close("tolerance", v[j][1] / tol, 1., rtol=1e-5)
        ctx.close("vif", v[j][0] * tol, 1., rtol=1e-5)
    # alternative variables of the heteroskedasticity tests, F test on the last coefficients
    Z = C([np.ones(n), ctx.rng.normal(size=(n, 2)), X[:, 1]])
    bp_kb(ctx, "given_z.", ctx.run("breusch_pagan_z", spreg.breusch_pagan, reg, Z), ctx.run("koenker_bassett_z", spreg.koenker_bassett, reg, Z),
          np.asarray(reg.u), Z)
    if k > 2:
        df = int(ctx.rng.integers(1, k - 1))
        F = ctx.run("f_df", spreg.f_stat, reg, df=df)
        o = X[:, :-df]
        e0 = y - o @ np.linalg.lstsq(o, y, rcond=None)[0]
        sse = ss(reg.u)
        want = ((ss(e0) - sse) / df) / (sse / (n - k))
        ctx.close("f_df", F[0], want, rtol=1e-5, atol=1e-7)
        ctx.pclose("f_df_p", F[1], stats.f.sf(want, df, n - k))


def ols_regimes(ctx):
    import spreg
    rng = ctx.rng
    R = ctx.pick("R", [2, 3])
    n = int(rng.integers(25, 50)) * R
    x = design(ctx, n)
    y = outcome(ctx, x)
    g = gen.regimes(rng, n, R, ctx.pick("labels", ["str", "int", "digit"]), minsize=20)
    sep = ctx.pick("sep", [True, False])
    kw = {}
    k = x.shape[1]
    fl = [True] * k
    if not sep and ctx.pick("cols", ["all", "list"]) == "list":
        fl = [bool(v) for v in rng.integers(0, 2, k)]
        if not any(fl):
            fl[0] = True
        kw["cols2regi"] = fl
    const = "many"
    if not sep and ctx.pick("constant", ["many", "one"]) == "one":
        const = "one"
    from .. import ref
    Z = C([np.ones(n), x])
    for c in range(R):
        Zc = Z[g.codes == c]
        if np.linalg.matrix_rank(Zc / np.linalg.norm(Zc, axis=0), tol=1e-8) < Z.shape[1] or len(Zc) < Z.shape[1] + 5:
            raise Skip("singular design in a regime")
        if any(np.ptp(Zc[:, j]) == 0 for j in range(1, k + 1)):
            raise Skip("constant in a regime")
    ctx.sig = [n, ctx.idx]
    reg = ctx.run("OLS_Regimes", spreg.OLS_Regimes, y, x, g.arg, regime_err_sep=sep, constant_regi=const, white_test=True, **kw)
    if sep:
        ctx.ok("regimes", len(reg.multi) == R, "")
        for c, key in enumerate(g.keys):
            s = g.codes == c
            o = [v for q, v in reg.multi.items() if str(q) == str(key)][0]
            ols_diag(ctx, o, Z[s], y[s], "regime.")
    else:
        cols = []
        for j in range(k + 1):
            vary = (const == "many") if j == 0 else fl[j - 1]
            cols += [Z[:, j] * (g.codes == c) for c in range(R)] if vary else [Z[:, j]]
        ols_diag(ctx, reg, C(cols), y, "pooled.")


def tsls(ctx):
    import spreg
    label = ctx.pick("label", ["TSLS", "TSLS_slx"])
    m = c13.instance(ctx, label)
    d = m.d
    many = ctx.pick("many", [0, 2, 3, 4])
    if many and label == "TSLS":
        nq = many + int(ctx.rng.integers(0, 3))
        q = ctx.rng.normal(size=(d.n, nq))
        ye = q @ ctx.rng.normal(size=(nq, many)) + ctx.rng.normal(size=(d.n, many)) + (d.y - d.y.mean()) * .2
        m.kw.update(yend=ye, q=q)
        m.kw.pop("name_yend", None), m.kw.pop("name_q", None)
    m.kw.pop("robust", None), m.kw.pop("gwk", None), m.kw.pop("name_gwk", None)
    ctx.sig = [d.n, ctx.idx]
    r = ctx.run("TSLS", m.call, spreg, nonspat_diag=True)
    Z, H = np.asarray(r.z), np.asarray(r.h)
    ye = np.asarray(r.yend)
    P = H @ np.linalg.lstsq(H, ye, rcond=None)[0]
    A = C([Z, P])
    if np.linalg.cond(A / np.linalg.norm(A, axis=0)) > 1e6:
        raise Skip("near singular augmented regression")
    e1 = d.y - A @ np.linalg.lstsq(A, d.y, rcond=None)[0]
    e0 = d.y - Z @ np.linalg.lstsq(Z, d.y, rcond=None)[0]
    p = ye.shape[1]
    dof = d.n - A.shape[1]
    F = (ss(e0) - ss(e1)) / p / (ss(e1) / dof)
    ctx.close("dwh", r.dwh[0], F, rtol=1e-4, atol=1e-6)
    ctx.pclose("dwh_p", r.dwh[1], stats.f.sf(F, p, dof))
    if "Durbin-Wu-Hausman" in r.summary:
        row = [v for v in r.summary.splitlines() if "Durbin-Wu-Hausman" in v][0].split()
        ctx.ok("dwh_summary", int(row[-3]) == p and abs(float(row[-2]) - F) < 6e-4 + 1e-4 * abs(F), str(row))


def ll(ctx, o, n, pre):
    """criteria against the reported likelihood; the number of parameters is that of the
    coefficients of the mean (rho counts, lambda does not, as documented)"""
    k = len(np.asarray(o.betas)) - hasattr(o, "lam")
    ctx.close(pre + "aic", o.aic, 2 * k - 2 * float(np.ravel(o.logll)[0]), rtol=1e-9)
    ctx.close(pre + "schwarz", o.schwarz, k * np.log(n) - 2 * float(np.ravel(o.logll)[0]), rtol=1e-9)


def whole(label):
    """statistics every summary carries: z or t, pseudo R2, criteria"""
    def case(ctx):
        import spreg
        m = c13.instance(ctx, label)
        ctx.sig = [m.d.n, label, ctx.idx]
        try:
            with ctx.quiet():
                r = m.call(spreg)
        except Exception as e:
            if "power expansion" in str(e) and m.cls.startswith("GM_Lag") and m.kw["w"].transform != "R":
                raise Skip("reduced form out of reach of the power expansion")
            raise
        objs = {("regime.", q): o for q, o in r.multi.items()} if getattr(r, "multi", None) else {"": r}
        for key, o in objs.items():
            pre = key if isinstance(key, str) else key[0]
            n = len(np.asarray(o.y))
            b, se = np.asarray(o.betas, float).ravel(), np.sqrt(np.diag(np.asarray(o.vm, float)))
            L = len(se)
            if hasattr(o, "t_stat"):
                st = np.array(o.t_stat)
                tail = 2 * stats.t.sf(np.abs(b[:L] / se), n - o.k)
            else:
                st = np.array(o.z_stat)
                tail = 2 * stats.norm.sf(np.abs(b[:L] / se))
            ok = np.isfinite(se) & (se > 0)
            ctx.close(pre + "std_err", np.asarray(o.std_err)[:L][ok] / se[ok], np.ones(ok.sum()), rtol=1e-9)
            ctx.close(pre + "stat", st[:L, 0][ok], (b[:L] / se)[ok], rtol=1e-9)
            ctx.pclose(pre + "stat_p", st[:L, 1][ok], tail[ok])
            if hasattr(o, "pr2"):
                ctx.close(pre + "pr2", o.pr2, np.corrcoef(np.ravel(o.y), np.ravel(o.predy))[0, 1] ** 2, rtol=1e-8, atol=1e-9)
            if hasattr(o, "pr2_e") and getattr(o, "predy_e", None) is not None:
                ctx.close(pre + "pr2_e", o.pr2_e, np.corrcoef(np.ravel(o.y), np.ravel(o.predy_e))[0, 1] ** 2, rtol=1e-8, atol=1e-9)
            if hasattr(o, "aic") and label.startswith("ML_") and "Panel" not in label and label not in models.PANEL:
                ll(ctx, o, n, pre)
    return case


def lr(ctx):
    import spreg
    rng = ctx.rng
    d = gen.dataset(rng, n=int(rng.integers(45, 80)), k=ctx.pick("k", [1, 2, 3, 5]), kind=ctx.pick("W", gen.ALL_KINDS), transform="r", rho=.3)
    ctx.sig = [d.n, ctx.idx]
    o = ctx.run("OLS", spreg.OLS, d.y, d.x)
    o2 = spreg.ML_Lag(d.y, d.x, w=d.w, method="full")
    o3 = spreg.ML_Lag(d.y, d.x, w=d.w, slx_lags=1, method="full")
    o4 = spreg.ML_Error(d.y, d.x, w=d.w, method="full")
    o5 = spreg.ML_Error(d.y, d.x, w=d.w, slx_lags=1, method="full")
    k = d.k
    for key, a, b, df in [("ols_lag", o, o2, 1), ("ols_error", o, o4, 1), ("ols_durbin", o, o3, k + 1), ("lag_durbin", o2, o3, k),
                          ("error_durbin", o4, o3, k), ("ols_slxerror", o, o5, k + 1), ("error_slxerror", o4, o5, k)]:
        t = ctx.run("likratiotest", spreg.likratiotest, a, b)
        v = abs(2 * (float(np.ravel(b.logll)[0]) - float(np.ravel(a.logll)[0])))
        ctx.close(key + ".likr", t["likr"], v, rtol=1e-7, atol=1e-9)
        ctx.ok(key + ".df", t["df"] == df, "%s, restrictions %d" % (t["df"], df))
        ctx.pclose(key + ".p", t["p-value"], stats.chi2.sf(v, df))


SUBS = {"ols": (ols, 150, 3000), "ols_regimes": (ols_regimes, 100, 2000), "tsls": (tsls, 40, 800), "lr": (lr, 12, 200)}
SUBS.update({"whole_" + label: (whole(label), 4, 60) for label in models.CROSS if label not in ("Probit", "NSLX")})
