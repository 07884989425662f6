"""C17 spatial diagnostics against their published expressions."""
import numpy as np
from scipy import stats
from .. import gen, ref
from ..core import Skip
from . import c08, c09

RULE = ("OLS, two-stage and lag fits (single, pooled regimes, one per regime; with and without lagged regressors) on random maps "
        "that are symmetric or directed, standardised or not, with islands of weak and strong dependence: every reported "
        "Lagrange-multiplier test, robust form, Moran's I, Anselin-Kelejian and common-factor test is recomputed with dense "
        "projections from y, X and W, with its p-value, and the additive identities between the tests are checked.")
CASE_LIMIT = 60
C = np.column_stack
PAIRS = [("lme", "lm_error", 1), ("lml", "lm_lag", 1), ("rlme", "rlm_error", 1), ("rlml", "rlm_lag", 1), ("sarma", "lm_sarma", 2)]
KB = [("lmwx", "lm_wx", "k"), ("rlmwx", "rlm_wx", "k"), ("lmspdurbin", "lm_spdurbin", "k+1"), ("rlmdurlag", "rlm_durlag", 1),
      ("lmslxerr", "lm_slxerr", "k+1")]


def want(y, X, W, kx=None):
    """all tests with their degrees of freedom"""
    r = ref.lm_all(y, X, W)
    r["lm_slxerr"] = r["lm_error"] + r["lm_wx"]
    k = r["kwx"]
    df = {"k": k, "k+1": k + 1}
    return {a: (r[a], df.get(f, f)) for _, a, f in PAIRS + KB}


def one(ctx, key, got, stat, df, tol=1e-5):
    ctx.close(key, got[0], stat, rtol=tol, atol=1e-8)
    ctx.pclose(key + "_p", got[1], stats.chi2.sf(max(stat, 0), df))


def no_kb(y, X, W):
    r = {}
    n, k = X.shape
    u = y - X @ np.linalg.lstsq(X, y, rcond=None)[0]
    Q, _ = np.linalg.qr(X)
    s2 = float((u ** 2).sum()) / n
    T = float(np.trace((W + W.T) @ W))
    m = W @ (y - u)
    m = m - Q @ (Q.T @ m)
    J = float((m ** 2).sum()) / s2 + T
    de, dl = float((u.T @ W @ u).item()) / s2, float((u.T @ W @ y).item()) / s2
    if J - T < 1e-6 * J:
        raise Skip("lag score degenerate")
    return {"lm_error": (de ** 2 / T, 1), "lm_lag": (dl ** 2 / J, 1), "rlm_error": ((de - T / J * dl) ** 2 / (T * (1 - T / J)), 1),
            "rlm_lag": ((dl - de) ** 2 / (J - T), 1), "lm_sarma": ((dl - de) ** 2 / (J - T) + de ** 2 / T, 2)}


def weak_wx(X, W):
    Q, _ = np.linalg.qr(X)
    wx = W @ X[:, 1:]
    m = wx - Q @ (Q.T @ wx)
    nrm = np.linalg.norm(wx, axis=0)
    if nrm.min() == 0:
        return True
    return np.linalg.svd(m / nrm, compute_uv=False)[-1] < 1e-3


def identities(ctx, pre, reg, kb):
    g = lambda a: getattr(reg, a)[0]
    ctx.close(pre + "sarma=rlag+err", g("lm_sarma"), g("rlm_lag") + g("lm_error"), rtol=1e-7, atol=1e-9)
    ctx.close(pre + "sarma=rerr+lag", g("lm_sarma"), g("rlm_error") + g("lm_lag"), rtol=1e-5, atol=1e-7)
    if kb:
        ctx.close(pre + "sdm=rlag+wx", g("lm_spdurbin"), g("rlm_durlag") + g("lm_wx"), rtol=1e-7, atol=1e-9)
        ctx.close(pre + "sdm=lag+rwx", g("lm_spdurbin"), g("lm_lag") + g("rlm_wx"), rtol=1e-7, atol=1e-9)
        ctx.ok(pre + "nested", g("lm_spdurbin") >= max(g("lm_lag"), g("lm_wx")) - 1e-6 * abs(g("lm_spdurbin")), "joint below marginal")


def data(ctx, **kw):
    n = int(ctx.rng.integers(24, 90))
    return gen.dataset(ctx.rng, n=n, k=kw.pop("k", ctx.pick("k", [1, 2, 3, 5])), kind=ctx.pick("W", gen.ALL_KINDS),
                       transform=ctx.pick("transform", ["r", "o", "b"]), ids=ctx.pick("ids", ["int", "str", "perm"]),
                       style=ctx.pick("style", ["mixed", "normal", "lognormal"]), **kw)


def spatial_error(ctx, d):
    """residual dependence of either sign"""
    v = float(np.max(np.abs(np.linalg.eigvals(d.W))))
    lam = ctx.pick("dep", [0., 0., .4, .8, -.5, -.9]) / v
    return ctx.pick("where", ["error", "lag"]), lam


def respond(ctx, d):
    where, lam = spatial_error(ctx, d)
    I = np.eye(d.n)
    z = ctx.rng.normal(size=(d.n, 1)) * 10 ** ctx.rng.uniform(-1, 1)
    xb = d.X @ np.vstack([[2.], ctx.rng.normal(0, 1, (d.k, 1)) / np.maximum(d.x.std(0), 1e-3).reshape(-1, 1)])
    A = np.linalg.inv(I - lam * d.W)
    d.y = A @ (xb + z) if where == "lag" else xb + A @ z
    ctx.sig = [d.n, round(float(d.y.sum()), 6)]


def ols(ctx):
    import spreg
    d = data(ctx)
    respond(ctx, d)
    slx = ctx.pick("slx_lags", [0, 0, 0, 1, 2])
    robust = ctx.pick("robust", [None, None, "white"])
    X = d.X
    if slx:
        X = C([d.X, ref.lags(d.W, d.x, slx)])
    if np.linalg.matrix_rank(X / np.linalg.norm(X, axis=0), tol=1e-6) < X.shape[1] or d.n < X.shape[1] + 8:
        raise Skip("singular design")
    kb = not slx
    if kb and weak_wx(X, d.W):
        raise Skip("lagged regressors in the span of the regressors")
    reg = ctx.run("OLS", spreg.OLS, d.y, d.x, w=d.w, spat_diag=True, moran=True, slx_lags=slx, robust=robust)
    exp = no_kb(d.y, X, d.W)
    if kb:
        exp = want(d.y, X, d.W)
    for _, a, df in PAIRS + (KB if kb else []):
        if ctx.ok(a + ".reported", hasattr(reg, a), ""):
            one(ctx, a, getattr(reg, a), *exp[a])
    if not kb:
        ctx.ok("no_wx_tests_with_slx", not hasattr(reg, "lm_wx"), "")
    identities(ctx, "", reg, kb)
    moran(ctx, "moran", reg.moran_res, d.W, reg.u, X)
    m = ctx.run("MoranRes", spreg.MoranRes, reg, d.w, z=True)
    ctx.close("MoranRes.I", m.I, reg.moran_res[0], rtol=1e-9)
    ctx.close("MoranRes.z", [m.zI, m.p_norm], reg.moran_res[1:], rtol=1e-7)
    # direct calls, any subset in any order, also with weights other than those of the regression
    plain = ctx.run("OLS_plain", spreg.OLS, d.y, d.x if not slx else X[:, 1:])
    ws = d.ws
    if ctx.pick("w2", ["same", "other"]) == "other":
        A, xy = gen.base_matrix(ctx.rng, d.n, ctx.pick("W2", ["knn", "dist", "directed", "ring"]))
        if len(A) == d.n:
            ws = gen.make_w(A, d.ws.ids, ctx.pick("tr2", ["r", "o", "b"]), xy, "other")
    W = ws.full
    e2 = no_kb(d.y, X, W)
    names = [t for t in PAIRS]
    if not weak_wx(X, W):
        e2 = want(d.y, X, W)
        names = PAIRS + KB
    pick = [names[i] for i in ctx.rng.permutation(len(names))[:int(ctx.rng.integers(1, len(names) + 1))]]
    l = ctx.run("LMtests", spreg.LMtests, plain, ws.w, tests=[p[0] for p in pick])
    for t, a, _ in pick:
        if ctx.ok("LMtests.%s.reported" % t, hasattr(l, t), "asked for %s" % [p[0] for p in pick]):
            one(ctx, "LMtests." + t, getattr(l, t), *e2[a])
    if names != PAIRS:
        l = ctx.run("LMtests_all", spreg.LMtests, plain, ws.w)
        for t, a, _ in names:
            one(ctx, "LMtests_all." + t, getattr(l, t), *e2[a])
    m = ctx.run("MoranRes", spreg.MoranRes, plain, ws.w, z=True)
    moran(ctx, "MoranRes2", (m.I, m.zI, m.p_norm), W, plain.u, X)


def moran(ctx, key, got, W, u, X):
    I, z, p = ref.moran(W, u, X)
    ctx.close(key + ".I", got[0], I, rtol=1e-6, atol=1e-9)
    ctx.close(key + ".z", got[1], z, rtol=1e-5, atol=1e-6)
    ctx.pclose(key + ".p", got[2], p)


def ols_regimes(ctx):
    import spreg
    d, g = c08.setup(ctx)
    sep = ctx.pick("sep", [True, False])
    robust = ctx.pick("robust", [None, "white"])
    slx = ctx.pick("slx_lags", [0, 0, 1])
    if sep:
        kw, fl = {}, [True] * (d.k + 1)
    else:
        kw, fl = c08.pick_flags(ctx, d.k * (1 + slx))
    Z = d.X
    if slx:
        Z = C([d.X, ref.lags(d.W, d.x, 1)])
        fl = fl if not sep else fl + fl[1:]
    X = ref.interact(Z, fl, g.codes, g.R)
    if np.linalg.cond(X / np.linalg.norm(X, axis=0)) > 1e5:
        raise Skip("ill conditioned")
    reg = ctx.run("OLS_Regimes", spreg.OLS_Regimes, d.y, d.x, g.arg, w=d.w, spat_diag=True, moran=True, regime_err_sep=sep,
                  robust=robust, slx_lags=slx, **kw)
    if not any(fl):
        raise Skip("nothing varies")
    # group-wise weights change the estimates, not the sample on which the diagnostics are defined
    exp = no_kb(d.y, X, d.W)
    for _, a, df in PAIRS:
        if ctx.ok(a + ".reported", hasattr(reg, a), ""):
            one(ctx, a, getattr(reg, a), *exp[a])
    identities(ctx, "", reg, False)
    if hasattr(reg, "lm_wx"):
        kx = sum((g.R if f else 1) for f in fl[1:])
        ctx.pclose("lm_wx_p", reg.lm_wx[1], stats.chi2.sf(reg.lm_wx[0], kx))
        ctx.pclose("rlm_wx_p", reg.rlm_wx[1], stats.chi2.sf(max(reg.rlm_wx[0], 0), kx))
        ctx.pclose("lm_spdurbin_p", reg.lm_spdurbin[1], stats.chi2.sf(reg.lm_spdurbin[0], kx + 1))
    moran(ctx, "moran", reg.moran_res, d.W, reg.u, X)


def ak(W, u, Z, H):
    n = len(u)
    Q, _ = np.linalg.qr(H)
    _, t = np.linalg.qr(Q.T @ Z)
    s0 = W.sum()
    s2 = float((u ** 2).sum()) / n
    I = n / s0 * float((u.T @ W @ u).item()) / float((u ** 2).sum())
    v = np.linalg.solve(t.T, (u.T @ W @ Z).T)
    phi2 = (np.trace((W + W.T) @ W) + 4 / s2 * float((v ** 2).sum())) / (n * (s0 / n) ** 2)
    return I, n * I ** 2 / phi2


def ak_check(ctx, key, got, W, u, Z, H):
    I, s = ak(W, np.asarray(u), Z, H)
    ctx.close(key, got[0], s, rtol=1e-5, atol=1e-8)
    ctx.pclose(key + "_p", got[1], stats.chi2.sf(s, 1))
    return I


def tsls(ctx):
    import spreg
    nend = ctx.pick("nend", [1, 2, 3])
    d = data(ctx, nend=nend, niv=nend + ctx.pick("over", [0, 1, 2]))
    slx = ctx.pick("slx_lags", [0, 0, 1])
    robust = ctx.pick("robust", [None, "white", "ogmm"])
    X = d.X if not slx else C([d.X, ref.lags(d.W, d.x, 1)])
    Z, H = C([X, d.yend]), C([X, d.q])
    if np.linalg.cond(H / np.linalg.norm(H, axis=0)) > 1e5 or d.n < H.shape[1] + 8:
        raise Skip("ill conditioned")
    ctx.sig = [d.n, ctx.idx]
    t = ref.tsls(d.y, Z, H)
    if np.linalg.cond(t.varb / np.sqrt(np.outer(np.diag(t.varb), np.diag(t.varb)))) > 1e6:
        raise Skip("weak instruments")
    reg = ctx.run("TSLS", spreg.TSLS, d.y, d.x, d.yend, d.q, w=d.w, spat_diag=True, slx_lags=slx, robust=robust)
    ak_check(ctx, "ak_test", reg.ak_test, d.W, reg.u, Z, H)
    a = ctx.run("AKtest", spreg.AKtest, reg, d.w, case="gen")
    I = ak_check(ctx, "AKtest", (a.ak, a.p), d.W, reg.u, Z, H)
    ctx.close("AKtest.mi", a.mi, I, rtol=1e-6, atol=1e-9)
    a = ctx.run("AKtest_nosp", spreg.AKtest, reg, d.w, case="nosp")
    u, s2 = reg.u, float((reg.u ** 2).sum()) / d.n
    lm = (float((u.T @ d.W @ u).item()) / s2) ** 2 / np.trace((d.W + d.W.T) @ d.W)
    one(ctx, "AKtest_nosp", (a.ak, a.p), lm, 1)
    ctx.close("AKtest_nosp.mi", a.mi, I, rtol=1e-6, atol=1e-9)


def tsls_regimes(ctx):
    import spreg
    nend = ctx.pick("nend", [1, 2, 3])
    d, g = c08.setup(ctx, nend=nend, over=ctx.pick("over", [0, 1, 2]))
    sep = ctx.pick("sep", [True, False])
    robust = ctx.pick("robust", [None, "white", "ogmm"])
    kw, fl = ({}, [True] * (d.k + 1 + nend)) if sep else c08.pick_flags(ctx, d.k, nend)
    if not any(fl[d.k + 1:]) and not any(fl):
        raise Skip("nothing varies")
    Z = C([ref.interact(d.X, fl[:d.k + 1], g.codes, g.R), ref.interact(d.yend, fl[d.k + 1:], g.codes, g.R)])
    H = C([ref.interact(d.X, fl[:d.k + 1], g.codes, g.R), ref.interact(d.q, [True] * d.q.shape[1], g.codes, g.R)])
    t = ref.tsls(d.y, Z, H)
    if np.linalg.cond(t.varb / np.sqrt(np.outer(np.diag(t.varb), np.diag(t.varb)))) > 1e6:
        raise Skip("weak instruments")
    reg = ctx.run("TSLS_Regimes", spreg.TSLS_Regimes, d.y, d.x, d.yend, d.q, g.arg, w=d.w, spat_diag=True, regime_err_sep=sep,
                  robust=robust, **kw)
    ak_check(ctx, "ak_test", reg.ak_test, d.W, reg.u, Z, H)


def comfac(ctx, key, got, b, gam, rho, V):
    """V over (beta, gamma, rho)"""
    g = rho * b + gam
    D = np.hstack([rho * np.eye(len(b)), np.eye(len(b)), b.reshape(-1, 1)])
    S = D @ V @ D.T
    if np.linalg.cond(S / np.sqrt(np.outer(np.diag(S), np.diag(S)))) > 1e7:
        return
    s = float(g @ np.linalg.solve(S, g))
    ctx.close(key, got[0], s, rtol=1e-5, atol=1e-8)
    ctx.pclose(key + "_p", got[1], stats.chi2.sf(s, len(b)))


def lag_data(ctx, **kw):
    rng = ctx.rng
    d = gen.dataset(rng, n=int(rng.integers(45, 100)), k=ctx.pick("k", [1, 2, 3, 5]), kind=ctx.pick("W", gen.ALL_KINDS),
                    transform="r", ids=ctx.pick("ids", ["int", "str", "perm"]), style="normal",
                    rho=ctx.pick("rho", [.4, -.3, .7, 0.]), **kw)
    ctx.sig = [d.n, round(float(d.y.sum()), 6)]
    return d


def lag(ctx):
    import spreg
    cls = ctx.pick("cls", ["GM_Lag", "ML_Lag"])
    nend = 0 if cls == "ML_Lag" else ctx.pick("nend", [0, 0, 1])
    slx = ctx.pick("slx_lags", [1, 0, 1, 2])
    sel = ctx.pick("slx_vars", ["all", "all", "list"]) if slx else "all"
    d = lag_data(ctx, nend=nend, niv=nend + 1 if nend else 0)
    kw = dict(slx_lags=slx) if slx else {}
    if sel == "list":
        fl = [bool(v) for v in ctx.rng.integers(0, 2, d.k)]
        fl[0] = True
        kw["slx_vars"] = fl
    if nend:
        kw.update(yend=d.yend, q=d.q)
    if cls == "GM_Lag":
        kw["robust"] = ctx.pick("robust", [None, "white"])
    if cls == "GM_Lag":
        try:
            with ctx.quiet():
                getattr(spreg, cls)(d.y, d.x, w=d.w, **kw)
        except Exception as e:
            if "power expansion" in str(e):
                raise Skip("estimated coefficient outside the convergent range")
    reg = ctx.run(cls, getattr(spreg, cls), d.y, d.x, w=d.w, spat_diag=True, **kw)
    k = d.k
    if cls == "GM_Lag":
        Z, H = np.asarray(reg.z), np.asarray(reg.h)
        if np.linalg.cond(H / np.linalg.norm(H, axis=0)) > 1e5:
            raise Skip("ill conditioned")
        t = ref.tsls(d.y, Z, H)
        if np.linalg.cond(t.varb / np.sqrt(np.outer(np.diag(t.varb), np.diag(t.varb)))) > 1e6:
            raise Skip("weak instruments")
        ak_check(ctx, "ak_test", reg.ak_test, d.W, reg.u, Z, H)
    defined = slx == 1 and not nend and sel == "all"
    b = np.ravel(reg.betas)
    if ctx.ok("cfh_reported_when_defined", hasattr(reg, "cfh_test") == defined, "slx_lags=%s, slx_vars=%s, %d endogenous" % (slx, sel, nend)) and defined:
        ix = list(range(1, 2 * k + 2))
        comfac(ctx, "cfh_test", reg.cfh_test, b[1:k + 1], b[k + 1:2 * k + 1], b[2 * k + 1], np.asarray(reg.vm)[np.ix_(ix, ix)])


def lag_regimes(ctx):
    import spreg
    cls = ctx.pick("cls", ["GM_Lag_Regimes", "ML_Lag_Regimes"])
    sep = ctx.pick("sep", [True, False])
    nend = 0 if cls.startswith("ML") else ctx.pick("nend", [0, 0, 0, 1])
    d, g = c09.data(ctx, nend=nend, over=1 if nend else 0, rho=ctx.pick("rho", [.4, -.3, .6]), transform="r")
    slx = ctx.pick("slx_lags", [1, 1, 0])
    if sep and min((c09.weights_r(d, g.ids(c)).full.sum(1) > 0).mean() for c in range(g.R)) < .5:
        raise Skip("too few links inside a regime")
    kw = dict(slx_lags=slx) if slx else {}
    k = d.k
    fx = [True] * k
    if not sep and not slx and ctx.pick("cols", ["all", "list"]) == "list":
        fx = [bool(v) for v in ctx.rng.integers(0, 2, k)]
        fx[0] = True
        kw["cols2regi"] = fx + [True] * nend
    if nend:
        kw.update(yend=d.yend, q=d.q)
    if sep:
        kw["regime_lag_sep"] = True
        if cls.startswith("GM"):
            kw["regime_err_sep"] = True
    elif cls.startswith("GM"):
        kw["regime_err_sep"] = False
        kw["robust"] = ctx.pick("robust", [None, "white"])
    reg = ctx.run(cls, getattr(spreg, cls), d.y, d.x, regimes=g.arg, w=d.w, spat_diag=True, **kw)
    if sep:
        for c, key in enumerate(g.keys):
            o = [v for q, v in reg.multi.items() if str(q) == str(key)][0]
            Wr = c09.weights_r(d, g.ids(c)).full
            if cls.startswith("GM"):
                Z, H = np.asarray(o.z), np.asarray(o.h)
                if well(d.y[g.ids(c)], Z, H):
                    ak_check(ctx, "regime.ak_test", o.ak_test, Wr, o.u, Z, H)
            if slx and not nend and ctx.ok("regime.cfh_reported", hasattr(o, "cfh_test"), ""):
                b = np.ravel(o.betas)
                ix = list(range(1, 2 * k + 2))
                comfac(ctx, "regime.cfh_test", o.cfh_test, b[1:k + 1], b[k + 1:2 * k + 1], b[2 * k + 1], np.asarray(o.vm)[np.ix_(ix, ix)])
        return
    dense = lambda a: np.asarray(a.todense()) if hasattr(a, "todense") else np.asarray(a)
    if cls.startswith("GM"):
        Z, H = dense(reg.z), dense(reg.h)
        if well(d.y, Z, H):
            ak_check(ctx, "ak_test", reg.ak_test, d.W, reg.u, Z, H)
    if slx and not nend and ctx.ok("cfh_reported", hasattr(reg, "cfh_test"), ""):
        names = list(reg.name_z) if cls.startswith("GM") else list(reg.name_x)
        b = np.ravel(reg.betas)
        ix = [names.index("%s_var_%d" % (nm, j + 1)) for nm in g.names for j in range(k)]
        iw = [names.index("%s_W_var_%d" % (nm, j + 1)) for nm in g.names for j in range(k)]
        al = ix + iw + [names.index("_Global_W_dep_var")]
        comfac(ctx, "cfh_test", reg.cfh_test, b[ix], b[iw], b[al[-1]], np.asarray(reg.vm)[np.ix_(al, al)])
    if nend or not slx:
        ctx.ok("cfh_not_defined", not hasattr(reg, "cfh_test"), "")


def well(y, Z, H):
    if np.linalg.cond(H / np.linalg.norm(H, axis=0)) > 1e5:
        return False
    t = ref.tsls(y, Z, H)
    return np.linalg.cond(t.varb / np.sqrt(np.outer(np.diag(t.varb), np.diag(t.varb)))) < 1e6


SUBS = {"ols": (ols, 360, 4500), "ols_regimes": (ols_regimes, 180, 1800), "tsls": (tsls, 180, 1800),
        "tsls_regimes": (tsls_regimes, 150, 1500), "lag": (lag, 240, 2400), "lag_regimes": (lag_regimes, 180, 1500)}
