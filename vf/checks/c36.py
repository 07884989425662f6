"""C36 calibration: on samples from its own model an estimator is centred on the truth and its standard errors are the spread."""
import numpy as np
from scipy import stats
from .. import gen, models
from ..core import Skip

RULE = ("Each estimator fitted to 100 (thorough: 200) samples drawn from the very model it estimates, with fixed regressors and map: the "
        "standardised errors (estimate - truth)/reported standard error must have mean near 0 and spread near 1 for every coefficient, and "
        "p-values of tests whose null hypothesis is true must be uniform, of false ones small.  The oracle is the truth of the simulation, no formula.")
CASE_LIMIT = 240
MIN_FRACTION = .5


def W_of(ctx, n, kinds=("rook", "queen", "knn", "gabriel")):
    return gen.weights(ctx.rng, n, ctx.pick("W", list(kinds)), "r", ctx.pick("ids", ["int", "str"]))


def solve(W, r):
    return np.linalg.inv(np.eye(len(W)) - r * W)


def reps(ctx):
    return 100 if ctx.tier == "quick" else 200


def judge(ctx, key, B, S, truth, bias=.3, lo=.62, hi=1.5, skip_z=()):
    """B, S: samples of estimates and standard errors, one row per sample"""
    B, S = np.array(B, float), np.array(S, float)
    truth = np.asarray(truth, float).ravel()
    R = len(B)
    if not ctx.ok(key + ".size", B.shape[1] == len(truth), "%d coefficients, %d true ones" % (B.shape[1], len(truth))):
        return
    wide = lambda v: (np.quantile(v, .9) - np.quantile(v, .1)) / 2.5631      # standard deviation of a normal, whatever the tails
    ratios, means = [], []
    for j in range(len(truth)):
        spread = wide(B[:, j])
        m = (np.median(B[:, j]) - truth[j]) / spread
        means.append(round(float(m), 2))
        ctx.ok(key + ".centred", abs(m) <= 5.6 / np.sqrt(R) + bias, "coefficient %d: typical error %.3f standard deviations (truth %.3f, median %.3f)"
               % (j, m, truth[j], np.median(B[:, j])))
        if j in skip_z or S.shape[1] <= j or not np.all(np.isfinite(S[:, j])):
            continue
        ratio = wide((B[:, j] - truth[j]) / S[:, j])
        ratios.append(round(float(ratio), 2))
        ctx.ok(key + ".spread", lo <= ratio <= hi, "coefficient %d: spread %.4f, reported %.4f, z-scores spread over %.3f"
               % (j, spread, np.median(S[:, j]), ratio))
    ctx.note(ratios=ratios, means=means)


def fits(ctx, cls, draw, get=None, **kw):
    """R fits -> (B, S, results)"""
    import spreg
    f = getattr(spreg, cls)
    B, S = [], []
    failed = 0
    for _ in range(reps(ctx)):
        data = draw()
        try:
            with ctx.quiet():
                r = f(**data, **kw)
        except Exception as e:
            if "power expansion" in str(e) or isinstance(e, np.linalg.LinAlgError):
                failed += 1
                continue
            ctx.fail("fit.exception", "%s: %s" % (type(e).__name__, str(e)[:200]))
            return None
        b, v = (np.ravel(r.betas), np.diag(np.asarray(r.vm, float))) if get is None else get(r)
        B.append(b)
        S.append(np.sqrt(np.maximum(v, 0)))
    if failed > reps(ctx) / 10:
        raise Skip("samples out of reach of the power expansion")
    ctx.note(fits=len(B))
    return B, S


def regressors(ctx, n, k=2):
    return ctx.rng.normal(size=(n, k)) * ctx.rng.uniform(.7, 1.5, k)


def cross(cls, model, kw=None, n=324, het=False, endog=False, slx=False, probit=False, vmskip=(), bias=.3, hi=1.5, only=None):
    """model: '', 'lag', 'err', 'both'"""
    def case(ctx):
        rng = ctx.rng
        ws = W_of(ctx, n)
        N, W = ws.n, ws.full
        x = regressors(ctx, N)
        b = np.array([.5, .8, -.6]) * rng.choice([-1, 1], 3)
        rho = ctx.pick("rho", [.4, .6, -.3]) if model in ("lag", "both") else 0.
        lam = ctx.pick("lam", [.4, .6, -.3]) if model in ("err", "both") else 0.
        Ai, Bi = solve(W, rho), solve(W, lam)
        sig = np.exp(.6 * x[:, 0]) if het else np.ones(N)
        mean = np.hstack([np.ones((N, 1)), x]) @ b
        truth = list(b)
        if slx:
            g = np.array([.5, .7])
            mean = mean + W @ x @ g
            truth += list(g)
        q = rng.normal(size=(N, 2))
        ctx.sig = [cls, ctx.idx, round(float(x.sum()), 5)]

        def draw():
            e = rng.normal(size=N) * sig
            out = dict(x=x)
            m = mean
            if endog:
                v = .6 * e + .8 * rng.normal(size=N)
                yend = q @ np.array([1., .8]) + v
                out.update(yend=yend.reshape(-1, 1), q=q)
                m = m + .7 * yend
            y = Ai @ (m + Bi @ e)
            if probit:
                y = (y > 0).astype(float)
            out["y"] = y.reshape(-1, 1)
            return out
        if endog:
            truth.append(.7)
        opt = dict(kw or {})
        if model or slx:
            opt["w"] = ws.w
        if slx:
            opt["slx_lags"] = 1
        if opt.get("robust") == "hac":
            opt["gwk"] = gen.kernel(rng, N, "triangular", k=6, coords=ws.coords)[0] if ws.coords is not None else gen.kernel(rng, N)[0]
        if rho:
            truth.append(rho)
        if lam:
            truth.append(lam)
        got = fits(ctx, cls, draw, **opt)
        if got is None:
            return
        B, S = got
        judge(ctx, "fit", B, S, truth, bias=bias, hi=hi)
    return case


def regime(cls, model, kw, het=False, endog=False, n=450, pattern="block", bias=.35, hi=1.55):
    def case(ctx):
        rng = ctx.rng
        ws = W_of(ctx, n, ("rook", "queen"))
        N, W0 = ws.n, ws.full
        g = gen.regimes(rng, N, 2, "str", pattern=pattern, minsize=N // 4)
        sep = kw.get("regime_err_sep") and "Error" in cls or kw.get("regime_lag_sep")
        same = g.codes[:, None] == g.codes[None]
        W = W0
        if kw.get("regime_lag_sep") or "Error" in cls and kw.get("regime_err_sep"):
            A = (W0 > 0) * same
            if A.sum(1).min() == 0:
                raise Skip("islands within a regime")
            W = A / A.sum(1, keepdims=True)
        x = regressors(ctx, N)
        X = np.hstack([np.ones((N, 1)), x])
        b = np.array([[.5, .8, -.6], [1.2, -.4, .7]])
        sp = [.5, .2] if sep else [.4, .4]
        rho = np.array(sp)[g.codes] if model == "lag" else np.zeros(N)
        lam = np.array(sp)[g.codes] if model == "err" else np.zeros(N)
        Ai, Bi = np.linalg.inv(np.eye(N) - rho[:, None] * W), np.linalg.inv(np.eye(N) - lam[:, None] * W)
        sig = np.where(g.codes == 0, 1., 1.6) if het else np.ones(N)
        mean = (X * b[g.codes]).sum(1)
        q = rng.normal(size=(N, 2))
        ctx.sig = [cls, ctx.idx, round(float(x.sum()), 5)]

        def draw():
            e = rng.normal(size=N) * sig
            out = dict(x=x)
            m = mean
            if endog:
                yend = q @ np.array([1., .8]) + .6 * e + .8 * rng.normal(size=N)
                m = m + np.array([.7, .3])[g.codes] * yend
                out.update(yend=yend.reshape(-1, 1), q=q)
            return dict(out, y=(Ai @ (m + Bi @ e)).reshape(-1, 1), regimes=g.arg)
        truth = {}
        for r in range(2):
            for j, v in enumerate(["CONSTANT", "a", "b"]):
                truth["%s_%s" % (g.names[r], v)] = b[r, j]
            truth["%s_dist" % g.names[r]] = [.7, .3][r]
            truth["%s_W_dep" % g.names[r]] = sp[r]
            truth["%s_lambda" % g.names[r]] = sp[r]
        truth["_Global_W_dep"] = truth["lambda"] = truth["W_dep"] = sp[0]
        names = []

        def get(r):
            t = r.output
            names[:] = list(t["var_names"])
            se = [np.nan if v is None else float(v) for v in t["std_err"]]
            return np.array([float(v) for v in t["coefficients"]]), np.array(se) ** 2
        o = dict(kw, name_x=["a", "b"], name_y="dep")
        if endog:
            o.update(name_yend=["dist"], name_q=["q1", "q2"])
        if model or "Lag" in cls:
            o["w"] = ws.w
        got = fits(ctx, cls, draw, get, **o)
        if got is None:
            return
        if not ctx.ok("names", all(v in truth for v in names), "%s" % names):
            return
        judge(ctx, "fit", got[0], got[1], [truth[v] for v in names], bias=bias, hi=hi)
    return case


def panel(cls, model, effects, N=64, T=6, bias=.3, hi=1.5, novm=(), kkp=False):
    """model '', 'lag', 'err'; effects none, fixed, random"""
    def case(ctx):
        rng = ctx.rng
        ws = W_of(ctx, N, ("rook", "queen"))
        n, W = ws.n, ws.full
        x = rng.normal(size=(n * T, 2)) + np.tile(rng.normal(0, .6, (n, 2)), (T, 1))
        b = np.array([.8, -.6])
        rho = ctx.pick("rho", [.4, .6, -.3]) if model == "lag" else 0.
        lam = ctx.pick("lam", [.4, .6, -.3]) if model == "err" else 0.
        Ai, Bi = solve(W, rho), solve(W, lam)
        fe = rng.normal(size=n) + x[:n, 0] if effects == "fixed" else None
        ctx.sig = [cls, ctx.idx, round(float(x.sum()), 5)]

        def draw():
            a = fe if effects == "fixed" else rng.normal(size=n) if effects == "random" else np.zeros(n)
            y = []
            for t in range(T):
                s = slice(t * n, (t + 1) * n)
                e = rng.normal(size=n)
                e = Bi @ (a + e) if kkp else a + Bi @ e
                y.append(Ai @ (1.5 + x[s] @ b + e))
            return dict(y=np.concatenate(y).reshape(-1, 1), x=x, w=ws.w)
        truth = {"CONSTANT": 1.5, "a": b[0], "b": b[1], "W_dep": rho, "lambda": lam, "rho": rho, "lam": lam}
        names = []

        def get(r):
            t = r.output
            names[:] = list(t["var_names"])
            se = []
            for v in t["std_err"]:
                try:
                    se.append(float(v))
                except (TypeError, ValueError):
                    se.append(np.nan)
            return np.array([float(v) for v in t["coefficients"]]), np.array(se) ** 2
        got = fits(ctx, cls, draw, get, name_x=["a", "b"], name_y="dep")
        if got is None:
            return
        keep = [i for i, v in enumerate(names) if v in truth]
        ctx.ok("names", {"a", "b"} <= set(names), "%s" % names)
        ctx.note(names=",".join(names))
        B, S = np.array(got[0])[:, keep], np.array(got[1])[:, keep]
        nm = [names[i] for i in keep]
        for i, v in enumerate(nm):
            if v in novm:
                S[:, i] = np.nan
        judge(ctx, "fit", B, S, [truth[v] for v in nm], bias=bias, hi=hi)
    return case


def sur(cls, n=200, bias=.3, hi=1.5, **kw):
    def case(ctx):
        import spreg
        rng = ctx.rng
        ws = W_of(ctx, n, ("rook", "queen"))
        N, W = ws.n, ws.full
        ne = ctx.pick("n_eq", [2, 3])
        X = {r: np.hstack([np.ones((N, 1)), rng.normal(size=(N, 2))]) for r in range(ne)}
        b = {r: np.array([.5, .8, -.6]) * rng.choice([-1, 1], 3) for r in range(ne)}
        L = np.tril(rng.normal(0, .5, (ne, ne)), -1) + np.diag(rng.uniform(.7, 1.2, ne))
        q = {r: rng.normal(size=(N, 2)) for r in range(ne)}
        sp = [.5, .2, -.3][:ne]
        lag, err = cls == "SURlagIV", cls.startswith("SURerror")
        ctx.sig = [cls, ctx.idx, round(float(X[0].sum()), 5)]
        S0 = [solve(W, v) for v in sp]
        truth = []
        for r in range(ne):
            truth += list(b[r]) + ([.7] if cls == "ThreeSLS" else []) + ([sp[r]] if lag else [])

        def draw():
            E = rng.normal(size=(N, ne)) @ L.T
            bigy, bigyend = {}, {}
            for r in range(ne):
                e = E[:, r]
                m = X[r] @ b[r]
                if cls == "ThreeSLS":
                    ye = q[r] @ np.array([1., .8]) + .6 * e + .8 * rng.normal(size=N)
                    bigyend[r] = ye.reshape(-1, 1)
                    m = m + .7 * ye
                y = m + (S0[r] @ e if err else e)
                bigy[r] = (S0[r] @ y if lag else y).reshape(-1, 1)
            d = dict(bigy=bigy, bigX=X)
            if cls == "ThreeSLS":
                d.update(bigyend=bigyend, bigq=q)
            if lag or err:
                d["w"] = ws.w
            return d

        def get(r):
            bb = r.b3SLS if hasattr(r, "b3SLS") else getattr(r, "bSUR", None)
            if bb is None:
                bb = r.bSUR
            v = np.asarray(r.varb, float)
            return np.concatenate([np.ravel(bb[i]) for i in range(ne)]), np.diag(v)
        lams = []

        def get2(r):
            a = get(r)
            if err:
                lams.append(np.ravel(r.lamsur if hasattr(r, "lamsur") else r.lamols))
            return a
        got = fits(ctx, cls, draw, get2, **kw)
        if got is None:
            return
        judge(ctx, "fit", got[0], got[1], truth, bias=bias, hi=hi)
        if err and lams:
            judge(ctx, "lambda", lams, np.full(np.shape(lams), np.nan), sp, bias=.5)
    return case


def uniform(ctx, key, p, D=.3):
    p = np.array([v for v in p if v is not None], float)
    if not ctx.ok(key + ".range", np.all((p >= 0) & (p <= 1)), "%s" % p[:5]):
        return
    d = stats.kstest(p, "uniform").statistic
    ctx.ok(key + ".uniform", d <= D, "p-values under the null: distance %.3f from uniform, quartiles %s" % (d, np.round(np.quantile(p, [.25, .5, .75]), 3)))


def small(ctx, key, p, limit=.3):
    p = np.array(p, float)
    ctx.ok(key + ".power", np.median(p) <= limit, "median p-value %.3f although the hypothesis is false" % np.median(p))


def tests_ols(ctx):
    """tests on least squares residuals, nothing wrong or one thing wrong"""
    import spreg
    rng = ctx.rng
    ws = W_of(ctx, 324)
    N, W = ws.n, ws.full
    x = regressors(ctx, N)
    b = np.array([.5, .8, -.6])
    wrong = ctx.pick("wrong", ["nothing", "error", "lag", "het", "wx", "skew", "nothing", "lag"])
    Ai = solve(W, .4)
    got = {}
    ctx.sig = [wrong, ctx.idx, round(float(x.sum()), 5)]
    for _ in range(reps(ctx)):
        e = rng.normal(size=N)
        if wrong == "skew":
            e = rng.exponential(size=N) - 1
        if wrong == "het":
            e = e * np.exp(.5 * x[:, 0])
        if wrong == "error":
            e = Ai @ e
        y = np.hstack([np.ones((N, 1)), x]) @ b + e
        if wrong == "wx":
            y = y + W @ x @ np.array([.8, -.8])
        if wrong == "lag":
            y = Ai @ y
        r = ctx.run("OLS", spreg.OLS, y.reshape(-1, 1), x, w=ws.w, spat_diag=True, moran=True, white_test=True)
        for k, v in dict(lm_error=r.lm_error, lm_lag=r.lm_lag, rlm_error=r.rlm_error, rlm_lag=r.rlm_lag, lm_sarma=r.lm_sarma, lm_wx=r.lm_wx,
                         lm_spdurbin=r.lm_spdurbin, rlm_wx=r.rlm_wx, rlm_durlag=r.rlm_durlag).items():
            got.setdefault(k, []).append(np.ravel(v)[1])
        got.setdefault("moran", []).append(r.moran_res[2])
        got.setdefault("jb", []).append(r.jarque_bera["pvalue"])
        got.setdefault("bp", []).append(r.breusch_pagan["pvalue"])
        got.setdefault("kb", []).append(r.koenker_bassett["pvalue"])
        got.setdefault("white", []).append(r.white["pvalue"])
    true = {"nothing": list(got), "error": ["rlm_lag", "rlm_wx", "jb"], "lag": ["jb"], "het": ["lm_wx"], "wx": ["jb", "bp", "kb"],
            "skew": ["lm_error", "lm_lag", "moran", "lm_wx", "kb"]}[wrong]
    false = {"nothing": [], "error": ["lm_error", "rlm_error", "lm_sarma", "moran"], "lag": ["lm_lag", "rlm_lag", "lm_spdurbin", "lm_sarma"],
             "het": ["bp", "kb", "white"], "wx": ["lm_wx", "lm_spdurbin"], "skew": ["jb"]}[wrong]
    for k in true:
        if wrong == "het" and k == "lm_wx" or wrong in ("error", "lag", "wx") and k in ("rlm_wx", "rlm_lag", "bp", "kb", "jb"):
            continue          # approximate only under the alternative
        uniform(ctx, k, got[k], .4 if k == "jb" else .3)
    for k in false:
        small(ctx, k, got[k])


def tests_more(ctx):
    """tests attached to other estimators, null true or false"""
    import spreg
    rng = ctx.rng
    what = ctx.pick("test", ["chow", "ak", "dwh", "comfac", "chow_lag", "lr", "probit", "sur", "ak_lag", "panel"])
    false = ctx.pick("false", [False, False, True])
    ws = W_of(ctx, 256)
    N, W = ws.n, ws.full
    x = regressors(ctx, N)
    X = np.hstack([np.ones((N, 1)), x])
    b = np.array([.5, .8, -.6])
    q = rng.normal(size=(N, 2))
    A = solve(W, .45)
    g = gen.regimes(rng, N, 2, "str", pattern="random", minsize=N // 4)
    got = {}
    ctx.sig = [what, false, ctx.idx]
    put = lambda k, v: got.setdefault(k, []).append(float(v))
    for _ in range(reps(ctx)):
        e = rng.normal(size=N)
        if what in ("chow", "chow_lag"):
            B = np.array([b, b + ([.4, .4, -.4] if false else [0, 0, 0])])
            y = (X * B[g.codes]).sum(1) + e
            if what == "chow":
                r = ctx.run("OLS_Regimes", spreg.OLS_Regimes, y.reshape(-1, 1), x, g.arg, nonspat_diag=False, regime_err_sep=False)
            else:
                r = ctx.run("GM_Lag_Regimes", spreg.GM_Lag_Regimes, (A @ y).reshape(-1, 1), x, g.arg, w=ws.w, regime_err_sep=False, regime_lag_sep=False)
            put("chow_joint", r.chow.joint[1])
            for i in range(3):
                put("chow_%d" % i, r.chow.regi[i][1])
        elif what in ("ak", "dwh"):
            end = (.6 if what == "ak" or false else 0.) * e
            ye = q @ np.array([1., .8]) + end + .8 * rng.normal(size=N)
            u = A @ e if what == "ak" and false else e
            y = X @ b + .7 * ye + u
            r = ctx.run("TSLS", spreg.TSLS, y.reshape(-1, 1), x, ye.reshape(-1, 1), q, w=ws.w, spat_diag=True, nonspat_diag=True)
            put(what, r.ak_test[1] if what == "ak" else r.dwh[1])
        elif what == "ak_lag":
            y = A @ (X @ b + (solve(W, .5) @ e if false else e))
            r = ctx.run("GM_Lag", spreg.GM_Lag, y.reshape(-1, 1), x, w=ws.w, spat_diag=True)
            put("ak_lag", r.ak_test[1])
        elif what == "comfac":
            lam = .45
            gam = np.array([1., .8]) if false else -lam * b[1:]
            y = A @ (X @ b + W @ x @ gam + e)
            r = ctx.run("GM_Lag", spreg.ML_Lag, y.reshape(-1, 1), x, w=ws.w, slx_lags=1, spat_diag=True, method="LU")
            put("comfac", r.cfh_test[1])
        elif what == "lr":
            y = (A if false else np.eye(N)) @ (X @ b + e)
            o = ctx.run("OLS", spreg.OLS, y.reshape(-1, 1), x)
            r = ctx.run("ML_Lag", spreg.ML_Lag, y.reshape(-1, 1), x, w=ws.w, method="LU")
            put("lr", spreg.likratiotest(o, r)["p-value"])
        elif what == "probit":
            y = (X @ b + ((solve(W, .7) if false else np.eye(N)) @ e) > 0).astype(float)
            r = ctx.run("Probit", spreg.Probit, y.reshape(-1, 1), x, w=ws.w, spat_diag=True)
            put("Pinkse", r.Pinkse_error[1])
            put("KP", r.KP_error[1])
            put("PS", r.PS_error[1])
        elif what == "sur":
            E = rng.normal(size=(N, 2))
            if false:
                E[:, 1] += .4 * E[:, 0]
            y = {i: (X @ b + E[:, i]).reshape(-1, 1) for i in range(2)}
            r = ctx.run("SUR", spreg.SUR, y, {0: X, 1: X}, w=ws.w, spat_diag=True, nonspat_diag=True)
            put("lm", r.lmtest[2])
            put("lr", r.lrtest[2])
            if not false:
                put("lmE", r.lmEtest[2])
                put("lmlag", r.lmlagtest[2])
        else:
            n, T = 64, 5
            if not got:
                wsp = gen.weights(rng, n, "queen", "r", "int")
                xp = rng.normal(size=(wsp.n * T, 2))
            Ap = solve(wsp.full, .4) if false else np.eye(wsp.n)
            y = np.concatenate([Ap @ (1 + xp[t * wsp.n:(t + 1) * wsp.n] @ b[1:] + rng.normal(size=wsp.n)) for t in range(T)]).reshape(-1, 1)
            # panel_LMlag is left to C22, where its wrong variance (KF-PANEL-LMLAG) is listed
            put("lmerr", np.ravel(spreg.panel_LMerror(y, xp, wsp.w)[1])[0])
            if not false:
                put("rlmlag", np.ravel(spreg.panel_rLMlag(y, xp, wsp.w)[1])[0])
                put("rlmerr", np.ravel(spreg.panel_rLMerror(y, xp, wsp.w)[1])[0])
    ctx.note(medians={k: round(float(np.median(v)), 3) for k, v in got.items()})
    for k, v in got.items():
        (small if false else uniform)(ctx, what + "." + k, v, **({"limit": .35} if false else {"D": .32}))


SUBS = {
    "OLS": (cross("OLS", ""), 1, 10),
    "OLS_white": (cross("OLS", "", dict(robust="white"), het=True), 1, 10),
    "OLS_hac": (cross("OLS", "", dict(robust="hac"), het=True, hi=1.7), 1, 8),
    "OLS_slx": (cross("OLS", "", slx=True), 1, 8),
    "TSLS": (cross("TSLS", "", endog=True), 1, 10),
    "TSLS_white": (cross("TSLS", "", dict(robust="white"), het=True, endog=True), 1, 8),
    "Probit": (cross("Probit", "", probit=True), 1, 8),
    "GM_Lag": (cross("GM_Lag", "lag"), 1, 10),
    "GM_Lag_2": (cross("GM_Lag", "lag", dict(w_lags=2)), 1, 6),
    "GM_Lag_white": (cross("GM_Lag", "lag", dict(robust="white"), het=True), 1, 8),
    "GM_Lag_endog": (cross("GM_Lag", "lag", endog=True), 1, 8),
    "GM_Lag_durbin": (cross("GM_Lag", "lag", slx=True, bias=.6), 1, 6),
    "ML_Lag": (cross("ML_Lag", "lag", dict(method="LU"), n=196), 1, 6),
    "ML_Lag_durbin": (cross("ML_Lag", "lag", dict(method="LU"), n=196, slx=True), 1, 6),
    "ML_Error": (cross("ML_Error", "err", dict(method="LU"), n=196), 1, 6),
    "GM_Error": (cross("GM_Error", "err"), 1, 8),
    "GM_Endog_Error": (cross("GM_Endog_Error", "err", endog=True), 1, 8),
    "GM_Error_Het": (cross("GM_Error_Het", "err", het=True, bias=.5), 1, 8),
    "GM_Error_Hom": (cross("GM_Error_Hom", "err", bias=.5), 1, 8),
    "GM_Endog_Error_Het": (cross("GM_Endog_Error_Het", "err", het=True, endog=True, bias=.5), 1, 6),
    "GM_Endog_Error_Hom": (cross("GM_Endog_Error_Hom", "err", endog=True, bias=.5), 1, 6),
    "GM_Combo": (cross("GM_Combo", "both", bias=.5), 1, 6),
    "GM_Combo_Het": (cross("GM_Combo_Het", "both", het=True, bias=.5), 1, 6),
    "GM_Combo_Hom": (cross("GM_Combo_Hom", "both", bias=.5), 1, 6),
    "OLS_Regimes": (regime("OLS_Regimes", "", dict(regime_err_sep=True), het=True), 1, 8),
    "OLS_Regimes_pooled": (regime("OLS_Regimes", "", dict(regime_err_sep=False)), 1, 8),
    "TSLS_Regimes": (regime("TSLS_Regimes", "", dict(regime_err_sep=True), het=True, endog=True), 1, 8),
    "GM_Lag_Regimes": (regime("GM_Lag_Regimes", "lag", dict(regime_err_sep=False, regime_lag_sep=False)), 1, 8),
    "GM_Lag_Regimes_sep": (regime("GM_Lag_Regimes", "lag", dict(regime_err_sep=True, regime_lag_sep=True), het=True), 1, 8),
    "GM_Lag_Regimes_seplag": (regime("GM_Lag_Regimes", "lag", dict(regime_err_sep=False, regime_lag_sep=True)), 1, 8),
    "ML_Lag_Regimes": (regime("ML_Lag_Regimes", "lag", dict(method="ord", regime_lag_sep=False), n=196), 1, 6),
    "ML_Lag_Regimes_sep": (regime("ML_Lag_Regimes", "lag", dict(method="ord", regime_lag_sep=True), n=324, het=True), 1, 6),
    "ML_Error_Regimes_sep": (regime("ML_Error_Regimes", "err", dict(method="ord", regime_err_sep=True), n=324, het=True), 1, 6),
    "GM_Error_Regimes_sep": (regime("GM_Error_Regimes", "err", dict(regime_err_sep=True), het=True), 1, 8),
    "GM_Error_Het_Regimes_sep": (regime("GM_Error_Het_Regimes", "err", dict(regime_err_sep=True), het=True, bias=.5), 1, 6),
    "GM_Error_Hom_Regimes_sep": (regime("GM_Error_Hom_Regimes", "err", dict(regime_err_sep=True), het=True, bias=.5), 1, 6),
    "GM_Endog_Error_Regimes_sep": (regime("GM_Endog_Error_Regimes", "err", dict(regime_err_sep=True), het=True, endog=True), 1, 6),
    "PooledOLS": (panel("PooledOLS", "", "none"), 1, 8),
    "PanelFE": (panel("PanelFE", "", "fixed"), 1, 8),
    "PanelRE": (panel("PanelRE", "", "random"), 1, 8),
    "GM_ErrorPooled": (panel("GM_ErrorPooled", "err", "none"), 1, 8),
    "ML_ErrorPooled": (panel("ML_ErrorPooled", "err", "none"), 1, 6),
    "GM_ErrorRE": (panel("GM_ErrorRE", "err", "random", kkp=True, bias=.5), 1, 8),
    "ML_ErrorFE": (panel("ML_ErrorFE", "err", "fixed", bias=.5), 1, 6),
    "ML_LagFE": (panel("ML_LagFE", "lag", "fixed", bias=.5), 1, 6),
    "ML_LagRE": (panel("ML_LagRE", "lag", "random", bias=.5), 1, 6),
    "SUR": (sur("SUR"), 1, 8),
    "ThreeSLS": (sur("ThreeSLS"), 1, 8),
    "SURlagIV": (sur("SURlagIV"), 1, 8),
    "SURerrorGM": (sur("SURerrorGM"), 1, 6),
    "SURerrorML": (sur("SURerrorML", n=100), 1, 4),
    "tests_ols": (tests_ols, 6, 40),
    "tests_more": (tests_more, 14, 90),
}
