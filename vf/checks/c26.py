"""C26 synthetic data generators: the structural equation holds for what they return."""
import numpy as np
from scipy import stats, linalg
from .. import gen
from ..core import Skip

RULE = ("Every generator called with random errors, regressors, coefficients and weights of seven layouts; the returned vector is put "
        "back into the structural equation of the process, wrong dimensions and unknown variants must return nothing, random draws "
        "are compared with their named distribution, and the matching estimator must recover the coefficients from generated samples.")
ASSUMPTIONS = ["spatial parameters inside the convergence region of the weights"]

PROC = ["errproc", "ols", "slx", "sperror", "slxerror", "lag", "spdurbin", "lagerr", "gns", "mess", "probit"]
HAS_WX = {"slx", "slxerror", "spdurbin", "gns"}
HAS_LAM = {"errproc", "sperror", "slxerror", "lagerr", "gns"}
HAS_RHO = {"lag", "spdurbin", "lagerr", "gns", "mess"}
HAS_BIN = {"slx", "sperror", "slxerror", "lag", "spdurbin", "lagerr", "gns"}


def call(spreg, name, u, xb, wxg, w, o):
    f = getattr(spreg, "dgp_" + name)
    a = [u]
    if name != "errproc":
        a.append(xb)
    if name in HAS_WX:
        a.append(wxg)
    if name in HAS_LAM | HAS_RHO:
        a.append(w)
    return f(*a, **o)


def mk(name):
    def case(ctx):
        import spreg
        rng = ctx.rng
        n = int(rng.integers(20, 90))
        tr = ctx.pick("transform", ["r", "r", "o", "b"])
        ws = gen.weights(rng, n, ctx.pick("W", gen.ALL_KINDS), tr, ctx.pick("ids", ["int", "str", "perm"]))
        n, w, W = ws.n, ws.w, ws.full
        rad = max(1e-9, np.max(np.abs(np.linalg.eigvals(W))))
        k = ctx.pick("k", [1, 2, 3])
        order = ctx.pick("order", [1, 2, 3])
        x = rng.normal(size=(n, k)) * rng.choice([.1, 1, 30])
        beta = list(rng.normal(0, 2, k + 1))
        u = rng.normal(size=(n, 1)) * ctx.pick("noise", [0.01, 1., 50.])
        ctx.sig = [name, n, round(float(u.sum()), 6)]
        xb = ctx.run("make_xb", spreg.make_xb, x, beta)
        X1 = np.hstack([np.ones((n, 1)), x])
        ctx.close("make_xb", xb, X1 @ np.array(beta).reshape(-1, 1), rtol=1e-10, atol=1e-10)
        wx = ctx.run("make_wx", spreg.make_wx, x, w, order) if order > 1 or ctx.pick("o", [0, 1]) else ctx.run("make_wx", spreg.make_wx, x, w)
        L, P = [], x
        for _ in range(order):
            P = W @ P
            L.append(P)
        WX = np.hstack(L)
        ctx.close("make_wx", wx, WX, rtol=1e-9, atol=1e-9 * np.abs(WX).max())
        gamma = list(rng.normal(0, 2, WX.shape[1]))
        single = WX.shape[1] == 1 and ctx.pick("scalar_gamma", [True, False])
        wxg = ctx.run("make_wxg", spreg.make_wxg, WX, gamma[0] if single else gamma)
        ctx.close("make_wxg", wxg, WX @ np.array(gamma).reshape(-1, 1), rtol=1e-10, atol=1e-10 * np.abs(WX).max())
        o = {}
        lam, rho, model = .5, .5, "sar"
        if name in ("lagerr", "gns"):
            lam = .2
        bound = .93 / rad
        fits = abs(lam) < bound and abs(rho) < bound
        if name in HAS_LAM:
            if not fits or ctx.pick("own_lam", [True, True, False]):
                lam = float(rng.uniform(-bound, bound))
                o["lam"] = lam
            if ctx.pick("own_model", [True, False]):
                model = ctx.pick("model", ["sar", "ma"])
                o["model"] = model
        if name in HAS_RHO:
            if name == "mess":
                if ctx.pick("own_rho", [True, True, False]):
                    rho = float(rng.uniform(-2, .9))
                    o["rho"] = rho
            elif not fits or ctx.pick("own_rho", [True, True, False]):
                rho = float(rng.uniform(-bound, bound))
                o["rho"] = rho
        if name in (HAS_LAM | HAS_RHO) - {"mess"}:
            im = ctx.pick("imethod", [None, "power_exp", "true_inv"])
            if im:
                o["imethod"] = im
        ybin = name == "probit"
        if name in HAS_BIN and ctx.pick("ybin", [False, False, True]):
            o["ybin"] = ybin = True
        keep = [a.copy() for a in (u, xb, wxg)]
        y = ctx.run("dgp_" + name, call, spreg, name, u, xb, wxg, w, o)
        ctx.ok("inputs_kept", all(np.array_equal(a, b) for a, b in zip(keep, (u, xb, wxg))), "arguments changed")
        if not ctx.ok("array", isinstance(y, np.ndarray) and y.shape == (n, 1), "returned %s" % (getattr(y, "shape", y),)):
            return
        I = np.eye(n)
        mean = 0 * u if name == "errproc" else xb + (wxg if name in HAS_WX else 0)
        e = u
        if name in HAS_LAM:
            e = u + lam * (W @ u) if model == "ma" else np.linalg.solve(I - lam * W, u)
        if name == "mess":
            # structural form: expm(alpha W) y = xb + u with alpha = log(1 - rho)
            yl = linalg.expm(-np.log(1 - rho) * W) @ (mean + e)
            back, want = linalg.expm(np.log(1 - rho) * W) @ y, mean + e
        elif name in HAS_RHO:
            yl = np.linalg.solve(I - rho * W, mean + e)
            back, want = y - rho * (W @ y), mean + e
        else:
            yl = back = None
            yl, want = mean + e, mean + e
            back = y
        s = np.abs(yl).max()
        if ybin:
            edge = np.abs(yl - yl.mean()) < 1e-6 * s
            ctx.ok("binary", set(np.unique(y)) <= {0, 1}, "values %s" % np.unique(y)[:5])
            ctx.ok("threshold", np.array_equal(np.asarray(y, float)[~edge], (yl > yl.mean()).astype(float)[~edge]), "not latent variable above its mean")
            return
        ctx.close("structural", back, want, rtol=0, atol=2e-8 * max(s, 1))
        ctx.close("reduced", y, yl, rtol=0, atol=1e-7 * max(s, 1))
        if name == "mess":
            return
        # a second call gives the same, a different error a different answer in proportion
        y2 = call(spreg, name, u, xb, wxg, w, o)
        ctx.ok("repeat", np.array_equal(y, y2), "same inputs, other data")
    return case


def mismatch(ctx):
    """wrong dimensions and unknown variants: nothing instead of wrong data"""
    import spreg
    rng = ctx.rng
    n = int(rng.integers(12, 40))
    ws = gen.weights(rng, n, ctx.pick("W", gen.ALL_KINDS), "r", "int")
    n = ws.n
    m = n + ctx.pick("off", [1, 5, -3])
    name = ctx.pick("process", PROC)
    u, xb, wxg = (rng.normal(size=(n, 1)) for _ in range(3))
    other = gen.weights(rng, 60, "rook", "r", "int").w
    bad = ["u"]
    if name != "errproc":
        bad.append("xb")
    if name in HAS_WX:
        bad.append("wxg")
    if name in HAS_LAM | HAS_RHO:
        bad.append("w")
    if name in HAS_LAM:
        bad.append("model")
    if name in ("errproc",):
        bad.remove("u")
    which = bad[int(rng.integers(len(bad)))]
    ctx.cfg["wrong"] = which
    ctx.sig = [name, which, n, m]
    w, o = ws.w, {}
    if which == "u":
        u = rng.normal(size=(m, 1))
    elif which == "xb":
        xb = rng.normal(size=(m, 1))
    elif which == "wxg":
        wxg = rng.normal(size=(m, 1))
    elif which == "w":
        w = other
    else:
        o["model"] = "car"
    if name in HAS_BIN and rng.integers(2):
        o["ybin"] = True
    y = ctx.run("dgp_" + name, call, spreg, name, u, xb, wxg, w, o)
    ctx.ok("nothing", y is None, "dgp_%s with wrong %s returned %s" % (name, which, getattr(y, "shape", y)))


def helpers(ctx):
    import spreg
    rng = ctx.rng
    what = ctx.pick("what", ["xb", "wxg", "wx", "x", "bivnormal", "x_method", "error_method", "hetero", "vmult", "vmult_group", "vmult_uniform", "rows"])
    n = int(rng.integers(5, 60))
    ctx.sig = [what, n, int(rng.integers(1 << 30))]
    g = np.random.default_rng(int(rng.integers(1 << 30)))
    none = lambda key, v: ctx.ok(key, v is None, "returned %s" % (getattr(v, "shape", v),))
    k = int(rng.integers(1, 4))
    x = rng.normal(size=(n, k))
    if what == "xb":
        none(what, ctx.run(what, spreg.make_xb, x, [1.] * (k + ctx.pick("len", [0, 2]))))
    elif what == "wxg":
        none(what, ctx.run(what, spreg.make_wxg, rng.normal(size=(n, k + 1)), [1.] * (k + 1 + ctx.pick("len", [-1, 1]))))
    elif what == "wx":
        none(what, ctx.run(what, spreg.make_wx, rng.normal(size=(61, k)), gen.weights(rng, 40, "rook", "r", "int").w))
    elif what == "x":
        none(what, ctx.run(what, spreg.make_x, g, n, mu=[0] * k, varu=[1] * (k + 1)))
    elif what == "bivnormal":
        m = ctx.pick("k", [1, 3])
        none(what, ctx.run(what, spreg.make_x, g, n, mu=[0] * m, varu=[1] * m, method="bivnormal"))
    elif what == "x_method":
        none(what, ctx.run(what, spreg.make_x, g, n, mu=[0] * k, varu=[1] * k, method="gamma"))
    elif what == "error_method":
        none(what, ctx.run(what, spreg.make_error, g, n, method="student"))
    elif what == "rows":
        none(what, ctx.run(what, spreg.make_heterror, rng.normal(size=(n, 1)), rng.uniform(1, 2, (n + 1, 1))))
    elif what == "hetero":
        u, v = rng.normal(size=(n, 1)), rng.uniform(.1, 9, (n, 1))
        ctx.close(what, ctx.run(what, spreg.make_heterror, u, v), u * v ** .5, rtol=1e-12)
    elif what == "vmult":
        lo, hi = float(rng.uniform(.1, 3)), float(rng.uniform(3, 9))
        v = ctx.run(what, spreg.make_vmult, n, "linear", [lo], [hi])
        ctx.close(what, v, np.linspace(lo, hi, n).reshape(-1, 1), rtol=1e-10)
        ctx.close("default", spreg.make_vmult(n), np.linspace(1, 4, n).reshape(-1, 1), rtol=1e-10)
        none("method", spreg.make_vmult(n, method="step"))
    elif what == "vmult_group":
        sizes = [int(v) for v in rng.integers(1, 9, int(rng.integers(1, 5)))]
        vals = [float(v) for v in rng.uniform(.5, 5, len(sizes))]
        v = ctx.run(what, spreg.make_vmult, sum(sizes), "group", sizes, vals)
        ctx.close(what, v, np.repeat(vals, sizes).reshape(-1, 1), rtol=0)
        none("sizes", spreg.make_vmult(sum(sizes) + 1, "group", sizes, vals))
        none("lists", spreg.make_vmult(sum(sizes), "group", sizes, vals + [1.]))
    else:
        lo, hi = float(rng.uniform(.1, 3)), float(rng.uniform(3, 9))
        v = ctx.run(what, spreg.make_vmult, 500, "uniform", [lo], [hi], g)
        ctx.ok("shape", v.shape == (500, 1), "")
        ctx.ok("draws", stats.kstest(v.ravel(), stats.uniform(lo, hi - lo).cdf).pvalue > 1e-9, "")
        none("no_rng", spreg.make_vmult(n, "uniform", [lo], [hi]))


def draws(ctx):
    import spreg
    rng = ctx.rng
    seed = int(rng.integers(1 << 30))
    n = 3000
    what = ctx.pick("what", ["normal", "laplace", "cauchy", "lognormal", "x_uniform", "x_normal", "x_bivnormal"])
    ctx.sig = [what, seed]
    g = lambda: np.random.default_rng(seed)
    mu, var = float(rng.normal(0, 2)), float(rng.uniform(.2, 6))
    ks = lambda key, v, D: ctx.ok(key, stats.kstest(np.ravel(v), D.cdf).pvalue > 1e-9, "not the named distribution")
    if not what.startswith("x_"):
        kw = {} if what == "cauchy" or ctx.pick("defaults", [False, False, True]) else {"mu": mu, "varu": var}
        if not kw:
            mu, var = 0., 1.
        u = ctx.run("make_error", spreg.make_error, g(), n, method=what, **kw)
        ctx.ok("shape", u.shape == (n, 1), str(u.shape))
        ctx.ok("repeat", np.array_equal(u, spreg.make_error(g(), n, method=what, **kw)), "")
        D = {"normal": stats.norm(mu, var ** .5), "laplace": stats.laplace(mu, (var / 2) ** .5), "cauchy": stats.cauchy(),
             "lognormal": stats.lognorm(var ** .5, scale=np.exp(mu))}[what]
        ks(what, u, D)
        return
    k = 2 if what == "x_bivnormal" else ctx.pick("k", [1, 2, 4])
    mus, vs = [float(v) for v in rng.normal(0, 2, k)], [float(v) for v in rng.uniform(.2, 6, k)]
    kw = {"cor": float(rng.uniform(-.8, .8))} if k == 2 and what == "x_bivnormal" else {}
    x = ctx.run("make_x", spreg.make_x, g(), n, mu=mus, varu=vs, method=what[2:], **kw)
    ctx.ok("shape", x.shape == (n, k), str(x.shape))
    ctx.ok("repeat", np.array_equal(x, spreg.make_x(g(), n, mu=mus, varu=vs, method=what[2:], **kw)), "")
    for i in range(k):
        ks(what, x[:, i], stats.uniform(0, (12 * vs[i]) ** .5) if what == "x_uniform" else stats.norm(mus[i], vs[i] ** .5))
    if k > 1:
        r = np.corrcoef(x.T)[0, 1]
        c = kw.get("cor", 0.)
        ctx.ok("correlation", abs(np.arctanh(r) - np.arctanh(c)) < 7 / np.sqrt(n), "correlation %.3f, %.3f asked" % (r, c))


def recover(ctx):
    """generated data and the matching estimator"""
    import spreg
    rng = ctx.rng
    name = ctx.pick("process", ["ols", "slx", "sperror", "slxerror", "lag", "spdurbin", "lagerr", "probit"])
    n = 500
    ws = gen.weights(rng, n, ctx.pick("W", ["rook", "queen", "knn", "gabriel"] if "gabriel" in gen.ALL_KINDS else gen.ALL_KINDS), "r", "int")
    n, w = ws.n, ws.w
    x = spreg.make_x(rng, n, mu=[0, 0], varu=[1, 2], method="normal")
    beta = [1., float(rng.uniform(.5, 1.5)), float(rng.uniform(-1.5, -.5))]
    gamma = [float(v) for v in rng.uniform(.5, 1.2, 2)]
    rho, lam = float(rng.uniform(-.3, .6)), float(rng.uniform(-.3, .6))
    u = spreg.make_error(rng, n, varu=1.)
    xb = spreg.make_xb(x, beta)
    wxg = spreg.make_wxg(spreg.make_wx(x, w), gamma)
    ctx.sig = [name, n, round(float(u.sum()), 5)]
    o = {}
    if name in HAS_RHO:
        o["rho"] = rho
    if name in HAS_LAM:
        o["lam"] = lam
    y = ctx.run("dgp_" + name, call, spreg, name, u, xb, wxg, w, o)
    slx = {"slx_lags": 1} if name in HAS_WX else {}
    with ctx.quiet():
        if name in ("ols", "slx"):
            reg = spreg.OLS(y, x, w=w if slx else None, **slx)
        elif name in ("sperror", "slxerror"):
            reg = spreg.ML_Error(y, x, w, method="ord", **slx)
        elif name in ("lag", "spdurbin"):
            reg = spreg.ML_Lag(y, x, w, method="ord", **slx)
        elif name == "lagerr":
            reg = spreg.GM_Combo(y, x, w=w, w_lags=2)
        else:
            reg = spreg.Probit(y, x)
    want = beta + (gamma if slx else [])
    if name in HAS_RHO:
        want = want + [rho]
    if name in HAS_LAM:
        want = want + [lam]
    got = np.ravel(reg.betas)
    if name == "probit":
        # the threshold is the mean of the latent variable: slopes only
        got, want = got[1:], want[1:]
        se = np.sqrt(np.diag(reg.vm))[1:]
    else:
        se = np.sqrt(np.diag(reg.vm))
    m = min(len(se), len(got), len(want))
    ctx.ok("count", len(got) == len(want), "%d coefficients, %d generated" % (len(got), len(want)))
    z = (got[:m] - np.array(want[:m])) / se[:m]
    ctx.ok("recovered", np.all(np.abs(z) < 6), "z %s" % np.round(z, 2))


SUBS = {name: (mk(name), 12, 300) for name in PROC}
SUBS.update({"mismatch": (mismatch, 80, 2000), "helpers": (helpers, 60, 1000), "draws": (draws, 40, 600), "recover": (recover, 24, 300)})
