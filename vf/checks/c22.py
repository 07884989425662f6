"""C22 panel diagnostics against score tests built from the dense Gaussian covariance of the stacked panel."""
import numpy as np
from numpy.linalg import inv
from scipy import stats
from .. import gen, models, ref
from ..core import Skip
from . import c20, c21
from .c20 import within, means, one, usable, give, slx

RULE = ("Random balanced panels in every accepted layout: plain and robust LM tests, the five Baltagi-Song-Koh tests (every subset, "
        "through every model that reports them) and the Hausman tests are compared with score and information matrices formed from "
        "the NT x NT covariance of the model at the null estimates.")
ASSUMPTIONS = ["sigma2 of the panel LM tests is the reported OLS variance (n-k), as the library documents for OLS",
               "negative Hausman statistics are what the published expression gives"]
CASE_LIMIT = 90


def lay(ctx, p):
    return give(ctx, p, ctx.pick("layout", ["long", "wide", "wide_frame", "long_frame"]))


def case_lm(ctx):
    import spreg
    p = c21.data(ctx, ctx.pick("kind", ["lag", "err"]), ctx.pick("sym", [False, False, True]))
    X = usable(np.hstack([one(p.n), p.x]), 1e-5)
    W = np.kron(np.eye(p.T), p.W)
    o = ref.ols(p.y, X)
    s2 = o.utu / (p.n - X.shape[1])
    u = o.u
    M = np.eye(p.n) - X @ inv(X.T @ X) @ X.T
    wxb = W @ X @ o.b
    t = np.trace(W @ W + W.T @ W)
    J = float((wxb.T @ M @ wxb).item()) / s2 + t
    a, e = float((u.T @ W @ p.y).item()) / s2, float((u.T @ W @ u).item()) / s2
    want = {"panel_LMlag": a * a / J, "panel_LMerror": e * e / t, "panel_rLMlag": (a - e) ** 2 / (J - t),
            "panel_rLMerror": (e - t / J * a) ** 2 / (t * (1 - t / J))}
    if (J - t) / t < 1e-3:
        raise Skip("lagged fitted values explained by the regressors")
    y, x = lay(ctx, p)
    for f, v in want.items():
        got = ctx.run(f, getattr(spreg, f), y, x, p.w)
        ctx.close(f, got[0], v, rtol=1e-6, atol=1e-9)
        ctx.pclose(f + ".p", got[1], stats.chi2.sf(got[0], 1))
        if f == "panel_LMlag":          # as coded
            tw = t / p.T
            ctx.close(f + ".as_coded", got[0], a * a / (J - t + tw * tw), rtol=1e-6)
            ctx.pclose(f + ".p_of_statistic", got[1], stats.chi2.sf(got[0], 1))


def score(p, u, sm, sv, lam, which, nuisance):
    """signed one-sided score statistic for one of ('mu', 'lam') with the nuisance parameters among ('v', 'mu', 'lam')"""
    I = np.eye(p.N)
    B = I - lam * p.W
    A = inv(B.T @ B)
    JT, IT = np.ones((p.T, p.T)), np.eye(p.T)
    Vi = inv(sm * np.kron(JT, I) + sv * np.kron(IT, A))
    D = {"mu": np.kron(JT, I), "v": np.kron(IT, A), "lam": sv * np.kron(IT, A @ (p.W.T @ B + B.T @ p.W) @ A)}
    names = [which] + list(nuisance)
    VD = [Vi @ D[m] for m in names]
    viu = Vi @ u
    d = -.5 * np.trace(VD[0]) + .5 * float((viu.T @ D[which] @ viu).item())
    F = np.array([[.5 * float((a * b.T).sum()) for b in VD] for a in VD])
    v = F[0, 0] - (F[0, 1:] @ inv(F[1:, 1:]) @ F[1:, 0] if len(names) > 1 else 0.)
    return d / np.sqrt(v), v / F[0, 0]


TESTS = {"LM1": "LM Marginal RE (LM1)", "LM2": "LM Marginal Spatial (LM2)", "LMJ": "LM Joint (LMJ)", "LMC_spatial": "LM Conditional Spatial",
         "LMC_RE": "LM Conditional RE"}


def expected(p, X, which, re_betas=None, sem=None):
    y = p.y
    out = {}
    u = ref.ols(y, X).u
    s2 = float((u ** 2).sum()) / p.n
    l1 = score(p, u, 0., s2, 0., "mu", ["v"])[0]
    l2 = score(p, u, 0., s2, 0., "lam", ["v"])[0]
    out["LM1"] = (l1, stats.norm.sf(l1))
    out["LM2"] = (l2, stats.norm.sf(l2))
    j = max(l1, 0) ** 2 + max(l2, 0) ** 2
    out["LMJ"] = (j, .5 * stats.chi2.sf(j, 1) + .25 * stats.chi2.sf(j, 2) if j > 0 else 1.)
    if re_betas is not None:
        u = y - X @ re_betas
        m = np.tile(means(u, p.N), (p.T, 1))
        s1, sv = float((m ** 2).sum()) / p.N, float(((u - m) ** 2).sum()) / (p.N * (p.T - 1))
        c = score(p, u, (s1 - sv) / p.T, sv, 0., "lam", ["v", "mu"])[0]
        out["LMC_spatial"] = (c, stats.norm.sf(c))
    if sem is not None:
        b, lam = sem
        u = y - X @ b
        v = u - lam * np.kron(np.eye(p.T), p.W) @ u
        c, cond = score(p, u, 0., float((v ** 2).sum()) / p.n, lam, "mu", ["v", "lam"])
        out["LMC_RE"] = (c, stats.norm.sf(c))
        out["cond"] = cond
    return out


def judge(ctx, tab, want, asked, pre):
    names = [TESTS[a] for a in asked]
    got = list(tab["Test"])
    ctx.ok(pre + "tests", sorted(got) == sorted(names), "%s for %s" % (got, asked))
    for a in asked:
        if TESTS[a] not in got:
            continue
        r = tab[tab["Test"] == TESTS[a]].iloc[0]
        stat, prob = want[a]
        ctx.close(pre + a, r["Statistic"], stat, rtol=1e-5, atol=1e-6)
        ctx.pclose(pre + a + ".p", r["p-value"], prob)
        ctx.ok(pre + a + ".df", r["df"] == (2 if a == "LMJ" else 1))


def case_bsk(ctx):
    import spreg
    from spreg.diagnostics_panel import BSK_tests
    kind = ctx.pick("kind", ["err", "lag", ""])
    p = c21.data(ctx, kind if kind else "err", ctx.pick("sym", [False, False, True]), mu=(0., 0., .3, 1.5))
    if p.n > 260:
        raise Skip("too large for dense evaluation")
    kw, X = slx(ctx, p)
    X = usable(np.hstack([one(p.n), X]), 1e-4)
    usable(means(X, p.N), 1e-3)
    usable(np.hstack([within(X[:, 1:], p.N)]), 1e-3)
    if p.n - p.N - X.shape[1] < 3 or p.N - X.shape[1] < 3:
        raise Skip("no degrees of freedom")
    y, x = give(ctx, p)
    cls = ctx.pick("class", ["PooledOLS", "PooledOLS", "PanelRE", "ML_ErrorPooled", "GM_ErrorPooled"])
    how = ctx.pick("how", ["report", "direct", "direct"])
    allt = list(TESTS)
    asked = {"PooledOLS": ["LMJ", "LM1", "LM2"], "PanelRE": ["LMC_spatial"]}.get(cls, ["LMC_RE"])
    gm = False
    flag = {}
    if cls == "PooledOLS" and how == "report":
        sub = [t for t in allt if ctx.rng.random() < .5] or ["LM2"]
        if ctx.pick("BSK_list", ["default", "some"]) == "some":
            asked = [sub[i] for i in ctx.rng.permutation(len(sub))]
            flag["BSK_list"] = list(asked)
    if cls in ("PooledOLS", "PanelRE"):
        flag["spat_diag"] = how == "report"
    else:
        flag["nonspat_diag"] = how == "report"
    reg = ctx.run(cls, getattr(spreg, cls), y, x, p.w, **dict(kw, **flag))
    if how == "report":
        tab = reg.bsk
    else:
        mode = ctx.pick("which", ["all", "one", "some", "some"])
        arg = "all"
        asked = list(allt)
        if mode == "one":
            asked = [allt[ctx.rng.integers(5)]]
            arg = asked[0]
        elif mode == "some":
            sub = [t for t in allt if ctx.rng.random() < .5] or ["LM2"]
            asked = [sub[i] for i in ctx.rng.permutation(len(sub))]
            arg = list(asked)
        gm = ctx.pick("GM_BSK", [False, False, True])
        tab = ctx.run("BSK_tests." + cls, BSK_tests, reg, p.w, arg, gm)
    ctx.note(asked=asked)
    re_b = sem = None
    if "LMC_spatial" in asked:
        re = reg if cls == "PanelRE" else ctx.run("PanelRE", spreg.PanelRE, p.y, X[:, 1:], p.w, spat_diag=False)
        re_b = np.asarray(re.betas)
    if "LMC_RE" in asked:
        if cls in ("ML_ErrorPooled", "GM_ErrorPooled"):
            s = reg
        else:
            s = ctx.run("sem", spreg.GM_ErrorPooled if gm else spreg.ML_ErrorPooled, p.y, X[:, 1:], p.w, nonspat_diag=False)
        B = np.asarray(s.betas)
        sem = (B[:-1], float(B[-1, 0]))
        if abs(sem[1]) > .97:
            raise Skip("lambda at the bound")
    want = expected(p, X, asked, re_b, sem)
    if want.get("cond", 1.) < 1e-5:
        raise Skip("random effects and spatial error not distinguishable")
    judge(ctx, tab, want, asked, cls + ".")
    if how == "report":
        for a in asked:
            r = tab[tab["Test"] == TESTS[a]]
            if len(r):
                line = [t for t in reg.summary.split("\n") if t.startswith(TESTS[a])]
                ctx.ok("printed", len(line) == 1 and ("%.4f" % r.iloc[0]["Statistic"]) in line[0] and ("%.5f" % r.iloc[0]["p-value"]) in line[0],
                       "%s: %s" % (a, line))


def case_hausman(ctx):
    import spreg
    kind = ctx.pick("kind", ["lag", "err"])
    p = c21.data(ctx, kind, ctx.pick("sym", [False, False, True]), mu=(.5, 1.5))
    dep = ctx.pick("deprecated", [False, False, True]) and kind == "lag"
    fe, re = {("lag", False): ("ML_LagFE", "ML_LagRE"), ("err", False): ("ML_ErrorFE", "ML_ErrorRE"),
              ("lag", True): ("Panel_FE_Lag", "Panel_RE_Lag")}[kind, dep]
    kw, X = slx(ctx, p, not dep)
    usable(within(np.asarray(X, float), p.N), 1e-3)
    X1 = usable(np.hstack([one(p.n), X]), 1e-3)
    if p.n - p.N - X.shape[1] < 3:
        raise Skip("no degrees of freedom")
    y, x = lay(ctx, p)
    a = ctx.run(fe, getattr(spreg, fe), y, x, p.w, **kw)
    b = ctx.run(re, getattr(spreg, re), y, x, p.w, **kw)
    got = ctx.run("panel_Hausman." + kind, spreg.panel_Hausman, a, b)
    ba, bb = np.asarray(a.betas, float), np.asarray(b.betas, float)
    k = X.shape[1]
    yd, Xd = within(p.y, p.N), within(np.asarray(X, float), p.N)
    Wn = np.kron(np.eye(p.T), p.W)
    if kind == "lag":
        rho, phi = float(ba[k, 0]), float(bb[k + 2, 0])
        if phi < 1e-3 or max(abs(rho), abs(bb[k + 1, 0])) > .98:
            raise Skip("bound")
        d = ba[:k + 1] - bb[1:k + 2]
        s2a = float(((yd - rho * Wn @ yd - Xd @ ba[:k]) ** 2).sum()) / p.n
        Va = inv(c21.lag_info(p, Xd, p.W, rho, ba[:k], s2a)[1][:-1, :-1])
        yq, Xq = c21.quasi(p.y, p.N, phi), c21.quasi(X1, p.N, phi)
        r2 = float(bb[k + 1, 0])
        s2b = float(((yq - r2 * Wn @ yq - Xq @ bb[:k + 1]) ** 2).sum()) / p.n
        Vb = inv(c21.lag_info(p, Xq, p.W, r2, bb[:k + 1], s2b)[1][:-1, :-1])[1:, 1:]
    else:
        lam, l2, phi = float(ba[k, 0]), float(bb[k + 1, 0]), c21.val(b.phi)
        if phi < 1e-6 or max(abs(lam), abs(l2)) > .98:
            raise Skip("bound")
        d = ba[:k] - bb[1:k + 1]
        F = lambda v: v - lam * Wn @ v
        o = ref.ols(F(yd), F(Xd), dof=False)
        Va = o.sig2n * o.xtxi
        f, white = c21.re_like(p, X1)
        yw, Xw, _, _ = white(l2, phi)
        o = ref.ols(yw, Xw, dof=False)
        Vb = (o.utu / p.n * o.xtxi)[1:, 1:]
    V = Vb - Va
    c = np.linalg.cond(V / np.outer(np.sqrt(np.diag(Va)), np.sqrt(np.diag(Va))))
    if c > 1e6:
        raise Skip("difference of covariances almost singular")
    h = float((d.T @ inv(V) @ d).item())
    ctx.close("Hausman." + kind, got[0], h, rtol=1e-7 * max(c, 100), atol=1e-6)
    ctx.pclose("Hausman.p", got[1], stats.chi2.sf(got[0], len(d)))


def case_mixed(ctx):
    """models with different or no spatial interaction are refused"""
    import spreg
    p = c21.data(ctx, "lag", False, ks=(1, 2), mu=(1.,))
    usable(within(np.asarray(p.x, float), p.N), 1e-3)
    names = ctx.pick("pair", [("ML_LagFE", "ML_ErrorRE"), ("ML_ErrorFE", "ML_LagRE"), ("PanelFE", "PanelRE"), ("PanelFE", "ML_LagRE"),
                              ("ML_LagFE", "PanelRE")])
    a, b = [ctx.run(n, getattr(spreg, n), p.y, p.x, p.w) for n in names]
    ctx.refused("mixed", spreg.panel_Hausman, a, b)


def case_layout(ctx):
    """all tests from wide and long data are the same numbers"""
    import spreg
    from spreg.diagnostics_panel import BSK_tests
    p = c21.data(ctx, "lag", False, mu=(.5,))
    usable(np.hstack([one(p.n), p.x]), 1e-3)
    usable(means(np.hstack([one(p.n), p.x]), p.N), 1e-3)
    usable(within(np.asarray(p.x, float), p.N), 1e-3)
    if p.n - p.N - p.k < 3 or p.N - p.k < 4:
        raise Skip("no degrees of freedom")
    y, x = lay(ctx, p)
    for f in ("panel_LMlag", "panel_LMerror", "panel_rLMlag", "panel_rLMerror"):
        ctx.close("layout." + f, ctx.run(f, getattr(spreg, f), y, x, p.w), getattr(spreg, f)(p.y, p.x, p.w), rtol=1e-8, atol=1e-10)
    r1, r2 = spreg.PooledOLS(y, x, p.w, spat_diag=False), spreg.PooledOLS(p.y, p.x, p.w, spat_diag=False)
    t1, t2 = ctx.run("BSK", BSK_tests, r1, p.w), BSK_tests(r2, p.w)
    ctx.ok("layout.tests", list(t1["Test"]) == list(t2["Test"]))
    ctx.close("layout.bsk", t1[["Statistic", "p-value"]].to_numpy(float), t2[["Statistic", "p-value"]].to_numpy(float), rtol=1e-5, atol=1e-7)


SUBS = {"lm": (case_lm, 80, 1200), "bsk": (case_bsk, 120, 1500), "hausman": (case_hausman, 60, 600), "mixed": (case_mixed, 6, 30),
        "layout": (case_layout, 40, 500)}
