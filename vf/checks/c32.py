"""C32 endogenous regimes: the partition is that of the clustering on the documented inputs, the estimates are those of the
regime model at that partition."""
import warnings
import numpy as np
import pandas as pd
from scipy.sparse.csgraph import connected_components
from .. import models, relate
from ..core import Skip
from . import c27

RULE = ("OLS_, TSLS_ and GM_Lag_Endog_Regimes run on connected maps of every kind with regionally varying coefficients, given and "
        "automatic numbers of regimes, quorums and options. The recorded history is replayed on a spanning forest recomputed outside the "
        "library, scores are recomputed by separate regressions, the automatic number of regimes is compared with the public rule, and every "
        "value of the result with the regime model fitted at the reported partition.")
ASSUMPTIONS = ["connected maps with symmetric links", "distances between neighbours are all different (continuous regressors)",
               "the score of a lag model is that of two-stage least squares by cluster with lags over the whole map"]
CASE_LIMIT = 200
NAMES = ["OLS", "TSLS", "GM_Lag"]


def forest(data, A):
    """the minimum spanning forest"""
    n = len(A)
    D = np.linalg.norm(data[:, None] - data[None], axis=2)
    e = sorted((D[i, j], i, j) for i in range(n) for j in range(i + 1, n) if A[i, j])
    d = np.array([v[0] for v in e])
    if np.diff(d).min() <= 1e-9 * d.max():
        raise Skip("distances tie")
    lab, edges = list(range(n)), set()

    def root(a):
        while lab[a] != a:
            lab[a] = lab[lab[a]]
            a = lab[a]
        return a
    for _, i, j in e:
        a, b = root(i), root(j)
        if a != b:
            lab[a] = b
            edges.add((i, j))
    return edges


class Case:
    pass


def make(ctx, n=None, kmax=3):
    rng = ctx.rng
    c = Case()
    c.name = ctx.pick("model", NAMES)
    n = n or int(rng.integers(60, 110))
    c.ws, c.A = c27.world(ctx, n=[n])
    if c.name == "GM_Lag":
        c.ws.w.transform = "r"
    c.k = ctx.pick("k", list(range(1, kmax + 1)))
    x, y, _ = c27.observations(ctx, c.ws, c.A, c.k)
    c.n = n
    c.kw = {}
    c.yend = c.inst = None
    if c.name == "TSLS":
        m = ctx.pick("endogenous", [1, 2])
        c.inst = rng.normal(size=(n, m + ctx.pick("extra", [0, 1])))
        e = rng.normal(size=(n, m))
        c.yend = c.inst[:, :m] + .5 * e + .3 * rng.normal(size=(n, m))
        y = y + c.yend.sum(1, keepdims=True) + .5 * e.sum(1, keepdims=True)
    c.x, c.y = x, y
    z = x if c.yend is None else np.hstack([x, c.yend])
    c.std = (z - z.mean(0)) / z.std(0)
    W = np.asarray(c.ws.w.full()[0], float)
    one = np.ones((n, 1))
    if c.name == "OLS":
        c.score, c.tol = c27.ols_score(x, y), 1e-7
    elif c.name == "TSLS":
        Z, H = np.hstack([one, x, c.yend]), np.hstack([one, x, c.inst])

        def f(m):
            P = H[m] @ np.linalg.lstsq(H[m], Z[m], rcond=None)[0]
            return float(np.sum((y[m] - Z[m] @ np.linalg.lstsq(P, y[m], rcond=None)[0]) ** 2))
        c.score, c.tol = c27.Score(f), 1e-5
    else:
        c.score, c.tol = c27.lag_score(x, y, W), 1e-5
    c.args = (y, x) if c.yend is None else (y, x, c.yend, c.inst)
    ctx.sig = [c.name, n, c.k, round(float(y.sum()), 6)]
    return c


def fit(c, key, ctx, args=None, **o):
    import spreg
    cls = getattr(spreg, c.name + "_Endog_Regimes")
    got = []

    def go():
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            try:
                return cls(*(args or c.args), w=c.ws.w, **o)
            except ValueError as ex:
                if "score increased" in str(ex):
                    raise Skip("the best cut raises the sum of squares")
                raise
            finally:
                got.extend(str(v.message) for v in ws)
    r = ctx.run(key, go)
    return r, got


def refused(c, key, ctx, **o):
    import spreg
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ctx.refused(key, getattr(spreg, c.name + "_Endog_Regimes"), *c.args, w=c.ws.w, **o)


def least(c):
    """the least number of observations that can be estimated"""
    return {"OLS": c.k + 4, "TSLS": c.k + 8, "GM_Lag": 2 * c.k + 7}[c.name]


def steps(ctx, c, r, q):
    tr = getattr(r, "_trace", None)
    if not ctx.ok("trace.kept", tr is not None and len(tr) >= 2, "no history of the clustering"):
        return None
    good = [s for s in tr[1:] if s[0] is not None and len(s[0]) == c.n and np.isfinite(s[1].score)]
    cur, more = c27.replay(ctx, good, forest(c.std, c.A), c.A, q, c.score, c.k, c.tol)
    return good, cur, more


def partition(ctx, c, r, q):
    lab = np.asarray(r.clusters)
    if not ctx.ok("clusters.shape", lab.shape == (c.n,), "clusters has shape %s" % (lab.shape,)):
        return None
    groups = c27.split(lab)
    for g in groups:
        ctx.ok("clusters.connected", connected_components(c.A[np.ix_(g, g)])[0] == 1, "a regime is not connected")
        ctx.ok("clusters.quorum", len(g) >= q, "a regime of %d observations, quorum %d" % (len(g), q))
    ctx.close("clusters.score", float(r.score), sum(c.score(g) for g in groups), rtol=c.tol, atol=0)
    ctx.ok("clusters.used", r.nr == len(groups) and list(np.asarray(r.regimes)) == list(lab), "the regimes are not the clusters")
    return groups


def given(ctx):
    """a number of regimes chosen by the caller"""
    c = make(ctx)
    q = least(c) + int(ctx.rng.integers(0, 5))
    nc = ctx.pick("n_clusters", [v for v in (2, 3, 4) if c.n > v * q] or [2])
    r, said = fit(c, "fit", ctx, n_clusters=nc, quorum=q)
    got = partition(ctx, c, r, q)
    out = steps(ctx, c, r, q)
    if got is None or out is None:
        return
    good, cur, more = out
    ctx.ok("given.partition", c27.same_partition(np.asarray(r.clusters), cur), "clusters are not those of the last step")
    short = len(got) < nc
    ctx.note(found=len(got))
    if short:
        ctx.ok("given.stopped", more is False, "%d regimes instead of %d although more could be cut" % (len(got), nc))
        ctx.ok("given.warned", any("no valid moves" in s for s in said), "fewer regimes than asked without a warning")
    else:
        ctx.ok("given.count", len(got) == nc, "%d regimes instead of %d" % (len(got), nc))
    ssr = [float(v) for v in r.SSR]
    ctx.ok("given.SSR", ssr == [float(s[1].score) for s in good], "SSR does not list the scores of the steps")
    if c.name != "GM_Lag":
        ctx.close("given.fit", float(np.sum(r.u ** 2)), ssr[-1], rtol=1e-5, atol=0)


def automatic(ctx):
    """the number of regimes chosen by the documented rule; the default quorum"""
    import spreg
    c = make(ctx)
    kk = c.k + 1
    default = max(kk * 10, 30)
    own = ctx.pick("quorum", ["default", "given", "given"])
    if own == "default":
        q = default
        if int(c.n * .7 // q) < 2:
            refused(c, "automatic.too_small", ctx)
            return
        r, said = fit(c, "fit", ctx)
    else:
        q = least(c) + int(ctx.rng.integers(0, 8))
        if int(c.n * .7 // q) < 2:
            refused(c, "automatic.too_small", ctx, quorum=q)
            return
        r, said = fit(c, "fit", ctx, quorum=q)
    top = int(c.n * .7 // q)
    got = partition(ctx, c, r, q)
    out = steps(ctx, c, r, q)
    if got is None or out is None:
        return
    good, cur, more = out
    ssr = [float(v) for v in r.SSR]
    ctx.note(tried=len(ssr) + 1, chosen=len(got))
    ctx.ok("automatic.range", len(ssr) + 1 == top or (len(ssr) + 1 < top and more is False),
           "%d regimes tried, %d allowed" % (len(ssr) + 1, top))
    ctx.ok("automatic.SSR", ssr == [float(s[1].score) for s in good], "SSR does not list the scores of the steps")
    want = max(2, int(spreg.optim_k(ssr)))
    ctx.ok("automatic.rule", len(got) == want, "%d regimes, the rule gives %d" % (len(got), want))
    ctx.ok("automatic.partition", c27.same_partition(np.asarray(r.clusters), np.asarray(good[len(got) - 2][0])),
           "clusters are not those of the step with %d regimes" % len(got))
    ctx.close("automatic.score", float(r.score), ssr[len(got) - 2], rtol=1e-12, atol=0)


def estimates(ctx):
    """everything reported is what the regime model reports at the partition found"""
    import spreg
    c = make(ctx, n=int(ctx.rng.integers(70, 100)))
    rng = ctx.rng
    q = {"OLS": 3 * c.k + 10, "TSLS": 3 * c.k + 14, "GM_Lag": 4 * c.k + 14}[c.name]
    nc = ctx.pick("n_clusters", [2, 2, 3])
    if c.n <= nc * q:
        nc = 2
    kw = {}
    args = list(c.args)
    if ctx.pick("frame", [False, True]):
        args[0] = pd.Series(args[0].ravel(), name="dep")
        args[1] = pd.DataFrame(args[1], columns=["v%d" % i for i in range(c.k)])
        if c.yend is not None:
            args[2] = pd.DataFrame(args[2], columns=["e%d" % i for i in range(args[2].shape[1])])
            args[3] = pd.DataFrame(args[3], columns=["i%d" % i for i in range(args[3].shape[1])])
    elif ctx.pick("names", [False, True]):
        kw.update(name_y="dep", name_x=["v%d" % i for i in range(c.k)])
        if c.yend is not None:
            kw.update(name_yend=["e%d" % i for i in range(args[2].shape[1])], name_q=["i%d" % i for i in range(args[3].shape[1])])
    if ctx.pick("labels", [False, True]):
        kw.update(name_w="wname", name_ds="data")
    kw["robust"] = ctx.pick("robust", [None, "white"])
    kw["vm"] = ctx.pick("vm", [False, True])
    spat = ctx.pick("spat_diag", [False, True])
    kw["spat_diag"] = spat
    if c.name == "OLS":
        kw["nonspat_diag"] = ctx.pick("nonspat", [True, False])
        kw["moran"] = spat and kw["nonspat_diag"] and ctx.pick("moran", [True, False])
        kw["white_test"] = kw["nonspat_diag"] and ctx.pick("white_test", [False, True])
        kw["sig2n_k"] = ctx.pick("sig2n_k", [True, False])
    else:
        kw["sig2n_k"] = ctx.pick("sig2n_k", [False, True])
    if c.name == "GM_Lag":
        kw["w_lags"] = ctx.pick("w_lags", [1, 2])
        if ctx.pick("endog", [False, True]):
            inst = rng.normal(size=(c.n, 1))
            kw.update(yend=inst + rng.normal(size=(c.n, 1)), q=inst)
    const = ctx.pick("constant", [False, False, True])
    full = list(args)
    if const and not kw.get("name_x"):
        if isinstance(args[1], pd.DataFrame):
            full[1] = args[1].copy()
            full[1].insert(int(rng.integers(0, c.k + 1)), "one", 3.)
        else:
            full[1] = np.insert(args[1], int(rng.integers(0, c.k + 1)), 3., axis=1)
    elif const:
        i = int(rng.integers(0, c.k + 1))
        full[1] = np.insert(args[1], i, 3., axis=1)
        kw["name_x"] = kw["name_x"][:i] + ["one"] + kw["name_x"][i:]
    a, _ = fit(c, "fit", ctx, args=full, n_clusters=nc, quorum=q, **kw)
    if const:
        ctx.ok("estimates.notice", "removed for being constant" in str(getattr(a, "warning", "")), "a constant column dropped without a notice")
        if kw.get("name_x"):
            kw["name_x"] = [v for v in kw["name_x"] if v != "one"]
    err = {"regime_err_sep": c.name != "GM_Lag"}
    b = ctx.run("regime_model", lambda: getattr(spreg, c.name + "_Regimes")(
        *args, regimes=list(np.asarray(a.clusters)), w=c.ws.w, name_regimes="Skater_reg", constant_regi="many", cols2regi="all", **err, **kw))
    default_x = const and not kw.get("name_x") and not isinstance(args[1], pd.DataFrame)
    skip = ("warning", "SSR", "score", "clusters", "_trace") + (("name", "output", "summary", "title") if default_x else ())
    skip += ("summary",) if const else ()
    fa, fb = models.flat(a), models.flat(b)
    relate.compare(ctx, "estimates.same", fa, fb, 1e-8, skip=skip)
    ctx.ok("estimates.some", "betas" in fb and len(fb) > 10, "nothing to compare")


def options(ctx):
    """trace, arguments with one accepted value, impossible requests; arguments unchanged"""
    c = make(ctx, n=int(ctx.rng.integers(60, 90)), kmax=2)
    q = least(c) + 2
    nc = ctx.pick("n_clusters", [2, 3])
    if c.n <= nc * q:
        nc = 2
    before = [a.copy() for a in c.args]
    tr, W0 = c.ws.w.transform, np.asarray(c.ws.w.full()[0])
    a, _ = fit(c, "fit", ctx, n_clusters=nc, quorum=q)
    kind = ctx.pick("option", ["trace", "constant_regi", "cols2regi", "regime_err_sep", "quorum", "count", "vectors"])
    skip = ("warning", "_trace", "summary")
    if kind == "trace":
        b, _ = fit(c, "option", ctx, n_clusters=nc, quorum=q, trace=False)
    elif kind == "constant_regi":
        b, _ = fit(c, "option", ctx, n_clusters=nc, quorum=q, constant_regi="one")
    elif kind == "cols2regi":
        b, _ = fit(c, "option", ctx, n_clusters=nc, quorum=q, cols2regi=[False] * c.k)
    elif kind == "regime_err_sep":
        b, _ = fit(c, "option", ctx, n_clusters=nc, quorum=q, regime_err_sep=c.name == "GM_Lag")
    elif kind == "vectors":
        args = list(c.args)
        args[0] = args[0].ravel()
        b, _ = fit(c, "option", ctx, args=args, n_clusters=nc, quorum=q)
    elif kind == "quorum":
        refused(c, "options.quorum", ctx, n_clusters=nc, quorum=c.n // nc + 1)
        return
    else:
        refused(c, "options.count", ctx, n_clusters=c.n // q + 1, quorum=q)
        return
    if kind in ("constant_regi", "cols2regi", "regime_err_sep"):
        ctx.ok("options.said", "accepted" in str(getattr(b, "warning", "")), "%s set to an ignored value without a notice" % kind)
    ctx.ok("options.clusters", np.array_equal(np.asarray(a.clusters), np.asarray(b.clusters)), "%s changes the partition" % kind)
    relate.compare(ctx, "options.same", models.flat(a), models.flat(b), 1e-9, skip=skip)
    ctx.ok("options.inputs", all(np.array_equal(u, v) for u, v in zip(before, c.args)) and c.ws.w.transform == tr
           and np.array_equal(np.asarray(c.ws.w.full()[0]), W0), "arguments changed")


def rule(ctx):
    """the rule for the number of regimes, on any decreasing series"""
    import spreg
    rng = ctx.rng
    N = int(rng.integers(1, 40))
    kind = ctx.pick("series", ["smooth", "jump", "flat", "geometric"])
    if kind == "smooth":
        s = np.sort(rng.uniform(1, 100, N))[::-1]
    elif kind == "jump":
        s = np.sort(rng.uniform(50, 60, N))[::-1]
        s[int(rng.integers(0, N)):] -= 40
    elif kind == "flat":
        s = np.full(N, 7.)
    else:
        s = 100 * .9 ** np.arange(N)
    win = ctx.pick("window", [None, None, "given"])
    if win == "given":
        win = int(rng.integers(2, N + 1)) if N >= 2 else None
    ctx.sig = [N, kind, win, round(float(s.sum()), 6)]
    as_list = ctx.pick("as", ["list", "array"])
    give = (lambda v: v.tolist()) if as_list == "list" else (lambda v: v)
    k = ctx.run("optim_k", spreg.optim_k, give(s.copy()), window_size=win)
    size = win or (N // 4 if N // 4 >= 2 else N)
    ctx.ok("rule.range", size <= int(k) <= N and int(k) == k, "%r for %d values, window %s" % (k, N, size))
    for f in (2. ** -20, 8., 2. ** 24):
        ctx.ok("rule.scale", ctx.run("optim_k", spreg.optim_k, give(s * f), window_size=win) == k, "the choice depends on the unit")
    if kind == "jump" and win is None and size < N:
        ctx.note(jump=int(np.argmin(np.diff(s))) if N > 1 else 0)
    # the choice at a value depends on what comes before it only
    if k < N:
        t = s.copy()
        t[int(k) + 0:] *= .5
        ctx.ok("rule.past", ctx.run("optim_k", spreg.optim_k, give(t), window_size=win) <= N, "out of range")
        u = s[:int(k)]
        if win is not None or size == len(u) // 4:
            ctx.ok("rule.prefix", ctx.run("optim_k", spreg.optim_k, give(u), window_size=size) == int(k), "a prefix gives another choice")


SUBS = {
    "given": (given, 40, 400),
    "automatic": (automatic, 40, 400),
    "estimates": (estimates, 48, 480),
    "options": (options, 48, 480),
    "rule": (rule, 60, 600),
}
