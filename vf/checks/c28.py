"""C28 specification searches: the documented decision tree replayed on statistics obtained outside the search."""
import numpy as np
import pandas as pd
from scipy import stats
from .. import gen, ref, models
from ..core import Skip, StopCase
from . import c17

RULE = ("Every search on data generated by each of the eight model families on maps of several kinds, with significance levels that "
        "lie between the p-values at hand so that all branches are entered; the tests of each stage are recomputed from y, X, W (LM tests, "
        "Anselin-Kelejian, common factor) or from separately called estimators, the decision tree is replayed on them, and the "
        "returned label, the returned model (against a direct fit of the model of that name) and the printed text are compared.")
ASSUMPTIONS = ["no constant column among the regressors", "no p-value within 1e-6 (relative) of the significance level"]
CASE_LIMIT = 90
SEARCH = ["stge_classic", "stge_kb", "stge_pre", "gets_gns", "gets_sdm"]
TITLE = {"stge_classic": "STGE-Classic", "stge_kb": "STGE-KB", "stge_pre": "STGE-Pre", "gets_gns": "GETS-GNS", "gets_sdm": "GETS-SDM"}


class OutOfBounds(Exception):
    pass


def p2(reg):
    """p-values of the coefficients from the coefficients and their covariance"""
    b, v = np.ravel(reg.betas), np.diag(np.asarray(reg.vm))[:len(np.ravel(reg.betas))]
    return 2 * stats.norm.sf(np.abs(b / np.sqrt(v)))


class Case:
    def __init__(self, ctx, d, opts, spreg):
        self.ctx, self.d, self.spreg, self.k = ctx, d, spreg, d.x.shape[1]
        self.w_lags = opts.get("w_lags", 2)
        self.names = {}
        self.memo = {}
        self.seen = []
        self.y, self.x = d.y, d.x

    def fit(self, what):
        """direct fits of the models by name"""
        if what in self.memo:
            r = self.memo[what]
            if isinstance(r, Exception):
                raise OutOfBounds(str(r))
            return r
        s, kw = self.spreg, dict(self.names)
        lag = dict(w_lags=self.w_lags, hard_bound=True)
        call = {
            "OLS": lambda: s.OLS(self.y, self.x, w=self.d.w, spat_diag=True, **kw),
            "SLX": lambda: s.OLS(self.y, self.x, w=self.d.w, spat_diag=True, slx_lags=1, **kw),
            "LAG": lambda: s.GM_Lag(self.y, self.x, w=self.d.w, **lag, **kw),
            "SDM": lambda: s.GM_Lag(self.y, self.x, w=self.d.w, slx_lags=1, **lag, **kw),
            "ERROR": lambda: s.GMM_Error(self.y, self.x, w=self.d.w, hard_bound=True, **kw),
            "SLX-ERR": lambda: s.GMM_Error(self.y, self.x, w=self.d.w, slx_lags=1, hard_bound=True, **kw),
            "SARSAR": lambda: s.GMM_Error(self.y, self.x, w=self.d.w, add_wy=True, **lag, **kw),
            "GNS": lambda: s.GMM_Error(self.y, self.x, w=self.d.w, add_wy=True, slx_lags=1, **lag, **kw)}[what]
        try:
            with self.ctx.quiet():
                r = call()
        except Exception as e:
            self.memo[what] = e
            raise OutOfBounds(str(e))
        self.memo[what] = r
        return r

    def possible(self, what):
        try:
            self.fit(what)
            return True
        except OutOfBounds:
            return False

    def p(self, v):
        self.seen.append(float(v))
        return float(v)

    # the statistics
    def lm(self, slx):
        d = self.d
        X = d.X if not slx else np.hstack([d.X, d.W @ d.x])
        e = c17.want(d.y, X, d.W) if not slx else c17.no_kb(d.y, X, d.W)
        return {a: self.p(stats.chi2.sf(max(v[0], 0), v[1])) for a, v in e.items()}

    def ak(self, what):
        r = self.fit(what)
        return self.p(stats.chi2.sf(c17.ak(self.d.W, np.asarray(r.u), np.asarray(r.z), np.asarray(r.h))[1], 1))

    def cf(self):
        k = self.k
        r = self.fit("SDM")
        b, V = np.ravel(r.betas)[1:], np.asarray(r.vm)[1:2 * k + 2, 1:2 * k + 2]
        g = b[2 * k] * b[:k] + b[k:2 * k]
        D = np.hstack([b[2 * k] * np.eye(k), np.eye(k), b[:k].reshape(-1, 1)])
        return self.p(stats.chi2.sf(float(g @ np.linalg.solve(D @ V @ D.T, g)), k))

    def spatial(self, what):
        """p-values of everything after the constant and the regressors"""
        return np.array([self.p(v) for v in p2(self.fit(what))[1 + self.k:]])

    # the trees: each returns (label, model of the final fit, path)
    def classic(self, p, slx=0):
        t = self.lm(slx)
        e, l, re_, rl = t["lm_error"], t["lm_lag"], t["rlm_error"], t["rlm_lag"]
        if l >= p and e >= p:
            return "none"
        if e >= p:
            return "lag"
        if l >= p:
            return "err"
        if rl < p and re_ >= p:
            return "lag-r"
        if rl >= p and re_ < p:
            return "err-r"
        if rl < p and re_ < p:
            try:
                if self.ak("SDM" if slx else "LAG") <= p:
                    return "both"
            except OutOfBounds:
                return "lag-br!" if rl <= re_ else "err-br!"
            return "lag-br" if rl <= re_ else "err-br"
        return "lag-nr" if rl <= re_ else "err-nr"

    def stge_classic(self, p):
        path = self.classic(p)
        lab, fin = {"none": ("OLS", "OLS"), "lag": ("LAG", "LAG"), "err": ("ERROR", "ERROR"), "lag-r": ("LAGr", "LAG"),
                    "err-r": ("ERRORr", "ERROR"), "both": ("SARSAR", "SARSAR"), "lag-br": ("LAG_Br", "LAG"),
                    "err-br": ("ERROR_Br", "ERROR"), "lag-nr": ("LAG_Nr", "LAG"), "err-nr": ("ERROR_Nr", "ERROR")}[path.rstrip("!")]
        return lab, fin, path

    def stge_pre(self, p):
        t = self.lm(0)
        slx = int(t["lm_wx"] < p and t["rlm_wx"] < p)
        path = self.classic(p, slx)
        fin = {"non": "OLS", "lag": "LAG", "err": "ERROR", "bot": "SARSAR"}[path[:3]]
        if slx:
            fin = {"OLS": "SLX", "LAG": "SDM", "ERROR": "SLX-ERR", "SARSAR": "GNS"}[fin]
        return fin, fin, "%d-%s" % (slx, path)

    def stge_kb(self, p):
        t = self.lm(0)
        if t["lm_spdurbin"] > p:
            return "OLS", "OLS", "joint"
        wx, ly = t["rlm_wx"] < p, t["rlm_durlag"] < p
        m = "SDM" if wx and ly else "LAG" if ly else "SLX" if wx else "OLS"
        return m, m, "%d%d" % (wx, ly)

    def gets_gns(self, p):
        s = self.spatial("GNS")
        if s.max() < p:
            return "GNS", "GNS", "gns"
        if s.min() >= p:
            return "OLS", "OLS", "gns-none"
        weakest = int(s.argmax())
        if weakest == len(s) - 1:
            s = self.spatial("SDM")
            if s.max() < p:
                m = "SDM" if self.cf() < p else "ERROR"
                return m, m, "lambda-sdm-" + m
            if s.min() >= p:
                return "OLS", "OLS", "lambda-none"
            m = "SLX" if s.argmax() == len(s) - 1 else "LAG"
            return m, m, "lambda-" + m
        if weakest == len(s) - 2:
            s = self.spatial("SLX-ERR")
            if s.max() < p:
                return "SLX-ERR", "SLX-ERR", "rho-slxerr"
            if s.min() >= p:
                return "OLS", "OLS", "rho-none"
            m = "SLX" if s.argmax() == len(s) - 1 else "ERROR"
            return m, m, "rho-" + m
        s = self.spatial("SARSAR")
        if s.max() < p:
            return "SARSAR", "SARSAR", "gamma-sarsar"
        if s.min() >= p:
            return "OLS", "OLS", "gamma-none"
        m = "LAG" if s.argmax() == len(s) - 1 else "ERROR"
        return m, m, "gamma-" + m

    def gets_sdm(self, p):
        s = self.spatial("SDM")
        if s.max() < p:
            if self.cf() >= p:
                return "ERROR", "ERROR", "comfac"
            m = "GNS" if self.ak("SDM") < p else "SDM"
            return m, m, "sdm-" + m
        if s.min() >= p:
            m = "ERROR" if self.lm(0)["lm_error"] < p else "OLS"
            return m, m, "none-" + m
        if s.argmax() == len(s) - 1:
            m = "SLX-ERR" if self.lm(1)["lm_error"] < p else "SLX"
            return m, m, "rho-" + m
        m = "SARSAR" if self.ak("LAG") < p else "LAG"
        return m, m, "gamma-" + m


def data(ctx):
    rng = ctx.rng
    n = int(rng.integers(40, 120))
    d = gen.dataset(rng, n=n, k=ctx.pick("k", [1, 2, 3, 5]), kind=ctx.pick("W", gen.ALL_KINDS), transform="r",
                    ids=ctx.pick("ids", ["int", "str", "perm"]), style=ctx.pick("style", ["normal", "mixed"]))
    dgp = ctx.pick("dgp", ["OLS", "LAG", "ERROR", "SLX", "SDM", "SLX-ERR", "SARSAR", "GNS", "comfac", "edge"])
    I = np.eye(d.n)
    rho = rng.uniform(.2, .8) * (1 if ctx.pick("sign_rho", [1, 1, -1]) > 0 else -1)
    lam = rng.uniform(.2, .8) * (1 if ctx.pick("sign_lam", [1, 1, -1]) > 0 else -1)
    b = np.vstack([[1.], rng.choice([-1, 1], (d.k, 1)) * rng.uniform(.4, 1.5, (d.k, 1)) / np.maximum(d.x.std(0), 1e-3).reshape(-1, 1)])
    g = rng.normal(0, 1, (d.k, 1)) * ctx.pick("gamma", [.3, 1., 3.]) / np.maximum(d.x.std(0), 1e-3).reshape(-1, 1)
    e = rng.normal(size=(d.n, 1)) * ctx.pick("noise", [.2, 1., 1., 3.])
    if dgp == "edge":
        rho, lam = rng.choice([-1, 1]) * rng.uniform(.9, .99, 2)
        g = rng.normal(size=g.shape)
    m = d.X @ b
    if dgp in ("SLX", "SDM", "SLX-ERR", "GNS", "edge"):
        m = m + d.W @ d.x @ g
    if dgp == "comfac":
        dgp = "ERROR"
    if dgp in ("ERROR", "SLX-ERR", "SARSAR", "GNS", "edge"):
        e = np.linalg.solve(I - lam * d.W, e)
    y = m + e
    if dgp in ("LAG", "SDM", "SARSAR", "GNS", "edge"):
        y = np.linalg.solve(I - rho * d.W, y)
    d.y = y
    Q = np.hstack([d.X, d.W @ d.x])
    if np.linalg.cond(Q / np.linalg.norm(Q, axis=0)) > 300 or c17.weak_wx(d.X, d.W):
        raise Skip("lagged regressors nearly in the span of the regressors")
    return d


def names(ctx, d, frames):
    """names given to the search and names the models must carry"""
    how = ctx.pick("names", ["none", "all", "all", "y", "x"])
    ny, nx = "price", ["col_%s" % c for c in "abcde"[:d.k]]
    kw, want = {}, {}
    if how in ("all", "y"):
        kw["name_y"] = ny
    if how in ("all", "x"):
        kw["name_x"] = list(nx)
    want.update(kw)
    if frames:
        want.setdefault("name_y", "v")
        want.setdefault("name_x", ["f%d" % j for j in range(d.k)])
    else:
        want.setdefault("name_y", "dep_var")
        want.setdefault("name_x", ["var_%d" % (j + 1) for j in range(d.k)])
    if ctx.pick("name_w", [False, True]):
        kw["name_w"] = want["name_w"] = "links"
        kw["name_ds"] = want["name_ds"] = "sample"
    if ctx.pick("latex", [False, False, False, True]):
        kw["latex"] = want["latex"] = True
    return kw, want


def copy(want):
    return {a: (list(v) if isinstance(v, list) else v) for a, v in want.items()}


def mk(name):
    def case(ctx):
        import spreg
        d = data(ctx)
        o = {}
        if ctx.pick("own_w_lags", [False, True]):
            o["w_lags"] = ctx.pick("w_lags", [1, 2, 3])
        c = Case(ctx, d, o, spreg)
        frames = ctx.pick("frames", [False, False, True])
        if frames:
            c.y, c.x = pd.DataFrame(d.y, columns=["v"]), pd.DataFrame(d.x, columns=["f%d" % j for j in range(d.k)])
        kw, c.names = names(ctx, d, frames)
        o.update(kw)
        ctx.sig = [name, d.n, round(float(d.y.sum()), 6)]
        tree = getattr(c, name)
        level = ctx.pick("level", ["default", "between", "between", "between", "usual"])
        p = .01
        lab = None
        try:
            if level != "default":
                p = .05
                if level == "between":
                    # collect the p-values met on the way at a few levels, then sit between two of them
                    for q in (1e-4, .01, .2, .6):
                        try:
                            tree(q)
                        except OutOfBounds:
                            pass
                    v = np.unique(np.clip(c.seen, 1e-9, 1))
                    v = v[np.concatenate([[True], np.diff(np.log(v)) > 1e-4])] if len(v) else v
                    if len(v) > 1:
                        ways = {}
                        for q in np.sqrt(v[1:] * v[:-1]):
                            try:
                                ways.setdefault(tree(q)[2], []).append(float(q))
                            except OutOfBounds:
                                ways.setdefault("out", []).append(float(q))
                        w = sorted(ways)[int(ctx.rng.integers(len(ways)))]
                        p = ways[w][int(ctx.rng.integers(len(ways[w])))]
                o["p_value"] = p
            c.seen = []
            lab, fin, path = tree(p)
        except OutOfBounds:
            path = "out"
        if any(abs(v - p) < 1e-6 * p for v in c.seen):
            raise Skip("a p-value at the significance level")
        finmod = ctx.pick("finmod", [True, True, True, False])
        mprint = ctx.pick("mprint", [False, False, True])
        if not finmod:
            o["finmod"] = False
        o["mprint"] = mprint
        ctx.note(path=path)
        with_names = copy(o)
        x0, y0 = np.array(d.x), np.array(d.y)
        got = ctx.run("call", getattr(spreg, name), c.y, c.x, d.w, **with_names)
        out = ctx._out
        ctx.ok("inputs", np.array_equal(x0, d.x) and np.array_equal(y0, d.y) and d.w.transform == "R" and with_names == o,
               "the arguments were changed")
        if not ctx.ok("pair", isinstance(got, tuple) and len(got) == 2, "%r" % (got,)):
            return
        label, model = got
        if path == "out":
            ctx.ok("out.label", "Exception" in label, "label %s although a model on the way lies outside its bounds" % label)
            ctx.ok("out.model", model is False, "a model was returned")
            return
        if not finmod:
            ctx.ok("label", same_label(label, lab), "%s instead of %s (path %s, p=%g)" % (label, lab, path, p))
            ctx.ok("no_model", model is False, "a model although finmod=False")
            ctx.ok("no_print", out.strip() == "", "printed %r" % out[:80])
            return
        if not c.possible(fin):
            ctx.ok("label.exception", label.split(" -- ")[0].lower() == lab.lower() and "Exception" in label,
                   "%s instead of %s with exception (path %s)" % (label, lab, path))
            ctx.ok("exception.model", model is False, "a model although its parameters lie outside the bounds")
            return
        if not ctx.ok("label", same_label(label, lab), "%s instead of %s (path %s, p=%g)" % (label, lab, path, p)):
            return
        want = c.fit(fin)
        if not ctx.ok("model.class", type(model).__name__ == type(want).__name__, "%s instead of %s" % (type(model).__name__, type(want).__name__)):
            return
        a, b = models.flat(model), models.flat(want)
        ctx.ok("model.attributes", set(a) == set(b), "%s" % sorted(set(a) ^ set(b))[:6])
        bad = [q for q in sorted(set(a) & set(b)) if not agree(a[q], b[q])]
        ctx.ok("model.values", not bad, "the returned %s differs from a direct fit in %s" % (fin, bad[:6]))
        ctx.ok("model.names", [str(v) for v in model.output["var_names"]][1:1 + d.k] == c.names["name_x"] and model.name_y == c.names["name_y"],
               "names %s, %s" % (model.name_y, list(model.output["var_names"])))
        if mprint:
            ctx.ok("print", out.strip() == ("Model selected by %s: %s\n%s" % (TITLE[name], label, want.summary)).strip(), out[:200])
        else:
            ctx.ok("no_print", out.strip() == "", "printed %r" % out[:80])
    return case


def agree(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=1e-6, atol=1e-9 * max(1e-300, np.nanmax(np.abs(b)) if b.size else 1), equal_nan=True))


def same_label(got, want):
    """SLX-ERR is spelled SLX-Err by some searches, LAG_Br LAG_BR"""
    return got.lower() == want.lower()


def options(ctx):
    """standard errors as asked for"""
    import spreg
    d = data(ctx)
    name = ctx.pick("search", SEARCH)
    ctx.sig = [name, d.n, round(float(d.y.sum()), 6)]
    p = ctx.pick("p_value", [.01, .1, .5])
    o = dict(p_value=p, mprint=False)
    what = ctx.pick("option", ["robust", "sig2n_k"])
    if what == "robust":
        o["robust"] = "white"
    else:
        o["sig2n_k"] = ctx.pick("sig2n_k", [True, False])
    label, model = ctx.run("call", getattr(spreg, name), d.y, d.x, d.w, **o)
    if model is False or type(model).__name__ not in ("OLS", "GM_Lag"):
        raise Skip("no model whose variance depends on the option")
    e = np.ravel(model.u)
    if type(model).__name__ == "OLS":
        X = np.asarray(model.x)
        Z = H = X
    else:
        Z, H = np.asarray(model.z), np.asarray(model.h)
    P = H @ np.linalg.lstsq(H, Z, rcond=None)[0]
    V = np.linalg.inv(P.T @ P)
    if what == "robust":
        ctx.close("options.robust", np.asarray(model.vm), V @ (P.T * e ** 2) @ P @ V, rtol=1e-3, atol=1e-6 * np.abs(V).max() * e.var())
    else:
        s2 = (e ** 2).sum() / (len(e) - (Z.shape[1] if o["sig2n_k"] else 0))
        ctx.close("options.sig2n_k", np.asarray(model.vm), V * s2, rtol=1e-4, atol=1e-6 * np.abs(V).max() * s2)


SUBS = {n: (mk(n), 280, 3000) for n in SEARCH}
SUBS["options"] = (options, 30, 200)
