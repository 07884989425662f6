"""Registry of fits: every public estimator with valid, well-conditioned data and options drawn at random.

A Fit knows the keyword arguments of one call and the role every argument plays, so
that one relation (permutation, units, representation, history, workers, coherence)
can be monitored over the whole public surface."""
import numpy as np
from . import gen, ref
from .core import Skip

PLAIN = ["OLS", "OLS_white", "OLS_hac", "OLS_slx", "TSLS", "TSLS_hac", "TSLS_slx", "Probit", "NSLX"]
SPATIAL = ["GM_Lag", "GM_Lag_endog", "GM_Lag_durbin", "ML_Lag", "ML_Lag_durbin", "ML_Error", "ML_Error_slx", "GM_Error",
           "GM_Endog_Error", "GM_Combo", "GM_Combo_endog", "GM_Error_Het", "GM_Endog_Error_Het", "GM_Combo_Het",
           "GM_Error_Hom", "GM_Endog_Error_Hom", "GM_Combo_Hom", "GMM_Error"]
REGIMES = ["OLS_Regimes", "TSLS_Regimes", "GM_Lag_Regimes", "ML_Lag_Regimes", "ML_Error_Regimes", "GM_Error_Regimes",
           "GM_Endog_Error_Regimes", "GM_Combo_Regimes", "GM_Error_Het_Regimes", "GM_Endog_Error_Het_Regimes",
           "GM_Combo_Het_Regimes", "GM_Error_Hom_Regimes", "GM_Endog_Error_Hom_Regimes", "GM_Combo_Hom_Regimes",
           "GMM_Error_Regimes"]
SURS = ["SUR", "SUR_iter", "ThreeSLS", "SURerrorGM", "SURerrorML", "SURlagIV", "SUR_reg", "ThreeSLS_reg", "SURerrorGM_reg",
        "SURerrorML_reg", "SURlagIV_reg"]
PANEL = ["PooledOLS", "PanelFE", "PanelRE", "GM_ErrorPooled", "ML_ErrorPooled", "GM_ErrorRE", "ML_ErrorFE", "ML_ErrorRE",
         "ML_LagFE", "ML_LagRE", "GM_KKP", "Panel_FE_Lag", "Panel_FE_Error", "Panel_RE_Lag", "Panel_RE_Error"]
CROSS = PLAIN + SPATIAL + REGIMES
ALL = CROSS + SURS + PANEL

# how precisely a fit is determined by its data (relative to std. errors / own size)
ITER = ("ML_", "GM_Error", "GM_Endog", "GM_Combo", "GMM_", "SURerror", "Panel_", "NSLX", "Probit", "GM_KKP")


class Fit:
    def __init__(self, label, cls):
        self.label, self.cls = label, cls
        self.kw, self.roles, self.tags = {}, {}, set()
        self.d = self.g = None

    def put(self, role, **kw):
        for k, v in kw.items():
            self.kw[k] = v
            self.roles[k] = role

    def opt(self, **kw):
        self.kw.update(kw)

    def call(self, spreg, **over):
        kw = dict(self.kw)
        kw.update(over)
        return getattr(spreg, self.cls)(**kw)

    @property
    def iterative(self):
        return self.cls.startswith(ITER)


XNAMES = ["inc", "unemp", "age", "dens", "edu", "rent", "dist", "area", "crime", "road", "park", "farm"]

def make(ctx, label, transform=None, names=None, symmetric=False, small=False, n=None, style="normal", ids=None, kmin=1, R=None,
         sep=None):
    rng = ctx.rng
    m = Fit(label, label.split("_white")[0].split("_hac")[0].split("_slx")[0].split("_durbin")[0].split("_iter")[0]
            .removesuffix("_reg"))
    if m.cls.endswith("_endog"):
        m.cls = m.cls[:-6]
    if label in SURS:
        return _sur(ctx, m, transform, names)
    if label in PANEL:
        return _panel(ctx, m, transform, names)
    reg = m.cls.endswith("_Regimes")
    endog = "TSLS" in label or "_endog" in label or "Endog" in label
    lagm = "Lag" in label or "Combo" in label
    err = "Error" in label or "Combo" in label
    if reg:
        R = R or ctx.pick("R", [2, 2, 3, 2, 3, 4])
    else:
        R = 1
    k = max(kmin, ctx.pick("k", [1, 2, 3] if label.startswith("NSLX") else [1, 2, 3, 5]))
    if lagm:
        k = max(k, 2)
    wide = not label.startswith(("NSLX", "Probit", "OLS_Regimes")) and n is None and ctx.pick("wide", [False] * 11 + [True])
    if wide:                  # two-digit numbers of variables
        k = 11
    if "Combo" in label:
        n = n or int(rng.integers(75, 95)) * R * (2 if wide else 1)
    n = n or (int(rng.integers(38, 60)) * R if reg else int(rng.integers(50, 90))) * (2 if wide else 1)
    kinds = gen.SYM_KINDS if symmetric else gen.ALL_KINDS
    tr = transform or ("r" if err or label.startswith("ML") else ctx.pick("transform", ["r", "r", "o", "b"]))
    nend = ctx.pick("nend", [1, 1, 2]) if endog else 0
    spatial = label in SPATIAL or reg
    d = gen.dataset(rng, n=n, k=k, kind=ctx.pick("W", kinds), transform=tr, ids=ids or ctx.pick("ids", ["int", "str", "perm"]),
                    nend=nend, niv=nend + ctx.pick("over", [0, 1]) if nend else 0, style=style,
                    rho=.35 if lagm else 0., lam=.4 if err else 0., sig=.8)
    m.d = d
    if label == "Probit":
        d.y = (d.y > np.median(d.y) + rng.normal(0, .2)).astype(float)
        ystar = d.x @ rng.uniform(.4, .8, k).reshape(-1, 1) + rng.normal(size=(d.n, 1))
        d.y = (ystar > np.median(ystar)).astype(float)
    m.put("y", y=d.y)
    m.put("x", x=d.x)
    if nend:
        m.put("yend", yend=d.yend)
        m.put("q", q=d.q)
    if reg:
        g = gen.regimes(rng, d.n, R, ctx.pick("labels", ["str", "int", "float", "digit"]),
                        pattern=ctx.pick("pattern", ["random", "block", "cyclic"]), minsize=30)
        m.g = g
        beta = rng.normal(0, .7, (R, k + 1))
        d.y = d.y + np.sum(d.X * beta[g.codes], axis=1, keepdims=True)
        m.put("y", y=d.y)
        m.put("regimes", regimes=g.arg)
        m.tags.add("regimes")
    if label.startswith("NSLX"):
        coords = rng.uniform(0, 10, (d.n, 2))
        m.put("coords", coords=coords)
        D = np.sqrt(((coords[:, None] - coords[None]) ** 2).sum(-1))
        np.fill_diagonal(D, np.inf)
        Wk = np.where(D <= np.sort(D, axis=1)[:, 5:6], 1 / D ** 1.3, 0)
        d.y = 1 + d.x.sum(1, keepdims=True) + Wk @ d.x[:, :1] + rng.normal(0, .4, (d.n, 1))
        m.put("y", y=d.y)
        m.opt(params=[(6, np.inf, "power")] if k == 1 or True else None)
        sel = [True] + [False] * (k - 1)
        m.opt(slx_vars=sel)
        _names(ctx, m, names)
        return m
    if spatial and label not in ("OLS_Regimes", "TSLS_Regimes"):
        m.put("w", w=d.w)
    # options
    if label in ("OLS", "OLS_white", "OLS_Regimes"):
        m.put("w", w=d.w)
        m.opt(spat_diag=True, white_test=True, nonspat_diag=True)
        if ctx.pick("moran", [True, False]):
            m.opt(moran=True)
        if label == "OLS":
            m.opt(vif=True)
    if label == "TSLS_Regimes" and ctx.pick("diag", [False, True]):
        m.put("w", w=d.w)
        m.opt(spat_diag=True)
    if label.endswith("_white"):
        m.opt(robust="white")
    if label.endswith("_hac"):
        gk, K = gen.kernel(rng, d.n, "triangular", k=6)
        d.K = K
        m.put("gwk", gwk=gk)
        m.opt(robust="hac")
    if label.endswith("_slx"):
        m.put("w", w=d.w)
        m.opt(slx_lags=ctx.pick("slx_lags", [1, 2]) if label != "ML_Error_slx" else 1)
        if ctx.pick("slx_vars", ["all", "list"]) == "list":
            sel = [bool(v) for v in rng.integers(0, 2, k)]
            sel[int(rng.integers(k))] = True
            m.opt(slx_vars=sel)
    if label.endswith("_durbin"):
        m.opt(slx_lags=1)
    if m.cls == "TSLS" and not label.endswith("_slx"):
        m.put("w", w=d.w)
        m.opt(spat_diag=True)
    if m.cls.startswith(("GM_Lag",)):
        m.opt(w_lags=ctx.pick("w_lags", [1, 2, 3]), robust=ctx.pick("robust", [None, "white"]))
    if m.cls.startswith("ML_") and label not in ("ML_Lag_durbin", "ML_Error_slx"):
        m.opt(method=ctx.pick("method", ["full", "LU", "ord"]))
    if m.cls.startswith(("GM_Lag", "ML_Lag")):
        m.opt(spat_impacts=ctx.pick("impacts", ["simple", "full"]))
    if "_Het" in m.cls:
        m.opt(step1c=ctx.pick("step1c", [False, True]))
        if endog or lagm:
            m.opt(inv_method="true_inv")
    if "_Hom" in m.cls:
        m.opt(A1=ctx.pick("A1", ["hom_sc", "het"]))
    if m.cls.startswith("GMM_Error"):
        m.opt(estimator=ctx.pick("estimator", ["het", "hom", "kp98"]), add_wy=ctx.pick("add_wy", [False, False, True]))
    if reg:
        if sep is None:
            sep = ctx.pick("err_sep", [True, False])
        if m.cls.startswith(("OLS", "TSLS", "GM_", "ML_Error", "GMM")) and not m.cls.startswith("ML_Lag"):
            m.opt(regime_err_sep=sep)
        if m.cls.startswith(("GM_Lag", "ML_Lag", "GM_Combo")) and sep:
            m.opt(regime_lag_sep=True)
        if m.kw.get("add_wy") and sep:
            m.opt(regime_lag_sep=True)
        if not sep:
            c2 = ctx.pick("cols2regi", ["all", "list"])
            if c2 == "list":
                fl = [bool(v) for v in rng.integers(0, 2, k + nend)]
                if not any(fl):
                    fl[0] = True
                m.opt(cols2regi=fl)
        else:
            m.tags.add("multi")
    if label == "Probit":
        m.put("w", w=d.w)
        m.opt(spat_diag=True, scalem=ctx.pick("scalem", ["phimean", "xmean"]))
    if ctx.pick("vm", [False, True]):
        m.opt(vm=True)
    _names(ctx, m, names)
    return m


def _names(ctx, m, names):
    if names is None:
        names = ctx.pick("names", [False, True])
    m.names = names
    if not names:
        return
    k = m.d.k
    m.opt(name_y="HR", name_x=XNAMES[:k], name_ds="nat.csv")
    if "yend" in m.kw:
        m.opt(name_yend=["pol", "npol"][:m.d.yend.shape[1]], name_q=["inst%d" % i for i in range(m.d.q.shape[1])])
    if "regimes" in m.kw:
        m.opt(name_regimes="SOUTH")
    if "w" in m.kw:
        m.opt(name_w="wq")
    if "gwk" in m.kw:
        m.opt(name_gwk="kern")
    if "coords" in m.kw:
        m.opt(name_coords=["lon", "lat"])


def _sur(ctx, m, transform, names):
    rng = ctx.rng
    ne = ctx.pick("n_eq", [2, 3])
    lagm = m.cls == "SURlagIV"
    spatial = m.cls.startswith("SURerror") or lagm
    reg = m.label.endswith("_reg")
    n = int(rng.integers(60, 90)) * (2 if reg else 1)
    d = gen.D()
    ws = gen.weights(rng, n, ctx.pick("W", gen.ALL_KINDS), "r", ctx.pick("ids", ["int", "str", "perm"]))
    n = ws.n
    d.ws, d.w, d.W, d.n = ws, ws.w, ws.full, n
    ks = [int(rng.integers(1, 4)) for _ in range(ne)]
    same = ctx.pick("same_k", [True, False])
    if same:
        ks = [ks[0]] * ne
    d.ks = ks
    L = np.tril(rng.normal(0, .5, (ne, ne)), -1) + np.diag(rng.uniform(.6, 1.2, ne))
    E = rng.normal(size=(n, ne)) @ L.T
    d.bigy, d.bigX, d.bigyend, d.bigq = {}, {}, {}, {}
    V = rng.normal(size=(n, ne))
    for r in range(ne):
        x = rng.normal(size=(n, ks[r])) + .5
        X = np.hstack([np.ones((n, 1)), x])
        e = E[:, r]
        if m.cls.startswith("SURerror"):
            e = np.linalg.solve(np.eye(n) - rng.uniform(.2, .5) * d.W, e)
        y = X @ rng.uniform(.5, 1.5, ks[r] + 1) + e
        if m.cls == "ThreeSLS" or (lagm and ctx.cfg.get("withend", ctx.pick("withend", [True, False]))):
            q = rng.normal(size=(n, 2))
            ye = q @ rng.uniform(.6, 1.2, 2) + .5 * e + .6 * V[:, r]
            y = y + .7 * ye
            d.bigyend[r] = ye.reshape(-1, 1)
            d.bigq[r] = q
        if lagm:
            y = np.linalg.solve(np.eye(n) - .35 * d.W, y)
        d.bigy[r] = y.reshape(-1, 1)
        d.bigX[r] = X
    m.d = d
    m.put("bigy", bigy=d.bigy)
    m.put("bigX", bigX=d.bigX)
    if d.bigyend:
        m.put("bigyend", bigyend=d.bigyend)
        m.put("bigq", bigq=d.bigq)
    if spatial or (m.cls == "SUR" and ctx.pick("diag", [True, False])):
        m.put("w", w=d.w)
        m.opt(spat_diag=True)
    m.opt(nonspat_diag=True)
    if m.label == "SUR_iter":
        m.opt(iter=True, maxiter=ctx.pick("maxiter", [5, 20]))
    if reg:
        g = gen.regimes(rng, n, ctx.pick("R", [2, 2, 3]), ctx.pick("labels", ["str", "int", "float", "digit"]), minsize=30)
        m.g = g
        m.put("regimes", regimes=g.arg)
        m.tags.add("regimes")
    if names is None:
        names = ctx.pick("names", [False, True])
    m.names = names
    if names:
        m.opt(name_bigy={r: "Y%d" % r for r in range(ne)},
              name_bigX={r: ["Constant_%d" % r] + ["z%d_%d" % (j, r) for j in range(ks[r])] for r in range(ne)}, name_ds="nat")
        if d.bigyend:
            m.opt(name_bigyend={r: ["end_%d" % r] for r in range(ne)}, name_bigq={r: ["qa_%d" % r, "qb_%d" % r] for r in range(ne)})
        if reg:
            m.opt(name_regimes="SOUTH")
        if "w" in m.kw:
            m.opt(name_w="wq")
    return m


def panel_data(rng, N, T, k, W, kind, rho=0., lam=0., mu=1., sig=.8):
    """long format: T blocks of N units"""
    n = N * T
    x = rng.normal(size=(n, k)) + np.tile(rng.normal(0, .8, (N, k)), (T, 1))
    b = rng.uniform(.5, 1.5, k)
    I = np.eye(N)
    a = rng.normal(0, mu, N)
    y = np.zeros(n)
    for t in range(T):
        s = slice(t * N, (t + 1) * N)
        e = rng.normal(0, sig, N)
        if kind == "kkp":
            e = np.linalg.solve(I - lam * W, a + e)
        else:
            e = a + np.linalg.solve(I - lam * W, e)
        y[s] = np.linalg.solve(I - rho * W, 1. + x[s] @ b + e)
    return y.reshape(-1, 1), x


def wide(v, N, T):
    """long (T blocks of N) -> wide, columns grouped by variable"""
    v = np.asarray(v)
    return np.hstack([v[:, j].reshape(T, N).T for j in range(v.shape[1])])


def _panel(ctx, m, transform, names):
    rng = ctx.rng
    N, T = int(rng.integers(16, 30)), ctx.pick("T", [3, 4, 6])
    k = ctx.pick("k", [1, 2, 3, 5])
    N = max(N, k * T + 6)
    kinds = gen.SYM_KINDS if "RE" in m.cls else gen.ALL_KINDS
    if m.cls == "Panel_RE_Error":
        kinds = ["rook", "queen", "ring", "gabriel"]      # others lead to complex results in this deprecated class
    if m.cls in ("ML_ErrorRE", "Panel_RE_Error") and ctx.pick("symmetric_w", [True, True, False]):
        # symmetric weights with simple spectrum, the only ones for which the eigenvector whitening of these models is valid
        A, xy = gen.base_matrix(rng, N, "dist")
        A *= rng.uniform(.7, 1.3, A.shape)
        A = (A + A.T) / 2
        A /= np.max(np.abs(np.linalg.eigvalsh(A)))
        ws = gen.make_w(A, gen.make_ids(rng, N, ctx.pick("ids", ["int", "str", "perm"])), "o", xy, "dist")
        m.tags.add("symmetric_w")
    else:
        ws = gen.weights(rng, N, ctx.pick("W", kinds), "r", ctx.pick("ids", ["int", "str", "perm"]))
    d = gen.D()
    N = ws.n
    d.ws, d.w, d.W, d.n, d.T, d.k = ws, ws.w, ws.full, N, T, k
    lag = "Lag" in m.cls
    err = "Error" in m.cls or m.cls == "GM_KKP"
    d.y, d.x = panel_data(rng, N, T, k, ws.full, "kkp" if m.cls in ("GM_ErrorRE", "GM_KKP") else "", .35 if lag else 0.,
                          .4 if err else 0., 0. if "Pooled" in m.cls else 1.)
    m.d = d
    m.tags.add("panel")
    dep = m.cls in ("GM_KKP", "Panel_FE_Lag", "Panel_FE_Error", "Panel_RE_Lag", "Panel_RE_Error")
    m.tags.add("deprecated" if dep else "current")
    layout = ctx.pick("layout", ["long", "wide"])
    m.layout = layout
    if layout == "long":
        m.put("py", y=d.y)
        m.put("px", x=d.x)
    else:
        m.put("wy", y=wide(d.y, N, T))
        m.put("wx", x=wide(d.x, N, T))
    m.put("w", w=d.w)
    if names is None:
        names = ctx.pick("names", [False, True])
    m.names = names
    if names:
        if layout == "long":
            m.opt(name_y="HR", name_x=["inc", "unemp", "age", "dens", "edu"][:k])
        else:
            m.opt(name_y=["HR%d" % t for t in range(T)], name_x=["%s%d" % (v, t) for v in ["inc", "unemp", "age", "dens", "edu"][:k]
                                                                  for t in range(T)])
        m.opt(name_w="wq", name_ds="nat")
    return m


# ------------------------------------------------------------------ what a result object says
SKIP = {"summary", "title", "warning", "other_top", "other_mid", "w", "regimes", "_cache", "name_ds"}


def flat(obj, depth=0, limit=400):
    """every number, array, table and string reachable from a result object"""
    out = {}

    def put(key, v, dep):
        if isinstance(v, (bool, np.bool_)):
            out[key] = str(bool(v))
        elif isinstance(v, (int, float, np.integer, np.floating)):
            out[key] = float(v)
        elif isinstance(v, str):
            out[key] = v
        elif isinstance(v, np.ndarray):
            if v.dtype.kind in "fiub":
                out[key] = np.array(v, float)
            else:
                out[key] = repr(v.tolist())[:3000]
        elif hasattr(v, "toarray") and hasattr(v, "shape"):
            out[key] = np.asarray(v.toarray(), float)
        elif type(v).__module__.startswith("pandas"):
            import pandas as pd
            if isinstance(v, pd.DataFrame):
                for c in v.columns:
                    put("%s[%s]" % (key, c), v[c], dep)
            elif isinstance(v, pd.Series):
                a = list(v)
                if all(t is None or isinstance(t, (int, float, np.floating, np.integer)) for t in a):
                    out[key] = np.array([np.nan if t is None else t for t in a], float)
                else:
                    out[key] = repr(a)[:3000]
        elif isinstance(v, dict) and dep < 4:
            for i, t in v.items():
                put("%s{%s}" % (key, i), t, dep + 1)
        elif isinstance(v, (list, tuple)) and dep < 4:
            if len(v) and all(isinstance(t, str) for t in v):
                out[key] = repr([str(t) for t in v])[:3000]
            elif len(v) <= limit:
                for i, t in enumerate(v):
                    put("%s(%d)" % (key, i), t, dep + 1)
        elif type(v).__module__.startswith("spreg") and dep < 3:
            for a, t in sorted(vars(v).items()):
                if not a.startswith("_") and a not in SKIP:
                    put(key + "." + a, t, dep + 1)
    for a, v in sorted(vars(obj).items()):
        if a.startswith("_") or a in SKIP:
            continue
        put(a, v, depth)
    for a in ("vm", "sig2n", "sig2n_k", "utu", "mean_y", "std_y", "predy_e", "e_pred", "logl", "LR", "scale", "slopes",
              "slopes_vm", "slopes_std_err", "slopes_z_stat", "predpc", "mcfadrho", "KP_error", "PS_error", "Pinkse_error"):
        try:
            if hasattr(type(obj), a) and isinstance(getattr(type(obj), a), property):
                put(a, getattr(obj, a), depth)
        except Exception:
            pass
    return out


def same(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))
