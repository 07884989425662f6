"""C14 units: the same data in other units, and with a combination of the regressors added to the outcome."""
import re
import numpy as np
from .. import models, relate
from ..core import Skip, StopCase
from . import c13

RULE = ("Every public estimator fitted on the same data in two unit systems: outcome, regressors, endogenous variables and "
        "instruments each multiplied by a constant between 1e-3 and 1e3 of either sign; every coefficient, standard error, "
        "covariance, residual, variance and likelihood reported must change by the power of the units it carries, every test, "
        "p-value, spatial parameter, multiplier and fit measure not at all. In models without a spatial lag a random linear "
        "combination of the regressors added to the outcome must add exactly that combination to coefficients and predictions.")
CASE_LIMIT = 90
XN = models.XNAMES

# arrays of the design, not results
DATA = {"x", "y", "z", "q", "h", "yend", "xtx", "xtxi", "hth", "hthi", "htz", "zthhthi", "varb", "bigX", "bigy", "bigXX", "bigXy",
        "bigXlag", "bigylag", "bigZ", "bigZHZH", "bigZHy", "bigyend", "bigq", "xw", "A1", "mean_y", "std_y", "xmean", "bstart", "hac_var",
        "chow.regi", "message", "status", "success", "nit", "ldetS0", "ldetS1", "surerrllik", "errllik", "cliksurerr", "clikerr",
        "scale", "optim", "u_naive", "f_stat_FE"}
LINEAR = {"u", "predy", "predy_e", "e_pred", "e_filtered", "fixed_effects", "mu_i", "mean_mu_i"}
SQUARE = {"sign", "sig2", "sig2n", "sig2n_k", "sig2ML", "utu", "sig2_u", "sigma2_mu", "sigma2_epsilon"}


class Units:
    """c: unit of the outcome; f: unit of each variable by name"""

    def __init__(self, m, c, f, shift=None):
        self.m, self.c, self.f = m, c, f

    def of(self, name):
        """factor by which the coefficient called name changes"""
        s = str(name).strip()
        if s.endswith("lambda") or s.endswith("W_HR") or s.endswith("rho") or s in ("phi",):
            return 1.
        if s.startswith("sigma2") or s == "sig2_u":
            return self.c ** 2
        if "CONSTANT" in s:
            return self.c
        for v, f in self.f.items():
            if s == v or s.endswith("_" + v):
                return self.c / f
        raise KeyError(s)


def objects(r):
    out = {"": r}
    for k, s in (getattr(r, "multi", None) or {}).items():
        out["multi{%s}." % k] = s
    return out


def names_of(o):
    """names of the rows of betas"""
    n = len(np.asarray(o.betas))
    for a in ("name_z", "name_x"):
        v = getattr(o, a, None)
        if isinstance(v, list) and len(v) == n:
            return v
    if hasattr(o, "output") and len(o.output) == n:
        return list(o.output["var_names"])
    v = list(getattr(o, "name_x", []))
    for extra in (["lambda"], ["rho"], ["lambda", "sig2_u"], ["W_HR"]):
        if len(v) + len(extra) == n:
            return v + extra
    raise KeyError("names of %d coefficients" % n)


def back(ctx, U, r, b):
    """the second fit's values b in the units of the first fit"""
    c = U.c
    out = {}
    for p, o in objects(r).items():
        nm = names_of(o)
        f = np.array([U.of(s) for s in nm])
        n = getattr(o, "n", U.m.d.n)
        if U.m.label in models.PANEL:
            n = np.asarray(o.y).shape[0]
        for k in [k for k in b if (k.startswith(p) if p else not k.startswith("multi{"))]:
            t = k[len(p):]
            q = re.sub(r"[({\[].*", "", t)
            v = b[k]
            if isinstance(v, str):
                out[k] = v
                continue
            v = np.asarray(v, float)
            g = None
            if t == "betas":
                g = f.reshape(v.shape)
            elif t in ("std_err", "se_betas"):
                g = np.abs(f[:len(v)])
            elif t in ("vm", "vm1"):
                h = units_vm(t, nm, f, v.shape[0], c)
                g = np.outer(h, h)
            elif t in ("slopes", "slopes_std_err"):
                g = (f[1:] if t == "slopes" else np.abs(f[1:])).reshape(v.shape)
            elif t == "slopes_vm":
                g = np.outer(f[1:], f[1:])
            elif re.fullmatch(r"[zt]_stat\((\d+)\)\(0\)", t):
                g = np.sign(f[int(re.search(r"\d+", t).group())])
            elif t.startswith("slopes_z_stat") and t.endswith("(0)"):
                g = np.sign(f[1 + int(re.search(r"\d+", t).group())])
            elif t.startswith("output["):
                tab = np.array([U.of(s) for s in o.output["var_names"]])
                g = {"coefficients": tab, "std_err": np.abs(tab), "zt_stat": np.sign(tab)}.get(t[7:-1])
            elif q in LINEAR:
                g = c
            elif q in SQUARE:
                g = c ** 2
            elif q in ("logll", "ll", "logl") and U.m.label != "Probit":
                v = v + n * np.log(abs(c))
            elif q in ("aic", "schwarz") and U.m.label != "Probit":
                v = v - 2 * n * np.log(abs(c))
            out[k] = v if g is None else v / g
    return out


def units_vm(t, names, f, size, c):
    """units of the rows of a covariance matrix of the coefficients"""
    spatial = np.array([str(s).strip().endswith(("lambda", "sig2_u", "sigma2_v", "sigma2_1")) for s in names])
    if t == "vm1" and size == 2:                   # error models: spatial coefficient and variance
        return np.array([1., c ** 2])
    if size == len(f):
        return f
    if size == len(f) + 1:
        return np.append(f, c ** 2)
    if size == (~spatial).sum():
        return f[~spatial]
    raise KeyError("units of a %d x %d covariance of %s" % (size, size, list(names)))


def rescaled(m, c, f, fq):
    kw = dict(m.kw)
    d = m.d
    k = m.d.k
    for a, role in m.roles.items():
        v = kw[a]
        if role in ("y", "py", "wy"):
            kw[a] = v * c
        elif role in ("x", "px"):
            kw[a] = v * np.array([f[XN[j]] for j in range(k)])
        elif role == "wx":
            kw[a] = v * np.repeat([f[XN[j]] for j in range(k)], d.T)
        elif role == "yend":
            kw[a] = v * f["pol"]
        elif role == "q":
            kw[a] = v * fq
    return kw


def unit(ctx, big):
    e = ctx.rng.uniform(-3, 3) if big else ctx.rng.uniform(-1, 1)
    return float(10 ** e) * (1 if ctx.rng.uniform() < .6 else -1)


def tolerance(m):
    return 5e-3 if m.label in ("NSLX", "ML_ErrorRE", "Panel_RE_Error") else 2e-4 if m.iterative else 1e-6


def mk(label):
    def case(ctx):
        import spreg
        big = ctx.pick("range", ["wide", "narrow"]) == "wide"
        which = ctx.pick("what", ["outcome", "regressors", "both"])
        m = instance(ctx, label)
        d = m.d
        c = unit(ctx, big) if which != "regressors" and label != "Probit" else 1.
        f = {v: (unit(ctx, big) if which != "outcome" else 1.) for v in XN + ["pol"]}
        if label == "NSLX":               # the coefficient of W(a)x is one: outcome and regressors share their unit
            c = abs(unit(ctx, False)) ** .5
            f = {v: c for v in f}
        clamp = label in CLAMP and (m.cls != "GMM_Error" or m.kw["estimator"] == "het") and "yend" in m.kw
        if clamp and ctx.pick("large_coefficient", [True, False, False]) is False:
            m.kw["yend"] = m.kw["yend"] * 8.      # keeps its coefficient below the clamp of the known finding
            while abs(c / f["pol"]) > 1.5:
                f["pol"] *= 2.
        f["npol"] = f["pol"]
        fq = np.array([unit(ctx, big) if which != "outcome" else 1. for _ in range(d.q.shape[1])]) if "q" in m.roles.values() else None
        ctx.sig = [d.n, label, ctx.idx]
        ctx.note(c=c, f={k: v for k, v in f.items()})
        r1, r2 = fit2(ctx, spreg, m, rescaled(m, c, f, fq))
        U = Units(m, c, f)
        apart(label, r1, r2)
        a, b = models.flat(r1), models.flat(r2)
        want = {k: v for k, v in a.items() if base(k) not in DATA}
        b = back(ctx, U, r1, {k: v for k, v in b.items() if base(k) not in DATA})
        tol = tolerance(m)
        key = "rescaled"
        if kp(m):
            tol = 5e-3
            if abs(np.log10(abs(c))) > .4:
                key = "rescaled.moment-search-depends-on-units"
        if clamp and max(abs(o.betas[i, 0]) for r in (r1, r2) for o in objects(r).values()
                         for i, s in enumerate(names_of(o)) if str(s).endswith("pol")) > .75:
            key = "rescaled.ordinary-endogenous-treated-as-lag"
        parts = [(key, lambda k: True)]
        if chow_shifted(m):
            parts = [("rescaled.chow-rows-shifted-by-global-exogenous", lambda k: "chow" in k), (key, lambda k: "chow" not in k)]
        elif label in ("ML_LagRE", "Panel_RE_Lag"):
            cov = lambda k: bool(re.match(r"vm|std_err|z_stat|output\[(std_err|zt_stat|prob)", k))
            parts = [(key + ".covariance-of-rho-and-phi", cov), (key, lambda k: not cov(k))]
        for ky, sel in parts:
            relate.compare(ctx, ky, {k: v for k, v in want.items() if sel(k)}, {k: v for k, v in b.items() if sel(k)}, tol,
                           skip=("e_filtered",) if label == "Panel_RE_Error" else ())
        ctx.note(values=len(want))
    return case


CLAMP = ("GM_Endog_Error_Het", "GM_Endog_Error_Het_Regimes", "GMM_Error", "GMM_Error_Regimes")


def kp(m):
    return m.cls.startswith(("GM_Error", "GM_Endog_Error", "GM_Combo", "GM_KKP")) and "Het" not in m.cls and "Hom" not in m.cls \
        and m.cls != "GM_ErrorPooled" or m.cls.startswith("GMM_Error") and m.kw["estimator"].startswith("kp")


def chow_shifted(m):
    """where the rows of the Chow test are those of the known finding"""
    return m.g is not None and m.kw.get("cols2regi") and not m.kw.get("regime_err_sep") and not all(m.kw["cols2regi"][:m.d.k]) \
        and ("yend" in m.kw or "Lag" in m.cls or "Combo" in m.cls or m.kw.get("add_wy"))


def apart(label, r1, r2):
    if label == "NSLX":
        rows = [i for i, v in enumerate(r1.name_x) if str(v).startswith("W")]
        g1, g2 = r1.betas[rows], r2.betas[rows]
        if not (r1.success and r2.success) and min(np.abs(np.r_[g1, g2])) < .02:
            raise Skip("the search reports that it did not converge, at a decay parameter of zero")
    if label == "NSLX" and np.max(np.abs(g1 - g2) / (1 + np.abs(g1))) > 1e-3:
        raise Skip("the searches stopped in different valleys (optimality: C25)")
    if label == "ML_ErrorRE" and (r1.phi < 1e-6) != (r2.phi < 1e-6):
        raise Skip("the optimiser was caught in the stationary point phi = 0 once")


def base(k):
    return re.sub(r"[({\[].*", "", re.sub(r"^multi\{[^}]*\}\.", "", k))


def fit2(ctx, spreg, m, kw):
    try:
        with ctx.quiet():
            r1 = m.call(spreg)
    except Exception as e:
        if "power expansion" in str(e) and m.cls.startswith("GM_Lag") and m.kw["w"].transform != "R":
            raise Skip("reduced form out of reach of the power expansion")
        raise
    return r1, ctx.run("second_fit", getattr(spreg, m.cls), **kw)


def instance(ctx, label):
    orig = models.make
    models.make = lambda c, l: orig(c, l, names=True)
    try:
        return c13.instance(ctx, label)
    finally:
        models.make = orig


# ------------------------------------------------------------------ a combination of the regressors added to the outcome
NOLAG = ["OLS", "OLS_white", "OLS_hac", "OLS_slx", "TSLS", "TSLS_hac", "TSLS_slx", "NSLX", "ML_Error", "ML_Error_slx", "GM_Error",
         "GM_Endog_Error", "GM_Error_Het", "GM_Endog_Error_Het", "GM_Error_Hom", "GM_Endog_Error_Hom", "GMM_Error", "OLS_Regimes",
         "TSLS_Regimes", "ML_Error_Regimes", "GM_Error_Regimes", "GM_Endog_Error_Regimes", "GM_Error_Het_Regimes",
         "GM_Endog_Error_Het_Regimes", "GM_Error_Hom_Regimes", "GM_Endog_Error_Hom_Regimes", "GMM_Error_Regimes", "PooledOLS",
         "PanelFE", "PanelRE", "GM_ErrorPooled", "ML_ErrorPooled", "GM_ErrorRE", "ML_ErrorFE", "ML_ErrorRE", "GM_KKP",
         "Panel_FE_Error", "Panel_RE_Error"]
# quantities that measure the outcome itself
LEVEL = ("r2", "ar2", "f_stat", "pr2", "pr2_e", "t_stat", "z_stat", "mean_y", "std_y", "lm_lag", "rlm_lag", "rlm_error", "lm_sarma",
         "lm_spdurbin", "rlm_durlag", "rlm_wx", "lm_slxerr", "predy", "predy_e", "name", "hac_var", "bsk[Test]")


def shift_mk(label):
    def case(ctx):
        import spreg
        m = instance(ctx, label)
        if m.kw.get("add_wy"):
            m.kw["add_wy"] = False
        d = m.d
        k = d.k
        size = ctx.pick("size", [.3, 3., 30.])
        g0 = 0. if label in ("PanelFE", "ML_ErrorFE", "Panel_FE_Error") else float(ctx.rng.normal(0, size))
        g = ctx.rng.normal(0, size, k)
        kw = dict(m.kw)
        add = g0 + d.x @ g.reshape(-1, 1)
        for a, role in m.roles.items():
            if role in ("y", "py"):
                kw[a] = kw[a] + add
            elif role == "wy":
                kw[a] = kw[a] + models.wide(add, d.n, d.T)
        ctx.sig = [d.n, label, ctx.idx]
        r1, r2 = fit2(ctx, spreg, m, kw)
        apart(label, r1, r2)
        a, b = models.flat(r1), models.flat(r2)
        gain = dict(zip(XN, g))

        def plus(name):
            s = str(name).strip()
            if "CONSTANT" in s:
                return g0
            if s.endswith(("lambda", "pol", "sig2_u", "sigma2_u", "sigma2_v", "sigma2_1")):
                return 0.
            for v in gain:
                if s == v:
                    return gain[v]
                if s.endswith("_" + v):
                    if m.g is not None and (s == "_Global_" + v or any(s == "%s_%s" % (q, v) for q in m.g.keys)):
                        return gain[v]
                    return 0.
            raise KeyError(s)
        for p, o in objects(r1).items():
            nm = names_of(o)
            add_b = np.array([plus(s) for s in nm])
            b[p + "betas"] = b[p + "betas"] - add_b.reshape(b[p + "betas"].shape)
            if p + "output[coefficients]" in b:
                b[p + "output[coefficients]"] = b[p + "output[coefficients]"] - np.array([plus(s) for s in o.output["var_names"]])
            shape = np.shape(a[p + "predy"])
            if len(a[p + "predy"]) == len(add) and label not in ("ML_ErrorFE", "Panel_FE_Error"):     # within predictions
                ctx.close("shifted.predictions", b[p + "predy"].ravel(), a[p + "predy"].ravel() + add.ravel(),
                          1e-3 if m.iterative else 1e-7, 1e-3 if m.iterative else 1e-7)
        drop = lambda q: base(q) in DATA or base(q).startswith(LEVEL) or re.search(r"output\[(zt_stat|prob)", q)
        a = {q: v for q, v in a.items() if not drop(q)}
        b = {q: v for q, v in b.items() if not drop(q)}
        tol = 2e-3 if label == "NSLX" else 2e-4 * max(1., size / 3) if m.iterative else 1e-6
        if label in ("Panel_RE_Error", "ML_ErrorRE"):
            tol = 5e-3 * max(1., size / 6)
        key = "shifted"
        if chow_shifted(m):
            relate.compare(ctx, "shifted.chow-rows-shifted-by-global-exogenous", {q: v for q, v in a.items() if "chow" in q},
                           {q: v for q, v in b.items() if "chow" in q}, tol)
            a = {q: v for q, v in a.items() if "chow" not in q}
            b = {q: v for q, v in b.items() if "chow" not in q}
        relate.compare(ctx, key, a, b, tol, skip=("e_filtered",) if label == "Panel_RE_Error" else ())
        ctx.note(values=len(a))
    return case


# ------------------------------------------------------------------ systems
def sur_mk(label):
    def case(ctx):
        import spreg
        m = c13.instance(ctx, label)
        d = m.d
        ne = len(d.bigy)
        big = ctx.pick("range", ["wide", "narrow"]) == "wide" and m.cls != "SURerrorGM"
        common = ctx.pick("common", [True, False])
        sc = lambda: unit(ctx, big) if m.cls != "SURerrorGM" else (1 if ctx.rng.uniform() < .6 else -1) * float(10 ** ctx.rng.uniform(-.3, .3))
        c0 = sc()
        c = [c0 if common else sc() for _ in range(ne)]
        K = max(d.ks)
        f0 = [unit(ctx, False) for _ in range(K)]
        f = [np.array(f0[:d.ks[r]] if common else [unit(ctx, big) for _ in range(d.ks[r])]) for r in range(ne)]
        fe0 = unit(ctx, False)
        fe = [fe0 if common else unit(ctx, big) for _ in range(ne)]
        kw = dict(m.kw)
        kw["bigy"] = {r: d.bigy[r] * c[r] for r in range(ne)}
        kw["bigX"] = {r: d.bigX[r] * np.append(1., f[r]) for r in range(ne)}
        if d.bigyend:
            kw["bigyend"] = {r: v * fe[r] for r, v in d.bigyend.items()}
            kw["bigq"] = {r: v * unit(ctx, big) for r, v in d.bigq.items()}
        ctx.sig = [d.n, label, ctx.idx]
        r1, r2 = fit2(ctx, spreg, m, kw)
        a, b = models.flat(r1), models.flat(r2)
        R = 1 if m.g is None else m.g.R
        rowf = []
        for r in range(ne):
            g = np.tile(c[r] / np.append(1., f[r]), R)
            if d.bigyend:
                g = np.append(g, np.repeat(c[r] / fe[r], R))
            rowf.append(g)
        kr = len(np.ravel(list(getattr(r1, "b3SLS", getattr(r1, "bSUR", None)).values())[0]))
        if m.cls == "SURlagIV":
            rowf = [np.append(g, np.ones(kr - len(rowf[0]))) for g in rowf]
        n, csum = d.n, np.sum(np.log(np.abs(c)))
        out = {}
        for k, v in b.items():
            q = base(k)
            if q in DATA - {"errllik", "surerrllik", "ldetS0", "ldetS1", "cliksurerr", "clikerr"} or q in ("olsE_", "name"):
                continue
            if q == "surchow" and not common:
                continue
            if q == "lmlagtest" or isinstance(v, str):
                out[k] = v
                continue
            v = np.asarray(v, float)
            mm = re.fullmatch(r"(bOLS|bSUR0|bSUR|b2SLS|b3SLS)\{(\d+)\}", k)
            if mm:
                g = rowf[int(mm.group(2))]
                v = v / g[:v.size].reshape(v.shape)
            elif re.match(r"(sur_inf|tsls_inf)\{", k):
                g = rowf[int(re.search(r"\d+", k).group())][:v.shape[0]]
                v = v / np.column_stack([np.abs(g), np.sign(g), np.ones(len(g))])
            elif q in ("varb", "vm"):
                g = np.concatenate(rowf)
                v = v / np.outer(g, g) if v.shape[0] == len(g) else None
            elif q in ("sig", "sig_ols"):
                v = v / np.outer(c, c)
            elif q == "corr":
                v = v / np.outer(np.sign(c), np.sign(c))
            elif q in ("bigE", "olsE", "tslsE", "bigYP"):
                v = v / np.array(c)
            elif q in ("llik", "errllik", "surerrllik"):
                v = v + n * csum
            elif q in ("clikerr", "cliksurerr"):
                v = v + n * csum
            elif q in ("ldetS0", "ldetS1"):
                v = v - 2 * csum
            if v is not None:
                out[k] = v
        a = {k: v for k, v in a.items() if k in out or (base(k) not in DATA and not (base(k) == "surchow" and not common) and base(k) not in ("varb", "vm"))}
        tol = 5e-3 if m.cls == "SURerrorGM" else 1e-3 if m.cls == "SURerrorML" else 1e-4 if label == "SUR_iter" else 1e-6
        relate.compare(ctx, "rescaled", a, out, tol)
        ctx.note(values=len(a))
    return case


SUBS = {label: (mk(label), 8, 100) for label in models.ALL if label not in models.SURS}
SUBS.update({"shift_" + label: (shift_mk(label), 4, 60) for label in NOLAG})
SUBS.update({label: (sur_mk(label), 8, 100) for label in models.SURS})
