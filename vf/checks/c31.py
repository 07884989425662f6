"""C31: a front end that delegates by option returns exactly what the specialised estimator returns, and drops no option.

Monitors: every number, name, table and the printed report of the delegated fit against the fit of the specialised
class with the same arguments; which class the result is of; a notice or a refusal for every option the specialised
class does not know; every option that has alternatives leaves a trace in the result; equivalent spellings agree;
front ends against their computational base classes."""
import contextlib
import importlib
import inspect
import io
import numpy as np
from .. import gen, models
from ..core import Skip, StopCase
from . import c10, c13, c30

RULE = "front ends, selectors, base classes and spellings of options lead to the same fit; given options are never dropped silently"
CASE_LIMIT = 60

FRONT = {"OLS": "OLS_Regimes", "TSLS": "TSLS_Regimes", "GM_Lag": "GM_Lag_Regimes", "ML_Lag": "ML_Lag_Regimes",
         "ML_Error": "ML_Error_Regimes"}
TARGET = {("het", 0, 0): "GM_Error_Het", ("het", 1, 0): "GM_Endog_Error_Het", ("het", 0, 1): "GM_Combo_Het",
          ("het", 1, 1): "GM_Combo_Het",
          ("hom", 0, 0): "GM_Error_Hom", ("hom", 1, 0): "GM_Endog_Error_Hom", ("hom", 0, 1): "GM_Combo_Hom",
          ("hom", 1, 1): "GM_Combo_Hom",
          ("kp98", 0, 0): "GM_Error", ("kp98", 1, 0): "GM_Endog_Error", ("kp98", 0, 1): "GM_Combo",
          ("kp98", 1, 1): "GM_Combo"}


def parameters(spreg, cls):
    return inspect.signature(getattr(spreg, cls).__init__).parameters


def outcome(f, *a, **k):
    """('ok', result) or ('error', exception), printing nothing"""
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return "ok", f(*a, **k)
    except Exception as e:
        return "error", e


def alike(ctx, label, got, want, cls=None):
    """two results carry the same numbers, names, tables and report"""
    if cls is not None:
        ctx.ok("class." + label, isinstance(got, cls), "%s is no %s" % (type(got).__name__, cls.__name__))
    a, b = models.flat(got), models.flat(want)
    ctx.ok("attributes." + label, set(a) == set(b), "%s" % sorted(set(a) ^ set(b))[:6])
    bad = []
    for k in sorted(set(a) & set(b)):
        va, vb = a[k], b[k]
        if isinstance(va, str) or isinstance(vb, str):
            if va != vb and not (k.endswith("slx_vars") and va.lower() == vb.lower()):
                bad.append("%s: %.120s / %.120s" % (k, va, vb))
        else:
            va, vb = np.asarray(va, float), np.asarray(vb, float)
            if va.shape != vb.shape or not np.allclose(va, vb, rtol=1e-9, atol=1e-12, equal_nan=True):
                bad.append("%s: %.80s / %.80s" % (k, va.ravel()[:4], vb.ravel()[:4]))
    ctx.ok("same." + label, not bad, "; ".join(bad[:3]))
    ta, tb = report(got), report(want)
    ctx.ok("report." + label, ta == tb, diff(ta, tb))


def report(r):
    s = getattr(r, "summary", "")
    return (s if isinstance(s, str) else repr(s)) + str(getattr(r, "title", ""))


def same_report(what, a, b):
    a, b = report(a), report(b)
    if what == "method":
        a, b = a.lower(), b.lower()
    if what == "slx_vars":
        a, b = [t.split("DIAGNOSTICS FOR SPATIAL")[0].split("Common Factor")[0] for t in (a, b)]
    return a == b


def diff(a, b):
    for x, y in zip(a.split("\n"), b.split("\n")):
        if x != y:
            return "%.120r / %.120r" % (x, y)
    return "lengths %d %d" % (len(a), len(b))


def same_outcome(ctx, label, front, direct, cls, unknown=()):
    """compare two outcomes; unknown = options that the specialised class does not have"""
    sa, a = front
    sb, b = direct
    if sa == "error" and sb == "error":
        ctx.ok("refusal." + label, True, "")
        ctx.note(refused=True)
        return
    if unknown and sa == "error":
        ctx.ok("refused_option." + label, True, "")
        return
    if sa == "error" or sb == "error":
        ctx.fail("outcome." + label, "front end: %.150r, specialised: %.150r" % (a if sa == "error" else "fit", b if sb == "error" else "fit"))
        return
    if unknown:
        text = str(getattr(a, "warning", "")) + report(a)
        for u in unknown:
            ctx.ok("notice.%s.%s" % (label, u), any(s in text for s in WORDS.get(u, [u])), "option %s dropped without notice" % u)
        return
    alike(ctx, label, a, b, cls)


WORDS = {"vif": ["VIF", "vif", "nflation"]}


def maybe(ctx, o, name, choices, p=.5):
    if ctx.rng.random() < p:
        o[name] = choices[int(ctx.rng.integers(len(choices)))]


def lags(ctx, o, k, p=.45, upto=2):
    if ctx.rng.random() < p:
        o["slx_lags"] = int(ctx.rng.integers(1, upto + 1))
        if ctx.rng.random() < .6:
            sel = [bool(v) for v in ctx.rng.integers(0, 2, k)]
            if not any(sel):
                sel[int(ctx.rng.integers(k))] = True
            o["slx_vars"] = sel


def regime_instance(ctx, label):
    for attempt in range(12):
        try:
            m = models.make(ctx, label)
            c10.estimable(m)
            return m
        except Skip:
            ctx.idx += 1000
    raise Skip("no estimable instance")


def regimes(front):
    special = FRONT[front]

    def run(ctx):
        import spreg
        rng = ctx.rng
        m = regime_instance(ctx, special)
        d = m.d
        k = d.k
        o = dict(m.kw)
        for c in ("spat_diag", "white_test", "moran", "nonspat_diag", "vm", "method", "spat_impacts", "robust", "w_lags"):
            o.pop(c, None)
        reg = o.pop("regimes")
        lags(ctx, o, k)
        if o.get("slx_lags") and isinstance(o.get("cols2regi"), list):
            o.pop("cols2regi")
        if "w" not in o and (front != "TSLS" or o.get("slx_lags") or rng.random() < .5):
            o["w"] = d.w
        maybe(ctx, o, "vm", [True])
        maybe(ctx, o, "latex", [True], .1)
        maybe(ctx, o, "constant_regi", ["one", "many"], .3)
        if o.get("constant_regi") == "one":
            o.pop("regime_err_sep", None)
            o.pop("regime_lag_sep", None)
            o["regime_err_sep"] = False
            if front in ("ML_Lag",):
                o.pop("regime_err_sep")
        if front in ("OLS", "TSLS", "GM_Lag"):
            rb = [None, "white", "hac"][int(rng.integers(3))]
            if rb or rng.random() < .5:
                o["robust"] = rb
            if rb == "hac":
                o["gwk"], _ = gen.kernel(rng, d.n, "triangular", k=6)
                if m.names:
                    o["name_gwk"] = "kern"
            maybe(ctx, o, "sig2n_k", [True, False])
        if front == "OLS":
            for c in ("nonspat_diag", "spat_diag", "moran", "white_test"):
                maybe(ctx, o, c, [True, False])
            if o.get("moran"):
                o["spat_diag"] = True
            maybe(ctx, o, "vif", [True], .15)
        if front == "TSLS":
            maybe(ctx, o, "spat_diag", [True, False])
            o.setdefault("sig2n_k", False)      # the two classes have different defaults
        if front == "GM_Lag":
            maybe(ctx, o, "w_lags", [1, 2])
            maybe(ctx, o, "lag_q", [True, False])
            maybe(ctx, o, "spat_impacts", ["simple", "full", "power", ["simple", "full"], None])
            maybe(ctx, o, "spat_diag", [True, False])
            maybe(ctx, o, "hard_bound", [True])
            o.setdefault("robust", None)
            if rng.random() < .4:
                ye = d.x @ rng.normal(size=(k, 1)) * .3 + rng.normal(size=(d.n, 1))
                o["yend"] = ye
                o["q"] = ye + rng.normal(size=(d.n, 2))
                o.pop("cols2regi", None)
        if front in ("ML_Lag", "ML_Error"):
            maybe(ctx, o, "method", ["full", "LU", "ord", "lu"])
            maybe(ctx, o, "epsilon", [1e-6])
        if front == "ML_Lag":
            maybe(ctx, o, "spat_impacts", ["simple", "full", "power", ["simple", "full"], None])
            maybe(ctx, o, "spat_diag", [True, False])
        known = parameters(spreg, special)
        unknown = [c for c in o if c not in known or c == "vif"]
        both = {c: v for c, v in o.items() if c not in unknown}
        ctx.note(options={c: v for c, v in o.items() if isinstance(v, (str, bool, int, list, type(None))) and not c.startswith("name")})
        a = outcome(getattr(spreg, front), regimes=reg, **o)
        b = outcome(getattr(spreg, special), regimes=reg, **both)
        same_outcome(ctx, front, a, b, getattr(spreg, special), unknown)
        if b[0] == "error":
            ctx.note(why=repr(b[1])[:80])
    return run


def gmm_options(ctx, spreg, target, k, m, regimes_=False):
    rng = ctx.rng
    o = {}
    lags(ctx, o, k, .35, 1)
    maybe(ctx, o, "vm", [True])
    maybe(ctx, o, "latex", [True], .1)
    maybe(ctx, o, "hard_bound", [True], .3)
    par = parameters(spreg, target)
    if "max_iter" in par:
        maybe(ctx, o, "max_iter", [1, 2, 5])
        maybe(ctx, o, "epsilon", [1e-4, 1e-8], .3)
    if "step1c" in par:
        maybe(ctx, o, "step1c", [True, False])
    if "inv_method" in par:
        maybe(ctx, o, "inv_method", ["power_exp", "true_inv"])
    if "A1" in par:
        maybe(ctx, o, "A1", ["hom", "hom_sc", "het"])
    if "w_lags" in par:
        maybe(ctx, o, "w_lags", [1, 2])
        maybe(ctx, o, "lag_q", [True, False])
    if regimes_:
        maybe(ctx, o, "constant_regi", ["one", "many"], .4)
        if o.get("constant_regi") != "one" and rng.random() < .4:
            o["regime_err_sep"] = True
            if "Combo" in target:
                o["regime_lag_sep"] = True
    return o


def gmm(with_regimes):
    name = "GMM_Error_Regimes" if with_regimes else "GMM_Error"

    def run(ctx):
        import spreg
        rng = ctx.rng
        m = regime_instance(ctx, name) if with_regimes else models.make(ctx, name)
        d, k = m.d, m.d.k
        est = ctx.pick("est", ["het", "hom", "kp98", None])
        endog, wy = bool(ctx.pick("endog", [0, 1])), bool(ctx.pick("wy", [0, 1]))
        target = TARGET[(est or "het", int(endog), int(wy))] + ("_Regimes" if with_regimes else "")
        base = {c: m.kw[c] for c in m.kw if c in ("y", "x", "w", "regimes") or c.startswith("name")}
        reg = base.pop("regimes", None)
        if endog:
            ye = d.x @ rng.normal(size=(k, 1)) * .3 + rng.normal(size=(d.n, 1))
            base.update(yend=ye, q=ye + rng.normal(size=(d.n, 1 + int(rng.integers(2)))))
            if m.names:
                base.update(name_yend=["pol", "npol"][:base["yend"].shape[1]], name_q=["inst%d" % i for i in range(base["q"].shape[1])])
        o = gmm_options(ctx, spreg, target, k, m, with_regimes)
        par = parameters(spreg, target)
        unknown = [c for c in o if c not in par]
        direct = {**base, **{c: v for c, v in o.items() if c not in unknown}}
        sel = {}
        if est is not None:
            sel["estimator"] = est
        if wy or rng.random() < .3:
            sel["add_wy"] = wy
        entry = "GMM_Error_Regimes" if with_regimes and rng.random() < .4 else "GMM_Error"
        ctx.note(target=target, entry=entry, options={c: v for c, v in o.items()})
        if with_regimes:
            direct["regimes"] = reg
            a = outcome(getattr(spreg, entry), regimes=reg, **base, **sel, **o)
        else:
            a = outcome(spreg.GMM_Error, **base, **sel, **o)
        b = outcome(getattr(spreg, target), **direct)
        cls = None
        if with_regimes:
            cls = spreg.GMM_Error_Regimes
        same_outcome(ctx, "%s.%s" % (name, target), a, b, cls, unknown)
        if b[0] == "error":
            ctx.note(why=repr(b[1])[:80])
        if b[0] == "error" and not any(s in str(b[1]) for s in ("cols2regi", "bound", "lenght", "ingular", "power")):
            ctx.fail("direct.%s" % target, "the specialised estimator fails: %r" % (b[1],))
    return run


def gmm_fallback(ctx):
    """combinations GMM_Error does not know: the default estimator, with a notice"""
    import spreg
    m = models.make(ctx, "GMM_Error")
    base = {c: m.kw[c] for c in m.kw if c in ("y", "x", "w") or c.startswith("name")}
    o = {}
    lags(ctx, o, m.d.k, .5, 1)
    maybe(ctx, o, "vm", [True])
    name = ctx.pick("name", ["HET", "kp99", "gmm", "ml"])
    s, a = outcome(spreg.GMM_Error, estimator=name, **base, **o)
    if s == "error":
        ctx.ok("refused", True, "")
        return
    ctx.ok("notice", "not allowed" in str(getattr(a, "warning", "")), "estimator %s replaced without notice" % name)
    b = ctx.run("direct", spreg.GM_Error_Het, **base, **o)
    if b is not None:
        fa, fb = models.flat(a), models.flat(b)
        bad = [k for k in fb if not isinstance(fb[k], str) and (k not in fa or np.shape(fa[k]) != np.shape(fb[k]) or not np.allclose(fa[k], fb[k], equal_nan=True))]
        ctx.ok("same", not bad, "%s" % bad[:5])


# ------------------------------------------------------------------ base classes
BASE = {"OLS": "BaseOLS", "OLS_white": "BaseOLS", "OLS_hac": "BaseOLS", "TSLS": "BaseTSLS", "TSLS_hac": "BaseTSLS",
        "GM_Lag": "BaseGM_Lag", "GM_Lag_endog": "BaseGM_Lag", "ML_Lag": "BaseML_Lag", "ML_Error": "BaseML_Error",
        "GM_Error": "BaseGM_Error", "GM_Endog_Error": "BaseGM_Endog_Error", "GM_Error_Het": "BaseGM_Error_Het",
        "GM_Endog_Error_Het": "BaseGM_Endog_Error_Het", "GM_Combo_Het": "BaseGM_Combo_Het", "GM_Error_Hom": "BaseGM_Error_Hom",
        "GM_Endog_Error_Hom": "BaseGM_Endog_Error_Hom", "GM_Combo_Hom": "BaseGM_Combo_Hom", "Probit": "BaseProbit"}


def base(label):
    def run(ctx):
        import spreg
        m = c13.instance(ctx, label)
        B = getattr(importlib.import_module(getattr(spreg, m.cls).__module__), BASE[label])
        par = inspect.signature(B.__init__).parameters
        kw = {c: v for c, v in m.kw.items() if c in par}
        d = m.d
        kw["x"] = np.hstack([np.ones((d.n, 1)), d.x])
        if "w" in kw and BASE[label] not in ("BaseML_Lag", "BaseML_Error", "BaseGM_Lag"):
            kw["w"] = d.w.sparse
        if BASE[label] in ("BaseGM_Combo_Het", "BaseGM_Combo_Hom"):
            # these take the lag of y and its instruments among the endogenous variables and instruments
            from spreg import utils
            kw["yend"], kw["q"] = utils.set_endog(m.kw["y"], d.x, d.w, kw.get("yend"), kw.get("q"), m.kw.get("w_lags", 1),
                                                  m.kw.get("lag_q", True))
        front = c30.converges(ctx, "front." + label, m.call, spreg)
        low = ctx.run("base." + label, B, **kw)
        if front is None or low is None:
            raise StopCase()
        for a in ("betas", "u", "predy", "vm", "sig2", "e_filtered", "predy_e", "utu", "logll", "aic", "schwarz", "rho", "lam", "predprc",
                  "LR", "slopes", "xb"):
            va = getattr(front, a, None) if a not in ("LR", "slopes") else getattr(front, a, None)
            vb = getattr(low, a, None)
            if va is None or vb is None or isinstance(va, (str, tuple)):
                continue
            va, vb = np.asarray(va, float), np.asarray(vb, float)
            if ctx.ok("shape.%s.%s" % (label, a), va.shape == vb.shape, "%s %s" % (va.shape, vb.shape)):
                ctx.close("base.%s.%s" % (label, a), va, vb, rtol=1e-9, atol=1e-11, scale=max(1e-12, np.max(np.abs(vb)) if vb.size else 1.))
    return run


# ------------------------------------------------------------------ options leave a trace
def alternatives(label, m, spreg):
    """option -> values that must give another result than leaving it out"""
    par = parameters(spreg, m.cls)
    k = m.d.k
    alt = {}
    reg = m.cls.endswith("_Regimes")
    if "slx_lags" in par:
        alt["slx_lags"] = [1]
    if m.kw.get("slx_lags") and "slx_vars" in par and k > 1 and "slx_vars" not in m.kw:
        alt["slx_vars"] = [[True] + [False] * (k - 1)]
    if "robust" in par and m.cls != "GM_Lag_Regimes":
        alt["robust"] = ["white"]
    if "sig2n_k" in par and not m.kw.get("robust"):
        alt["sig2n_k"] = [not (par["sig2n_k"].default)]
    if "w_lags" in par:
        alt["w_lags"] = [1, 2, 3]
    if "lag_q" in par and "q" in m.kw:
        alt["lag_q"] = [False]
    if "step1c" in par:
        alt["step1c"] = [True, False]
    if "A1" in par:
        alt["A1"] = ["hom", "hom_sc", "het"]
    if "vm" in par:
        alt["vm"] = [True, False]
    if "latex" in par:
        alt["latex"] = [True]
    if "spat_impacts" in par and not reg:
        alt["spat_impacts"] = ["simple", "full", None]
    if reg:
        if "constant_regi" in par and not m.kw.get("regime_err_sep") and "cols2regi" not in m.kw:
            alt["constant_regi"] = ["one", "many"]
        if "cols2regi" in par and not m.kw.get("regime_err_sep") and not m.kw.get("slx_lags"):
            kk = k + (m.kw["yend"].shape[1] if "yend" in m.kw else 0)
            if kk > 1:
                alt["cols2regi"] = [[True] + [False] * (kk - 1), "all"]
        if "regime_err_sep" in par and m.cls not in ("ML_Lag_Regimes",) and not m.kw.get("regime_lag_sep") and m.kw.get("cols2regi", "all") == "all":
            alt["regime_err_sep"] = [True, False]
    if "white_test" in par:
        alt["white_test"] = [True, False]
    if "vif" in par and not reg:
        alt["vif"] = [True, False]
    if "nonspat_diag" in par and m.cls in ("OLS", "TSLS", "OLS_Regimes"):
        alt["nonspat_diag"] = [True, False]
    if "spat_diag" in par and "w" in m.kw and not m.cls.startswith(("GMM", "ML_Lag")) and not m.kw.get("slx_lags"):
        alt["spat_diag"] = [True, False]
    if "moran" in par and m.kw.get("spat_diag"):
        alt["moran"] = [True, False]
    if m.cls.startswith("GMM_Error"):
        alt["estimator"] = ["het", "hom", "kp98"]
        if not m.kw.get("regime_lag_sep"):
            alt["add_wy"] = [True, False]
    if m.cls == "Probit":
        alt["scalem"] = ["phimean", "xmean"]
    if "name_y" in par:
        alt["name_y"] = ["another name"] if not m.tags & {"panel"} else []
    for c in ("name_ds", "name_w", "name_gwk"):
        if c in par and (c == "name_ds" or c[5:] in m.kw):
            alt[c] = ["another thing"]
    for c, key in (("name_x", "x"), ("name_yend", "yend"), ("name_q", "q")):
        if c in par and key in m.kw and not m.tags & {"panel"}:
            alt[c] = [["other_%d" % i for i in range(np.asarray(m.kw[key]).shape[1])]]
    if "name_regimes" in par and reg:
        alt["name_regimes"] = ["the_regimes"]
    return {c: v for c, v in alt.items() if v}


def differs(a, b):
    fa, fb = models.flat(a), models.flat(b)
    if set(fa) != set(fb) or report(a) != report(b):
        return True
    for k in fa:
        va, vb = fa[k], fb[k]
        if isinstance(va, str) or isinstance(vb, str):
            if va != vb:
                return True
        else:
            va, vb = np.asarray(va, float), np.asarray(vb, float)
            if va.shape != vb.shape or not np.array_equal(va, vb, equal_nan=True):
                return True
    return False


def matters(label):
    def run(ctx):
        import spreg
        m = c13.instance(ctx, label)
        alt = alternatives(label, m, spreg)
        names = sorted(alt)
        if not names:
            raise Skip("no option")
        chosen = [names[i] for i in ctx.rng.permutation(len(names))[:5]]
        ctx.note(options=chosen)
        for c in chosen:
            vals = alt[c]
            if len(vals) == 1:
                kws = [{}, {c: vals[0]}]
                if c in m.kw:
                    if c == "slx_lags":
                        kws = [{c: m.kw[c]}, {c: m.kw[c] + 1}]
                    elif m.kw[c] == vals[0]:
                        continue
            else:
                i, j = ctx.rng.permutation(len(vals))[:2]
                kws = [{c: vals[i]}, {c: vals[j]}]
            res = [outcome(m.call, spreg, **over) for over in kws]
            if any(s == "error" for s, _ in res):
                # a refusal is an answer too, unless the plain fit is refused
                ctx.ok("answered.%s.%s" % (label, c), True, "")
                continue
            if c == "spat_impacts" and all("Omitted since" in str(r.summary) for _, r in res):
                continue            # no impacts with a coefficient out of bounds
            ctx.ok("matters.%s.%s" % (label, c), differs(res[0][1], res[1][1]), "%s and %s give the same result" % (kws[0], kws[1]))
    return run


# ------------------------------------------------------------------ spellings
def spelling(label):
    def run(ctx):
        import spreg
        m = c13.instance(ctx, label)
        par = parameters(spreg, m.cls)
        k = m.d.k
        pairs = []
        if "slx_vars" in par and m.kw.get("slx_lags"):
            base = dict(slx_vars="All")
            pairs += [("slx_vars", base, dict(slx_vars="all")), ("slx_vars", base, dict(slx_vars=[True] * k))]
            if k > 1:
                sel = [True] + [False] * (k - 1)
                pairs += [("slx_vars", dict(slx_vars=sel), dict(slx_vars=[np.bool_(v) for v in sel]))]
        if "method" in par and m.cls.startswith("ML_"):
            v = ["full", "lu", "ord"][int(ctx.rng.integers(3))]
            pairs.append(("method", dict(method=v), dict(method=v.upper())))
        if "spat_impacts" in par:
            pairs.append(("spat_impacts", dict(spat_impacts="full"), dict(spat_impacts=["full"])))
            pairs.append(("spat_impacts", dict(spat_impacts="all"), dict(spat_impacts=["simple", "full", "power"])))
        if "cols2regi" in par and not m.kw.get("slx_lags"):
            kk = k + (m.kw["yend"].shape[1] if "yend" in m.kw else 0)
            if not m.kw.get("regime_err_sep"):
                pairs.append(("cols2regi", dict(cols2regi="all"), dict(cols2regi=[True] * kk)))
        if "optim" in par:
            pairs.append(("optim", dict(optim="newton"), dict()))
        dflt = {c: p.default for c, p in par.items() if p.default is not inspect.Parameter.empty and c not in m.kw and c != "self"
                and p.kind not in (p.VAR_KEYWORD,)}
        if not m.tags & {"panel"}:
            pairs.append(("defaults", {}, dflt))
        for what, a, b in pairs:
            ra, rb = outcome(m.call, spreg, **a), outcome(m.call, spreg, **b)
            if ra[0] == "error" and rb[0] == "error":
                continue
            if ra[0] != rb[0]:
                ctx.fail("spelling.%s.%s" % (label, what), "%s: %.120r, %s: %.120r" % (a, ra[1], b, rb[1]))
                continue
            fa, fb = models.flat(ra[1]), models.flat(rb[1])
            drop = [q for q in fa if q.startswith("cols2regi") or q.startswith("spat_impacts")]
            bad = []
            for q in sorted(set(fa) | set(fb)):
                if q.startswith(("cols2regi", "spat_impacts", "slx_vars", "method")) or q.endswith((".slx_vars", ".cols2regi", ".method")):
                    continue
                if what == "slx_vars" and "cfh_test" in q:
                    continue        # only computed when no list is given
                if q not in fa or q not in fb:
                    bad.append(q)
                elif isinstance(fa[q], str) or isinstance(fb[q], str):
                    if fa[q] != fb[q]:
                        bad.append("%s %.60s %.60s" % (q, fa[q], fb[q]))
                elif np.shape(fa[q]) != np.shape(fb[q]) or not np.allclose(fa[q], fb[q], rtol=1e-9, atol=1e-12, equal_nan=True):
                    bad.append("%s %.60s %.60s" % (q, np.ravel(fa[q])[:3], np.ravel(fb[q])[:3]))
            ctx.ok("spelling.%s.%s" % (label, what), not bad and same_report(what, ra[1], rb[1]),
                   "%s / %s: %s %s" % (a, {c: b[c] for c in list(b)[:3]}, bad[:3], diff(report(ra[1]), report(rb[1])) if report(ra[1]) != report(rb[1]) else ""))
    return run


# ------------------------------------------------------------------ methods
def methods(label):
    """the evaluation methods of the likelihood give the same fit"""
    def run(ctx):
        import spreg
        m = c13.instance(ctx, label)
        fits = {}
        for v in ("full", "LU", "ord"):
            f = ctx.run("fit.%s.%s" % (label, v), m.call, spreg, method=v)
            if f is not None:
                fits[v] = f
        for v in fits:
            if v == "full":
                continue
            a, b = fits["full"], fits[v]
            ctx.close("betas.%s.%s" % (label, v), b.betas, a.betas, rtol=2e-4, atol=2e-5, scale=1.)
            ctx.close("logll.%s.%s" % (label, v), np.atleast_1d(np.asarray(b.logll, float)), np.atleast_1d(np.asarray(a.logll, float)), rtol=1e-7, atol=1e-5) \
                if hasattr(a, "logll") and not hasattr(a, "multi") else None
            ctx.ok("title.%s.%s" % (label, v), v.upper() in report(b).upper(), "method %s not named" % v)
    return run


SUBS = {}
for f in FRONT:
    SUBS["regimes." + f] = (regimes(f), 40, 600)
SUBS["gmm"] = (gmm(False), 90, 1500)
SUBS["gmm_regimes"] = (gmm(True), 90, 1500)
SUBS["gmm_fallback"] = (gmm_fallback, 10, 100)
for lab in sorted(BASE):
    SUBS["base." + lab] = (base(lab), 8, 120)
for lab in ("ML_Lag", "ML_Lag_durbin", "ML_Error", "ML_Error_slx", "ML_Lag_Regimes", "ML_Error_Regimes"):
    SUBS["methods." + lab] = (methods(lab), 6, 120)
for lab in models.CROSS:
    SUBS["matters." + lab] = (matters(lab), 6, 120)
    if lab not in ("NSLX",):
        SUBS["spelling." + lab] = (spelling(lab), 4, 80)
