"""C35 hard_bound: raises exactly when a spatial parameter is out of bounds, and changes nothing otherwise."""
import inspect
import sys
import numpy as np
from .. import gen, models, ref
from ..core import Skip

RULE = ("Every estimator with the hard_bound option fitted twice on data with mild, strong or explosive spatial dependence: without the "
        "option (recording every spatial parameter its steps find) and with it.  A final error parameter of .99 or more or a lag "
        "parameter of 1 or more must raise; with nothing out of bounds every value must be the same; without the option an inadmissible "
        "lag parameter is announced in the warnings and no reduced-form predictions are made up.")
PLAIN = ["GM_Lag", "GM_Error", "GM_Error_Het", "GM_Error_Hom", "GM_Endog_Error", "GM_Endog_Error_Het", "GM_Endog_Error_Hom",
         "GM_Combo", "GM_Combo_Het", "GM_Combo_Hom"]
CASE_LIMIT = 60
BOUND = {"lambda": .99, "rho": 1.}


class Recorder:
    """wraps the moment optimiser wherever spreg refers to it"""

    def __init__(self):
        self.seen, self.inverted, self.old = [], [], []

    def __enter__(self):
        for name, mod in list(sys.modules.items()):
            if not name.startswith("spreg"):
                continue
            for what, wrap in (("optim_moments", self.wrap), ("inverse_prod", self.wrap_inverse)):
                f = getattr(mod, what, None)
                if callable(f):
                    self.old.append((mod, what, f))
                    setattr(mod, what, wrap(f))
        return self

    def wrap_inverse(self, f):
        sig = inspect.signature(f)

        def g(*a, **kw):
            try:
                self.inverted.append(abs(float(np.ravel(sig.bind(*a, **kw).arguments["scalar"])[0])))
            except Exception:
                pass
            return f(*a, **kw)
        return g

    def wrap(self, f):
        def g(*a, **kw):
            r = f(*a, **kw)
            try:
                self.seen.append(abs(float(np.ravel(r)[0])))
            except Exception:
                pass
            return r
        return g

    def __exit__(self, *a):
        for mod, what, f in self.old:
            setattr(mod, what, f)


def spatial(reg, name_y):
    """(lambdas, rhos) of a result"""
    t = reg.output
    b = [float(v) for v in t["coefficients"]]
    lam = [b[i] for i, v in enumerate(t["var_names"]) if str(v).endswith("lambda")]
    rho = [b[i] for i, v in enumerate(t["var_names"]) if str(v).endswith("W_" + name_y)]
    return lam, rho


def mk(label, reg=False, gmm=False):
    def case(ctx):
        import spreg
        rng = ctx.rng
        cls = label + ("_Regimes" if reg else "")
        R = ctx.pick("R", [2, 3]) if reg else 1
        n = int(rng.integers(45, 80)) * R
        d = gen.dataset(rng, n=n, k=2, kind=ctx.pick("W", ["rook", "queen", "knn", "directed"]), transform="r", ids=ctx.pick("ids", ["int", "str"]),
                        nend=1 if "Endog" in label else 0, niv=2 if "Endog" in label else 0,
                        rho=ctx.pick("rho", [.3, .9, 1.15, -1.2, .6]) if "Lag" in label or "Combo" in label else 0.,
                        lam=ctx.pick("lam", [.3, .97, 1.03, -.5, 1.2, .6, -1.15, -.98]) if "Lag" not in label else 0., sig=ctx.pick("sig", [.5, 3.]))
        if not np.all(np.isfinite(d.y)) or np.max(np.abs(d.y)) > 1e5:
            raise Skip("explosive data out of scale")
        kw = dict(y=d.y, x=d.x, w=d.w, name_y="crime", name_x=["inc", "val"])
        if "Endog" in label:
            kw.update(yend=d.yend, q=d.q, name_yend=["dist"], name_q=["q1", "q2"])
        if reg:
            g = gen.regimes(rng, d.n, R, "str", pattern=ctx.pick("pattern", ["random", "block"]), minsize=30)
            kw.update(regimes=g.arg)
            if label == "GM_Lag":
                kw.update(regime_lag_sep=ctx.pick("lag_sep", [False, True]), regime_err_sep=ctx.pick("err_sep", [False, True]))
                if ctx.pick("pooled", [False, True]):
                    kw.update(constant_regi="one", cols2regi=[True, ctx.pick("second", [True, False])])
            elif "Combo" in label:
                s = ctx.pick("sep", [False, True])
                kw.update(regime_lag_sep=s, regime_err_sep=s)
            else:
                kw.update(regime_err_sep=ctx.pick("err_sep", [False, True]))
        if "Het" in label or "Hom" in label:
            kw.update(max_iter=ctx.pick("max_iter", [1, 3]))
        ctx.sig = [cls, ctx.idx, float(d.y.sum())]
        if gmm:
            kw.update(estimator="het" if "Het" in label else "hom" if "Hom" in label else "kp98", add_wy="Combo" in label)
            cls = "GMM_Error"
        f = getattr(spreg, cls)
        with Recorder() as rec:
            try:
                with ctx.quiet():
                    a = f(**kw)
            except np.linalg.LinAlgError:
                raise Skip("singular")
            except Exception as e:
                if "power expansion" in str(e):
                    ctx.ok("announced", not any(v > 1 + 1e-6 for v in rec.inverted),
                           "reduced form attempted for a lag parameter of %s instead of announcing it" % rec.inverted[-1:])
                    if label == "GM_Lag" and not reg:
                        X, Yend, Q = ref.gmlag_parts(d.y, d.x, d.W, None, None, 1, True, 0, None)
                        r = abs(float(ref.tsls(d.y, np.hstack([X, Yend]), np.hstack([X, Q])).b.ravel()[-1]))
                        ctx.ok("announced", r < 1 + 1e-6, "reduced form attempted for a lag parameter of %.4f in absolute value" % r)
                    raise Skip("reduced form out of reach of the power expansion")
                ctx.fail("without.exception", "%s: %s" % (type(e).__name__, str(e)[:150]))
                return
        lam, rho = spatial(a, "crime")
        ctx.ok("found", bool(lam) == ("Lag" not in label) and bool(rho) == ("Lag" in label or "Combo" in label),
               "%s, %s in %s" % (lam, rho, list(a.output["var_names"])))
        out = [v for v in lam if abs(v) >= .99] + [v for v in rho if abs(v) >= 1]
        edge = [v for v in rec.seen if v >= .99]
        near = [v for v in rho if abs(abs(v) - 1) < 1e-9]
        ctx.note(lam=[round(float(v), 4) for v in lam], rho=[round(float(v), 4) for v in rho], steps=len(rec.seen), out=len(out))
        warned = "outside the bound" in (str(getattr(a, "warning", "")) + "".join(str(getattr(m, "warning", "")) for m in getattr(a, "multi", {}).values()))
        bad = any(abs(v) >= 1 for v in rho)
        if not near:
            if bad:
                ctx.ok("announced", warned or "outside the bound" in a.summary, "lag parameter %s without a word" % rho)
            if not reg and rho:
                if bad:
                    ctx.ok("not_invented.fit", not np.isfinite(float(np.ravel(getattr(a, "pr2_e", np.nan) if getattr(a, "pr2_e", None) is not None
                                                                              else np.nan)[0])) and "omitted" in a.summary.lower(),
                           "spatial pseudo R2 of %s for a lag parameter of %s" % (getattr(a, "pr2_e", None), rho))
                ctx.ok("not_invented", bool(np.any(a.predy_e)) != bad, "reduced form for a lag parameter of %s" % rho)
        if not out and not edge:
            ctx.ok("no_alarm", not warned, "all spatial parameters in bounds: %s %s" % (lam, rho))
        try:
            with ctx.quiet():
                b = f(**{**kw, "hard_bound": True})
            err = None
        except Exception as e:
            err = e
        if near:
            return
        if err is not None:
            if out:
                ctx.ok("raised", "bound" in str(err), "%s: %s" % (type(err).__name__, err))
            elif edge:
                raise Skip("an earlier step was out of bounds")
            elif not rec.seen and "Lag" not in label:
                raise Skip("the steps were not seen")
            else:
                ctx.ok("no_reason", False, "raised %s: %s with %s %s, steps %s" % (type(err).__name__, str(err)[:150], lam, rho, rec.seen))
            return
        if not ctx.ok("must_raise", not out, "returned with error parameters %s, lag parameters %s" % (lam, rho)):
            return
        fa, fb = models.flat(a), models.flat(b)
        ctx.ok("same_content", set(fa) == set(fb), "%s" % sorted(set(fa) ^ set(fb))[:4])
        diff = [k for k in fa if k in fb and not models.same(fa[k], fb[k])]
        ctx.ok("same", not diff, "%s" % diff[:5])
    return case


SUBS = {}
for _l in PLAIN:
    SUBS[_l] = (mk(_l), 12, 200)
    SUBS[_l + "_Regimes"] = (mk(_l, True), 12, 200)
    if _l != "GM_Lag":
        SUBS["GMM:" + _l] = (mk(_l, False, True), 5, 80)
        SUBS["GMM:" + _l + "_Regimes"] = (mk(_l, True, True), 5, 80)
