"""C06 generalized-moments spatial error family (Kelejian-Prucha 98/99)."""
import numpy as np
from .. import gen, ref, chk
from ..core import Skip

RULE = ("Random error / lag-error data over seven weight layouts crossed with endogenous regressors, Durbin terms, "
        "instrument options and true spatial coefficients, including unit changes of y.")


def combo_data(ctx, prop_rho=True, n=None, slx_ok=True, scale=True, kinds=None, style="normal", yend_scale=1.):
    """-> d, X, Yend (or None), Q, model, kwargs"""
    rng = ctx.rng
    kind = ctx.pick("W", kinds or gen.ALL_KINDS)
    model = ctx.pick("model", ["error", "endog", "combo", "combo_endog"])
    lam = ctx.pick("lam", [-.5, -.2, 0., .3, .5, .7])
    k = ctx.pick("k", [1, 2, 3, 5])
    rho = 0.
    nend = 0
    if model.startswith("combo"):
        rho = ctx.pick("rho", [-.3, 0., .4])
        k = max(k, 2)
    if model.endswith("endog"):
        nend = ctx.pick("nend", [1, 2, 3])
    d = gen.dataset(rng, n=n or int(rng.integers(80, 150)), k=k, kind=kind, transform="r", rho=rho, lam=lam, nend=nend,
                    niv=nend + ctx.pick("over", [0, 1, 2]) if nend else 0, style=style, het=bool(ctx.idx % 2), sig=.7,
                    ids=ctx.pick("ids", ["int", "str", "perm"]))
    sc = 10. ** ctx.pick("yscale", [0, 0, 0, 1, -1]) if scale else 1.
    d.y = d.y * sc
    if nend and yend_scale != 1:
        d.yend = d.yend * yend_scale * sc
    slx = ctx.pick("slx_lags", [0, 0, 1, 2]) if slx_ok else 0
    sel = None
    kw = dict(slx_lags=slx) if slx_ok else {}
    if slx:
        if ctx.pick("slx_vars", ["All", "list"]) == "list":
            sel = [bool(v) for v in rng.integers(0, 2, k)]
            sel[int(rng.integers(k))] = True
            kw["slx_vars"] = sel
    X = d.X
    if slx:
        X = np.hstack([X, np.hstack([c[:, (np.arange(k) if sel is None else np.flatnonzero(sel))] for c in
                                     _powers(d.W, d.x, slx)])])
    Yend, Q = None, None
    if model.startswith("combo"):
        wl = ctx.pick("w_lags", [1, 2])
        lq = ctx.pick("lag_q", [True, False])
        kw.update(w_lags=wl, lag_q=lq)
        X, Yend, Q = ref.gmlag_parts(d.y, d.x, d.W, d.yend, d.q, wl, lq, slx, sel)
    elif model == "endog":
        Yend, Q = d.yend, d.q
    if nend:
        kw.update(yend=d.yend, q=d.q)
    Z = X if Yend is None else np.hstack([X, Yend])
    H = X if Yend is None else np.hstack([X, Q])
    for A, c in ((Z, 1e4), (H, 2e4)):
        if np.linalg.cond(A / np.linalg.norm(A, axis=0)) > c:
            raise Skip("ill-conditioned")
    if Yend is not None:
        Qh, _ = np.linalg.qr(H)
        if np.linalg.cond(Qh.T @ Z / np.linalg.norm(Z, axis=0)) > 2e3:
            raise Skip("weak instruments")
    ctx.sig = [d.n, round(float(d.y.sum()), 6)]
    ctx.note(n=d.n, z=Z.shape[1], h=H.shape[1])
    return d, X, Yend, Q, Z, H, model, kw


def _powers(W, x, p):
    out, c = [], x
    for _ in range(p):
        c = W @ c
        out.append(c)
    return out


def weak(crit, l, v):
    """somewhere far from the minimum the criterion is still within 1% of its range"""
    g = np.linspace(-.99, .99, 67)
    f = np.array([crit(t) for t in g])
    far = f[np.abs(g - l) > .15]
    return bool(far.min() - v < 5e-3 * max(crit(0.0), v))


def lambda_ok(ctx, pre, crit, lam, tol, ftol=1e-6):
    l, v, nloc = ref.minimise(crit)
    f = crit(lam)
    scale = max(crit(0.0), v, 1e-300)
    if weak(crit, l, v):
        # nearly flat criterion: the numerical optimiser's stopping rule, not the definition, decides
        ctx.cfg["weak"] = True
        return l
    if nloc > 1:
        ctx.cfg["multimodal"] = True
        h = 5e-3
        ctx.ok(pre + "lambda_local_minimum", f <= min(crit(min(lam + h, .99)), crit(max(lam - h, -.99))) + ftol * scale)
        return l
    ctx.ok(pre + "lambda_minimises_moments", f <= v + ftol * scale,
           "criterion %.8g at %.6f, %.8g at %.6f (scale %.3g)" % (f, lam, v, l, scale))
    # curvature-aware distance: a flat criterion does not identify lambda to the same accuracy
    ctx.close(pre + "lambda", lam, l, rtol=0, atol=tol)
    return l


def second_stage(ctx, reg, d, X, Yend, Z, H, lam, pre):
    F = lambda a: a - lam * (d.W @ a)
    if Yend is None:
        r = ref.ols(F(d.y), F(X), dof=False)
        vm = r.sig2n * r.xtxi
        b = r.b
    else:
        r = ref.tsls(F(d.y), np.hstack([F(X), F(Yend)]), H)
        b = r.b
        vm = r.sig2n * r.varb
    u = d.y - Z @ b
    sy = np.abs(d.y).max()
    ctx.close(pre + "betas", np.asarray(reg.betas)[:-1], b, rtol=1e-6)
    ctx.close(pre + "u", reg.u, u, rtol=1e-6, scale=sy)
    ctx.close(pre + "predy", reg.predy, d.y - u, rtol=1e-6, scale=sy)
    ctx.close(pre + "e_filtered", reg.e_filtered, F(u), rtol=1e-6, scale=sy)
    return r, b, vm, u


def case_kp(ctx):
    import spreg
    d, X, Yend, Q, Z, H, model, kw = combo_data(ctx)
    cls = {"error": spreg.GM_Error, "endog": spreg.GM_Endog_Error, "combo": spreg.GM_Combo,
           "combo_endog": spreg.GM_Combo}[model]
    first = ref.ols(d.y, X) if Yend is None else ref.tsls(d.y, Z, H)
    if model.startswith("combo") and abs(first.b[-1, 0]) > .9:
        raise Skip("lag coefficient near the bound")
    G, g = ref.kp_moments(d.W, first.u)
    crit = ref.kp_crit(G, g)
    reg = ctx.run(cls.__name__, cls, d.y, d.x, w=d.w, **kw)
    lam = float(np.asarray(reg.betas).reshape(-1)[-1])
    pre = model + "."
    if ctx.cfg["yscale"]:
        pre += "rescaled."
    lambda_ok(ctx, pre, crit, lam, 5e-4, 1e-5)
    r, b, vm, u = second_stage(ctx, reg, d, X, Yend, Z, H, lam, pre)
    s = np.sqrt(np.diag(vm))
    ctx.close(pre + "vm", np.asarray(reg.vm) / np.outer(s, s), vm / np.outer(s, s), rtol=0, atol=1e-5)
    ctx.close(pre + "sig2", reg.sig2, r.sig2n, rtol=1e-6)
    ctx.close(pre + "pr2", reg.pr2, np.corrcoef(d.y.ravel(), (d.y - u).ravel())[0, 1] ** 2, rtol=0, atol=1e-7)
    if model.startswith("combo"):
        combo_reduced(ctx, reg, d, b, u, pre)
    o = reg.output
    kk = len(s)
    ctx.close(pre + "table.coef", np.asarray(o["coefficients"], float), np.asarray(reg.betas, float), rtol=1e-9)
    ctx.close(pre + "table.se", np.asarray(o["std_err"][:kk], float) / np.sqrt(np.diag(reg.vm)), np.ones(kk), rtol=1e-8)


def combo_reduced(ctx, reg, d, b, u, pre):
    rho = float(b[-1, 0])
    ctx.close(pre + "rho", reg.rho, rho, rtol=0, atol=1e-6)
    if abs(rho) < .95:
        pe = np.asarray(reg.predy_e, float).reshape(-1, 1)
        sy = np.abs(d.y).max()
        ctx.close(pre + "reduced_form", pe - rho * d.W @ pe, (d.y - u) - rho * d.W @ d.y, rtol=1e-6, scale=sy)
        ctx.close(pre + "e_pred", reg.e_pred, d.y - pe, rtol=1e-8, scale=sy)
        ctx.close(pre + "pr2_e", reg.pr2_e, np.corrcoef(d.y.ravel(), pe.ravel())[0, 1] ** 2, rtol=0, atol=1e-6)


def case_moments(ctx):
    """the moment system itself and the filter"""
    from spreg import utils as U
    rng = ctx.rng
    d = gen.dataset(rng, k=2, kind=ctx.pick("W", gen.ALL_KINDS), transform=ctx.pick("tr", ["r", "o", "b"]))
    u = (rng.normal(size=(d.n, 1)) * 10. ** rng.integers(-2, 3))
    from spreg.error_sp import _momentsGM_Error
    wobj = d.w.sparse if ctx.pick("wform", ["sparse", "W"]) == "sparse" else d.w
    ctx.sig = [d.n, round(float(u.sum()), 8)]
    m = ctx.run("_momentsGM_Error", _momentsGM_Error, wobj, u)
    G, g = ref.kp_moments(d.W, u)
    ctx.close("moments.G", m[0], G, rtol=1e-9)
    ctx.close("moments.g", np.asarray(m[1]).ravel(), g, rtol=1e-9)
    lam = float(rng.uniform(-.95, .95))
    ctx.close("filter", ctx.run("get_spFilter", U.get_spFilter, wobj, lam, d.X), d.X - lam * d.W @ d.X, rtol=1e-9)
    T = int(rng.integers(2, 4))
    big = np.vstack([d.X + i for i in range(T)])
    want = np.vstack([d.X + i - lam * d.W @ (d.X + i) for i in range(T)])
    ctx.close("filter_panel", ctx.run("get_spFilter", U.get_spFilter, wobj, lam, big), want, rtol=1e-9)


MIN_FRACTION = 0.3
SUBS = {"kp": (case_kp, 400, 5000), "moments": (case_moments, 100, 800)}
