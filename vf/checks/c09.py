"""C09 spatial regime models."""
import numpy as np
from .. import gen, ref
from ..core import Skip
from . import c02, c06, c07, c08

RULE = ("Random spatial data with 2-3 interleaved, blocked or cyclic regimes; estimation by regime is compared with the "
        "non-regime estimator on the regime's observations and sub-matrix, pooled estimation with dense interacted models.")


def weights_r(d, ids):
    """the regime's own weights: the sub-matrix of the original weights, transformed like the complete matrix"""
    A = d.orig[np.ix_(ids, ids)]
    return gen.make_w(A, None, d.ws.transform)


def data(ctx, nend=0, over=0, lam=0., rho=0., n=None, Rs=(2, 2, 3), transform=None, kinds=None, kmin=1):
    """like c08.setup; keeps the untransformed matrix"""
    rng = ctx.rng
    R = ctx.pick("R", list(Rs))
    kind = ctx.pick("W", kinds or gen.ALL_KINDS)
    tr = transform or ctx.pick("transform", ["r", "r", "o", "b", "v"])
    n = n or int(rng.integers(48, 80)) * R
    A, xy = gen.base_matrix(rng, n, kind)
    if tr == "o":
        A = A / np.max(np.abs(np.linalg.eigvals(A)))
    ids = gen.make_ids(rng, len(A), ctx.pick("ids", ["int", "str", "perm"]))
    ws = gen.make_w(A, ids, tr, xy, kind)
    k = max(kmin, ctx.pick("k", [1, 2, 3, 5]))
    d = gen.D()
    d.ws, d.w, d.W, d.n, d.k, d.orig = ws, ws.w, ws.full, ws.n, k, A
    d.x = gen.design(rng, d.n, k, "normal") + rng.normal(0, .5, k)
    d.X = np.hstack([np.ones((d.n, 1)), d.x])
    g = gen.regimes(rng, d.n, R, ctx.pick("labels", ["str", "int", "float", "digit"]),
                    pattern=ctx.pick("pattern", ["block", "random", "cyclic", "block"]), minsize=36,
                    form=ctx.pick("regform", ["list", "array", "series"]))
    if tr == "v" and min(A[np.ix_(g.codes == r, g.codes == r)].sum() for r in range(R)) == 0:
        raise Skip("a regime without links cannot be standardised")
    m = rng.normal(0, 1.2, (R, k + 1))
    y = np.sum(d.X * m[g.codes], axis=1)
    e = rng.normal(0, .7, d.n) * (np.exp(rng.normal(0, .4, d.n)) if ctx.idx % 2 else 1.)
    d.yend = d.q = None
    if nend:
        d.q = rng.normal(size=(d.n, nend + over))
        v = rng.normal(0, .6, (d.n, nend))
        P = rng.uniform(.7, 1.3, (nend + over, nend)) * np.sign(rng.normal(size=(nend + over, nend)))
        d.yend = d.q @ P + .3 * d.x[:, :1] + v
        y = y + (d.yend @ rng.uniform(.3, .7, nend)) * (1 + .2 * g.codes)
        e = e + .5 * v.sum(1)
    if tr in ("b", "v"):
        sc = max(1., np.max(np.abs(np.linalg.eigvals(d.W))))
        lam, rho = lam / sc, rho / sc
    I = np.eye(d.n)
    if lam:
        e = np.linalg.solve(I - lam * d.W, e)
    y = y + e
    if rho:
        y = np.linalg.solve(I - rho * d.W, y)
    d.y = y.reshape(-1, 1)
    ctx.sig = [d.n, R, round(float(d.y.sum()), 6)]
    ctx.note(n=d.n, sizes=[int((g.codes == r).sum()) for r in range(R)], labels=g.names)
    return d, g


def slx_part(ctx, d, cls_has_vars=True, allow=(0, 0, 1)):
    slx = ctx.pick("slx_lags", list(allow))
    x, sel, kw = d.x, None, {}
    if slx:
        kw["slx_lags"] = slx
        if cls_has_vars and ctx.pick("slx_vars", ["all", "list"]) == "list":
            sel = [bool(v) for v in ctx.rng.integers(0, 2, d.k)]
            sel[int(ctx.rng.integers(d.k))] = True
            kw["slx_vars"] = sel
        x = np.hstack([x, ref.lags(d.W, d.x if sel is None else d.x[:, np.flatnonzero(sel)], slx)])
    return x, slx, sel, kw


def spread(W):
    return float(np.max(np.abs(np.linalg.eigvals(W))))


def by_name(ctx, reg, names, b, V, pre):
    """V may be None for coefficients without a standard error (given by NaN on its diagonal)"""
    o = reg.output
    got = list(o["var_names"])
    if not ctx.ok(pre + "table.names", sorted(got) == sorted(names), "%s vs %s" % (sorted(got)[:8], sorted(names)[:8])):
        return
    if len(set(names)) < len(names):
        return
    ix = [names.index(v) for v in got]
    b = np.asarray(b, float).ravel()
    ctx.close(pre + "table.coef", np.asarray(o["coefficients"], float), b[ix], rtol=1e-6, atol=1e-9)
    se = np.sqrt(np.asarray(V, float))[ix]
    have = np.isfinite(se)
    got_se = np.array([v if isinstance(v, (int, float, np.floating)) else np.nan for v in o["std_err"]], float)
    ctx.close(pre + "table.se", got_se[have] / se[have], np.ones(int(have.sum())), rtol=1e-5)


def stack(ctx, reg, d, g, subs, pre, names, lam_in_vm=True, extra=(), eq_lambda=False):
    """joint results of a by-regime estimation against the list of separate fits"""
    b = np.vstack([np.asarray(s.betas, float).reshape(-1, 1) for s in subs])
    V = ref.block_diag([np.asarray(s.vm, float) for s in subs])
    sd = np.sqrt(np.diag(V))
    sy = np.abs(d.y).max()
    # optimisers stop where they stop: equal to the precision of the optimiser, not bit for bit
    ctx.close(pre + "betas", reg.betas, b, rtol=0, atol=2e-4 * max(1., float(np.abs(b).max())))
    ctx.close(pre + "vm", np.asarray(reg.vm) / np.outer(sd, sd), V / np.outer(sd, sd), rtol=0, atol=2e-3)
    for a in ("u", "predy") + tuple(extra):
        full = np.zeros((d.n, 1))
        for r, s in enumerate(subs):
            full[g.ids(r)] = np.asarray(getattr(s, a), float).reshape(-1, 1)
        ctx.close(pre + a + "_in_callers_order", getattr(reg, a), full, rtol=0, atol=5e-4 * max(sy, float(np.abs(full).max())))
    ctx.ok(pre + "regimes", list(reg.multi.keys()) == g.keys, "%s vs %s" % (list(reg.multi), g.keys))
    for r, key in enumerate(g.keys):
        m = reg.multi[key]
        ctx.close(pre + "each.betas", m.betas, subs[r].betas, rtol=0, atol=2e-4 * max(1., float(np.abs(b).max())))
        ctx.close(pre + "each.n", m.n, len(g.ids(r)))
        ctx.close(pre + "each.y", m.y, d.y[g.ids(r)], rtol=1e-12)
        for a in ("sig2", "pr2", "logll", "aic", "schwarz", "pr2_e", "sig2n", "utu"):
            if hasattr(subs[r], a) and hasattr(m, a) and getattr(subs[r], a) is not None:
                ctx.close(pre + "each." + a, getattr(m, a), getattr(subs[r], a), rtol=1e-3, atol=1e-6)
    se2 = []
    for s in subs:
        v = np.diag(np.asarray(s.vm, float))
        se2 += list(v) + [np.nan] * (len(s.betas) - len(v))
    nm = []
    for p in g.names:
        nm += ["%s_%s" % (p, v) for v in names]
    by_name(ctx, reg, nm, reg.betas, np.where(np.isfinite(se2), np.concatenate([
        np.append(np.diag(reg.multi[k].vm), [np.nan] * (len(reg.multi[k].betas) - len(reg.multi[k].vm))) for k in g.keys]),
        np.nan), pre)


def case_multi(ctx):
    import spreg
    fam = ctx.pick("family", ["gmlag", "mllag", "mlerr", "kp", "het", "hom"])
    rng = ctx.rng
    model = ctx.pick("model", ["plain", "endog", "combo", "combo_endog"]) if fam in ("kp", "het", "hom") else \
        ctx.pick("model", ["plain", "endog"]) if fam == "gmlag" else "plain"
    nend = ctx.pick("nend", [1, 1, 2]) if model.endswith("endog") else 0
    lagm = fam in ("gmlag", "mllag") or model.startswith("combo")
    tr = None
    if fam in ("mllag", "mlerr"):
        tr = ctx.pick("transform", ["r", "r", "o", "v"])
    elif fam in ("kp", "het", "hom"):
        tr = "r"
    d, g = data(ctx, nend, ctx.pick("over", [0, 1, 2]) if nend else 0, lam=ctx.pick("lam", [-.3, 0., .4, .6]) if not lagm or
                fam in ("kp", "het", "hom") else 0., rho=ctx.pick("rho", [-.2, .2, .5]) if lagm else 0., transform=tr,
                n=None if not model.startswith("combo") else int(rng.integers(80, 110)) * 2, Rs=(2, 2, 3),
                kmin=2 if lagm else 1)
    x, slx, sel, kw = slx_part(ctx, d, fam in ("gmlag", "mllag", "mlerr") or (fam in ("kp", "het", "hom") and model == "plain"),
                               (0, 0, 1))
    sizes = [len(g.ids(r)) for r in range(g.R)]
    if min(sizes) < 3 * x.shape[1] + 12:
        raise Skip("small regime")
    names = c08.base_names(d.k, 0, slx, sel)
    if nend:
        names += ["endogenous_%d" % (j + 1) for j in range(nend)]
    if lagm:
        names.append("W_dep_var")
    if fam not in ("gmlag", "mllag"):
        names.append("lambda")
    args, pos, own = [d.y, d.x], {}, {}
    opt = {}
    if fam == "gmlag":
        cls, sub = spreg.GM_Lag_Regimes, spreg.GM_Lag
        opt = dict(w_lags=ctx.pick("w_lags", [1, 2, 3]), robust=ctx.pick("robust", [None, "white", "ogmm"]),
                   sig2n_k=ctx.pick("sig2n_k", [False, True]), spat_diag=ctx.pick("diag", [True, False]),
                   spat_impacts=ctx.pick("impacts", ["simple", None, "full"]))
        if nend:
            opt["lag_q"] = ctx.pick("lag_q", [True, False])
        sep = dict(regime_lag_sep=True, regime_err_sep=True)
        if ctx.pick("ask", ["both", "lag only"]) == "lag only":
            sep = dict(regime_lag_sep=True)
        own = dict(opt)
    elif fam == "mllag":
        cls, sub = spreg.ML_Lag_Regimes, spreg.ML_Lag
        opt = dict(method=ctx.pick("method", ["full", "LU", "ord"]))
        sep = dict(regime_lag_sep=True)
        kw["spat_impacts"] = None
    elif fam == "mlerr":
        cls, sub = spreg.ML_Error_Regimes, spreg.ML_Error
        opt = dict(method=ctx.pick("method", ["full", "LU", "ord"]))
        sep = dict(regime_err_sep=True)
    else:
        tag = {"kp": "", "het": "_Het", "hom": "_Hom"}[fam]
        base = {"plain": "GM_Error%s", "endog": "GM_Endog_Error%s", "combo": "GM_Combo%s", "combo_endog": "GM_Combo%s"}[model]
        cls, sub = getattr(spreg, base % tag + "_Regimes"), getattr(spreg, base % tag)
        sep = dict(regime_err_sep=True)
        durbin = getattr(spreg, "GM_Endog_Error" + tag)
        if model.startswith("combo"):
            sep["regime_lag_sep"] = True
            opt["w_lags"] = ctx.pick("w_lags", [1, 2, 3])
            if nend:
                opt["lag_q"] = ctx.pick("lag_q", [True, False])
        if fam == "het":
            opt["step1c"] = ctx.pick("step1c", [False, True])
            if model != "plain":
                opt["inv_method"] = "true_inv"
        if fam in ("het", "hom"):
            opt["max_iter"] = ctx.pick("max_iter", [1, 3])
        if fam == "hom":
            opt["A1"] = ctx.pick("A1", ["hom_sc", "hom", "het"])
    own = own or dict(opt)
    if nend:
        kw.update(yend=d.yend, q=d.q)
    ws = [weights_r(d, g.ids(r)) for r in range(g.R)]
    for s in ws:
        if (s.full.sum(1) == 0).mean() > .3:
            raise Skip("mostly islands")
        if not s.full.any():
            raise Skip("empty regime weights")
    subs = []
    for r in range(g.R):
        i = g.ids(r)
        if fam == "gmlag":
            Xs, Ys, Qs = ref.gmlag_parts(d.y[i], x[i], ws[r].full, d.yend[i] if nend else None, d.q[i] if nend else None,
                                         opt["w_lags"], opt.get("lag_q", True))
            if slx:                    # the lags of x (and of q), and these only, come from the complete weights
                Xs, _, Qs = [None if v is None else v[i] for v in ref.gmlag_parts(
                    d.y, d.x, d.W, d.yend, d.q, opt["w_lags"], opt.get("lag_q", True), slx, sel)]
            Zr, Hr = np.hstack([Xs, Ys]), np.hstack([Xs, Qs])
            c02.well(Zr, Hr)
            f = ref.tsls(d.y[i], Zr, Hr, opt["sig2n_k"], opt["robust"])
            rr = float(f.b[-1, 0])
            if abs(rr) * max(1, spread(ws[r].full)) > .85:
                raise Skip("lag coefficient near the bound")
            m = gen.D()
            m.betas, m.vm, m.u, m.predy, m.sig2n, m.utu = f.b, f.vm, f.u, f.predy, f.utu / len(i), f.utu
            if opt["robust"] != "ogmm":
                m.sig2 = f.sig2
            m.pr2 = np.corrcoef(d.y[i].ravel(), f.predy.ravel())[0, 1] ** 2
            m.predy_e = np.linalg.solve(np.eye(len(i)) - rr * ws[r].full, f.predy - rr * Ys[:, -1:])
            m.e_pred = d.y[i] - m.predy_e
            m.pr2_e = np.corrcoef(d.y[i].ravel(), m.predy_e.ravel())[0, 1] ** 2
            subs.append(m)
            continue
        kr = dict(own)
        if nend:
            kr.update(yend=d.yend[i], q=d.q[i])
        Xr = np.hstack([np.ones((len(i), 1)), x[i]])
        if np.linalg.cond(Xr / np.linalg.norm(Xr, axis=0)) > 1e3:
            raise Skip("ill-conditioned")
        if lagm:
            Xs, Ys, Qs = ref.gmlag_parts(d.y[i], x[i], ws[r].full, d.yend[i] if nend else None, d.q[i] if nend else None,
                                         opt.get("w_lags", 1), opt.get("lag_q", True))
            if slx and model.startswith("combo"):       # the lags of x (and of q), and these only, come from the complete weights
                Xs, _, Qs = [v[i] for v in ref.gmlag_parts(d.y, d.x, d.W, d.yend, d.q, opt["w_lags"], opt.get("lag_q", True), slx)]
            c02.well(np.hstack([Xs, Ys]), np.hstack([Xs, Qs])) if fam != "mllag" else None
            if fam != "mllag":
                rr = ref.tsls(d.y[i], np.hstack([Xs, Ys]), np.hstack([Xs, Qs])).b[-1, 0]
                if abs(rr) * max(1, spread(ws[r].full)) > .85:
                    raise Skip("lag coefficient near the bound")
        if fam == "mllag":
            kr["spat_impacts"] = None
            t, v, nloc = ref.maximise(ref.lag_conc(d.y[i], Xr, ws[r].full))
            if nloc > 1 or abs(t) > .95:
                raise Skip("boundary or several optima")
        if fam == "mlerr":
            t, v, nloc = ref.maximise(ref.err_conc(d.y[i], Xr, ws[r].full))
            if nloc > 1 or abs(t) > .95:
                raise Skip("boundary or several optima")
        try:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if slx and model.startswith("combo"):
                    kr = {a: v for a, v in kr.items() if a not in ("w_lags", "lag_q", "yend", "q")}
                    s = durbin(d.y[i], Xs[:, 1:], yend=Ys, q=Qs, w=ws[r].w, **kr)
                else:
                    s = sub(d.y[i], x[i], w=ws[r].w, **kr)
        except Exception as e:
            raise Skip("the estimator refuses the regime's own data: %s" % type(e).__name__)
        if fam in ("kp", "het", "hom") and abs(float(np.asarray(s.betas).ravel()[-1])) > .93:
            raise Skip("lambda near the bound")
        subs.append(s)
    kw.update(opt)
    pre = "multi.%s.%s." % (fam, model)
    if d.ws.transform == "o" and ctx.cfg["W"] in ("dist", "directed"):
        pre += "general-weights."
    kw.update(sep)
    if nend and fam != "gmlag" and model == "endog":
        yend, q = kw.pop("yend"), kw.pop("q")
        reg = ctx.run(cls.__name__, cls, d.y, d.x, yend, q, g.arg, w=d.w, **kw)
    else:
        reg = ctx.run(cls.__name__, cls, d.y, d.x, g.arg, w=d.w, **kw)
    extra = []
    if lagm and not (slx and model.startswith("combo")):
        extra += ["predy_e", "e_pred"]
    if fam not in ("gmlag", "mllag"):
        extra.append("e_filtered")
    stack(ctx, reg, d, g, subs, pre, names, extra=extra)


class Alt(c07.Chain):
    """regressors filtered first and interacted with the regimes afterwards (recorded finding)"""

    def Zs(self, l):
        return self.alt(l)


def pooled_setup(ctx, nend, lag, **kwargs):
    d, g = data(ctx, nend, ctx.pick("over", [0, 1, 2]) if nend else 0, **kwargs)
    return d, g


def case_pooled_lag(ctx):
    """GM_Lag_Regimes with a common (or, on the union of regime weights, separate) spatial coefficient"""
    import spreg
    nend = ctx.pick("nend", [0, 0, 1, 2])
    d, g = data(ctx, nend, ctx.pick("over", [0, 1, 2]) if nend else 0, rho=ctx.pick("rho", [-.3, .2, .5]), kmin=2)
    lag_sep = ctx.pick("lag_sep", [False, False, True])
    slx = ctx.pick("slx_lags", [0, 0, 1])
    sel = None
    if slx and ctx.pick("slx_vars", ["all", "list"]) == "list":
        sel = [bool(v) for v in ctx.rng.integers(0, 2, d.k)]
        sel[int(ctx.rng.integers(d.k))] = True
    rob = ctx.pick("robust", [None, "white", "hac", "ogmm"])
    dof = ctx.pick("sig2n_k", [False, True])
    wl = ctx.pick("w_lags", [1, 2, 3])
    lq = ctx.pick("lag_q", [True, False])
    W, w_i = d.W, None
    if lag_sep:
        w_i = [weights_r(d, g.ids(r)).full for r in range(g.R)]
        W = np.zeros_like(d.W)
        for r in range(g.R):
            W[np.ix_(g.ids(r), g.ids(r))] = w_i[r]
        if not all(v.any() for v in w_i):
            raise Skip("empty regime weights")
    X, Yend, Q = ref.gmlag_parts(d.y, d.x, d.W if slx else W, d.yend, d.q, wl, lq, slx, sel)
    Yend = np.hstack([Yend[:, :-1], W @ d.y])
    x = X[:, 1:]
    fk, flags = c08.pick_flags(ctx, x.shape[1], nend)
    if lag_sep and all(flags):
        flags[0] = False
        fk["constant_regi"] = "one"
    kw, K = ({} if sel is None else {"slx_vars": sel}), None
    if rob == "hac":
        gk, K = gen.kernel(ctx.rng, d.n, "triangular", k=6)
        kw["gwk"] = gk
    if nend:
        kw.update(yend=d.yend, q=d.q)
    kx = X.shape[1]
    XI = ref.interact(X, flags[:kx], g.codes, g.R)
    YI = ref.interact(Yend, flags[kx:] + [lag_sep], g.codes, g.R)
    QI = ref.interact(Q, [True] * Q.shape[1], g.codes, g.R)
    if rob == "hac":
        sizes = None
    Z, H = np.hstack([XI, YI]), np.hstack([XI, QI])
    c02.well(Z, H)
    f = ref.tsls(d.y, Z, H, dof, rob, K)
    bn = c08.base_names(d.k, 0, slx, sel)
    names = c08.names_for(bn, flags[:kx], g) + c08.names_for(
        ["endogenous_%d" % (j + 1) for j in range(nend)] + ["W_dep_var"], flags[kx:] + [lag_sep], g)
    rhos = f.b[-g.R:, 0] if lag_sep else f.b[-1:, 0]
    if lag_sep:                    # order of the last columns: regime by regime, all varying endogenous columns
        ny = sum(flags[kx:]) + 1
        kyd = ny
        start = Z.shape[1] - YI.shape[1]
        rhos = np.array([f.b[start + r * kyd + kyd - 1, 0] for r in range(g.R)])
    if np.max(np.abs(rhos)) * max(1., spread(W)) > .9:
        raise Skip("lag coefficient near the bound")
    pre = "pooled.gmlag.%s%s." % ("lagsep." if lag_sep else "", rob or "classic")
    imp = None if lag_sep else ctx.pick("impacts", ["simple", None, "full"])
    reg = ctx.run("GM_Lag_Regimes", spreg.GM_Lag_Regimes, d.y, d.x, g.arg, w=d.w, w_lags=wl, lag_q=lq, robust=rob,
                  sig2n_k=dof, slx_lags=slx, regime_lag_sep=lag_sep, regime_err_sep=lag_sep, spat_impacts=imp,
                  spat_diag=False if lag_sep else ctx.pick("diag", [True, False]), **kw, **fk)
    c08.named_table(ctx, reg, names, f.b, f.vm, pre + "table.")
    c08.finish(ctx, reg, d, f.b, f.vm, f.u, pre, rtol=1e-6)
    pe = np.asarray(reg.predy_e, float).reshape(-1, 1)
    sy = np.abs(d.y).max()
    xb = d.y - f.u
    wy = W @ d.y
    if lag_sep:
        rv = rhos[g.codes].reshape(-1, 1)
        ctx.close(pre + "reduced_form_each_regime", pe - rv * (W @ pe), xb - rv * wy, rtol=1e-6, scale=sy)
    else:
        ctx.close(pre + "reduced_form", pe - rhos[0] * (W @ pe), xb - rhos[0] * wy, rtol=1e-6, scale=sy)
        ctx.close(pre + "rho", reg.rho, rhos[0], rtol=0, atol=1e-6)
    ctx.close(pre + "e_pred", reg.e_pred, d.y - pe, rtol=1e-8, scale=sy)


def case_pooled_ml(ctx):
    import spreg
    from . import c04
    err = ctx.pick("model", ["lag", "error"]) == "error"
    d, g = data(ctx, lam=ctx.pick("lam", [-.4, .3, .6]) if err else 0., rho=0. if err else ctx.pick("rho", [-.3, .2, .6]),
                transform=ctx.pick("transform", ["r", "r", "o", "v"]))
    x, slx, sel, kw = slx_part(ctx, d)
    X = np.hstack([np.ones((d.n, 1)), x])
    fk, flags = c08.pick_flags(ctx, x.shape[1])
    XI = ref.interact(X, flags, g.codes, g.R)
    if np.linalg.cond(XI / np.linalg.norm(XI, axis=0)) > 1e4:
        raise Skip("ill-conditioned")
    meth = ctx.pick("method", ["full", "LU", "ord"])
    f = (ref.err_conc if err else ref.lag_conc)(d.y, XI, d.W)
    opt = ref.maximise(f)
    if abs(opt[0]) > .97:
        raise Skip("optimum at the boundary")
    WXI = d.W @ XI
    if err:
        falt = ref.err_conc(d.y, XI, d.W, ref.interact(d.W @ X, flags, g.codes, g.R))
        oalt = ref.maximise(falt)
        if abs(oalt[0]) > .97:
            raise Skip("optimum at the boundary")
    bn = c08.base_names(d.k, 0, slx, sel)
    names = c08.names_for(bn, flags, g) + (["lambda"] if err else ["_Global_W_dep_var"])
    cls = spreg.ML_Error_Regimes if err else spreg.ML_Lag_Regimes
    if not err:
        kw["spat_impacts"] = ctx.pick("impacts", ["simple", None, "full"])
        kw["spat_diag"] = ctx.pick("diag", [True, False])
    pre = "pooled.ml%s." % ("err" if err else "lag")
    reg = ctx.run(cls.__name__, cls, d.y, d.x, g.arg, w=d.w, method=meth, **kw, **fk)
    t = float(np.asarray(reg.betas).ravel()[-1])
    ll = float(np.asarray(reg.logll).ravel()[0])
    WXA = ref.interact(d.W @ X, flags, g.codes, g.R)
    bb = np.asarray(reg.betas)[:-1]
    dd = [float(np.max(np.abs(ref.ols(d.y - t * d.W @ d.y, XI - t * v).b - bb))) for v in (WXI, WXA)] if err else []
    if err and dd[0] > 1e-9 and dd[1] < .02 * dd[0]:
        ctx.fail(pre + "filters-before-interacting", "log-likelihood %.6f reported, %.6f for the model" % (ll, f(t)))
        f, opt, WXI = falt, oalt, WXA
    c04.opt_checks(ctx, f, t, ll, pre, opt)
    sy = np.abs(d.y).max()
    k = XI.shape[1]
    if err:
        o = ref.ols(d.y - t * d.W @ d.y, XI - t * WXI)
        u = d.y - XI @ o.b
        e = u - t * d.W @ u                # equal to the residuals of the filtered model where the model is filtered
        o.sig2n = float(np.mean(e ** 2))
        V = ref.ml_err_vm(XI - t * WXI, d.W, t, o.sig2n)
        ctx.close(pre + "e_filtered", reg.e_filtered, u - t * d.W @ u, rtol=1e-6, scale=sy)
    else:
        o = ref.ols(d.y - t * d.W @ d.y, XI)
        u = o.u
        V = ref.ml_lag_vm(XI, d.W, o.b, t, o.sig2n)[:-1, :-1]
        pe = np.asarray(reg.predy_e, float).reshape(-1, 1)
        ctx.close(pre + "reduced_form", pe - t * d.W @ pe, XI @ o.b, rtol=1e-6, scale=sy)
        ctx.close(pre + "e_pred", reg.e_pred, d.y - pe, rtol=1e-8, scale=sy)
    b = np.vstack([o.b, [[t]]])
    kk = k + (0 if err else 1)
    ctx.close(pre + "aic", reg.aic, 2 * kk - 2 * ll, rtol=1e-8)
    ctx.close(pre + "schwarz", reg.schwarz, kk * np.log(d.n) - 2 * ll, rtol=1e-8)
    ctx.close(pre + "sig2", reg.sig2, o.sig2n, rtol=1e-6)
    if meth == "ord":                       # covariance with ORD: recorded under C04/C05
        c08.finish(ctx, _novm(reg, V), d, b, V, u, pre, rtol=1e-6)
        V = np.asarray(reg.vm)
    else:
        c08.finish(ctx, reg, d, b, V, u, pre, rtol=1e-6)
    c08.named_table(ctx, reg, names, b, V, pre + "table.")


class _novm:
    def __init__(self, reg, V):
        self.betas, self.u, self.predy, self.y, self.vm = reg.betas, reg.u, reg.predy, reg.y, V


def case_pooled_gm(ctx):
    import spreg
    fam = ctx.pick("family", ["kp", "het", "hom"])
    model = ctx.pick("model", ["plain", "endog", "combo", "combo_endog"])
    nend = ctx.pick("nend", [1, 1, 2]) if model.endswith("endog") else 0
    combo = model.startswith("combo")
    d, g = data(ctx, nend, ctx.pick("over", [0, 1, 2]) if nend else 0, lam=ctx.pick("lam", [-.4, .3, .6]),
                rho=ctx.pick("rho", [-.2, .3]) if combo else 0., transform="r", kmin=2 if combo else 1)
    x, slx, sel, kw = slx_part(ctx, d, model == "plain", (0, 0, 1))
    X = np.hstack([np.ones((d.n, 1)), x])
    Yend, Q = d.yend, d.q
    if combo:
        wl, lq = ctx.pick("w_lags", [1, 2, 3]), ctx.pick("lag_q", [True, False])
        X, Yend, Q = ref.gmlag_parts(d.y, d.x, d.W, d.yend, d.q, wl, lq, slx)
        kw.update(w_lags=wl, lag_q=lq)
    kx = X.shape[1]
    fk, flags = c08.pick_flags(ctx, kx - 1, nend)
    if combo and slx and fk["cols2regi"] != "all":
        fk["cols2regi"] = "all"
        flags = [flags[0]] + [True] * (kx - 1 + nend)
    if combo:
        flags = flags + [False]
    XI = ref.interact(X, flags[:kx], g.codes, g.R)
    R = g.R
    if Yend is None:
        Z = H = XI
        zalt = lambda l: ref.interact(X - l * d.W @ X, flags, g.codes, R)
        if np.linalg.cond(XI / np.linalg.norm(XI, axis=0)) > 1e4:
            raise Skip("ill-conditioned")
    else:
        Z = np.hstack([XI, ref.interact(Yend, flags[kx:], g.codes, R)])
        H = np.hstack([XI, ref.interact(Q, [True] * Q.shape[1], g.codes, R)])
        zalt = lambda l: np.hstack([ref.interact(X - l * d.W @ X, flags[:kx], g.codes, R),
                                    ref.interact(Yend - l * d.W @ Yend, flags[kx:], g.codes, R)])
        c02.well(Z, H)
    tag = {"kp": "", "het": "_Het", "hom": "_Hom"}[fam]
    base = {"plain": "GM_Error%s_Regimes", "endog": "GM_Endog_Error%s_Regimes", "combo": "GM_Combo%s_Regimes",
            "combo_endog": "GM_Combo%s_Regimes"}[model] % tag
    cls = getattr(spreg, base)
    first = ref.ols(d.y, Z) if Yend is None else ref.tsls(d.y, Z, H)
    if combo and abs(first.b[-1, 0]) > .85:
        raise Skip("lag coefficient near the bound")
    if fam == "het" and Yend is not None and abs(first.b[-1, 0]) > .85:
        raise Skip("coefficient above 0.9 (recorded under C07)")
    step1c, mi = False, 1
    A1 = "hom_sc"
    if fam == "het":
        kw["step1c"] = step1c = ctx.pick("step1c", [False, True])
        A1 = "het"
        if Yend is not None:
            kw["inv_method"] = "true_inv"
    if fam == "hom":
        kw["A1"] = A1 = ctx.pick("A1", ["hom_sc", "hom", "het"])
    if fam != "kp":
        kw["max_iter"] = mi = ctx.pick("max_iter", [1, 1, 3])
    if nend and model != "endog":
        kw.update(yend=d.yend, q=d.q)
    bn = c08.base_names(d.k, 0, slx, sel)
    names = c08.names_for(bn, flags[:kx], g) + c08.names_for(
        ["endogenous_%d" % (j + 1) for j in range(nend)] + (["W_dep_var"] if combo else []), flags[kx:], g) + ["lambda"]
    pre = "pooled.%s.%s." % (fam, model)

    def fit():
        if model == "endog":
            return ctx.run(base, cls, d.y, d.x, d.yend, d.q, g.arg, w=d.w, **kw, **fk)
        return ctx.run(base, cls, d.y, d.x, g.arg, w=d.w, **kw, **fk)
    sy = np.abs(d.y).max()
    if fam == "kp":
        G, gg = ref.kp_moments(d.W, first.u)
        crit = ref.kp_crit(G, gg)
        reg = fit()
        lam = float(np.asarray(reg.betas).ravel()[-1])
        c06.lambda_ok(ctx, pre, crit, lam, 5e-4, 1e-5)
        F = lambda a: a - lam * (d.W @ a)
        fits = [ref.ols(F(d.y), zz) if Yend is None else ref.tsls(F(d.y), zz, H) for zz in (F(Z), zalt(lam))]
        o = which(ctx, pre, np.asarray(reg.betas)[:-1], fits, [ff.sig2n * (ff.xtxi if Yend is None else ff.varb) for ff in fits])
        r = fits[o]
        V = r.sig2n * (r.xtxi if Yend is None else r.varb)
        u = d.y - Z @ r.b
        c08.finish(ctx, reg, d, np.vstack([r.b, [[lam]]]), V, u, pre, rtol=1e-6)
        ctx.close(pre + "sig2", reg.sig2, r.sig2n, rtol=1e-6)
        ctx.close(pre + "e_filtered", reg.e_filtered, F(u), rtol=1e-6, scale=sy)
        by_name(ctx, reg, names, np.append(r.b.ravel(), lam), np.append(np.diag(V), np.nan), pre)
    else:
        ch = [c07.Chain(fam, d.W, d.y, Z, H, A1, Yend is not None, clamp=False),
              Alt(fam, d.W, d.y, Z, H, A1, Yend is not None, clamp=False)]
        ch[1].alt = zalt
        lam1 = ch[0].first_lambda(step1c)
        if abs(lam1[0]) > .95 or lam1[1] > 1:
            raise Skip("first-step lambda near the bound or several minima")
        for c in ch:
            b2, _, f2 = c.second(lam1[0])
            if abs(ref.minimise(f2)[0]) > .95:
                raise Skip("lambda near the bound")
            if fam == "het" and Yend is not None and abs(b2[-1, 0]) > .88:
                raise Skip("coefficient above 0.9 (recorded under C07)")
        reg = fit()
        b = np.asarray(reg.betas)[:-1]
        if mi > 1 and abs(float(np.asarray(reg.betas).ravel()[-1])) > .97:
            raise Skip("lambda at the bound")
        stale = fam == "het" and Yend is not None and (step1c or mi > 1)
        lf = [lam1[0]]
        if mi > 1:
            c = ch[1]
            l, it, eps = lam1[0], 0, 1.
            while it < mi and eps > 1e-5:
                lf.append(l)
                ln = ref.minimise(c.second(l)[2])[0]
                eps, l, it = abs(ln - l), ln, it + 1
        cand, fits, tags = [], [], []
        if stale:
            l0 = ch[0].first_lambda(False)[0]
            s = np.sqrt(np.abs(np.diag(ch[0].vm(d.y - Z @ b, float(np.asarray(reg.betas).ravel()[-1]))))[:-1]).reshape(-1, 1)
            for nm, c, l in (("t", ch[0], lf[-1]), ("a", ch[1], lf[-1]), ("stale", ch[1], l0)):
                cand.append(float(np.max(np.abs(c.fit(l)[0] - b) / s)))
            ctx.note(dist=cand)
            if cand[2] < .02 and cand[2] < .3 * min(cand[:2]) and min(cand[:2]) > 1e-3:
                ctx.fail(pre + "filter-stays-at-first-lambda", "coefficients come from the first-step lambda")
                return
        s = np.sqrt(np.abs(np.diag(ch[0].vm(d.y - Z @ b, lam1[0])))[:-1]).reshape(-1, 1)
        lo, hi, m = (lam1[0] - .02, lam1[0] + .02, 13) if mi == 1 else (-.9999, .9999, 103)
        best, at = zip(*[nearest(lambda l, c=c: float(np.max(np.abs(c.fit(l)[0] - b) / s)), lo, hi, m) for c in ch])
        if mi > 1 and any(v < 1e-5 and abs(a) > .96 for v, a in zip(best, at)):
            raise Skip("an iteration passed through the bound of lambda")
        use = int(best[0] > 1e-6 and best[1] < .1 * best[0])
        if use:
            ctx.fail(pre + "filters-before-interacting", "coefficients %.3g std. errors from any filtered model" % best[0])
        c07.judge(ctx, reg, ch[use], pre, step1c, mi, lam1, False, d, table=False)
        lam = float(np.asarray(reg.betas).ravel()[-1])
        by_name(ctx, reg, names, np.asarray(reg.betas).ravel(), np.diag(reg.vm), pre)
    if combo:
        u = np.asarray(reg.u)
        c06.combo_reduced(ctx, reg, d, np.asarray(reg.betas)[:-1], u, pre)


def nearest(dist, lo, hi, m):
    from scipy import optimize
    grid = np.linspace(lo, hi, m)
    v = [dist(l) for l in grid]
    i = int(np.argmin(v))
    r = optimize.minimize_scalar(lambda l: dist(l), bounds=(grid[max(i - 1, 0)], grid[min(i + 1, m - 1)]), method="bounded",
                                 options=dict(xatol=1e-11))
    return (float(r.fun), float(r.x)) if r.fun < v[i] else (v[i], float(grid[i]))


def which(ctx, pre, b, fits, vms):
    s = np.sqrt(np.diag(vms[0])).reshape(-1, 1)
    dist = [float(np.max(np.abs(f.b - b) / s)) for f in fits]
    if dist[0] > 1e-8 and dist[1] < .02 * dist[0]:
        ctx.fail(pre + "filters-before-interacting", "coefficients %.3g std. errors from the filtered model" % dist[0])
        return 1
    return 0


MIN_FRACTION = 0.3
SUBS = {"multi": (case_multi, 260, 3000), "lag": (case_pooled_lag, 160, 2000), "ml": (case_pooled_ml, 140, 1600),
        "gm": (case_pooled_gm, 200, 2400)}
