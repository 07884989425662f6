"""C08 non-spatial regime models: OLS_Regimes, TSLS_Regimes."""
import numpy as np
from .. import gen, ref, chk
from ..core import Skip
from . import c02

RULE = ("Random data with 2-4 interleaved, blocked or cyclic regimes labelled by strings, digit strings, integers or "
        "floats, crossed with constant/column regime flags, error separation, covariance type, SLX terms.")


def setup(ctx, nend=0, over=0, spatial=False, n=None, Rs=(2, 2, 3, 4), kmin=1, kinds=None, transform=None, lam=0., rho=0.,
          slx=None, style="normal"):
    rng = ctx.rng
    R = ctx.pick("R", list(Rs))
    k = max(kmin, ctx.pick("k", [1, 2, 3, 5]))
    n = n or int(rng.integers(28, 50)) * R
    d = gen.dataset(rng, n=n, k=k, kind=ctx.pick("W", kinds or gen.ALL_KINDS),
                    transform=transform or ctx.pick("transform", ["r", "o", "b"]),
                    ids=ctx.pick("ids", ["int", "str", "perm"]), nend=nend, niv=nend + over, style=style, lam=lam, rho=rho)
    g = gen.regimes(rng, d.n, R, ctx.pick("labels", ["str", "int", "float", "digit"]),
                    pattern=ctx.pick("pattern", ["random", "block", "cyclic", "random"]), minsize=22,
                    form=ctx.pick("regform", ["list", "array", "series"]))
    # regime-varying means and slopes
    m = rng.normal(0, 1, (R, k + 1))
    shift = np.sum(d.X * m[g.codes], axis=1, keepdims=True)
    d.y = d.y + shift
    if nend:
        d.y = d.y + d.yend[:, :1] * rng.uniform(-.5, .5, R)[g.codes].reshape(-1, 1)
    ctx.sig = [d.n, R, round(float(d.y.sum()), 6)]
    ctx.note(n=d.n, sizes=[int((g.codes == r).sum()) for r in range(R)], labels=[str(v) for v in g.names])
    return d, g


def pick_flags(ctx, k, nend=0):
    """-> kwargs, flags for [const, x..., yend...]"""
    rng = ctx.rng
    const = ctx.pick("constant_regi", ["many", "one", "many"])
    c2 = ctx.pick("cols2regi", ["all", "list", "all"])
    kw = dict(constant_regi=const)
    if c2 == "all":
        fl = [True] * (k + nend)
        kw["cols2regi"] = "all"
    else:
        fl = [bool(v) for v in rng.integers(0, 2, k + nend)]
        if const == "one" and not any(fl):
            fl[int(rng.integers(k))] = True
        kw["cols2regi"] = list(fl)
    return kw, [const == "many"] + fl


def names_for(base, flags, g):
    out = []
    for nm in g.names:
        out += ["%s_%s" % (nm, b) for b, f in zip(base, flags) if f]
    return out + ["_Global_%s" % b for b, f in zip(base, flags) if not f]


def named_table(ctx, reg, names, b, vm, pre, dist="z", df=None):
    """rows of the output table are looked up by the name of the coefficient"""
    from scipy import stats
    o = reg.output
    got = list(o["var_names"])
    if not ctx.ok(pre + "names", sorted(got) == sorted(names), "%s vs %s" % (sorted(got)[:8], sorted(names)[:8])):
        return
    pos = {v: i for i, v in enumerate(names)}
    if len(pos) != len(names):
        return
    ix = [pos[v] for v in got]
    b = np.asarray(b, float).ravel()[ix]
    se = np.sqrt(np.diag(np.asarray(vm)))[ix]
    ctx.close(pre + "coef_by_name", np.asarray(o["coefficients"], float), b, rtol=1e-6)
    ctx.close(pre + "se_by_name", np.asarray(o["std_err"], float) / se, np.ones_like(se), rtol=1e-5)
    z = b / se
    p = 2 * stats.norm.sf(np.abs(z)) if dist == "z" else 2 * stats.t.sf(np.abs(z), df)
    ctx.close(pre + "p_by_name", np.asarray(o["prob"], float), p, rtol=0, atol=1e-5)


def base_names(k, nend=0, slx=0, sel=None):
    x = ["var_%d" % (i + 1) for i in range(k)]
    sx = [v for i, v in enumerate(x) if sel is None or sel[i]]
    out = ["CONSTANT"] + x
    for l in range(slx):
        out += [("W_" if l == 0 else "W%d_" % (l + 1)) + v for v in sx]
    return out + ["endogenous_%d" % (i + 1) for i in range(nend)]


def case_ols(ctx):
    import spreg
    d, g = setup(ctx, style="mixed")
    rob = ctx.pick("robust", [None, None, "white", "hac"])
    dof = ctx.pick("sig2n_k", [True, False])
    err_sep = ctx.pick("regime_err_sep", [True, False])
    slx = ctx.pick("slx_lags", [0, 0, 1, 2])
    x, sel, kw = d.x, None, {}
    if slx:
        kw.update(w=d.w, slx_lags=slx)
        if ctx.pick("slx_vars", ["all", "list"]) == "list":
            sel = [bool(v) for v in ctx.rng.integers(0, 2, d.k)]
            sel[int(ctx.rng.integers(d.k))] = True
            kw["slx_vars"] = sel
        x = np.hstack([x, ref.lags(d.W, x if sel is None else x[:, np.flatnonzero(sel)], slx)])
    X = np.hstack([np.ones((d.n, 1)), x])
    fk, flags = pick_flags(ctx, x.shape[1])
    K = None
    if rob == "hac":
        gk, K = gen.kernel(ctx.rng, d.n, ctx.pick("kernel", ["triangular", "quadratic"]), k=6)
        kw["gwk"] = gk
    sep = err_sep and rob != "hac"
    multi = sep and all(flags)
    R = g.R
    XI = ref.interact(X, flags, g.codes, R)
    if np.linalg.cond(XI / np.linalg.norm(XI, axis=0)) > 1e4:
        raise Skip("ill-conditioned")
    sizes = [int((g.codes == r).sum()) for r in range(R)]
    for r in range(R):
        if multi and np.any(np.ptp(x[g.ids(r)], axis=0) == 0):
            raise Skip("constant within a regime")
    if d.n / R < x.shape[1] + 2 or (sep and min(sizes) < X.shape[1] + 3):
        raise Skip("small regime")
    few = sep and not multi and rob is None and dof and min(sizes) <= XI.shape[1]      # recorded finding
    reg = ctx.run("OLS_Regimes" + (".fewer-observations-than-columns" if few else ""), spreg.OLS_Regimes, d.y, d.x, g.arg, robust=rob, sig2n_k=dof, regime_err_sep=err_sep,
                  nonspat_diag=ctx.pick("diag", [True, False]), **kw, **fk)
    names = names_for(base_names(d.k, 0, slx, sel), flags, g)
    ctx.cfg["path"] = "multi" if multi else "groupwise" if sep and rob is None else "pooled"
    pre = ctx.cfg["path"] + "."
    if multi:
        fits = [ref.ols(d.y[g.ids(r)], X[g.ids(r)], dof, rob) for r in range(R)]
        b = np.vstack([f.b for f in fits])
        V = ref.block_diag([f.vm for f in fits])
        u = np.zeros((d.n, 1))
        for r in range(R):
            u[g.ids(r)] = fits[r].u
        ctx.ok(pre + "regimes", list(reg.multi.keys()) == g.keys, "%s vs %s" % (list(reg.multi), g.keys))
        for r, key in enumerate(g.keys):
            m = reg.multi[key]
            chk.base_match(ctx, m, fits[r], pre + "each.")
            chk.fit_stats(ctx, m, fits[r], pre + "each.")
            ctx.close(pre + "each.r2", [m.r2, m.ar2], [fits[r].r2, fits[r].ar2], rtol=1e-8)
        named_table_multi(ctx, reg, g, fits, names, pre, dof)
    else:
        f = ref.ols(d.y, XI, dof, rob, K)
        b, V, u = f.b, f.vm, f.u
        if sep and rob is None:
            kk = XI.shape[1]
            if dof and min(sizes) <= kk:
                raise Skip("fewer observations in a regime than coefficients")
            s = np.zeros((d.n, 1))
            for r in range(R):
                i = g.ids(r)
                s[i] = np.sqrt(float((u[i] ** 2).sum()) / (len(i) - kk if dof else len(i)))
            f2 = ref.ols(d.y / s, XI / s, dof)
            b, V = f2.b, f2.vm
            u = d.y - XI @ b
        named_table(ctx, reg, names, b, V, pre + "table.", "t", d.n - XI.shape[1])
        if not (sep and rob is None):
            chk.fit_stats(ctx, reg, f, pre)
            ctx.close(pre + "r2", [reg.r2, reg.ar2], [f.r2, f.ar2], rtol=1e-7)
        else:
            utu, tss = float((u ** 2).sum()), float(((d.y - d.y.mean()) ** 2).sum())
            ctx.ok(pre + "sig2", reg.sig2 is not None and min(abs(float(reg.sig2) / (utu / v) - 1) for v in (d.n, d.n - XI.shape[1])) < 1e-7,
                   "sig2 %s, residuals give %.8g" % (reg.sig2, utu / d.n))
            if abs(reg.utu / utu - 1) > 1e-7 and abs(reg.utu / f.utu - 1) < 1e-9 and abs(reg.sig2n / f.sig2n - 1) < 1e-9:
                ctx.fail(pre + "sum-of-squares-of-first-stage", "utu %.8g, reported residuals give %.8g" % (reg.utu, utu))
                ctx.close(pre + "first_stage_r2", [reg.r2, reg.sig2n_k], [f.r2, f.sig2n_k], rtol=1e-7)
            else:
                ctx.close(pre + "utu", [reg.utu, reg.sig2n], [utu, utu / d.n], rtol=1e-7)
                ctx.close(pre + "sig2n_k", reg.sig2n_k, utu / (d.n - XI.shape[1]), rtol=1e-7)
                ctx.close(pre + "r2", reg.r2, 1 - utu / tss, rtol=0, atol=1e-8)
    finish(ctx, reg, d, b, V, u, pre)


def named_table_multi(ctx, reg, g, fits, names, pre, dof):
    from scipy import stats
    o = reg.output
    b = np.vstack([f.b for f in fits]).ravel()
    V = ref.block_diag([f.vm for f in fits])
    kk = len(fits[0].b)
    got = list(o["var_names"])
    if not ctx.ok(pre + "table.names", sorted(got) == sorted(names), "%s vs %s" % (sorted(got)[:8], sorted(names)[:8])):
        return
    ix = [names.index(v) for v in got]
    se = np.sqrt(np.diag(V))
    ctx.close(pre + "table.coef_by_name", np.asarray(o["coefficients"], float), b[ix], rtol=1e-7)
    ctx.close(pre + "table.se_by_name", np.asarray(o["std_err"], float) / se[ix], np.ones(len(ix)), rtol=1e-6)
    df = np.repeat([f.n - f.k for f in fits], kk)
    p = 2 * stats.t.sf(np.abs(b / se), df)
    ctx.close(pre + "table.p_by_name", np.asarray(o["prob"], float), p[ix], rtol=0, atol=1e-6)


def finish(ctx, reg, d, b, V, u, pre, rtol=1e-7):
    sy = np.abs(d.y).max()
    ctx.close(pre + "betas", reg.betas, b, rtol=rtol)
    s = np.sqrt(np.diag(V))
    ctx.close(pre + "vm", np.asarray(reg.vm) / np.outer(s, s), V / np.outer(s, s), rtol=0, atol=1e-5)
    ctx.close(pre + "u_in_callers_order", reg.u, u, rtol=rtol, scale=sy)
    ctx.close(pre + "predy_in_callers_order", reg.predy, d.y - u, rtol=rtol, scale=sy)
    ctx.close(pre + "y", reg.y, d.y, rtol=1e-12)


def case_tsls(ctx):
    import spreg
    nend = ctx.pick("nend", [1, 1, 2, 3])
    d, g = setup(ctx, nend, ctx.pick("over", [0, 1, 2]))
    rob = ctx.pick("robust", [None, "white", "hac", "ogmm"])
    dof = ctx.pick("sig2n_k", [True, False])
    err_sep = ctx.pick("regime_err_sep", [True, False])
    slx = ctx.pick("slx_lags", [0, 0, 1])
    x, kw = d.x, {}
    if slx:
        kw.update(w=d.w, slx_lags=slx)
        x = np.hstack([x, ref.lags(d.W, x, slx)])
    X = np.hstack([np.ones((d.n, 1)), x])
    fk, flags = pick_flags(ctx, x.shape[1], nend)
    K = None
    if rob == "hac":
        gk, K = gen.kernel(ctx.rng, d.n, "triangular", k=6)
        kw["gwk"] = gk
    R = g.R
    sep = err_sep and rob != "hac"
    multi = sep and all(flags)
    sizes = [int((g.codes == r).sum()) for r in range(R)]
    kx = X.shape[1]
    XI = ref.interact(X, flags[:kx], g.codes, R)
    YI = ref.interact(d.yend, flags[kx:], g.codes, R)
    QI = ref.interact(d.q, [True] * d.q.shape[1], g.codes, R)
    Z, H = np.hstack([XI, YI]), np.hstack([XI, QI])
    if min(sizes) < kx + d.q.shape[1] + 3:
        raise Skip("small regime")
    c02.well(Z, H)
    reg = ctx.run("TSLS_Regimes", spreg.TSLS_Regimes, d.y, d.x, d.yend, d.q, g.arg, robust=rob, sig2n_k=dof,
                  regime_err_sep=err_sep, **kw, **fk)
    bn = base_names(d.k, nend, slx)
    pre = ("multi." if multi else "pooled.") + (rob or "classic") + "."
    if multi:
        fits = []
        for r in range(R):
            i = g.ids(r)
            Zr, Hr = np.hstack([X[i], d.yend[i]]), np.hstack([X[i], d.q[i]])
            c02.well(Zr, Hr)
            fits.append(ref.tsls(d.y[i], Zr, Hr, dof, rob))
        b = np.vstack([f.b for f in fits])
        V = ref.block_diag([f.vm for f in fits])
        u = np.zeros((d.n, 1))
        for r, key in enumerate(g.keys):
            u[g.ids(r)] = fits[r].u
            chk.base_match(ctx, reg.multi[key], fits[r], pre + "each.")
        if rob == "ogmm" and dof:
            V = None
        names = names_for(bn, [True] * len(bn), g)
    else:
        f = ref.tsls(d.y, Z, H, dof, rob, K)
        b, V, u = f.b, f.vm, f.u
        names = names_for(bn[:kx], flags[:kx], g) + names_for(bn[kx:], flags[kx:], g)
        ctx.close(pre + "z", reg.z.toarray() if hasattr(reg.z, "toarray") else reg.z, Z, rtol=1e-9)
        ctx.close(pre + "h", reg.h.toarray() if hasattr(reg.h, "toarray") else reg.h, H, rtol=1e-9)
    if V is None:
        V = ref.block_diag([ff.vm for ff in fits])
    named_table(ctx, reg, names, b, V, pre + "table.")
    finish(ctx, reg, d, b, V, u, pre)


def case_many(ctx):
    """many regimes x many coefficients: every row of the table must carry its own coefficient"""
    import spreg
    rng = ctx.rng
    R = ctx.pick("R", [3, 4, 5, 6])
    k = ctx.pick("k", [2, 5, 8])
    n = R * (4 * k + 16)
    x = rng.normal(size=(n, k))
    g = gen.regimes(rng, n, R, ctx.pick("labels", ["str", "int", "digit"]), pattern="cyclic")
    q = rng.normal(size=(n, 2))
    yend = (q @ [[1.], [.7]] + rng.normal(0, .5, (n, 1)))
    y = 1 + np.sum(x * rng.normal(size=(R, k))[g.codes], axis=1, keepdims=True) + yend + rng.normal(0, .5, (n, 1))
    X = np.hstack([np.ones((n, 1)), x])
    ctx.sig = [n, R, round(float(y.sum()), 6)]
    which = ctx.pick("model", ["ols", "tsls"])
    sep = ctx.pick("sep", [True, False])
    d = gen.D()
    d.y, d.n, d.k = y, n, k
    if which == "ols":
        reg = ctx.run("OLS_Regimes", spreg.OLS_Regimes, y, x, g.arg, regime_err_sep=sep)
        Z = H = X
        bn = base_names(k)
    else:
        reg = ctx.run("TSLS_Regimes", spreg.TSLS_Regimes, y, x, yend, q, g.arg, regime_err_sep=sep, sig2n_k=True)
        Z, H = np.hstack([X, yend]), np.hstack([X, q])
        bn = base_names(k, 1)
    if sep:
        fits = [ref.tsls(y[g.ids(r)], Z[g.ids(r)], H[g.ids(r)], True) for r in range(R)]
        b = np.vstack([f.b for f in fits])
        V = ref.block_diag([f.vm for f in fits])
        u = np.zeros((n, 1))
        for r in range(R):
            u[g.ids(r)] = fits[r].u
        names = names_for(bn, [True] * len(bn), g)
    else:
        XI = ref.interact(X, [True] * X.shape[1], g.codes, R)
        if which == "ols":
            f = ref.ols(y, XI, True)
        else:
            YI, QI = ref.interact(yend, [True], g.codes, R), ref.interact(q, [True] * 2, g.codes, R)
            f = ref.tsls(y, np.hstack([XI, YI]), np.hstack([XI, QI]), True)
        b, V, u = f.b, f.vm, f.u
        kx = X.shape[1]
        names = names_for(bn[:kx], [True] * kx, g) + (names_for(bn[kx:], [True], g) if which == "tsls" else [])
    pre = "%s.%s." % (which, "multi" if sep else "pooled")
    o = reg.output
    got = list(o["var_names"])
    if ctx.ok(pre + "names", sorted(got) == sorted(names)):
        ix = [names.index(v) for v in got]
        ctx.close(pre + "coef_by_name", np.asarray(o["coefficients"], float), b.ravel()[ix], rtol=1e-7)
        ctx.close(pre + "se_by_name", np.asarray(o["std_err"], float), np.sqrt(np.diag(V))[ix], rtol=1e-6)
    finish(ctx, reg, d, b, V, u, pre)


def case_frac(ctx):
    """regimes labelled by non-integral floats, and regimes with columns constant inside one regime"""
    import spreg
    rng = ctx.rng
    R = ctx.pick("R", [2, 3])
    what = ctx.pick("what", ["fractional labels", "constant in a regime"])
    n = 40 * R
    x = rng.normal(size=(n, 3))
    g = gen.regimes(rng, n, R, "frac" if what.startswith("frac") else "str", pattern=ctx.pick("pattern", ["random", "cyclic"]))
    y = 1 + x @ rng.normal(size=(3, 1)) + rng.normal(0, .5, (n, 1))
    keep = [0, 1, 2]
    if what.startswith("const"):
        j = int(rng.integers(3))
        x[g.ids(int(rng.integers(R))), j] = 2.5
        keep.remove(j)
    sep = True if what.startswith("const") else ctx.pick("sep", [True, False])
    ctx.sig = [n, round(float(y.sum()), 6)]
    reg = ctx.run("OLS_Regimes", spreg.OLS_Regimes, y, x, g.arg, regime_err_sep=sep)
    X = np.hstack([np.ones((n, 1)), x[:, keep]])
    d = gen.D()
    d.y = y
    if sep:
        fits = [ref.ols(y[g.ids(r)], X[g.ids(r)], True) for r in range(R)]
        b, V = np.vstack([f.b for f in fits]), ref.block_diag([f.vm for f in fits])
        u = np.zeros((n, 1))
        for r in range(R):
            u[g.ids(r)] = fits[r].u
    else:
        f = ref.ols(y, ref.interact(X, [True] * X.shape[1], g.codes, R), True)
        b, V, u = f.b, f.vm, f.u
    pre = what.replace(" ", "_") + "."
    if what.startswith("const"):
        ctx.ok(pre + "announced", "removed for being constant" in (getattr(reg, "warning", "") or reg.summary) or any(
            "removed for being constant" in str(w.message) for w in ctx._warns), "no notice")
    finish(ctx, reg, d, b, V, u, pre)


MIN_FRACTION = 0.5
SUBS = {"ols": (case_ols, 320, 4000), "tsls": (case_tsls, 260, 3000), "many": (case_many, 60, 500),
        "special": (case_frac, 40, 300)}
