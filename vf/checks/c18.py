"""C18 impacts of lag and Durbin models against the derivatives of the reduced form."""
import re
import numpy as np
from .. import gen, ref
from ..core import Skip
from . import c09

RULE = ("spmultiplier, inverse_prod and i_multipliers are called with random maps (bipartite, directed, with islands, standardised "
        "or not) and coefficients over the whole admissible range; lag and Durbin models (single, pooled regimes, by regime, "
        "panel) are fitted and their printed and stored impacts compared with the averages of the dense matrix of derivatives "
        "(I - rho W)^-1 (beta I + gamma W ..), lagged regressors counted as indirect effects.")
CASE_LIMIT = 90
C = np.column_stack
KINDS = gen.ALL_KINDS + ["bipartite", "star", "cycle"]


def special(rng, n, kind):
    A = np.zeros((n, n))
    i = np.arange(n)
    if kind == "bipartite":
        h = n // 2
        B = (rng.uniform(size=(h, n - h)) < 4. / n).astype(float)
        B[np.arange(h), np.arange(h) % (n - h)] = 1
        B[np.arange(n - h) % h, np.arange(n - h)] = 1
        A[:h, h:] = B
        A[h:, :h] = B.T
    elif kind == "star":
        A[0, 1:] = A[1:, 0] = 1
    else:                                   # directed cycles of a short period
        p = int(rng.integers(3, 7))
        n = n // p * p
        A = np.zeros((n, n))
        i = np.arange(n)
        A[i, i // p * p + (i + 1) % p] = 1
    return A


def weights(ctx, n, transforms=("r", "r", "o", "b")):
    kind = ctx.pick("W", KINDS)
    tr = ctx.pick("transform", list(transforms))
    xy = None
    if kind in ("bipartite", "star", "cycle"):
        A = special(ctx.rng, n, kind)
    else:
        A, xy = gen.base_matrix(ctx.rng, n, kind)
    isl = ctx.pick("islands", [0, 0, 0, 1, 2])
    for j in range(isl):
        A[-1 - j] = 0
        A[:, -1 - j] = 0
    ids = gen.make_ids(ctx.rng, len(A), ctx.pick("ids", ["int", "str", "perm"]))
    return gen.make_w(A, ids, tr, xy, kind)


def radius(W):
    return float(np.max(np.abs(np.linalg.eigvals(W))))


def coefficient(ctx, W):
    v = ctx.pick("rho", [.3, -.3, .6, -.6, .9, -.9, .97, -.97, 0., "any"])
    if v == "any":
        v = float(ctx.rng.uniform(-.99, .99))
    r = radius(W)
    return v / max(r, 1.) if r > 0 else v


def standard(W):
    return bool(np.allclose(W.sum(1), 1))


def multiplier(ctx):
    import spreg
    n = int(ctx.rng.integers(8, 60))
    ws = weights(ctx, n)
    W, n = ws.full, ws.n
    rho = coefficient(ctx, W)
    ctx.sig = [n, ctx.idx, round(rho, 6)]
    from spreg.sputils import spmultiplier
    S = np.linalg.inv(np.eye(n) - rho * W)
    tot = float(S.sum()) / n
    arg = np.array([rho]) if ctx.pick("form", ["array", "float"]) == "array" else rho
    kinds = "%s rows" % ("standardised" if standard(W) else "other")
    ctx.note(rows=kinds)
    for method in ("simple", "full", "power"):
        m = ctx.run("spmultiplier_" + method, spmultiplier, ws.w, arg, method=method)
        v = lambda a: float(np.ravel(m[a])[0])
        ctx.close(method + ".total=direct+indirect", v("ati"), v("adi") + v("aii"), rtol=1e-10, atol=1e-12)
        if method == "simple":
            ctx.close("simple.adi", v("adi"), 1., rtol=1e-12)
            ctx.close("simple.ati", v("ati"), 1 / (1 - rho), rtol=1e-10)
        else:
            tol = 1e-9 if method == "full" else 2e-8 / (1 - min(abs(rho) * max(radius(W), 1.), .999))
            ctx.close(method + ".adi", v("adi"), np.trace(S) / n, rtol=1e-9, atol=tol)
            # entries of powers are bounded only for rows that add up to one
            ctx.close(method + ".ati", v("ati"), tot, rtol=1e-8, atol=tol * (1 if standard(W) else n))
        ctx.ok(method + ".method", m["method"] == method and m["warn"] == "", str(m))
    m = ctx.run("spmultiplier_default", spmultiplier, ws.w, arg)
    ctx.close("default", [float(np.ravel(m[a])[0]) for a in ("adi", "ati")], [1., 1 / (1 - rho)], rtol=1e-10)


def inverse(ctx):
    import spreg
    n = int(ctx.rng.integers(8, 70))
    ws = weights(ctx, n)
    W, n = ws.full, ws.n
    rho = coefficient(ctx, W)
    S = np.linalg.inv(np.eye(n) - rho * W)
    c = ctx.pick("columns", [1, 1, 3])
    shape = ctx.pick("scale", [1., 1e3, 1e-2])
    post = ctx.pick("post", [False, True])
    v = ctx.rng.normal(size=(n, c)) * shape
    data = ctx.pick("data", ["normal", "spike", "normal", "spike", "whole"])
    if data == "spike":
        v = np.zeros((n, c))
        v[int(np.argmax(W.sum(0)))] = shape
    elif data == "whole":
        v = ctx.rng.integers(-9, 12, (n, c))
    want = S @ v if not post else (S.T @ v).T
    form = ctx.pick("form", ["W", "sparse"])
    ctx.sig = [n, ctx.idx, round(rho, 6)]
    w = ws.w if form == "W" else ws.w.sparse
    big = float(np.abs(want).max())
    gap = 1 - abs(rho) * radius(W)
    if gap < .005:
        raise Skip("too close to the singular coefficient")
    got = ctx.run("inverse_prod_power", spreg.inverse_prod, w, v, rho, inv_method="power_exp", post_multiply=post)
    ctx.close("power_exp", got, want, rtol=0, atol=1e-8 * max(big, 1) / gap)
    ctx.ok("power_exp.shape", np.shape(got) == want.shape, str(np.shape(got)))
    got = ctx.run("inverse_prod_true", spreg.inverse_prod, w, v, rho, inv_method="true_inv", post_multiply=post)
    ctx.close("true_inv", got, want, rtol=1e-8, atol=1e-9 * big)
    got = ctx.run("inverse_prod_threshold", spreg.inverse_prod, w, v, rho, inv_method="power_exp", post_multiply=post, threshold=1e-4 * shape)
    ctx.close("threshold", got, want, rtol=0, atol=2e-4 * shape * np.sqrt(n) / gap * max(1., np.linalg.norm(S, 2) * gap))


def table(text):
    """-> {method: {variable: (direct, indirect, total)}} of the printed impacts"""
    out, method, on = {}, None, False
    for ln in text.splitlines():
        if re.match(r"SPATIAL (LAG|DURBIN) MODEL IMPACTS", ln.strip()):
            on = True
            continue
        m = re.match(r"Impacts computed using the '(\w+)' method", ln.strip())
        if m:
            method = m.group(1)
            continue
        if on and method:
            p = ln.rsplit(None, 3)
            if len(p) == 4 and p[0].strip() and p[0].strip() != "Variable":
                try:
                    out.setdefault(method, {}).setdefault(p[0].strip(), tuple(float(v) for v in p[1:]))
                except ValueError:
                    on = method is not None and "Variable" in ln
            elif not ln.strip() or ln.startswith(("=", "-")):
                on, method = False, None
    return out


def judge(ctx, pre, text, mult, W, rho, coefs, methods, strict=True):
    """coefs: {printed name: (beta, [gamma of successive lags])}"""
    n = len(W)
    S = np.linalg.inv(np.eye(n) - rho * W)
    got = table(text)
    if not ctx.ok(pre + "methods", sorted(got) == sorted(methods) and sorted(mult) == sorted(methods), "%s, %s, %s" % (sorted(got), sorted(mult), sorted(methods))):
        return
    std = standard(W)
    for m in methods:
        adi = 1. if m == "simple" else float(np.trace(S)) / n
        ati = float(S.sum()) / n if (m != "simple" or std) else 1 / (1 - rho)
        v = [float(np.ravel(q)[0]) for q in mult[m]]
        ctx.close(pre + m + ".multipliers", v, [adi, ati - adi, ati], rtol=1e-6, atol=1e-6)
        if not ctx.ok(pre + m + ".variables", sorted(got[m]) == sorted(coefs), "%s vs %s" % (sorted(got[m]), sorted(coefs))):
            continue
        for nm, (b, gam) in coefs.items():
            d = adi * b
            if m == "simple" and not std:
                t = ati * (b + sum(gam))
            else:
                M, P = b * np.eye(n), np.eye(n)
                for q in gam:
                    P = P @ W
                    M = M + q * P
                t = float((S @ M).sum()) / n
            a, r = 6e-5 + 1e-6 * abs(t), 1e-5
            g = got[m][nm]
            ctx.close(pre + m + ".direct", g[0], d, rtol=r, atol=a)
            ctx.close(pre + m + ".total", g[2], t, rtol=r, atol=a)
            ctx.close(pre + m + ".indirect", g[1], t - d, rtol=r, atol=2 * a)


def spec(ctx):
    s = ctx.pick("spat_impacts", ["simple", "full", "power", "all", ["simple", "full"], ["power"], "Full", "ALL"])
    t = [s] if isinstance(s, str) else s
    t = [v.lower() for v in t]
    return s, (["simple", "full", "power"] if "all" in t else t)


def durbin(ctx, k, allow=(0, 1, 1, 2), vars_=True):
    slx = ctx.pick("slx_lags", list(allow))
    kw, sel = {}, [True] * k
    if slx:
        kw["slx_lags"] = slx
        if vars_ and ctx.pick("slx_vars", ["all", "list", "list"]) == "list":
            sel = [bool(v) for v in ctx.rng.integers(0, 2, k)]
            if not any(sel):
                sel[int(ctx.rng.integers(k))] = True
            kw["slx_vars"] = sel
    return slx, sel, kw


def wname(nm, l):
    return ("W_" if l == 1 else "W%d_" % l) + nm


def coefs_of(names, b, xs, slx, sel, prefix=""):
    """by name of the coefficient; regimes: the lag of the same regime, or the common one"""
    pos = {v: i for i, v in enumerate(names)}
    out = {}
    for pre in ([prefix] if isinstance(prefix, str) else prefix):
        for j, nm in enumerate(xs):
            if pre + nm not in pos:
                continue
            gam = []
            for l in range(1, slx + 1):
                if sel[j]:
                    q = pre + wname(nm, l)
                    q = q if q in pos else "_Global_" + wname(nm, l)
                    gam.append(b[pos[q]])
            out[pre + nm] = (b[pos[pre + nm]], gam)
    return out


def strong(ctx, d, slx, sel, rho):
    """data with a strong lag structure so that estimates are far from the boundary"""
    rng = ctx.rng
    W, n = d.W, d.n
    d.x = rng.normal(size=(n, d.k)) + rng.normal(0, .5, d.k)
    d.X = C([np.ones(n), d.x])
    m = d.x @ rng.normal(0, 2, d.k) * 30 + 50
    P = d.x
    for l in range(slx):
        P = W @ P
        m = m + P @ (np.where(sel, rng.normal(0, 2, d.k), 0)) * 20
    d.y = np.linalg.solve(np.eye(n) - rho * W, m + rng.normal(0, 20, n)).reshape(-1, 1)


def lag(ctx):
    import spreg
    rng = ctx.rng
    cls = ctx.pick("cls", ["GM_Lag", "ML_Lag"])
    n = int(rng.integers(50, 100))
    k = ctx.pick("k", [1, 2, 3, 5])
    tr = ctx.pick("transform", ["r", "r", "r", "o"])
    kind = ctx.pick("W", gen.ALL_KINDS + ["bipartite"])
    A, xy = (special(rng, n, kind), None) if kind == "bipartite" else gen.base_matrix(rng, n, kind)
    if tr == "o":
        A = A / radius(A)
    ws = gen.make_w(A, gen.make_ids(rng, len(A), ctx.pick("ids", ["int", "str", "perm"])), tr, xy, kind)
    d = gen.D()
    d.w, d.W, d.n, d.k = ws.w, ws.full, ws.n, k
    slx, sel, kw = durbin(ctx, k)
    rho = ctx.pick("rho", [.5, -.4, .7, -.6, .2])
    strong(ctx, d, slx, sel, rho)
    how, methods = spec(ctx)
    if cls == "GM_Lag":
        kw["robust"] = ctx.pick("robust", [None, "white"])
        if ctx.pick("yend", [0, 0, 1]):
            q = rng.normal(size=(d.n, 1))
            v = rng.normal(size=(d.n, 1))
            kw.update(yend=q + .5 * v, q=q)
            d.y = d.y + 10 * (q + .5 * v) + 5 * v
    else:
        kw["method"] = ctx.pick("method", ["full", "ord", "LU"])
        if kw["method"] == "ord" and kind in ("knn", "directed"):
            kw["method"] = "full"
    names = ctx.pick("names", [False, True])
    xs = ["inc", "W_age", "pop", "rent", "area"][:k] if names else ["var_%d" % (j + 1) for j in range(k)]
    if names:
        kw["name_x"] = list(xs)
    ctx.sig = [d.n, ctx.idx]
    try:
        with ctx.quiet():
            getattr(spreg, cls)(d.y, d.x, w=d.w, spat_impacts=None, **{a: (list(v) if a == "name_x" else v) for a, v in kw.items()})
    except Exception as e:
        if cls == "ML_Lag" and "power expansion" in str(e) and near_bound(d, k, slx, sel) > .97:
            raise Skip("lag parameter at its bound: reduced form out of reach of the power expansion")
        raise
    r = ctx.run(cls, getattr(spreg, cls), d.y, d.x, w=d.w, spat_impacts=how, **kw)
    est = float(np.ravel(r.rho)[0])
    if abs(est) >= 1:
        ctx.ok("outside", "Omitted" in r.summary and r.sp_multipliers is None, "")
        return
    all_names = list(r.name_x) + (list(r.name_yend) if cls == "GM_Lag" else [])
    if standard(d.W) is False and slx and set(methods) - {"simple"}:
        ctx.note(durbin_other_rows=1)
        judge(ctx, "durbin_unstandardised.", r.summary, r.sp_multipliers, d.W, est, coefs_of(all_names, np.ravel(r.betas), xs, slx, sel), methods)
    else:
        judge(ctx, "", r.summary, r.sp_multipliers, d.W, est, coefs_of(all_names, np.ravel(r.betas), xs, slx, sel), methods)


def near_bound(d, k, slx, sel):
    """absolute value of the maximum likelihood lag parameter, by a dense search over (-1, 1)"""
    x = [np.ones((d.n, 1)), d.x]
    z = d.x if sel is None else d.x[:, np.asarray(sel, bool)]
    for _ in range(slx):
        z = d.W @ z
        x.append(z)
    X = np.hstack(x)
    M = np.eye(d.n) - X @ np.linalg.pinv(X)
    e0, e1 = M @ d.y, M @ (d.W @ d.y)
    grid = np.linspace(-.9999, .9999, 801)
    best = [-np.linalg.slogdet(np.eye(d.n) - r * d.W)[1] + d.n / 2 * np.log(float(np.sum((e0 - r * e1) ** 2)) / d.n) for r in grid]
    return abs(float(grid[int(np.argmin(best))]))


def lag_regimes(ctx):
    import spreg
    rng = ctx.rng
    cls = ctx.pick("cls", ["GM_Lag_Regimes", "ML_Lag_Regimes"])
    sep = ctx.pick("sep", [True, False])
    d, g = c09.data(ctx, rho=.3, transform="r")
    k = d.k
    slx, sel, kw = durbin(ctx, k, (0, 1, 1, 2))
    strong(ctx, d, slx, sel, ctx.pick("rho", [.4, -.3, .6]))
    d.y = d.y + np.sum(d.X * rng.normal(0, 15, (g.R, k + 1))[g.codes], axis=1, keepdims=True)
    how, methods = spec(ctx)
    fx = [True] * k
    if sep:
        kw["regime_lag_sep"] = True
        if cls.startswith("GM"):
            kw["regime_err_sep"] = True
        if min((c09.weights_r(d, g.ids(c)).full.sum(1) > 0).mean() for c in range(g.R)) < 1:
            raise Skip("islands inside a regime")
    else:
        if cls.startswith("GM"):
            kw["regime_err_sep"] = False
        if ctx.pick("cols", ["all", "list"]) == "list":
            if slx == 0:
                fx = [bool(v) for v in rng.integers(0, 2, k)]
                if not any(fx):
                    fx[0] = True
                kw["cols2regi"] = list(fx)
            kw["constant_regi"] = ctx.pick("constant_regi", ["many", "one"])
    ctx.sig = [d.n, ctx.idx]
    names = ctx.pick("names", [False, True])
    xs = ["inc", "age", "pop", "rent", "area"][:k] if names else ["var_%d" % (j + 1) for j in range(k)]
    if names:
        kw["name_x"] = list(xs)
    cp = lambda: {a: (list(v) if isinstance(v, list) else v) for a, v in kw.items()}
    try:
        with ctx.quiet():
            getattr(spreg, cls)(d.y, d.x, regimes=g.arg, w=d.w, spat_impacts=None, **cp())
    except Exception as e:
        raise Skip("not estimable: %s" % str(e)[:40])
    r = ctx.run(cls, getattr(spreg, cls), d.y, d.x, regimes=g.arg, w=d.w, spat_impacts=how, **cp())
    if sep:
        for c, key in enumerate(g.keys):
            o = [v for q, v in r.multi.items() if str(q) == str(key)][0]
            Wr = c09.weights_r(d, g.ids(c)).full
            est = float(np.ravel(o.rho)[0])
            if abs(est) >= 1:
                continue
            nm = list(o.name_x) + (list(o.name_yend) if cls.startswith("GM") else [])
            pre = "%s_" % g.names[c]
            if slx and not standard(Wr):
                continue
            mine = {m: {v: q for v, q in t.items() if v.startswith(pre)} for m, t in table(r.summary).items()}
            judge(ctx, "regime.", rebuild(mine), o.sp_multipliers, Wr, est, coefs_of(nm, np.ravel(o.betas), xs, slx, sel, pre), methods)
    else:
        est = float(np.ravel(r.rho)[0])
        if abs(est) >= 1:
            return
        nm = list(r.name_z) if cls.startswith("GM") else list(r.name_x)
        co = coefs_of(nm, np.ravel(r.betas), xs, slx, sel, ["%s_" % v for v in g.names] + ["_Global_"])
        judge(ctx, "pooled.", r.summary, r.sp_multipliers, d.W, est, co, methods)


def rebuild(t):
    s = ""
    for m, rows in t.items():
        s += "SPATIAL LAG MODEL IMPACTS\nImpacts computed using the '%s' method.\n Variable Direct Indirect Total\n" % m
        s += "".join("%s %r %r %r\n" % ((v,) + q) for v, q in rows.items()) + "\n"
    return s


def panel(ctx):
    import spreg
    rng = ctx.rng
    cls = ctx.pick("cls", ["ML_LagFE", "ML_LagRE"])
    k = ctx.pick("k", [1, 2, 3, 5])
    T = ctx.pick("T", [3, 4])
    n = int(rng.integers(25, 45))
    kind = ctx.pick("W", ["rook", "queen", "ring", "gabriel"])
    A, xy = gen.base_matrix(rng, n, kind)
    ws = gen.make_w(A, list(range(len(A))), "r", xy, kind)
    W, n = ws.full, ws.n
    slx, sel, kw = durbin(ctx, k, (0, 1, 1, 2))
    rho = ctx.pick("rho", [.4, -.4, .6])
    mu = rng.normal(0, 10, n)
    bx, bg = rng.normal(0, 40, k), np.where(sel, rng.normal(0, 20, k), 0)
    ys, xx = [], []
    for t in range(T):
        x = rng.normal(size=(n, k))
        m = 30 + x @ bx + (W @ x @ bg if slx else 0) + mu + rng.normal(0, 15, n)
        ys.append(np.linalg.solve(np.eye(n) - rho * W, m))
        xx.append(x)
    y, x = np.concatenate(ys).reshape(-1, 1), np.vstack(xx)
    how, methods = spec(ctx)
    xs = ["inc", "age", "pop", "rent", "area"][:k]
    ctx.sig = [n, ctx.idx]
    r = ctx.run(cls, getattr(spreg, cls), y, x, ws.w, spat_impacts=how, name_x=list(xs), name_y=["y"], **kw)
    est = float(np.ravel(r.rho)[0])
    judge(ctx, "", r.summary, r.sp_multipliers, W, est, coefs_of(list(r.name_x), np.ravel(r.betas), xs, slx, sel), methods)


def local(ctx):
    """i_multipliers: effects of and on the neighbours of every observation"""
    import spreg
    import pandas as pd
    import scipy.sparse as SP
    from spreg.sputils import i_multipliers
    n = int(ctx.rng.integers(8, 50))
    ws = weights(ctx, n)
    W, n = ws.full, ws.n
    model = ctx.pick("model", ["lag", "slx", "kernel", "power", "exponential"])
    form = ctx.pick("form", ["W", "dense", "graph"]) if model in ("lag", "slx") else "sparse" if model in ("power", "exponential") else ctx.pick("kform", ["kernelW", "dense"])
    rho = coefficient(ctx, W)
    idf = ctx.pick("id", [None, "array", "frame"])
    ids = {None: None, "array": np.arange(n).reshape(-1, 1) + 5, "frame": pd.DataFrame({"fips": np.arange(n) * 2})}[idf]
    ctx.sig = [n, ctx.idx]
    if model == "lag":
        M = np.linalg.inv(np.eye(n) - rho * W)
        arg = W
    elif model == "slx":
        M, arg = W, W
    elif model == "kernel":
        gk, K = gen.kernel(ctx.rng, n, ctx.pick("kernel", ["triangular", "gaussian"]), k=min(5, n - 2))
        if form == "dense":
            K = K * ctx.pick("kernel_scale", [1., .3, 4.])
        M, arg = K, K
    else:
        arg = np.where(W > 0, ctx.rng.uniform(.05, .95, (n, n)), 0)
        a = float(ctx.rng.uniform(.2, 3))
        rho = a
        M = np.where(W > 0, arg ** a if model == "power" else np.exp(-a * arg), 0)
    if form == "W":
        obj = ws.w
    elif form == "dense":
        obj = arg
    elif form == "kernelW":
        obj = gk
    elif form == "sparse":
        obj = SP.csr_matrix(arg)
    else:
        from libpysal import graph
        obj = graph.Graph.from_W(ws.w)
    before = None if form in ("W", "graph", "kernelW") else (obj.copy() if form == "dense" else obj.toarray())
    t = ctx.run("i_multipliers", i_multipliers, obj, coef=rho, model=model, id=ids)
    o = M - np.diag(np.diag(M))
    big = max(1., float(np.abs(M).sum(1).max()))
    ctx.close("direct", np.asarray(t["Direct"], float), np.diag(M), rtol=1e-8, atol=1e-9 * big)
    ctx.close("effects_of_neighbours", np.asarray(t["EofNbrs"], float), o.sum(1), rtol=1e-8, atol=1e-9 * big)
    ctx.close("effects_on_neighbours", np.asarray(t["EonNbrs"], float), o.sum(0), rtol=1e-8, atol=1e-9 * big)
    lab = "fips" if idf == "frame" else "ID"
    ctx.ok("ids", list(t[lab]) == (list(range(n)) if ids is None else list(np.ravel(ids))), "")
    if before is not None:
        ctx.ok("argument_unchanged", bool(np.array_equal(before, obj if form == "dense" else obj.toarray())), "")


def divergent(ctx):
    """outside the admissible range the expansion says so instead of returning a number"""
    import spreg
    n = int(ctx.rng.integers(8, 60))
    ws = weights(ctx, n, ("r", "o", "b"))
    r = radius(ws.full)
    if r < 1e-3:
        raise Skip("no links")
    rho = float(ctx.rng.uniform(1.03, 1.6)) * (-1) ** ctx.idx / r
    ctx.sig = [ws.n, ctx.idx]
    v = np.abs(ctx.rng.normal(size=(ws.n, 1))) + .1
    ctx.refused("divergent", spreg.inverse_prod, ws.w, v, rho, inv_method="power_exp")


SUBS = {"divergent": (divergent, 80, 800), "multiplier": (multiplier, 300, 4000), "inverse": (inverse, 300, 4000), "lag": (lag, 240, 2400), "lag_regimes": (lag_regimes, 140, 1200),
        "panel": (panel, 80, 800), "local": (local, 160, 1600)}
