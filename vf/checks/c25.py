"""C25 nonlinear SLX: least-squares optimality of the reported coefficients, weights, variance and fit statistics."""
import numpy as np
from scipy import optimize, stats
from .. import gen, ref
from ..core import Skip

RULE = ("Random point patterns (planar and long-lat) with decay by power or negative exponential, common or per-variable neighbour "
        "counts and bandwidths, and selections of lagged variables; distance-decay weights are rebuilt by exhaustive distance "
        "computation, the sum of squares is re-evaluated, and a Gauss-Newton search started at the reported point looks for a better one.")
ASSUMPTIONS = ["no two points coincide or are equally distant from a third"]


def distances(c, metric):
    if metric == "Euclidean":
        D = np.sqrt(((c[:, None] - c[None]) ** 2).sum(-1))
    else:
        lon, lat = np.radians(c[:, 0]), np.radians(c[:, 1])
        h = np.sin((lat[:, None] - lat) / 2) ** 2 + np.cos(lat[:, None]) * np.cos(lat) * np.sin((lon[:, None] - lon) / 2) ** 2
        D = 6371.0 * 2 * np.arcsin(np.sqrt(np.clip(h, 0, 1)))       # great circles, in km
    np.fill_diagonal(D, np.inf)
    return D


def neighbours(c, par, metric="Euclidean"):
    """scaled distances (dense) and mask of neighbours"""
    k, bound, tr = par
    D = distances(c, metric)
    n = len(D)
    order = np.argsort(D, axis=1)[:, :k]
    M = np.zeros((n, n), bool)
    M[np.repeat(np.arange(n), k), order.ravel()] = True
    M &= D <= bound
    far = np.where(M, D, 0).max(1, keepdims=True)
    F = np.where(M, D / np.where(far > 0, far, 1), 0)
    if tr == "power":
        F = np.where(M, 1 - F, 0)
        F[M & (F < 1e-12)] = 0
    return F, M


def decay(F, M, tr, a):
    with np.errstate(all="ignore"):
        if tr == "power":
            return np.where(M & (F > 0), np.where(F > 0, F, 1.) ** a, 0)
        return np.where(M, np.exp(-a * F), 0)


def slope(F, M, tr, a):
    if tr == "power":
        G = np.where(F > 0, F, 1.)
        return np.where(M & (F > 0), G ** a * np.log(G), 0)
    return np.where(M, -F * np.exp(-a * F), 0)


def points(ctx, n):
    rng = ctx.rng
    metric = ctx.pick("metric", ["Euclidean", "Euclidean", "Euclidean", "Arc"])
    kind = ctx.pick("pattern", ["uniform", "clustered", "grid"])
    if metric == "Arc":
        return rng.uniform((-110, 25), (-75, 48), (n, 2)), metric
    if kind == "uniform":
        return rng.uniform(0, 10, (n, 2)), metric
    if kind == "clustered":
        m = rng.uniform(0, 10, (6, 2))
        return m[rng.integers(0, 6, n)] + rng.normal(0, .6, (n, 2)), metric
    s = int(np.ceil(np.sqrt(n)))
    g = np.array([(i, j) for i in range(s) for j in range(s)], float)[:n]
    return g * ctx.pick("unit", [1., 1000.]) + rng.normal(0, .05, (n, 2)) * ctx.cfg["unit"], metric


def case_fit(ctx):
    import spreg
    rng = ctx.rng
    n, k = int(rng.integers(60, 160)), ctx.pick("k", [1, 2, 3])
    c, metric = points(ctx, n)
    x = rng.normal(size=(n, k)) * ctx.pick("xscale", [1., 1., 5.]) + .3
    sel = "All"
    lagged = list(range(k))
    if k > 1 and ctx.pick("slx_vars", ["all", "list"]) == "list":
        sel = [bool(v) for v in rng.integers(0, 2, k)]
        sel[int(rng.integers(k))] = True
        lagged = [i for i in range(k) if sel[i]]
    D = distances(c, metric)
    near = np.sort(D, axis=1)

    def par():
        kk = int(rng.integers(3, 11))
        b = np.inf if rng.integers(2) else float(np.median(near[:, min(kk, 6)]) * rng.uniform(.9, 1.6))
        return (kk, b, str(rng.choice(["power", "exponential"])))
    several = ctx.pick("params", ["one", "one", "each", "given"])
    if several == "one" or (len(lagged) == 1 and several == "given"):
        params = [par()]
        each = params * len(lagged)
    elif several == "each":                # one tuple per x
        params = [par() for _ in range(k)]
        each = [params[i] for i in lagged] if k > 1 else params
        if sel != "All" and len(lagged) == 1 and k > 1:
            each = [params[lagged[0]]]
    else:                                  # one tuple per lagged x
        params = [par() for _ in lagged]
        each = params
    FM = [neighbours(c, p, metric) for p in each]
    if any((~M.any(1)).mean() > .5 for _, M in FM):
        raise Skip("too many isolated points")
    true = [rng.uniform(.8, 3.5) for _ in lagged]
    wx = np.column_stack([decay(F, M, p[2], a) @ x[:, i] for (F, M), p, a, i in zip(FM, each, true, lagged)])
    y = 1 + x @ rng.uniform(-1.5, 1.5, (k, 1)) + ctx.pick("strength", [1., 1., .5]) * wx.sum(1, keepdims=True) + \
        rng.normal(0, ctx.pick("noise", [.3, 1.]), (n, 1))
    vf = ctx.pick("var_flag", [1, 1, 0])
    ctx.sig = [n, k, several, round(float(y.sum()), 6)]
    reg = ctx.run("NSLX", spreg.NSLX, y, x, c, params=list(params), slx_vars=sel if sel == "All" else list(sel), var_flag=vf,
                  distance_metric=metric, vm=ctx.pick("vm", [True, False]), leafsize=ctx.pick("leafsize", [30, 5]))
    X = np.hstack([np.ones((n, 1)), x])
    kk, h = k + 1, len(lagged)
    th = np.asarray(reg.betas, float).ravel()
    ctx.ok("length", len(th) == kk + h and reg.k == kk + h, "%d coefficients" % len(th))
    b, al = th[:kk].reshape(-1, 1), th[kk:]
    tr = [p[2] for p in each]

    def lagx(a):
        return np.column_stack([decay(F, M, t, v) @ x[:, i] for (F, M), t, v, i in zip(FM, tr, a, lagged)])
    wx = lagx(al)
    if not np.all(np.isfinite(wx)) or np.max(np.abs(wx)) > 1e8:
        raise Skip("search ran away")
    pred = X @ b + wx.sum(1, keepdims=True)
    u = y - pred
    sse = float((u ** 2).sum())
    ctx.close("predy", reg.predy, pred, rtol=1e-8, atol=1e-9)
    ctx.close("u", reg.u, u, rtol=1e-8, atol=1e-9)
    ctx.close("utu", reg.utu, sse, rtol=1e-9)
    s2 = sse / n
    ctx.close("sig2", [float(reg.sig2), float(reg.sign)], [s2, s2], rtol=1e-9)
    ll = -.5 * n * (np.log(2 * np.pi) + 1 + np.log(s2))
    ctx.close("ll", float(reg.ll), ll, rtol=1e-9)
    ctx.close("aic", float(reg.aic), 2 * (kk + h) - 2 * ll, rtol=1e-9)
    ctx.close("schwarz", float(reg.schwarz), (kk + h) * np.log(n) - 2 * ll, rtol=1e-9)
    lines = reg.summary.split("\n")
    used = params if len(params) == 1 else each
    for lab, want in (("Transformation", [p[2] for p in used]), ("KNN", [p[0] for p in used]), ("Distance upper bound", [p[1] for p in used])):
        at = [i for i, l in enumerate(lines) if l.startswith(lab + ": ")]
        if ctx.ok("report.present", len(at) == 1, "%d lines %r" % (len(at), lab)):
            t = lines[at[0]].split(":", 1)[1]
            for l in lines[at[0] + 1:]:
                if not l.startswith("     ") or ":" in l:
                    break
                t += " " + l
            ctx.ok("report.weights", "".join(t.split()) == "".join(",".join(str(v) for v in want).split()), "%s printed as %s" % (want, t))
    # optimality
    Qx, _ = np.linalg.qr(X)
    proj = lambda v: v - Qx @ (Qx.T @ v)

    def res(a):
        v = proj(y - lagx(a).sum(1, keepdims=True)).ravel()
        return np.where(np.isfinite(v), np.clip(v, -1e9, 1e9), 1e9)
    ctx.note(**{"success_%s" % bool(reg.success): 1})
    own = float((res(al) ** 2).sum())
    ctx.ok("betas_given_decay", sse <= own * (1 + 1e-6) + 1e-9, "SSR %.9g, %.9g with least squares coefficients" % (sse, own))
    G = np.column_stack([slope(F, M, t, v) @ x[:, i] for (F, M), t, v, i in zip(FM, tr, al, lagged)])
    J = np.hstack([X, G])
    nrm = np.linalg.norm(J, axis=0)
    if np.any(nrm < 1e-3 * np.sqrt(n)) or np.linalg.cond(J / nrm) > 1e3 or np.any(al < .05):
        ctx.cfg["flat"] = True              # decay not identified by these data
    else:
        # relative size of the Gauss-Newton step's predicted gain, then an actual search
        g = float(np.sum((np.linalg.qr(J)[0].T @ u) ** 2))
        o = optimize.least_squares(res, al, method="lm", max_nfev=60 * h)
        gain = sse - 2 * o.cost
        if np.max(np.abs(o.x - al)) < .5 * np.max(np.abs(al)) + .5:
            ctx.ok("stationary", gain <= 1e-6 * sse, "SSR %.9g at decay %s, %.9g at %s" % (sse, al, 2 * o.cost, o.x))
        ctx.ok("gradient", g <= 1e-5 * sse, "predicted gain of one Gauss-Newton step %g of SSR %g (success %s)" % (g, sse, reg.success))
        full = s2 * np.linalg.inv(J.T @ J)
        se = np.sqrt(np.diag(full))
        V = np.asarray(reg.vm, float)
        if vf == 1:
            judge_vm(ctx, V, full, X, G, s2, FM, tr, al, x, lagged)
        else:
            ctx.close("vm.hessian", V, 2 * s2 * np.asarray(reg.ihess), rtol=1e-9)
            if reg.success:
                q = np.sqrt(np.diag(V)) / se
                ctx.ok("vm.hessian_size", .2 < np.exp(np.mean(np.log(q))) < 5, "std. errors %s of their size" % q)
    V = np.asarray(reg.vm, float)
    if np.all(np.isfinite(V)) and np.all(np.diag(V) > 0):
        se = np.sqrt(np.diag(V))
        ctx.close("std_err", np.ravel(reg.std_err), se, rtol=1e-8)
        z = np.array([t for t in reg.z_stat], float)
        ctx.close("z", z[:, 0], th / se, rtol=1e-8)
        ctx.pclose("p", z[:, 1], 2 * stats.norm.sf(abs(th / se)))
    names = list(reg.output["var_names"])
    want = ["CONSTANT"] + ["var_%d" % (i + 1) for i in range(k)] + ["W%s_var_%d" % (t[0], i + 1) for t, i in zip(tr, lagged)]
    ctx.ok("names", names == want, "%s, %s expected" % (names, want))


def judge_vm(ctx, V, full, X, G, s2, FM, tr, al, x, lagged):
    se = np.sqrt(np.diag(full))
    kk, h = X.shape[1], G.shape[1]
    near = lambda A: A.shape == V.shape and bool(np.all(np.abs(A - V) <= 1e-5 * np.outer(se, se) + 1e-5 * np.abs(A)))
    if near(full):
        ctx.ok("vm", True)
        return
    blocks = np.zeros_like(full)
    blocks[:kk, :kk] = s2 * np.linalg.inv(X.T @ X)
    B = blocks.copy()
    B[kk:, kk:] = s2 * np.linalg.inv(G.T @ G)
    if near(B):
        ctx.fail("vm.blocks", "cross-products between regressors and decay gradient left out")
        return
    if "exponential" in tr:
        H = G.copy()
        for j, ((F, M), t, v, i) in enumerate(zip(FM, tr, al, lagged)):
            if t == "exponential":
                with np.errstate(all="ignore"):
                    S = np.where(M & (F > 0), -F * np.exp(-v * F) * np.log(np.where(F > 0, v * F, 1)), 0)
                H[:, j] = S @ x[:, i]
        with np.errstate(all="ignore"):
            try:
                B = blocks.copy()
                B[kk:, kk:] = s2 * np.linalg.inv(H.T @ H)
            except np.linalg.LinAlgError:
                pass
        d = np.sqrt(np.diag(B))
        if np.all(np.abs(B - V) <= 1e-5 * np.outer(d, d)):
            ctx.fail("vm.blocks_exponential", "gradient of the exponential decay has a factor log(decay x distance)")
            return
    ctx.close("vm", V / np.outer(se, se), full / np.outer(se, se), rtol=0, atol=1e-5)


def case_weights(ctx):
    """make_wnslx: scaled distances of the nearest neighbours"""
    from spreg import utils
    rng = ctx.rng
    n = int(rng.integers(20, 120))
    c, metric = points(ctx, n)
    k = int(rng.integers(2, 12))
    near = np.sort(distances(c, metric), axis=1)
    b = np.inf if ctx.pick("bound", ["none", "some"]) == "none" else float(near[:, int(rng.integers(0, k))].mean() * rng.uniform(.6, 2))
    tr = ctx.pick("transform", ["power", "exponential", "Power", "EXPONENTIAL"])
    ctx.sig = [n, k]
    w = ctx.run("make_wnslx", utils.make_wnslx, c, (k, b, tr), distance_metric=metric, leafsize=ctx.pick("leafsize", [30, 3]))
    F, M = neighbours(c, (k, b, tr.lower()), metric)
    ctx.ok("shape", w.shape == (n, n), str(w.shape))
    ctx.close("values", w.toarray(), F, rtol=0, atol=1e-7)
    P = w.copy()
    P.data = np.ones_like(P.data)
    ctx.ok("pattern", np.array_equal(P.toarray() > 0, M), "stored neighbours differ")


SUBS = {"fit": (case_fit, 120, 3000), "weights": (case_weights, 60, 1500)}
