"""C03 spatial two-stage least squares (lag / Durbin)."""
import numpy as np
from .. import gen, ref, chk
from ..core import Skip
from .c02 import well

RULE = ("Random spatial-lag data over seven weight layouts crossed with instrument order, instrument lagging of q, "
        "Durbin lags and selections, endogenous regressors and covariance options.")


def case_gmlag(ctx):
    import spreg
    rng = ctx.rng
    kind = ctx.pick("W", gen.ALL_KINDS)
    tr = ctx.pick("transform", ["r", "r", "o", "b"])
    nend = ctx.pick("nend", [0, 0, 1, 2, 3])
    wl = ctx.pick("w_lags", [1, 2, 3])
    lq = ctx.pick("lag_q", [True, False])
    slx = ctx.pick("slx_lags", [0, 0, 1, 2])
    rob = ctx.pick("robust", [None, "white", "hac"])
    dof = ctx.pick("sig2n_k", [False, True])
    k = ctx.pick("k", [2, 3, 4])
    rho = ctx.pick("rho", [-.5, 0., .3, .6])
    d = gen.dataset(rng, n=int(rng.integers(80, 150)), k=k, kind=kind, transform=tr, rho=rho, nend=nend,
                    niv=nend + 1 if nend else 0, style="normal", het=bool(ctx.idx % 2), sig=.5,
                    ids=ctx.pick("ids", ["int", "str", "perm"]))
    sel = None
    if slx and ctx.pick("slx_vars", ["All", "list"]) == "list":
        sel = [bool(v) for v in rng.integers(0, 2, k)]
        sel[int(rng.integers(k))] = True
        if slx > 1:
            ctx.cfg["multi_lag_selection"] = True
    X, Y, Q = ref.gmlag_parts(d.y, d.x, d.W, d.yend, d.q, wl, lq, slx, sel)
    Z, H = np.hstack([X, Y]), np.hstack([X, Q])
    if H.shape[1] > np.linalg.matrix_rank(H / np.linalg.norm(H, axis=0), tol=1e-5):
        raise Skip("collinear instruments")
    for A, c in ((Z, 1e4), (H, 2e4)):
        if np.linalg.cond(A / np.linalg.norm(A, axis=0)) > c:
            raise Skip("ill-conditioned")
    Qh, _ = np.linalg.qr(H)
    if np.linalg.cond(Qh.T @ Z / np.linalg.norm(Z, axis=0)) > 3e3:
        raise Skip("weak instruments")
    K, kw = None, {}
    if rob == "hac":
        g, K = gen.kernel(rng, d.n, "triangular", k=6)
        kw["gwk"] = g
    if nend:
        kw.update(yend=d.yend, q=d.q)
    ctx.sig = [d.n, round(float(d.y.sum()), 6)]
    ctx.note(n=d.n, z=Z.shape[1], h=H.shape[1])
    imp = ctx.pick("spat_impacts", ["simple", None, "full"])
    if tr != "r":
        imp = None
    r = ref.tsls(d.y, Z, H, dof, rob, K)
    if abs(r.b[-1, 0]) < 1 and abs(r.b[-1, 0]) * np.max(np.abs(np.linalg.eigvals(d.W))) > .97:
        raise Skip("reduced form does not exist: refusing is right")
    key = "GM_Lag.multi_lag_selection" if "multi_lag_selection" in ctx.cfg else "GM_Lag"
    reg = ctx.run(key, spreg.GM_Lag, d.y, d.x, w=d.w, w_lags=wl, lag_q=lq, slx_lags=slx,
                  slx_vars="All" if sel is None else sel, robust=rob, sig2n_k=dof, spat_impacts=imp,
                  spat_diag=ctx.pick("spat_diag", [True, False]), **kw)
    chk.base_match(ctx, reg, r, rtol=1e-6)
    chk.fit_stats(ctx, reg, r)
    ctx.close("z", reg.z, Z, rtol=1e-9)
    Qr, _ = np.linalg.qr(np.asarray(reg.h, float))
    ctx.ok("h_columns", reg.h.shape == H.shape, "%s vs %s" % (reg.h.shape, H.shape))
    ctx.close("h_span", Qr @ (Qr.T @ H), H, rtol=1e-5)
    ctx.close("rho", reg.rho, r.b[-1], rtol=0, atol=1e-6)
    if np.all(np.diag(r.vm) > 0):
        chk.table(ctx, reg)
    rh = float(r.b[-1, 0])
    reduced(ctx, reg, d, X, Y, r, rh)


def reduced(ctx, reg, d, X, Y, r, rh):
    y = d.y
    warned = "outside the boundary" in str(getattr(reg, "warning", "")) or any(
        "outside the boundary" in str(w.message) for w in ctx._warns)
    if abs(rh) < .995:
        m = np.max(np.abs(np.linalg.eigvals(d.W)))
        if abs(rh) * m < .95:
            pe = np.asarray(reg.predy_e, float).reshape(-1, 1)
            xb = r.predy - rh * (d.W @ y)
            ctx.close("reduced_form", pe - rh * d.W @ pe, xb, rtol=1e-6, scale=np.abs(y).max())
            ctx.close("e_pred", reg.e_pred, y - pe, rtol=1e-8, scale=np.abs(y).max())
            ctx.close("pr2_e", reg.pr2_e, np.corrcoef(y.ravel(), pe.ravel())[0, 1] ** 2, rtol=0, atol=1e-6)
            ctx.ok("no_spurious_bound_warning", not warned)
    elif abs(rh) > 1.005:
        ctx.ok("out_of_bounds_withheld", not np.any(np.asarray(reg.predy_e)))
        ctx.ok("out_of_bounds_warned", warned)


def case_bounds(ctx):
    """weights scaled so that the estimate of rho is out of bounds: predictions withheld, hard_bound raises"""
    import spreg
    rng = ctx.rng
    d = gen.dataset(rng, n=100, k=2, kind=ctx.pick("W", ["rook", "queen", "knn"]), transform="r",
                    rho=ctx.pick("rho", [.6, .7, .8]), style="normal", sig=.3)
    sc = float(rng.uniform(.3, .5))
    A = d.W * sc
    ws = gen.make_w(A, transform="o")
    X, Y, Q = ref.gmlag_parts(d.y, d.x, ws.full)
    Z, H = np.hstack([X, Y]), np.hstack([X, Q])
    r = ref.tsls(d.y, Z, H)
    rh = float(r.b[-1, 0])
    ctx.cfg["out"] = abs(rh) > 1
    ctx.sig = [round(rh, 6)]
    d.W = ws.full
    reg = ctx.run("GM_Lag", spreg.GM_Lag, d.y, d.x, w=ws.w, spat_impacts=None)
    chk.base_match(ctx, reg, r, rtol=1e-6)
    reduced(ctx, reg, d, X, Y, r, rh)
    if abs(rh) > 1.005:
        ctx.refused("hard_bound_raises", spreg.GM_Lag, d.y, d.x, w=ws.w, spat_impacts=None, hard_bound=True)
    elif abs(rh) < .99:
        ctx.run("GM_Lag.hard_bound", spreg.GM_Lag, d.y, d.x, w=ws.w, spat_impacts=None, hard_bound=True)


MIN_FRACTION = 0.3
SUBS = {"gmlag": (case_gmlag, 700, 6000), "bounds": (case_bounds, 60, 500)}
