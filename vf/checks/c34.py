"""C34 shared matrix, weights and regime helpers: their dense definitions, for dense and for sparse input."""
import numpy as np
import pandas as pd
import scipy.sparse as sp
from scipy.stats import chi2
import libpysal
from .. import gen
from ..core import Skip

RULE = ("The helpers every estimator is built from (sparse algebra, spatial lags and filters, moment matrices, regime designs, Wald "
        "restrictions, subsets of weights, names of lagged variables) called directly with dense, CSR and CSC operands, any shape, "
        "order, dtype and weights; each value is compared with its dense definition, operands with a copy taken before the call.")
KINDS = ["array", "csr", "csc"]


def dress(A, kind):
    return A.copy() if kind == "array" else sp.csr_matrix(A) if kind == "csr" else sp.csc_matrix(A)


def full(A):
    return A.toarray() if sp.issparse(A) else np.asarray(A)


def rand(rng, shape, density=.4):
    return rng.normal(size=shape) * (rng.random(shape) < density) * rng.choice([1., 100., .01])


def intact(ctx, key, pairs):
    for a, b in pairs:
        ctx.ok(key + ".operands_kept", np.array_equal(full(a), b), "an operand was changed")


def algebra(ctx):
    from spreg import sputils as su
    rng = ctx.rng
    n, m, k = (int(v) for v in rng.integers(1, 9, 3))
    A, B, C, v = rand(rng, (n, m)), rand(rng, (m, k)), rand(rng, (n, m)), rand(rng, (n, 1), .9)
    ka, kb = ctx.pick("ka", KINDS), ctx.pick("kb", KINDS)
    out = ctx.pick("array_out", [None, True, False])
    o = {} if out is None else dict(array_out=out)
    ctx.sig = [n, m, k, ka, kb, out, float(A.sum())]
    a, b, c = dress(A, ka), dress(B, kb), dress(C, kb)
    r = ctx.run("spdot", su.spdot, a, b, **o)
    ctx.close("spdot", full(r), A @ B, rtol=1e-13, atol=1e-300)
    both = ka != "array" and kb != "array"
    ctx.ok("spdot.kind", sp.issparse(r) == (both and out is False), "%s of %s, %s, array_out=%s" % (type(r).__name__, ka, kb, out))
    if (ka == "array") == (kb == "array"):
        r = ctx.run("spmultiply", su.spmultiply, a, c, **o)
        ctx.close("spmultiply", full(r), A * C, rtol=1e-13, atol=1e-300)
        ctx.ok("spmultiply.kind", sp.issparse(r) == (both and out is False), type(r).__name__)
    else:
        ctx.refused("spmultiply.mixed", su.spmultiply, a, c, **o)
    if "csr" in (ka, kb) or ka == kb == "array":
        r = ctx.run("sphstack", su.sphstack, a, c, **o)
        ctx.close("sphstack", full(r), np.hstack([A, C]), rtol=0)
        ctx.ok("sphstack.kind", sp.issparse(r) == ("csr" in (ka, kb) and not out) and (not sp.issparse(r) or r.format == "csr"),
               type(r).__name__)
    if ka != "csc":
        r = ctx.run("spbroadcast", su.spbroadcast, a, v, **o)
        ctx.close("spbroadcast", full(r), A * v, rtol=1e-13, atol=1e-300)
        ctx.ok("spbroadcast.kind", sp.issparse(r) == (ka == "csr" and not out) and (not sp.issparse(r) or r.format == "csr"), type(r).__name__)
    ctx.close("spmin", su.spmin(a), A.min(), rtol=0)
    ctx.close("spmax", su.spmax(a), A.max(), rtol=0)
    ctx.ok("spisfinite", bool(su.spisfinite(a)), "finite")
    bad = A.copy()
    bad.flat[int(rng.integers(bad.size))] = ctx.pick("bad", [np.nan, np.inf, -np.inf])
    ctx.ok("spisfinite.bad", not su.spisfinite(dress(bad, ka)), "not finite")
    intact(ctx, "algebra", [(a, A), (b, B), (c, C)])


def square(ctx):
    from spreg import sputils as su
    rng = ctx.rng
    n = int(rng.integers(2, 25))
    A = rand(rng, (n, n), .3)
    A = A / max(1e-9, np.abs(A).sum(1).max()) * .8 + np.eye(n)
    A *= rng.choice([1., 3., .2])
    kind = ctx.pick("kind", ["array", "csc", "csr"])
    ctx.sig = [n, kind, float(A.sum())]
    a = dress(A, kind)
    sgn, ld = np.linalg.slogdet(A)
    if sgn < 0:
        raise Skip("negative determinant")
    ctx.close("splogdet", ctx.run("splogdet", su.splogdet, a), ld, rtol=1e-10, atol=1e-10)
    ctx.close("spinv", full(ctx.run("spinv", su.spinv, a)), np.linalg.inv(A), rtol=1e-9)
    intact(ctx, "square", [(a, A)])
    val = float(ctx.pick("val", [0, 1, -2.5]))
    want = A.copy()
    want[np.diag_indices(n)] = val
    ctx.close("spfill_diagonal", full(ctx.run("spfill_diagonal", su.spfill_diagonal, a, val)), want, rtol=0)
    hollow = dress(A - np.diag(np.diag(A)), kind)
    ctx.close("spfill_diagonal.new", full(ctx.run("spfill_diagonal", su.spfill_diagonal, hollow, 1.0)),
              A - np.diag(np.diag(A)) + np.eye(n), rtol=0)


def powers(W, x, p):
    out = []
    for _ in range(p):
        x = W @ x
        out.append(x)
    return out


def ws_of(ctx, big=60, **kw):
    return gen.weights(ctx.rng, int(ctx.rng.integers(10, big)), ctx.pick("W", gen.ALL_KINDS), ctx.pick("transform", ["r", "o", "b"]),
                       ctx.pick("ids", ["int", "str", "perm"]))


def lags(ctx):
    import spreg
    from spreg import utils as ut
    from spreg import user_output as uo
    rng = ctx.rng
    ws = ws_of(ctx)
    n, W = ws.n, ws.full
    k, T, p = int(rng.integers(1, 4)), int(rng.integers(1, 4)), ctx.pick("lags", [1, 2, 3, 4])
    x = rng.normal(size=(n, k))
    xp = rng.normal(size=(n * T, k))
    keep = x.copy()
    ctx.sig = [n, k, p, T, float(x.sum())]
    ctx.close("get_lags", ctx.run("get_lags", ut.get_lags, ws.w, x, p), np.hstack(powers(W, x, p)), rtol=1e-11)
    WT = np.kron(np.eye(T), W)
    ctx.close("get_lags.panel", ctx.run("get_lags_panel", ut.get_lags, ws.w, xp, p, panel=True), np.hstack(powers(WT, xp, p)), rtol=1e-11)
    P = powers(W, x, p + 3)
    split = ctx.pick("split", [1, 2, 3])
    lo, hi = ctx.run("get_lags_split", ut.get_lags_split, ws.w, x, split + p, split)
    ctx.close("get_lags_split.low", lo, np.hstack(P[:split]), rtol=1e-11)
    ctx.close("get_lags_split.high", hi, np.hstack(P[split:split + p]), rtol=1e-11)
    ctx.refused("get_lags_split.bad", ut.get_lags_split, ws.w, x, split, split)
    # filters
    lam = float(rng.uniform(-.9, .9))
    dense = x - lam * W @ x
    for form, ww in (("W", ws.w), ("csr", ws.w.sparse), ("dense", W)):
        ctx.close("get_spFilter." + form, ctx.run("get_spFilter", spreg.get_spFilter, ww, lam, x), dense, rtol=1e-11)
    ctx.close("get_spFilter.T", ctx.run("get_spFilter_T", spreg.get_spFilter, ws.w, lam, xp), xp - lam * WT @ xp, rtol=1e-11)
    # instruments
    y, q, ye = rng.normal(size=(n, 1)), rng.normal(size=(n, 2)), rng.normal(size=(n, 1))
    lag_q = ctx.pick("lag_q", [True, False])
    for form in ("W", "csr"):
        f, ww = (ut.set_endog, ws.w) if form == "W" else (ut.set_endog_sparse, ws.w.sparse)
        e, h = ctx.run("set_endog." + form, f, y, x, ww, None, None, p, lag_q)
        ctx.close("set_endog.%s.y" % form, e, W @ y, rtol=1e-11)
        ctx.close("set_endog.%s.q" % form, h, np.hstack(P[:p]), rtol=1e-11)
        e, h = ctx.run("set_endog." + form, f, y, x, ww, ye, q, p, lag_q)
        ctx.close("set_endog.%s.yend" % form, e, np.hstack([ye, W @ y]), rtol=1e-11)
        base = np.hstack([x, q]) if lag_q else x
        ctx.close("set_endog.%s.yend_q" % form, h, np.hstack([q] + powers(W, base, p)), rtol=1e-11)
    # lagged regressors by name
    nm = ["v%d" % i for i in range(k)]
    flags = [bool(rng.integers(2)) for _ in range(k)]
    if not any(flags):
        flags[int(rng.integers(k))] = True
    sel = ctx.pick("slx_vars", ["All", "all", "list"])
    use = flags if sel == "list" else [True] * k
    const = ctx.pick("constant", [True, False])
    X, names = (np.hstack([np.ones((n, 1)), x]), ["CONSTANT"] + nm) if const else (x, list(nm))
    ql = ctx.pick("q_lags", [0, 1, 2, 3])
    r = ctx.run("flex_wx", uo.flex_wx, ws.w, X, list(names), constant=const, slx_lags=split, slx_vars=flags if sel == "list" else sel,
                q_lags=ql)
    col = {v: x[:, [i]] for i, v in enumerate(nm)}

    def byname(v):
        o, _, base = v.partition("_")
        return powers(W, col[base], int(o[1:] or 1))[-1]
    want = ["W%s_%s" % (i if i > 1 else "", nm[j]) for i in range(1, split + 1) for j in range(k) if use[j]]
    ctx.ok("flex_wx.names", list(r[1]) == names + want, "%s, expected %s" % (r[1], names + want))
    ctx.close("flex_wx.x", r[0], np.hstack([X] + [byname(v) for v in r[1][len(names):]]), rtol=1e-11)
    if ql:
        need = {"W%s_%s" % (i if i > 1 else "", nm[j]) for j in range(k)
                for i in (range(split + 1, split + ql + 1) if use[j] else range(1, ql + 1))}
        ctx.ok("flex_wx.q_names", set(r[3]) == need and len(r[3]) == len(need), "%s, expected %s" % (r[3], sorted(need)))
        if set(r[3]) == need:
            ctx.close("flex_wx.q", r[2], np.hstack([byname(v) for v in r[3]]), rtol=1e-11)
    if k > 1:
        ctx.refused("flex_wx.short", uo.flex_wx, ws.w, X, list(names), constant=const, slx_vars=[True])
    ctx.refused("flex_wx.word", uo.flex_wx, ws.w, X, list(names), constant=const, slx_vars="some")
    ctx.ok("lags.operands_kept", np.array_equal(x, keep), "x was changed")
    # inverse of the filter, applied to real and whole numbers
    rad = max(1e-9, np.max(np.abs(np.linalg.eigvals(W))))
    d = x if ctx.pick("numbers", ["real", "whole"]) == "real" else rng.integers(-5, 9, (n, k))
    d0 = d.copy()
    rho = lam / rad
    post = ctx.pick("post", [True, False])
    inv = np.linalg.inv(np.eye(n) - rho * W)
    want = d.T @ inv if post else inv @ d
    for form, ww in (("W", ws.w), ("csr", ws.w.sparse)):
        if form == "W" or ctx.pick("also", [True, False]):
            g = ctx.run("inverse_prod." + form, ut.inverse_prod, ww, d, rho, post_multiply=post)
            ctx.close("inverse_prod." + form, g, want, rtol=1e-7)
    g = ctx.run("inverse_prod.true", ut.inverse_prod, ws.w, d, rho, post_multiply=post, inv_method="true_inv")
    ctx.close("inverse_prod.true", g, want, rtol=1e-9)
    ctx.ok("inverse_prod.operands_kept", np.array_equal(d, d0), "the data was changed")
    ctx.refused("inverse_prod.method", ut.inverse_prod, ws.w, d, rho, inv_method="magic")


def moments(ctx):
    from spreg import utils as ut, w_utils as wu
    ws = ws_of(ctx)
    n, W = ws.n, ws.full
    S = ws.w.sparse
    ctx.sig = [n, ws.kind, ws.transform, float(W.sum())]
    WW = W.T @ W
    ctx.close("get_A1_het", full(ctx.run("get_A1_het", ut.get_A1_het, S)), WW - np.diag(np.diag(WW)), rtol=1e-12)
    t = np.trace(WW) / n
    ctx.close("get_A1_hom", full(ctx.run("get_A1_hom", ut.get_A1_hom, S)), WW - t * np.eye(n), rtol=1e-12)
    ctx.close("get_A1_hom.KP", full(ctx.run("get_A1_hom", ut.get_A1_hom, S, scalarKP=True)), (WW - t * np.eye(n)) / (1 + t ** 2), rtol=1e-12)
    ctx.close("get_A2_hom", full(ctx.run("get_A2_hom", ut.get_A2_hom, S)), (W + W.T) / 2, rtol=1e-12)
    ctx.ok("moments.operands_kept", np.allclose(S.toarray(), W, rtol=1e-13), "the weights were changed")
    d = (W != 0).sum(1)
    std = d.min() > 0 and np.allclose(W, (W != 0) / np.maximum(d, 1)[:, None], atol=1e-12)
    ctx.ok("is_rowstd_binary", bool(ctx.run("is_rowstd_binary", wu.is_rowstd_binary, ws.w)) == std, "expected %s" % std)
    if std:
        B = (W != 0).astype(float)
        if (B == B.T).all():
            before = ws.w.transform
            s = full(ctx.run("symmetrize", wu.symmetrize, ws.w))
            ctx.close("symmetrize", s, B / np.sqrt(np.outer(d, d)), rtol=1e-12)
            ctx.ok("symmetrize.symmetric", np.allclose(s, s.T), "not symmetric")
            ctx.close("symmetrize.eigenvalues", np.sort(np.linalg.eigvalsh((s + s.T) / 2)), np.sort(np.linalg.eigvals(W).real), rtol=1e-6,
                      atol=1e-6)
            ctx.ok("symmetrize.weights_kept", ws.w.transform == before and np.allclose(ws.w.sparse.toarray(), W), "weights changed")


def design(ctx):
    from spreg import regimes as rg
    rng = ctx.rng
    n, k, R = int(rng.integers(12, 50)), int(rng.integers(1, 5)), int(rng.integers(2, 5))
    style = ctx.pick("labels", ["str", "int", "float", "words", "num_str"])
    lab = {"str": list("dbca"), "int": [7, 3, 11, -2], "float": [3., 1., 10., 2.], "words": ["10", "9", "b b", "A"],
           "num_str": ["2", "10", "1", "03"]}[style][:R]
    code = np.concatenate([np.arange(R), rng.integers(0, R, n - R)])
    rng.shuffle(code)
    regimes = [lab[c] for c in code]
    x = rng.normal(size=(n, k))
    ctx.sig = [n, k, R, style, float(x.sum())]
    rs = ctx.run("_get_regimes_set", rg._get_regimes_set, regimes)
    ctx.ok("regimes_set", list(rs) == sorted(set(regimes)), "%s of %s" % (rs, sorted(set(regimes))))
    if style == "float":
        ctx.ok("regimes_set.whole", all(isinstance(r, (int, np.integer)) for r in rs), "%s" % rs)
    D = np.array([[1. if r == s else 0. for s in sorted(set(regimes))] for r in regimes])
    blocks = lambda Z: np.hstack([Z * D[:, [j]] for j in range(R)]) if Z.shape[1] else np.zeros((n, 0))
    ctx.close("x2xsp", full(ctx.run("x2xsp", rg.x2xsp, x, regimes, rs)), blocks(x), rtol=0)
    flags = [bool(rng.integers(2)) for _ in range(k)]
    f = np.array(flags)
    want = np.hstack([blocks(x[:, f]), x[:, ~f]])
    ctx.close("regimeX_setup", full(ctx.run("regimeX_setup", rg.regimeX_setup, x, regimes, flags, rs)), want, rtol=0)
    cons = ctx.pick("constant", ["many", "one", False])
    nm = ["v%d" % i for i in range(k)]
    given = ctx.pick("named", [True, False])
    flags2 = ([cons == "many"] if cons else []) + flags
    typ = (["o"] if cons else []) + [str(rng.choice(["x", "yend"])) for _ in range(k)]
    got = ctx.run("set_name_x_regimes", rg.set_name_x_regimes, list(nm) if given else None, cons, flags2, rs, typ, rlist=True)
    base = (["CONSTANT"] if cons else []) + (nm if given else ["var_%d" % (i + 1) for i in range(k)])
    order = [(str(r), i) for r in rs for i in range(len(flags2)) if flags2[i]] + [("_Global", i) for i in range(len(flags2)) if not flags2[i]]
    ctx.ok("names", list(got[0]) == ["%s_%s" % (r, base[i]) for r, i in order], "%s" % (got[0],))
    ctx.ok("types", [str(t) for t in got[1]] == [typ[i] for r, i in order], "%s" % (got[1],))
    ctx.ok("regime_list", list(got[2]) == [r for r, i in order], "%s" % (got[2],))
    yend = rng.normal(size=(n, int(rng.integers(1, 3)))) if ctx.pick("yend", [True, False]) else None
    tot = k + (0 if yend is None else yend.shape[1])
    add = ctx.pick("add_cons", [True, False])
    cr = ctx.pick("cr", ["many", "one"])
    head = [cr == "many"] if add else []
    c2 = [bool(rng.integers(2)) for _ in range(tot)]
    ctx.ok("check_cols2regi.all", list(ctx.run("check_cols2regi", rg.check_cols2regi, cr, "all", x, yend=yend, add_cons=add)) == head + [True] * tot)
    keep = list(c2)
    ctx.ok("check_cols2regi.list", list(ctx.run("check_cols2regi", rg.check_cols2regi, cr, c2, x, yend=yend, add_cons=add)) == head + c2)
    ctx.ok("check_cols2regi.kept", c2 == keep, "the caller's list was changed")
    for wrong in (c2 + [True], c2[:-1]):
        ctx.refused("check_cols2regi.wrong", rg.check_cols2regi, cr, wrong, x, yend=yend, add_cons=add)


def restrictions(ctx):
    from spreg import regimes as rg
    rng = ctx.rng
    nr, kr, kf = int(rng.integers(2, 6)), int(rng.integers(1, 5)), int(rng.integers(0, 4))
    kryd = int(rng.integers(0, kr)) if ctx.pick("endogenous", [True, False]) else 0
    ke = kr - kryd
    K = kr * nr + kf
    ctx.sig = [nr, kr, kf, kryd, ctx.idx]
    # exogenous block of every regime, then the endogenous block of every regime, then the global ones
    place = lambda v, r: r * ke + v if v < ke else ke * nr + r * kryd + (v - ke)
    b = rng.normal(size=(K, 1))
    A = rng.normal(size=(K, K + 3))
    V = A @ A.T / 9
    rows = []
    for v in range(kr):
        Rm = ctx.run("buildR1var", rg.buildR1var, v, kr, kf, kryd, nr)
        want = np.zeros((nr - 1, K))
        for j in range(1, nr):
            want[j - 1, place(v, 0)], want[j - 1, place(v, j)] = 1, -1
        # any basis of the same hypotheses
        ctx.ok("buildR1var.shape", np.shape(Rm) == want.shape, "%s" % (np.shape(Rm),))
        if np.shape(Rm) == want.shape:
            ctx.ok("buildR1var", np.linalg.matrix_rank(np.vstack([Rm, want])) == nr - 1 == np.linalg.matrix_rank(Rm),
                   "variable %d: %s" % (v, np.asarray(Rm).tolist()))
        rows.append(want)
    if kryd == 0:
        Rm = np.asarray(ctx.run("buildR", rg.buildR, kr, kf, nr))
        want = np.vstack(rows)
        ctx.ok("buildR", Rm.shape == want.shape and np.linalg.matrix_rank(np.vstack([Rm, want])) == want.shape[0] == np.linalg.matrix_rank(Rm),
               "%s" % (Rm.shape,))
    for Rm in rows[:2] + [np.vstack(rows), rng.normal(size=(int(rng.integers(1, K + 1)), K))]:
        q = rng.normal(size=(Rm.shape[0], 1)) * ctx.pick("q", [0, 1])
        st, p = ctx.run("wald_test", rg.wald_test, b, Rm, q, V)
        d = Rm @ b - q
        w = (d.T @ np.linalg.solve(Rm @ V @ Rm.T, d)).item()
        ctx.close("wald_test", st, w, rtol=1e-6)
        ctx.pclose("wald_test.p", p, chi2.sf(w, Rm.shape[0]))
        reg = type("Reg", (), dict(betas=b, vm=V))()
        t = ctx.run("Wald", rg.Wald, reg, Rm, q) if q.any() else ctx.run("Wald", rg.Wald, reg, Rm)
        ctx.close("Wald.w", t.w, w, rtol=1e-6)
        ctx.pclose("Wald.pvalue", t.pvalue, chi2.sf(w, Rm.shape[0]))


def standard(A, t):
    if t == "r":
        s = A.sum(1, keepdims=True)
        return np.divide(A, s, out=np.zeros_like(A), where=s != 0)
    if t == "d":
        return A / A.sum()
    if t == "v":
        q = np.sqrt((A ** 2).sum(1, keepdims=True))
        B = np.divide(A, q, out=np.zeros_like(A), where=q != 0)
        return B * len(A) / B.sum()
    return (A != 0).astype(float) if t == "b" else A


def subsets(ctx):
    from spreg import regimes as rg
    rng = ctx.rng
    n = int(rng.integers(15, 60))
    A, xy = gen.base_matrix(rng, n, ctx.pick("W", gen.ALL_KINDS))
    n = len(A)
    t = ctx.pick("transform", ["r", "o", "b", "d", "v"])
    ids = gen.make_ids(rng, n, ctx.pick("ids", ["int", "str", "perm"]))
    ws = gen.make_w(A, ids, t, xy, "given")
    w = ws.w
    if t in "dv":
        w.transform = t
    keep = w.sparse.toarray()
    R = int(rng.integers(2, 5))
    lab = [["a", "b", "c", "d"], [4, 9, 1, 2]][int(rng.integers(2))][:R]
    code = np.concatenate([np.arange(R), rng.integers(0, R, n - R)])
    rng.shuffle(code)
    regimes = [lab[c] for c in code]
    rs = sorted(lab)
    ctx.sig = [n, R, t, ws.kind, float(A.sum())]
    on = {r: [i for i in range(n) if regimes[i] == r] for r in rs}
    if t in "dv" and min(A[np.ix_(on[r], on[r])].sum() for r in rs) == 0:
        raise Skip("a regime without links cannot be standardised")
    tr = ctx.pick("as", [True, False])
    for r in rs:
        o, warn = ctx.run("w_regime", rg.w_regime, w, on[r], r, transform=tr)
        sub = standard(A[np.ix_(on[r], on[r])], t if tr else "o")
        ctx.close("w_regime", o.full()[0], sub, rtol=1e-12)
        ctx.ok("w_regime.ids", list(o.id_order) == [w.id_order[i] for i in on[r]], "%s" % (o.id_order[:5],))
        lonely = (A[np.ix_(on[r], on[r])] != 0).sum(1).min() == 0
        ctx.ok("w_regime.warn", bool(warn) == bool(lonely) and (not warn or str(r) in warn), "%r" % (warn,))
        ctx.refused("w_regime.few", rg.w_regime, w, on[r], r, min_n=len(on[r]) + 1)
        ctx.run("w_regime_enough", rg.w_regime, w, on[r], r, min_n=len(on[r]))
    d, gi, warn = ctx.run("w_regimes", rg.w_regimes, w, regimes, rs, transform=tr, get_ids=ctx.pick("get_ids", [None, True]))
    for r in rs:
        ctx.close("w_regimes", d[r].full()[0], standard(A[np.ix_(on[r], on[r])], t if tr else "o"), rtol=1e-12)
        if gi:
            ctx.ok("w_regimes.ids", [int(i) for i in gi[r]] == on[r], "%s" % gi[r][:5])
    same = np.array([[a == b for b in regimes] for a in regimes])
    u = ctx.run("w_regimes_union", rg.w_regimes_union, w, d, rs)
    U = np.zeros_like(A)
    for r in rs:
        U[np.ix_(on[r], on[r])] = standard(A[np.ix_(on[r], on[r])], t if tr else "o")
    ctx.close("w_regimes_union", u.full()[0], U, rtol=1e-12)
    ctx.ok("w_regimes_union.ids", list(u.id_order) == list(w.id_order), "order of the observations")
    ctx.ok("subsets.weights_kept", np.array_equal(w.sparse.toarray(), keep) and w.transform.lower() == t, "the weights were changed")


def multipliers(ctx):
    from spreg.sputils import i_multipliers
    rng = ctx.rng
    ws = ws_of(ctx, 40)
    n, W = ws.n, ws.full
    ctx.sig = [n, ws.kind, float(W.sum())]
    rad = max(1e-9, np.max(np.abs(np.linalg.eigvals(W))))
    rho = float(rng.uniform(-.9, .9)) / rad
    Q = np.linalg.inv(np.eye(n) - rho * W)
    o = Q - np.diag(np.diag(Q))
    want = np.column_stack([np.diag(Q), o.sum(1), o.sum(0)])
    values = [str(v) for v in ws.w.id_order] if ctx.pick("kind", ["str", "int"]) == "str" else [int(v) for v in rng.permutation(n) + 100]
    index = ctx.pick("index", ["default", "shifted", "words", "reversed"])
    ix = {"default": None, "shifted": np.arange(5, 5 + n), "words": ["r%d" % i for i in range(n)], "reversed": np.arange(n)[::-1]}[index]
    form = ctx.pick("id", ["series", "frame", "array", "none", "unnamed"])
    v = {"series": lambda: pd.Series(values, index=ix, name="county"), "frame": lambda: pd.DataFrame({"county": values}, index=ix),
         "array": lambda: np.array(values).reshape(-1, 1), "none": lambda: None, "unnamed": lambda: pd.Series(values, index=ix)}[form]()
    t = ctx.run("i_multipliers", i_multipliers, ws.w, coef=rho, model="lag", id=v)
    ctx.ok("shape", t.shape == (n, 4), "%s rows and columns for %d observations" % (t.shape, n))
    if t.shape == (n, 4):
        ctx.close("values", t[["Direct", "EofNbrs", "EonNbrs"]].values, want, rtol=1e-9)
        ctx.ok("id_column", t.columns[0] == ("county" if form in ("series", "frame") else "ID"), "%s" % list(t.columns))
        wanted = list(range(n)) if form == "none" else values
        ctx.ok("ids", [str(a) for a in t.iloc[:, 0]] == [str(a) for a in wanted], "%s" % list(t.iloc[:3, 0]))


def alive(f):
    """a helper that has moved or is gone is no violation: there is nothing to compare"""
    def case(ctx):
        try:
            f(ctx)
        except (AttributeError, ImportError) as e:
            raise Skip("no such helper any more: %s" % e)
    return case


SUBS = {"algebra": (alive(algebra), 100, 2000), "square": (alive(square), 40, 800), "lags": (alive(lags), 100, 2000), "moments": (alive(moments), 60, 1000),
        "design": (alive(design), 80, 2000), "restrictions": (alive(restrictions), 60, 1500), "subsets": (alive(subsets), 60, 1000),
        "multipliers": (alive(multipliers), 40, 600)}
