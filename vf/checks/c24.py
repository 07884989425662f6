"""C24 spatial SUR: moments, likelihood, instruments and tests against dense references."""
import numpy as np
from numpy.linalg import inv, slogdet
from scipy import stats, optimize
from .. import gen, ref
from ..core import Skip
from . import c23
from .c23 import system, inter, conditioned, resid, split, gls, coefs, inference, sigma, surchow, chows, triple, wald

RULE = ("Random systems with spatially autocorrelated errors or outcomes over seven weight layouts, with and without regimes and "
        "endogenous regressors; moments are minimised, likelihoods maximised and stacked systems solved densely; tests and the "
        "asymptotic covariance come from the score and information of the stacked Gaussian likelihood.")
ASSUMPTIONS = ["row-standardised weights for the error models", "moments and likelihoods are judged away from the parameter bounds"]
CASE_LIMIT = 60


def filtered(s, X, lam):
    B = [np.eye(s.n) - l * s.W for l in lam]
    return {r: B[r] @ s.y[r] for r in X}, {r: B[r] @ X[r] for r in X}


def case_gm(ctx):
    import spreg
    reg_ = ctx.pick("regimes", [False, False, True])
    s = system(ctx, neqs=(1, 2, 2, 3), w=True, reg=reg_, lam=(.4, -.3, .7), transform=ctx.pick("transform", ["r", "r", "r", "o"]))
    X = {r: inter(s, s.X[r]) for r in s.X}
    conditioned(X)
    reg = ctx.run("SURerrorGM", spreg.SURerrorGM, s.y, s.X, s.w, nonspat_diag=ctx.pick("nonspat", [True, False]),
                  spat_diag=ctx.pick("spat", [True, False]), **s.kw)
    lam = np.asarray(reg.lamsur, float).ravel()
    ctx.ok("lamsur.shape", np.asarray(reg.lamsur).shape == (s.ne, 1), "")
    E0 = np.hstack([s.y[r] - X[r] @ np.linalg.lstsq(X[r], s.y[r], rcond=None)[0] for r in X])
    for r in X:
        e = E0[:, r:r + 1] / E0[:, r].std()
        G, g = ref.kp_moments(s.W, e)
        f = ref.kp_crit(G, g)
        x, v, nloc = ref.minimise(f, -.99, .99)
        # the moments of other weights are badly scaled for the optimiser
        if nloc > 1 or abs(x) > .95 or ctx.cfg["transform"] != "r":
            ctx.cfg["edge"] = True
            ctx.ok("lambda.not_worse_than_zero", f(lam[r]) <= f(0.) + 1e-9, "")
            continue
        ctx.ok("lambda.criterion", f(lam[r]) <= v + 1e-6 * max(1e-3, f(0)), "criterion %g at %g, %g at %g" % (f(lam[r]), lam[r], v, x))
    yf, Xf = filtered(s, X, lam)
    Ef = np.hstack([E0[:, r:r + 1] - lam[r] * (s.W @ E0[:, r:r + 1]) for r in X])
    sig = Ef.T @ Ef / s.n
    bb, V = gls(yf, Xf, sig, s.n)
    b = split(bb, X)
    coefs(ctx, "coef", reg.bSUR, reg.varb, b, V)
    sigma(ctx, reg, sig, resid(s.y, X, b))
    inference(ctx, "sur_inf", reg.sur_inf, b, V)
    surchow(ctx, reg.surchow, b, V)
    if reg_:
        chows(ctx, reg.chow_regimes, s, b, V)


# ------------------------------------------------------------------ maximum likelihood
def lnj(s):
    ev = np.linalg.eigvals(s.W)
    return lambda l: float(np.log(np.abs(1 - l * ev)).sum())


def joint(s, X, jac):
    """profile likelihood over lambda: b and Sigma iterated to their maximum"""
    n, ne = s.n, s.ne

    def at(lam, b=None, steps=200):
        yf, Xf = filtered(s, X, lam)
        if b is None:
            b = {r: np.linalg.lstsq(Xf[r], yf[r], rcond=None)[0] for r in X}
        last = None
        for _ in range(steps):
            E = resid(yf, Xf, b)
            sig = E.T @ E / n
            ld = slogdet(sig)[1]
            if last is not None and abs(ld - last) < 1e-13:
                break
            last = ld
            b = split(gls(yf, Xf, sig, n)[0], X)
        return -n / 2 * ld + sum(jac(l) for l in lam), b, sig
    return at


def info(s, lam, sig):
    """information of (lambda, Sigma) for stacked residuals, from the covariance of the Gaussian vector"""
    n, ne = s.n, s.ne
    L = np.linalg.cholesky(sig)
    Li = inv(L)
    pairs = [(i, j) for i in range(ne) for j in range(i, ne)]
    D = [s.W @ inv(np.eye(n) - l * s.W) for l in lam]
    # whitened derivative of the covariance: Om = B^-1 (Sig x I) B^-T; with G = (L^-1 x I) B: G dOm G'
    out = []
    for r in range(ne):
        J = np.zeros((ne, ne))
        J[r, r] = 1
        # B dOm B' = (J x D)(Sig x I) + (Sig x I)(J x D)' , B commutes with D within the equation
        A = np.kron(Li @ J @ L, D[r])
        out.append(A + A.T)
    for i, j in pairs:
        J = np.zeros((ne, ne))
        J[i, j] = J[j, i] = 1
        out.append(np.kron(Li @ J @ Li.T, np.eye(n)))
    P = len(out)
    I = np.zeros((P, P))
    for a in range(P):
        for c in range(a, P):
            I[a, c] = I[c, a] = .5 * float((out[a] * out[c].T).sum())
    return I


def case_ml(ctx):
    import spreg
    reg_ = ctx.pick("regimes", [False, False, True])
    eq = ctx.pick("true", [(.4, -.3, .6), (0., .5, .2), (.7, .7, .7), (-.5, -.2, 0.)])
    s = system(ctx, neqs=(2, 2, 3), w=True, reg=reg_, lam=eq, nmin=40)
    X = {r: inter(s, s.X[r]) for r in s.X}
    conditioned(X)
    vm = ctx.pick("vm", [True, True, False])
    nd, sd = ctx.pick("nonspat", [True, True, False]), ctx.pick("spat", [True, True, False])
    reg = ctx.run("SURerrorML", spreg.SURerrorML, s.y, s.X, s.w, nonspat_diag=nd, spat_diag=sd, vm=vm, **s.kw)
    jac = lnj(s)
    lam = np.asarray(reg.lamsur, float).ravel()
    at = joint(s, X, jac)
    # single equations
    n, ne = s.n, s.ne
    c1 = 0.
    for r in X:
        def f(l, r=r):
            B = np.eye(n) - l * s.W
            e = B @ s.y[r]
            Z = B @ X[r]
            e = e - Z @ np.linalg.lstsq(Z, e, rcond=None)[0]
            return -n / 2 * np.log(float((e ** 2).sum()) / n) + jac(l)
        lo = float(np.asarray(reg.lamols).ravel()[r])
        v, best, nloc = ref.maximise(f, -.9999, .9999, 60)
        if nloc > 1 or abs(v) > .985:
            raise Skip("boundary or several optima of a single equation")
        ctx.ok("lamols", f(lo) >= best - 1e-5, "likelihood %.9g at %.6f, %.9g at %.6f" % (f(lo), lo, best, v))
        ctx.close("lamols.value", lo, v, rtol=0, atol=1e-3)
        c1 += f(lo)
    const = -n / 2 * ne * (1 + np.log(2 * np.pi))
    ctx.close("errllik", reg.errllik, const + c1, rtol=1e-7, atol=1e-5)
    # joint optimum: reported point against a search started there and at the single-equation values
    best, arg = -np.inf, None
    for x0 in (lam, np.asarray(reg.lamols).ravel(), np.zeros(ne)):
        o = optimize.minimize(lambda l: -at(l)[0], np.clip(x0, -.97, .97), method="L-BFGS-B", bounds=[(-.985, .985)] * ne)
        if -o.fun > best:
            best, arg = -o.fun, o.x
    if np.max(np.abs(arg)) > .98:
        raise Skip("optimum at the boundary")
    here, b, sig = at(lam)
    ctx.ok("maximum", here >= best - 2e-4, "likelihood %.9g at %s, %.9g at %s" % (here, lam, best, arg))
    ctx.close("surerrllik", reg.surerrllik, const + best, rtol=0, atol=5e-4)
    ctx.close("lamsur", lam, arg, rtol=0, atol=4e-3)
    # coefficients: the reported ones are the maximisers for the reported lambda
    yf, Xf = filtered(s, X, lam)
    bb, V = gls(yf, Xf, sig, n)
    se = np.sqrt(np.diag(V))
    G = np.vstack([np.asarray(reg.bSUR[r]) for r in range(ne)]).ravel()
    ctx.close("bSUR", (G - bb.ravel()) / se, 0 * se, rtol=0, atol=.02)
    ctx.close("varb", np.asarray(reg.varb) / np.outer(se, se), V / np.outer(se, se), rtol=0, atol=.01)
    sc = np.sqrt(np.outer(np.diag(sig), np.diag(sig)))
    rs = np.asarray(reg.sig, float)
    ctx.close("sig", rs / sc, sig / sc, rtol=0, atol=.01)
    ctx.close("corr", reg.corr, rs / np.sqrt(np.outer(np.diag(rs), np.diag(rs))), rtol=1e-9)
    rb = {r: np.asarray(reg.bSUR[r], float) for r in range(ne)}
    ctx.close("bigE", reg.bigE, resid(s.y, X, rb), rtol=1e-8, atol=1e-8)
    # inference follows from what is reported
    rV = np.asarray(reg.varb, float)
    inference(ctx, "sur_inf", reg.sur_inf, rb, rV)
    surchow(ctx, reg.surchow, rb, rV)
    if reg_:
        chows(ctx, reg.chow_regimes, s, rb, rV)
    M = ne * (ne - 1) // 2
    if nd:
        lr = 2 * (best + const - (const + c1))
        ctx.close("lrtest", reg.lrtest[0], lr, rtol=0, atol=2e-3)
        ctx.ok("lrtest.df", int(reg.lrtest[1]) == M, "")
        ctx.pclose("lrtest.p", reg.lrtest[2], stats.chi2.sf(reg.lrtest[0], M))
    else:
        ctx.ok("no_lrtest", reg.lrtest is None, "")
    l0 = c23.path(s.y, X, n, 40)[-1][2]
    ll0 = const - n / 2 * slogdet(l0)[1]
    ctx.close("llik", reg.llik, ll0, rtol=0, atol=.02)
    if sd:
        ctx.close("likrlambda", reg.likrlambda[0], 2 * (reg.surerrllik - reg.llik), rtol=1e-9)
        ctx.ok("likrlambda.df", int(reg.likrlambda[1]) == ne, "")
        ctx.pclose("likrlambda.p", reg.likrlambda[2], stats.chi2.sf(reg.likrlambda[0], ne))
    else:
        ctx.ok("no_likrlambda", reg.likrlambda is None, "")
    if not vm:
        ctx.ok("no_vm", reg.vm is None and reg.lamsetp is None and reg.lamtest is None and reg.joinlam is None, "")
        return
    VI = inv(info(s, lam, rs))
    t = np.sqrt(np.diag(VI))
    ctx.close("vm", np.asarray(reg.vm) / np.outer(t, t), VI / np.outer(t, t), rtol=0, atol=1e-5)
    ls = t[:ne]
    ctx.close("lamsetp.se", np.asarray(reg.lamsetp[0]).ravel(), ls, rtol=1e-5)
    ctx.close("lamsetp.z", np.asarray(reg.lamsetp[1]).ravel(), lam / ls, rtol=1e-5)
    ctx.pclose("lamsetp.p", np.asarray(reg.lamsetp[2]).ravel(), 2 * stats.norm.sf(abs(lam / ls)))
    Rm = np.hstack([np.ones((ne - 1, 1)), -np.eye(ne - 1)])
    triple(ctx, "lamtest", reg.lamtest, wald(lam.reshape(-1, 1), VI[:ne, :ne], Rm), 1e-4)
    if sd:
        triple(ctx, "joinlam", reg.joinlam, wald(lam.reshape(-1, 1), VI[:ne, :ne], np.eye(ne)), 1e-4)
    else:
        ctx.ok("no_joinlam", reg.joinlam is None, "")


# ------------------------------------------------------------------ lag
def case_lag(ctx):
    import spreg
    reg_ = ctx.pick("regimes", [False, False, True])
    nend = ctx.pick("nend", [0, 0, 1, (1, 2)])
    s = system(ctx, neqs=(1, 2, 2, 3), w=True, reg=reg_, rho=(.4, .2, -.3), nend=nend, transform=ctx.pick("transform", ["r", "r", "o", "b"]), nmin=70)
    wl = ctx.pick("w_lags", [1, 2, 3])
    lq = ctx.pick("lag_q", [True, False])
    sep = bool(reg_ and ctx.pick("regime_lag_sep", [False, True]))
    kw = dict(s.kw)
    if nend:
        kw.update(bigyend=s.yend, bigq=s.q)
    sd = ctx.pick("spat_diag", [True, True, False])
    X = {r: inter(s, s.X[r]) for r in s.X}
    Wy = {r: s.W @ s.y[r] for r in X}
    ye, H, fixed = {}, {}, 0 if sep else 1
    for r in X:
        own = [s.yend[r]] if nend else []
        if sep:
            ye[r] = inter(s, np.hstack(own + [Wy[r]]))
        else:
            ye[r] = np.hstack([inter(s, o) for o in own] + [Wy[r]])
        q = inter(s, s.q[r]) if nend else np.zeros((s.n, 0))
        # lags of the regressors the system is estimated with, constant of the first regime apart
        cols = [X[r], q, ref.lags(s.W, X[r][:, 1:], wl)]
        if nend and lq:
            cols.append(ref.lags(s.W, q, wl))
        H[r] = np.hstack(cols)
    Z = {r: np.hstack([X[r], ye[r]]) for r in X}
    conditioned(Z)
    conditioned(H)
    reg = ctx.run("SURlagIV", spreg.SURlagIV, s.y, s.X, w=s.w, w_lags=wl, lag_q=lq, spat_diag=sd, vm=ctx.pick("vm", [False, True]),
                  nonspat_diag=ctx.pick("nonspat", [True, False]) and s.ne > 1, **({"regime_lag_sep": sep} if reg_ else {}), **kw)
    c23.three(ctx, reg, s, X, ye, Z, H)
    b, V = c23.three.last
    if sd:
        K = [len(b[r]) for r in range(s.ne)]
        pos = np.cumsum(K) - 1
        rows = []
        for r in range(s.ne):
            # every spatial coefficient of the equation
            m = ye[r].shape[1] // s.R if sep else 1
            rows += [pos[r] - m * j for j in range(s.R if sep else 1)]
        Rm = np.zeros((len(rows), sum(K)))
        Rm[range(len(rows)), rows] = 1
        B = np.vstack([b[r] for r in range(s.ne)])
        triple(ctx, "joinrho.by_regime" if sep else "joinrho", reg.joinrho, wald(B, V, Rm))
    else:
        ctx.ok("no_joinrho", reg.joinrho is None, "")
    if reg_:
        chows(ctx, reg.chow_regimes, s, b, V, kend=[(ye[r].shape[1] - fixed) // s.R for r in range(s.ne)], fixed=fixed)


SUBS = {"gm": (case_gm, 60, 1500), "ml": (case_ml, 60, 900), "lag": (case_lag, 90, 2000)}
