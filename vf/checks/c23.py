"""C23 SUR and three-stage least squares against GLS on the stacked system."""
import numpy as np
from numpy.linalg import inv, slogdet
from scipy import stats
from scipy.linalg import block_diag
from .. import gen, ref
from ..core import Skip

RULE = ("Random systems of one to four equations with equal, unequal or identical regressors, correlated errors, optional regimes and "
        "endogenous regressors; the stacked system is solved densely with the Kronecker covariance and every reported number, the "
        "iteration history included, is compared.")
ASSUMPTIONS = ["every equation's regressors include a constant as first column"]


# ------------------------------------------------------------------ data
class S:
    pass


def system(ctx, neqs=(2, 2, 3, 4), nend=0, w=False, lam=None, rho=None, reg=None, same=None, transform=None, nmin=40):
    rng = ctx.rng
    s = S()
    s.ne = ne = ctx.pick("n_eq", list(neqs))
    s.R = R = ctx.pick("R", [2, 2, 3]) if reg else 1
    n = int(rng.integers(nmin, nmin + 50)) * (R if reg else 1)
    if w:
        s.ws = gen.weights(rng, n, ctx.pick("W", gen.ALL_KINDS), transform or "r", ctx.pick("ids", ["int", "str", "perm"]))
        n, s.w, s.W = s.ws.n, s.ws.w, s.ws.full
    s.n = n
    kmin = 2 if rho is not None else 1
    s.ks = [int(rng.integers(kmin, 4)) for _ in range(ne)]
    if same or ctx.pick("equal_k", [True, False]):
        s.ks = [s.ks[0]] * ne
    corr = ctx.pick("corr", [0., .5, 1.5])
    L = np.tril(rng.normal(0, corr, (ne, ne)), -1) + np.diag(rng.uniform(.4, 1.5, ne))
    E = rng.normal(size=(n, ne)) @ L.T
    form = ctx.pick("form", ["normal", "normal", "integers", "scaled"])
    s.y, s.X, s.yend, s.q = {}, {}, {}, {}
    x0 = None
    for r in range(ne):
        x = rng.normal(size=(n, s.ks[r])) + .5
        if form == "integers":
            x = np.round(3 * x)
        if form == "scaled":
            x = x * rng.choice([.1, 1, 20], s.ks[r])
        if same:
            x0 = x if x0 is None else x0
            x = x0
        X = np.hstack([np.ones((n, 1)), x])
        e = E[:, r]
        if lam is not None:
            e = np.linalg.solve(np.eye(n) - lam[r % len(lam)] * s.W, e)
        y = X @ rng.uniform(-1.5, 1.5, s.ks[r] + 1) + e
        if nend:
            m = nend if np.isscalar(nend) else nend[r % len(nend)]
            q = rng.normal(size=(n, m + int(rng.integers(0, 2))))
            ye = q @ rng.uniform(.7, 1.4, (q.shape[1], m)) * rng.choice([-1, 1], m) + .4 * e[:, None] + .5 * rng.normal(size=(n, m))
            y = y + ye @ rng.uniform(.4, .9, m)
            s.yend[r], s.q[r] = ye, q
        if rho is not None:
            y = np.linalg.solve(np.eye(n) - rho[r % len(rho)] * s.W, y)
        s.y[r], s.X[r] = y.reshape(-1, 1), X
    s.kw = {}
    if reg:
        s.g = gen.regimes(rng, n, R, ctx.pick("labels", ["str", "int", "float", "digit"]),
                          pattern=ctx.pick("pattern", ["random", "block", "cyclic"]), minsize=25)
        s.kw["regimes"] = s.g.arg
    ctx.sig = [n, ne, round(float(s.y[0].sum()), 6)]
    ctx.note(n=n, n_eq=ne)
    return s


def inter(s, A):
    return A if s.R == 1 else np.asarray(ref.interact(A, [True] * A.shape[1], s.g.codes, s.R), float)


def conditioned(Ms, c=2e4):
    for A in Ms.values():
        nrm = np.linalg.norm(A, axis=0)
        if np.any(nrm == 0) or np.linalg.cond(A / nrm) > c:
            raise Skip("ill-conditioned")


def glsdat(y, Z, P=None):
    """stacked arrays"""
    ne = len(y)
    return np.vstack([y[r] for r in range(ne)]), block_diag(*[Z[r] for r in range(ne)])


def gls(y, Z, sig, n):
    """stacked GLS with Sigma (x) I; Z is what normal equations use"""
    Y, B = glsdat(y, Z)
    Si = np.kron(inv(sig), np.eye(n))
    V = inv(B.T @ Si @ B)
    return V @ (B.T @ Si @ Y), V


def split(b, Z):
    out, i = {}, 0
    for r in range(len(Z)):
        out[r] = b[i:i + Z[r].shape[1]]
        i += Z[r].shape[1]
    return out


def resid(y, Z, b):
    return np.hstack([y[r] - Z[r] @ b[r] for r in range(len(y))])


def path(y, X, n, steps):
    """two-step SUR, then updates: [(b, V, sig, residuals)]"""
    b = {r: np.linalg.lstsq(X[r], y[r], rcond=None)[0] for r in range(len(y))}
    E = resid(y, X, b)
    out = []
    for _ in range(steps):
        sig = E.T @ E / n
        bb, V = gls(y, X, sig, n)
        b = split(bb, X)
        E = resid(y, X, b)
        out.append((b, V, sig, E))
    return out


# ------------------------------------------------------------------ judging
def coefs(ctx, key, got, V, b, want_V, rtol=1e-6):
    se = np.sqrt(np.diag(want_V))
    B = np.vstack([b[r] for r in range(len(b))]).ravel()
    G = np.vstack([np.asarray(got[r], float).reshape(-1, 1) for r in range(len(b))]).ravel()
    ctx.ok(key + ".shapes", all(np.asarray(got[r]).shape == b[r].shape for r in b), "")
    ctx.close(key + ".b", (G - B) / se, 0 * B, rtol=0, atol=rtol)
    ctx.close(key + ".varb", np.asarray(V) / np.outer(se, se), want_V / np.outer(se, se), rtol=0, atol=10 * rtol)


def inference(ctx, key, inf, b, V):
    i = 0
    for r in range(len(b)):
        k = len(b[r])
        se = np.sqrt(np.diag(V)[i:i + k])
        z = b[r].ravel() / se
        T = np.asarray(inf[r], float)
        ctx.close(key + ".se", T[:, 0], se, rtol=1e-6)
        ctx.close(key + ".z", T[:, 1], z, rtol=1e-5, atol=1e-5)
        ctx.pclose(key + ".p", T[:, 2], 2 * stats.norm.sf(abs(z)))
        i += k


def wald(b, V, Rm):
    d = Rm @ b
    w = float((d.T @ inv(Rm @ V @ Rm.T) @ d).item())
    return w, len(Rm), stats.chi2.sf(w, len(Rm))


def triple(ctx, key, got, want, tol=1e-5):
    ctx.close(key, float(got[0]), want[0], rtol=tol, atol=1e-6)
    ctx.ok(key + ".df", int(got[1]) == want[1], "%s, %s expected" % (got[1], want[1]))
    ctx.pclose(key + ".p", float(got[2]), want[2])


def surchow(ctx, got, b, V, names=None):
    """constancy of the i-th coefficient across equations"""
    K = [len(b[r]) for r in range(len(b))]
    if len(set(K)) > 1 or len(K) < 2:
        if len(K) > 1:
            ctx.ok("surchow.none", got is None, "test of unequal equations")
        return
    B = np.vstack([b[r] for r in range(len(b))])
    ctx.ok("surchow.rows", len(got) == K[0], "%s" % len(got))
    for i in range(K[0]):
        Rm = np.zeros((len(K) - 1, len(B)))
        for j in range(1, len(K)):
            Rm[j - 1, i], Rm[j - 1, j * K[0] + i] = 1, -1
        triple(ctx, "surchow", got[i], wald(B, V, Rm))


def chow(ctx, got, s, r, b, V, kx, kend=0, fixed=0):
    """chow_regimes of one equation: b ordered [x of regime 1, x of regime 2.., yend of regime 1.., fixed]"""
    R = s.R
    rows = []
    for kk, start in ((kx, 0), (kend, kx * R)):
        for i in range(kk):
            Rm = np.zeros((R - 1, len(b)))
            for j in range(1, R):
                Rm[j - 1, start + i], Rm[j - 1, start + j * kk + i] = 1, -1
            rows.append(Rm)
    joint, reg = got
    ctx.ok("chow.rows", len(reg) == len(rows), "%s" % (len(reg),))
    for t, Rm in zip(reg, rows):
        w = wald(b, V, Rm)
        ctx.close("chow", float(t[0]), w[0], rtol=1e-5, atol=1e-6)
        ctx.pclose("chow.p", float(t[1]), w[2])
    w = wald(b, V, np.vstack(rows))
    ctx.close("chow.joint", float(joint[0]), w[0], rtol=1e-5, atol=1e-6)
    ctx.pclose("chow.joint.p", float(joint[1]), w[2])


def chows(ctx, got, s, b, V, kend=None, fixed=0):
    i = 0
    for r in range(s.ne):
        k = len(b[r])
        e = kend[r] if kend else 0
        kx = (k - fixed) // s.R - e
        chow(ctx, got[r], s, r, b[r], V[i:i + k, i:i + k], kx, e, fixed)
        i += k


def sigma(ctx, reg, sig, E, key="sig", rtol=1e-6):
    sc = np.sqrt(np.outer(np.diag(sig), np.diag(sig)))
    ctx.close(key, np.asarray(reg.sig, float) / sc, sig / sc, rtol=0, atol=rtol)
    ctx.close("corr", reg.corr, sig / sc, rtol=0, atol=rtol)
    ctx.close("bigE", np.asarray(reg.bigE, float) / E.std(0), E / E.std(0), rtol=0, atol=1e-5)


def lm_error(W, E, sig):
    Si = inv(sig)
    sc = (Si * (E.T @ W @ E)).sum(0)
    I = np.trace(W @ W) * np.eye(len(sig)) + np.trace(W.T @ W) * (Si * sig)
    v = float(sc @ inv(I) @ sc)
    return v, len(sig), stats.chi2.sf(v, len(sig))


def lm_lag(W, y, X, b, E, sig, V):
    """score and information of the stacked system y_r = rho_r W y_r + X_r b_r + e_r at rho = 0"""
    ne, n = len(y), len(W)
    Si = inv(sig)
    Y = np.hstack([y[r] for r in range(ne)])
    sc = np.array([sum(Si[r, s] * float(E[:, s] @ W @ Y[:, r]) for s in range(ne)) for r in range(ne)])
    M = np.hstack([W @ X[r] @ b[r] for r in range(ne)])
    I = np.trace(W @ W) * np.eye(ne) + np.trace(W.T @ W) * (Si * sig) + Si * (M.T @ M)
    C = np.vstack([np.column_stack([Si[r, s] * (X[r].T @ M[:, s]) for s in range(ne)]) for r in range(ne)])
    v = float(sc @ inv(I - C.T @ V @ C) @ sc)
    return v, ne, stats.chi2.sf(v, ne)


# ------------------------------------------------------------------ cases
def case_sur(ctx):
    import spreg
    reg_ = ctx.pick("regimes", [False, False, True])
    s = system(ctx, neqs=(1, 2, 2, 3, 4), w=True, reg=reg_, transform=ctx.pick("transform", ["r", "r", "o", "b"]))
    X = {r: inter(s, s.X[r]) for r in s.X}
    conditioned(X)
    it = ctx.pick("iter", [False, True])
    kw = dict(s.kw)
    maxiter, eps = 5, 1e-5
    if it:
        maxiter = ctx.pick("maxiter", [5, 1, 2, 30])
        eps = ctx.pick("epsilon", [1e-5, 1e-2, 1e-10])
        kw.update(iter=True, maxiter=maxiter, epsilon=eps)
    sd = ctx.pick("spat_diag", [True, False])
    nd = ctx.pick("nonspat_diag", [True, True, False])
    if s.ne == 1:
        nd = False
    reg = ctx.run("SUR", spreg.SUR, s.y, s.X, w=s.w if sd else None, spat_diag=sd, nonspat_diag=nd, **kw)
    steps = path(s.y, X, s.n, maxiter + 4)
    if min(np.linalg.eigvalsh(st[2])[0] / np.linalg.eigvalsh(st[2])[-1] for st in steps) < 1e-8:
        raise Skip("singular covariance")
    det = [slogdet(st[2])[1] for st in steps]
    at = 0
    if it:
        # iteration 1 starts from the two-step solution; stops once the log determinant settles
        d0 = np.log(np.diag(steps[0][2])).sum()
        at, prev = 0, d0
        amb = False
        while at < maxiter:
            gap = abs(det[at] - prev)
            amb |= abs(gap - eps) < 1e-9 + 1e-3 * eps
            if gap <= eps:
                break
            prev = det[at]
            at += 1
        if amb:
            raise Skip("convergence on the edge")
        ctx.ok("niter", reg.niter <= maxiter, "%d iterations, at most %d asked" % (reg.niter, maxiter))
        ctx.ok("iterations", reg.niter == at, "%d iterations, %d to convergence" % (reg.niter, at))
        ctx.note(**{"iterations_%d" % at: 1})
    else:
        ctx.ok("niter", reg.niter == 1, "")
    b, V, sig, E = steps[at]
    sig_ols = steps[0][2]
    coefs(ctx, "coef", reg.bSUR, reg.varb, b, V)
    sigma(ctx, reg, sig, E)
    ctx.close("sig_ols", reg.sig_ols, sig_ols, rtol=1e-7, atol=1e-8 * np.max(sig_ols))
    for r in range(s.ne):
        o = ref.ols(s.y[r], X[r])
        ctx.close("bOLS", (np.asarray(reg.bOLS[r]) - o.b).ravel() / np.sqrt(np.diag(o.vm)), 0 * o.b.ravel(), rtol=0, atol=1e-6)
        ctx.close("olsE", reg.olsE[:, r], o.u.ravel(), rtol=1e-6, atol=1e-6 * o.u.std())
        ctx.close("bigYP", reg.bigYP[:, r], (X[r] @ b[r]).ravel(), rtol=1e-6, atol=1e-6 * s.y[r].std())
    ctx.close("predicted_plus_residual", np.asarray(reg.bigYP) + np.asarray(reg.bigE), np.hstack([s.y[r] for r in range(s.ne)]),
              rtol=1e-9, atol=1e-9)
    l1 = slogdet(sig)[1]
    ctx.close("llik", reg.llik, -s.n / 2 * (s.ne * (1 + np.log(2 * np.pi)) + l1), rtol=1e-7)
    l0 = np.log(np.diag(sig_ols)).sum()
    ctx.close("ldetS", [reg.ldetS0, reg.ldetS1], [l0, l1], rtol=0, atol=1e-6)
    inference(ctx, "sur_inf", reg.sur_inf, b, V)
    df = s.ne * (s.ne - 1) // 2
    if nd:
        lr = s.n * (l0 - l1)
        triple(ctx, "lrtest", reg.lrtest, (lr, df, stats.chi2.sf(lr, df)))
        c = sig_ols / np.sqrt(np.outer(np.diag(sig_ols), np.diag(sig_ols)))
        lm = s.n * float((np.tril(c, -1) ** 2).sum())
        triple(ctx, "lmtest", reg.lmtest, (lm, df, stats.chi2.sf(lm, df)))
    else:
        ctx.ok("no_diag", reg.lrtest is None and reg.lmtest is None, "")
    if sd:
        triple(ctx, "lmEtest", reg.lmEtest, lm_error(s.W, E, sig), 1e-4)
        triple(ctx, "lmlagtest", reg.lmlagtest, lm_lag(s.W, s.y, X, b, E, sig, V), 1e-4)
    else:
        ctx.ok("no_spat", reg.lmEtest is None and reg.lmlagtest is None, "")
    surchow(ctx, reg.surchow, b, V)
    if reg_:
        chows(ctx, reg.chow_regimes, s, b, V)


def case_3sls(ctx):
    import spreg
    reg_ = ctx.pick("regimes", [False, False, True])
    s = system(ctx, neqs=(1, 2, 2, 3), nend=ctx.pick("nend", [1, 2, (1, 2)]), reg=reg_, nmin=60)
    X = {r: inter(s, s.X[r]) for r in s.X}
    ye = {r: inter(s, s.yend[r]) for r in s.X}
    q = {r: inter(s, s.q[r]) for r in s.X}
    Z = {r: np.hstack([X[r], ye[r]]) for r in X}
    H = {r: np.hstack([X[r], q[r]]) for r in X}
    conditioned(Z)
    conditioned(H)
    reg = ctx.run("ThreeSLS", spreg.ThreeSLS, s.y, s.X, s.yend, s.q, nonspat_diag=ctx.pick("diag", [True, False]) and s.ne > 1, **s.kw)
    three(ctx, reg, s, X, ye, Z, H)
    if reg_:
        chows(ctx, reg.chow_regimes, s, *three.last, kend=[s.yend[r].shape[1] for r in range(s.ne)])


def three(ctx, reg, s, X, ye, Z, H, pre=""):
    n = s.n
    Zh = {}
    for r in X:
        Q, _ = np.linalg.qr(H[r])
        if np.linalg.cond(Q.T @ Z[r] / np.linalg.norm(Z[r], axis=0)) > 300:
            raise Skip("weak instruments")
        Zh[r] = np.hstack([X[r], Q @ (Q.T @ ye[r])])
    b2 = {r: inv(Zh[r].T @ Z[r]) @ (Zh[r].T @ s.y[r]) for r in X}
    E2 = resid(s.y, Z, b2)
    sig = E2.T @ E2 / n
    bb, V = gls(s.y, Zh, sig, n)
    b = split(bb, Z)
    three.last = (b, V)
    E = resid(s.y, Z, b)
    se = np.sqrt(np.diag(V))
    for r in X:
        ctx.close(pre + "b2SLS", np.asarray(reg.b2SLS[r]), b2[r], rtol=0, atol=1e-6 * max(1, np.max(abs(b2[r]))))
    ctx.close(pre + "tslsE", reg.tslsE, E2, rtol=0, atol=1e-6 * max(1, E2.std()))
    coefs(ctx, pre + "coef", reg.b3SLS, reg.varb, b, V)
    sigma(ctx, reg, sig, E, pre + "sig")
    inference(ctx, pre + "tsls_inf", reg.tsls_inf, b, V)
    surchow(ctx, reg.surchow, b, V)


def case_reduce(ctx):
    """identical regressors, or one equation: the system is its equations"""
    import spreg
    one = ctx.pick("single", [False, False, True])
    s = system(ctx, neqs=(1,) if one else (2, 3, 4), same=True, nmin=30)
    conditioned(s.X)
    kw = {"iter": True} if ctx.pick("iter", [False, True]) else {}
    reg = ctx.run("SUR", spreg.SUR, s.y, s.X, nonspat_diag=not one, **kw)
    i = 0
    for r in range(s.ne):
        with ctx.quiet():
            o = spreg.OLS(s.y[r], s.X[r][:, 1:])
        k = o.k
        se = np.sqrt(np.diag(o.vm))
        ctx.close("b", (np.asarray(reg.bSUR[r]) - o.betas).ravel() / se, np.zeros(k), rtol=0, atol=1e-6)
        ctx.close("residuals", reg.bigE[:, r], o.u.ravel(), rtol=1e-6, atol=1e-6 * o.u.std())
        f = (s.n - k) / s.n                     # the system divides sums of squares by n
        ctx.close("vm", np.asarray(reg.varb)[i:i + k, i:i + k] / np.outer(se, se), f * o.vm / np.outer(se, se), rtol=0, atol=1e-6)
        i += k
    if one:
        ctx.close("logll", reg.llik, o.logll, rtol=1e-8)


def case_scale(ctx):
    """every equation in other units"""
    import spreg
    reg_ = ctx.pick("regimes", [False, True])
    s = system(ctx, reg=reg_)
    X = {r: inter(s, s.X[r]) for r in s.X}
    conditioned(X)
    with ctx.quiet():
        a = spreg.SUR(s.y, s.X, **s.kw)
    order = [int(i) for i in ctx.rng.permutation(s.ne)]
    f = [float(ctx.rng.choice([.01, .5, -3, 100])) for _ in range(s.ne)]
    y = {i: f[o] * s.y[o] for i, o in enumerate(order)}
    b = ctx.run("SUR", spreg.SUR, y, {i: s.X[o] for i, o in enumerate(order)}, **s.kw)
    for i, o in enumerate(order):
        ctx.close("b", np.asarray(b.bSUR[i]) / f[o], a.bSUR[o], rtol=1e-6, atol=1e-7 * np.max(abs(a.bSUR[o])))
        ctx.pclose("p", b.sur_inf[i][:, 2], a.sur_inf[o][:, 2])
    ctx.close("lrtest", b.lrtest[0], a.lrtest[0], rtol=1e-6, atol=1e-7)
    ctx.close("lmtest", b.lmtest[0], a.lmtest[0], rtol=1e-6, atol=1e-7)
    ctx.close("llik", b.llik, a.llik - s.n * np.log(np.abs(f)).sum(), rtol=1e-8)


SUBS = {"sur": (case_sur, 90, 2500), "3sls": (case_3sls, 60, 1800), "reduce": (case_reduce, 30, 600), "relabelled": (case_scale, 30, 600)}
