"""Independent reference implementations (plain numpy, textbook formulas).

Nothing here imports spreg: these are the oracles the monitors compare against."""
import numpy as np
from numpy.linalg import inv, solve, lstsq
from scipy import stats, optimize


def col(a):
    return np.asarray(a, float).reshape(-1, 1)


class R:
    pass


# ------------------------------------------------------------------ least squares
def ols(y, X, dof=True, robust=None, K=None):
    y = col(y)
    n, k = X.shape
    Q, T = np.linalg.qr(X)
    b = solve(T, Q.T @ y)
    u = y - X @ b
    Ti = inv(T)
    xtxi = Ti @ Ti.T
    r = R()
    r.b, r.u, r.predy, r.xtxi, r.n, r.k = b, u, X @ b, xtxi, n, k
    r.utu = float((u ** 2).sum())
    r.sig2n, r.sig2n_k = r.utu / n, r.utu / (n - k)
    r.sig2 = r.sig2n_k if dof else r.sig2n
    if robust is None:
        r.vm = r.sig2 * xtxi
    elif robust == "white":
        M = (X * u ** 2).T @ X
        if dof:
            M = M * n / (n - k)
        r.vm = xtxi @ M @ xtxi
    else:
        xu = X * u
        r.vm = xtxi @ (xu.T @ K @ xu) @ xtxi
    tss = float(((y - y.mean()) ** 2).sum())
    r.tss = tss
    r.r2 = 1 - r.utu / tss
    r.ar2 = 1 - (r.utu / (n - k)) / (tss / (n - 1))
    r.logll = -0.5 * n * (np.log(2 * np.pi) + np.log(r.sig2n) + 1)
    r.aic = 2 * k - 2 * r.logll
    r.schwarz = k * np.log(n) - 2 * r.logll
    r.f = ((tss - r.utu) / (k - 1)) / (r.utu / (n - k)) if k > 1 else None
    r.f_p = stats.f.sf(r.f, k - 1, n - k) if k > 1 else None
    return r


def lags(W, X, p):
    out, c = [], X
    for _ in range(p):
        c = W @ c
        out.append(c)
    return np.hstack(out) if out else np.zeros((X.shape[0], 0))


def lag_range(W, X, lo, hi):
    """[W^lo X, ..., W^hi X]"""
    c = X
    out = []
    for j in range(1, hi + 1):
        c = W @ c
        if j >= lo:
            out.append(c)
    return np.hstack(out) if out else np.zeros((X.shape[0], 0))


# ------------------------------------------------------------------ 2SLS
def tsls(y, Z, H, dof=False, robust=None, K=None):
    y = col(y)
    n, k = Z.shape
    Q, _ = np.linalg.qr(H)
    QZ, Qy = Q.T @ Z, Q.T @ y
    q2, t2 = np.linalg.qr(QZ)
    b = solve(t2, q2.T @ Qy)
    ti = inv(t2)
    varb = ti @ ti.T
    u = y - Z @ b
    r = R()
    r.b, r.u, r.predy, r.varb, r.n, r.k = b, u, Z @ b, varb, n, k
    r.utu = float((u ** 2).sum())
    r.sig2n, r.sig2n_k = r.utu / n, r.utu / (n - k)
    r.sig2 = r.sig2n_k if dof else r.sig2n
    if robust is None:
        r.vm = r.sig2 * varb
    elif robust in ("white", "hac"):
        Zh = Q @ QZ
        zu = Zh * u
        M = zu.T @ zu if robust == "white" else zu.T @ K @ zu
        if robust == "white" and dof:
            M = M * n / (n - k)
        r.vm = varb @ M @ varb
    elif robust == "ogmm":
        S = (H * u ** 2).T @ H / (n - k if dof else n)
        Si = inv(S)
        zh = Z.T @ H
        A = inv(zh @ Si @ zh.T)
        b = A @ zh @ Si @ (H.T @ y)
        r.b, r.u, r.predy = b, y - Z @ b, Z @ b
        r.utu = float((r.u ** 2).sum())
        r.vm = (n - k if dof else n) * A
    return r


def hetero_wald_chow(b, V, idx_pairs):
    """Wald of b[i]==b[j] for list of (i, j)"""
    k = len(b)
    Rm = np.zeros((len(idx_pairs), k))
    for r, (i, j) in enumerate(idx_pairs):
        Rm[r, i], Rm[r, j] = 1, -1
    d = Rm @ col(b)
    w = float((d.T @ solve(Rm @ V @ Rm.T, d)).item())
    return w, stats.chi2.sf(w, len(idx_pairs))


def wald(b, V, Rm, q=None):
    d = Rm @ col(b) - (0 if q is None else col(q))
    w = float((d.T @ solve(Rm @ V @ Rm.T, d)).item())
    return w, stats.chi2.sf(w, Rm.shape[0])


# ------------------------------------------------------------------ spatial instruments
def gmlag_parts(y, x, W, yend=None, q=None, w_lags=1, lag_q=True, slx_lags=0, slx_vars=None):
    """(X with constant and Durbin terms, endogenous incl. Wy, instruments).

    Durbin terms: every requested lag of the selected variables.  Instruments:
    without other endogenous variables, the w_lags lags of x beyond the Durbin ones;
    with them, the same lags of x and, if lag_q, the lags 1..w_lags of q, next to
    q itself."""
    n = len(x)
    y = col(y)
    X = np.hstack([np.ones((n, 1)), x])
    wy = W @ y
    if slx_lags:
        L = lags(W, x, slx_lags)
        if slx_vars is not None:
            # selected variables of every lag
            sel = np.flatnonzero(slx_vars)
            k = x.shape[1]
            L = np.hstack([L[:, j * k + sel] for j in range(slx_lags)])
        X = np.hstack([X, L])
    if yend is None:
        Q = lag_range(W, x, slx_lags + 1, slx_lags + w_lags)
        return X, wy, Q
    base = x if slx_lags == 0 else lag_range(W, x, slx_lags, slx_lags)
    if lag_q:
        base = np.hstack([base, q])
    Q = np.hstack([q, lags(W, base, w_lags)])
    return X, np.hstack([yend, wy]), Q


# ------------------------------------------------------------------ likelihoods
def lnjac(W, r):
    s, ld = np.linalg.slogdet(np.eye(W.shape[0]) - r * W)
    return ld if s > 0 else -np.inf


def _lnj_fun(W):
    ev = np.linalg.eigvals(W)

    def f(r):
        return float(np.log(np.abs(1 - r * ev)).sum())
    return f


def lag_conc(y, X, W):
    """concentrated log-likelihood (full constants) of the lag model as a function of rho"""
    y = col(y)
    n = len(y)
    Q, _ = np.linalg.qr(X)
    M = lambda v: v - Q @ (Q.T @ v)
    e0, e1 = M(y), M(W @ y)
    lj = _lnj_fun(W)

    def f(r):
        e = e0 - r * e1
        return -n / 2 * (np.log(2 * np.pi) + 1 + np.log(float((e ** 2).sum()) / n)) + lj(r)
    return f


def err_conc(y, X, W, Wx=None):
    y = col(y)
    n = len(y)
    wy = W @ y
    WX = W @ X if Wx is None else Wx
    lj = _lnj_fun(W)

    def f(l):
        ys, xs = y - l * wy, X - l * WX
        b, *_ = lstsq(xs, ys, rcond=None)
        e = ys - xs @ b
        return -n / 2 * (np.log(2 * np.pi) + 1 + np.log(float((e ** 2).sum()) / n)) + lj(l)
    return f


def maximise(f, lo=-0.999999, hi=0.999999, grid=60):
    """global 1-d maximum: grid then bounded refinement around the best local maxima"""
    g = np.linspace(lo, hi, grid)
    v = np.array([f(t) for t in g])
    v = np.where(np.isfinite(v), v, -np.inf)
    best = (-np.inf, None)
    order = np.argsort(-v)[:3]
    for i in order:
        a, b = g[max(i - 1, 0)], g[min(i + 1, grid - 1)]
        r = optimize.minimize_scalar(lambda t: -f(t), bounds=(a, b), method="bounded", options={"xatol": 1e-10})
        if -r.fun > best[0]:
            best = (-r.fun, float(r.x))
        if v[i] > best[0]:
            best = (v[i], float(g[i]))
    # number of strict local maxima on the grid
    nloc = int(sum(v[i] > v[i - 1] and v[i] > v[i + 1] for i in range(1, grid - 1)))
    return best[1], best[0], nloc


def sym_similar(W):
    """D^1/2 B D^-1/2-type matrix of row-standardised contiguity weights"""
    d = (W != 0).sum(1)
    return np.sqrt(d)[:, None] * W / np.sqrt(d)[None]


def ml_lag_vm(X, W, b, rho, sig2, Wtr=None):
    n, k = X.shape
    A = np.eye(n) - rho * W
    wp = W @ inv(A) @ (X @ b)
    Wtr = W if Wtr is None else Wtr
    WA = Wtr @ inv(np.eye(n) - rho * Wtr)
    t1, t2, t3 = np.trace(WA), np.trace(WA @ WA), np.trace(WA.T @ WA)
    V = np.zeros((k + 2, k + 2))
    V[:k, :k] = X.T @ X / sig2
    V[:k, k] = (X.T @ wp / sig2).ravel()
    V[k, :k] = V[:k, k]
    V[k, k] = t2 + t3 + float((wp ** 2).sum()) / sig2
    V[k, k + 1] = V[k + 1, k] = t1 / sig2
    V[k + 1, k + 1] = n / (2 * sig2 ** 2)
    return inv(V)


def ml_err_vm(Xs, W, lam, sig2):
    n, k = Xs.shape
    WA = W @ inv(np.eye(n) - lam * W)
    t1, t2, t3 = np.trace(WA), np.trace(WA @ WA), np.trace(WA.T @ WA)
    v = inv(np.array([[t2 + t3, t1 / sig2], [t1 / sig2, n / (2 * sig2 ** 2)]]))
    V = np.zeros((k + 1, k + 1))
    V[:k, :k] = sig2 * inv(Xs.T @ Xs)
    V[k, k] = v[0, 0]
    return V


# ------------------------------------------------------------------ GM error, KP98
def kp_moments(W, u):
    u = col(u)
    n = len(u)
    a, b, c = u, W @ u, W @ (W @ u)
    d = lambda p, q: float((p * q).sum())
    T = float((W * W).sum())
    g = np.array([d(a, a), d(b, b), d(a, b)]) / n
    G = np.array([[2 * d(a, b), -d(b, b), n], [2 * d(b, c), -d(c, c), T], [d(a, c) + d(b, b), -d(b, c), 0.0]]) / n
    return G, g


def kp_crit(G, g):
    """profile criterion in lambda with sigma2 >= 0 concentrated out exactly"""
    s = G[:, 2]
    ss = float(s @ s)

    def f(l):
        r = g - G[:, 0] * l - G[:, 1] * l * l
        s2 = max(0.0, float(s @ r) / ss)
        r = r - s * s2
        return float(r @ r)
    return f


def minimise(f, lo=-0.99, hi=0.99, grid=100):
    x, v, nloc = maximise(lambda t: -f(t), lo, hi, grid)
    h = (hi - lo) * 2e-3
    nloc += int(f(lo) < f(lo + h)) + int(f(hi) < f(hi - h))      # minima at the bounds count too
    return x, -v, nloc


# ------------------------------------------------------------------ het / hom
def a1_het(W):
    A = W.T @ W
    return A - np.diag(np.diag(A))


def a1_hom(W, scalarKP=False):
    n = len(W)
    A = W.T @ W
    t = np.trace(A) / n
    A = A - t * np.eye(n)
    return A / (1 + t * t) if scalarKP else A


def mom2(A1, A2, W, u):
    """G (2x2), g (2) for moments u_s'A u_s, u_s = u - l W u, order (lambda, lambda^2)."""
    u = col(u)
    n = len(u)
    wu = W @ u
    g = np.array([(u.T @ A @ u).item() for A in (A1, A2)]) / n
    G = np.array([[(u.T @ (A + A.T) @ wu).item(), -(wu.T @ A @ wu).item()] for A in (A1, A2)]) / n
    return G, g


def mom2_crit(G, g, Psi_inv=None):
    P = np.eye(2) if Psi_inv is None else Psi_inv

    def f(l):
        r = g - G[:, 0] * l - G[:, 1] * l * l
        return float(r @ P @ r)
    return f


# ------------------------------------------------------------------ spatial tests
def moran(W, u, X):
    u = col(u)
    n, k = X.shape
    s0 = W.sum()
    Q, _ = np.linalg.qr(X)
    I = n / s0 * float((u.T @ W @ u).item()) / float((u ** 2).sum())
    M = np.eye(n) - Q @ Q.T
    MW = M @ W
    EI = n / s0 * np.trace(MW) / (n - k)
    EI2 = (n / s0) ** 2 * (np.trace(MW @ M @ W.T) + np.trace(MW @ MW) + np.trace(MW) ** 2) / ((n - k) * (n - k + 2))
    V = EI2 - EI ** 2
    z = (I - EI) / np.sqrt(V)
    return I, z, 2 * stats.norm.sf(abs(z))


def lm_all(y, X, W):
    """LM statistics from OLS of y on X (ML variance)."""
    y = col(y)
    n, k = X.shape
    o = ols(y, X)
    u, s2 = o.u, o.sig2n
    T = float(np.trace((W + W.T) @ W))
    Q, _ = np.linalg.qr(X)
    wxb = W @ (X @ o.b)
    mwxb = wxb - Q @ (Q.T @ wxb)
    J = float((mwxb ** 2).sum()) / s2 + T          # n * J-tilde
    de = float((u.T @ W @ u).item()) / s2
    dl = float((u.T @ W @ y).item()) / s2
    r = {}
    r["lm_error"] = de ** 2 / T
    r["lm_lag"] = dl ** 2 / J
    r["rlm_error"] = (de - T / J * dl) ** 2 / (T * (1 - T / J))
    r["rlm_lag"] = (dl - de) ** 2 / (J - T)
    r["lm_sarma"] = (dl - de) ** 2 / (J - T) + de ** 2 / T
    # WX and Durbin
    x = X[:, 1:]
    wx = W @ x
    d = np.vstack([np.array([[dl * s2]]), wx.T @ u])        # scores (rho, gamma) * s2
    # information of (rho, gamma | b): s2 * [[J, ...]]
    D = np.hstack([W @ X @ o.b, wx])
    MD = D - Q @ (Q.T @ D)
    Inf = MD.T @ MD
    Inf[0, 0] += T * s2
    r["lm_spdurbin"] = float((d.T @ solve(Inf * s2, d)).item())
    mwx = wx - Q @ (Q.T @ wx)
    r["lm_wx"] = float((d[1:].T @ solve(mwx.T @ mwx * s2, d[1:])).item())
    r["rlm_wx"] = r["lm_spdurbin"] - r["lm_lag"]
    r["rlm_durlag"] = r["lm_spdurbin"] - r["lm_wx"]
    r["kwx"] = wx.shape[1]
    return r


# ------------------------------------------------------------------ regimes
def interact(X, flags, codes, R):
    """[regime-varying columns x regime dummies, regime by regime | global columns]"""
    flags = np.asarray(flags, bool)
    codes = np.asarray(codes)
    blocks = [X[:, flags] * (codes == r).reshape(-1, 1) for r in range(R)]
    return np.hstack(blocks + [X[:, ~flags]])


def block_diag(ms):
    n = sum(m.shape[0] for m in ms)
    V = np.zeros((n, n))
    i = 0
    for m in ms:
        V[i:i + len(m), i:i + len(m)] = m
        i += len(m)
    return V
