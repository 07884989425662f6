"""Hostile workload generators: weights, designs, outcomes, regimes."""
import numpy as np
import libpysal


# ------------------------------------------------------------------ weights
class WS:
    """A weights object together with the dense matrix it must stand for."""

    def __init__(self, w, full, kind, transform, ids, coords):
        self.w, self.full, self.kind, self.transform, self.ids, self.coords = w, full, kind, transform, ids, coords
        self.n = full.shape[0]

    @property
    def symmetric(self):
        return np.allclose(self.full, self.full.T)


def lattice_dims(n):
    r = max(2, int(np.floor(np.sqrt(n))))
    return r, max(2, n // r)


def base_matrix(rng, n, kind):
    """-> (nonnegative matrix with zero diagonal, coords); n may be adjusted for lattices."""
    if kind in ("rook", "queen", "bipartite"):
        r, c = lattice_dims(n)
        n = r * c
        ii, jj = np.divmod(np.arange(n), c)
        d0 = np.abs(ii[:, None] - ii[None]).astype(int)
        d1 = np.abs(jj[:, None] - jj[None]).astype(int)
        if kind == "queen":
            A = ((np.maximum(d0, d1)) == 1).astype(float)
        else:
            A = ((d0 + d1) == 1).astype(float)
        return A, np.column_stack([ii, jj]).astype(float)
    xy = rng.uniform(0, 10, (n, 2))
    D = np.sqrt(((xy[:, None] - xy[None]) ** 2).sum(-1))
    np.fill_diagonal(D, np.inf)
    if kind == "knn":
        k = int(rng.integers(3, 6))
        A = np.zeros((n, n))
        o = np.argsort(D, axis=1)[:, :k]
        A[np.arange(n)[:, None], o] = 1.0
    elif kind == "dist":          # symmetric general weights
        k = int(rng.integers(3, 6))
        A = np.zeros((n, n))
        o = np.argsort(D, axis=1)[:, :k]
        A[np.arange(n)[:, None], o] = 1.0
        A = np.maximum(A, A.T) * np.where(np.isfinite(D), 1.0 / (0.5 + D), 0)
    elif kind == "directed":      # asymmetric random weights, random degree
        A = np.zeros((n, n))
        for i in range(n):
            m = int(rng.integers(1, 6))
            c = rng.choice(np.delete(np.arange(n), i), size=m, replace=False)
            A[i, c] = rng.uniform(0.2, 2.0, m)
    elif kind == "ring":
        A = np.zeros((n, n))
        for s in (1, 2):
            A[np.arange(n), (np.arange(n) + s) % n] = 1
            A[np.arange(n), (np.arange(n) - s) % n] = 1
    elif kind == "gabriel":       # symmetric binary connected-ish
        k = 4
        A = np.zeros((n, n))
        o = np.argsort(D, axis=1)[:, :k]
        A[np.arange(n)[:, None], o] = 1.0
        A = np.maximum(A, A.T)
    else:
        raise ValueError(kind)
    return A, xy


def make_w(A, ids=None, transform="r", coords=None, kind="given", explicit_order=True):
    n = A.shape[0]
    ids = list(range(n)) if ids is None else list(ids)
    neigh = {ids[i]: [ids[j] for j in np.nonzero(A[i])[0]] for i in range(n)}
    wts = {ids[i]: [float(A[i, j]) for j in np.nonzero(A[i])[0]] for i in range(n)}
    w = libpysal.weights.W(neigh, wts, id_order=ids, silence_warnings=True)
    full = A.astype(float).copy()
    if transform == "r":
        w.transform = "r"
        s = full.sum(1, keepdims=True)
        full = np.divide(full, s, out=np.zeros_like(full), where=s > 0)
    elif transform == "b":
        w.transform = "b"
        full = (full != 0).astype(float)
    elif transform in ("d", "v"):       # all weights scaled; variance-stabilising
        w.transform = transform
        full = w.sparse.toarray()
    return WS(w, full, kind, transform, ids, coords)


ALL_KINDS = ["rook", "queen", "knn", "dist", "directed", "ring", "gabriel"]
SYM_KINDS = ["rook", "queen", "dist", "ring", "gabriel"]


def make_ids(rng, n, style):
    if style == "int":
        return list(range(n))
    if style == "perm":
        return [int(v) for v in rng.permutation(n)]
    if style == "str":
        return ["u%03d" % v for v in rng.permutation(n)]
    if style == "offset":
        return [int(v) for v in 1000 + 7 * rng.permutation(n)]
    raise ValueError(style)


def weights(rng, n, kind="queen", transform="r", ids="int"):
    A, xy = base_matrix(rng, n, kind)
    return make_w(A, make_ids(rng, A.shape[0], ids), transform, xy, kind)


def kernel(rng, n, kind="triangular", k=6, coords=None, fixed=False):
    """Kernel weights with unit diagonal; returns (Kernel object, dense)."""
    xy = rng.uniform(0, 10, (n, 2)) if coords is None else coords + rng.uniform(-.01, .01, coords.shape)
    kw = libpysal.weights.Kernel(xy, k=k, function=kind, fixed=fixed, diagonal=True)
    return kw, kw.full()[0]


# ------------------------------------------------------------------ designs
def design(rng, n, k, style="mixed"):
    cols = []
    for j in range(k):
        t = style if style != "mixed" else ["normal", "uniform", "lognormal", "binary", "trend"][int(rng.integers(0, 5))]
        if t == "normal":
            c = rng.normal(0, 1, n)
        elif t == "uniform":
            c = rng.uniform(1, 5, n)
        elif t == "lognormal":
            c = np.exp(rng.normal(0, .6, n))
        elif t == "binary":
            c = (rng.uniform(size=n) < .4).astype(float)
            while c.min() == c.max():
                c = (rng.uniform(size=n) < .4).astype(float)
        elif t == "trend":
            c = np.arange(n) / n * 3 + rng.normal(0, .8, n)
        else:
            raise ValueError(t)
        cols.append(c)
    return np.column_stack(cols) if cols else np.zeros((n, 0))


def beta(rng, k):
    b = rng.uniform(.5, 2., k) * np.where(rng.uniform(size=k) < .5, -1, 1)
    return b


def errors(rng, n, het=False, scale=1.0):
    e = rng.normal(0, scale, n)
    if het:
        e = e * np.exp(rng.normal(0, .5, n))
    return e


def spectral_bounds(Wf):
    ev = np.linalg.eigvals(Wf)
    m = np.max(np.abs(ev))
    return m


def sar_solve(Wf, rho, v):
    m = spectral_bounds(Wf)
    r = rho / max(m, 1.0)
    return np.linalg.solve(np.eye(Wf.shape[0]) - r * Wf, v)


class D:
    """One cross-sectional data set."""
    pass


def dataset(rng, n=None, k=2, kind="queen", transform="r", ids="int", rho=0.0, lam=0.0, het=False, nend=0, niv=0,
            style="mixed", sig=1.0, gamma=None):
    d = D()
    n = int(rng.integers(36, 82)) if n is None else n
    ws = weights(rng, n, kind, transform, ids)
    n = ws.n
    W = ws.full
    d.ws, d.w, d.W, d.n, d.k = ws, ws.w, W, n, k
    x = design(rng, n, k, style)
    u = errors(rng, n, het, sig)
    b = beta(rng, k)
    d.q = None
    d.yend = None
    xb = 1.5 + x @ b
    eu = u
    if nend:
        q = design(rng, n, niv, "normal") + rng.normal(0, .3, (n, niv))
        P = rng.uniform(.6, 1.4, (niv, nend)) * np.where(rng.uniform(size=(niv, nend)) < .5, -1, 1)
        v = rng.normal(0, .7, (n, nend))
        d.yend = q @ P + x @ rng.normal(0, .3, (k, nend)) + v
        d.q = q
        eu = eu + .5 * v.sum(1)
        xb = xb + d.yend @ beta(rng, nend)
    if lam:
        eu = sar_solve(W, lam, eu)
    if gamma:
        xb = xb + (W @ x) @ (gamma * np.ones(k))
    y = xb + eu
    if rho:
        y = sar_solve(W, rho, y)
    d.x, d.y, d.b = x, y.reshape(-1, 1), b
    d.X = np.hstack([np.ones((n, 1)), x])
    if np.linalg.cond(d.X / np.linalg.norm(d.X, axis=0)) > 1e5:
        from .core import Skip
        raise Skip("ill-conditioned design")
    return d


LABELS = {"str": ["north", "South", "a", "zz", "b1", "Q"], "int": [3, 1, 2, 10, 7, -4],
          "float": [2.0, 1.0, -1.0, 10.0, 0.0, 5.0], "digit": ["10", "9", "2", "1", "33", "4"],
          "frac": [1.5, 2.25, -0.5, 7.125, 3.75, 0.25]}


class Reg:
    """Regime labels: .labels (list, caller's order), .codes (rank of the label among the sorted labels),
    .names (the prefix each regime gets), .R"""

    def ids(self, r):
        return np.flatnonzero(self.codes == r)


def regimes(rng, n, R, style="str", minsize=12, pattern="random", form="list"):
    lab = [LABELS[style][i] for i in rng.permutation(len(LABELS[style]))[:R]]
    for t in range(200):
        if pattern == "random":
            z = rng.choice(R, size=n, p=rng.dirichlet(np.ones(R) * 5))
        elif pattern == "block":
            cuts = np.sort(rng.choice(np.arange(1, n), R - 1, replace=False))
            z = np.searchsorted(cuts, np.arange(n), side="right")
            z = rng.permutation(R)[z]
        else:                                   # cyclic
            z = (np.arange(n) + int(rng.integers(R))) % R
        if np.bincount(z, minlength=R).min() >= min(minsize, n // (R + 1)):
            break
    g = Reg()
    order = sorted(range(R), key=lambda i: lab[i])
    rank = np.empty(R, int)
    rank[order] = np.arange(R)
    g.codes = rank[z]
    g.labels = [lab[i] for i in z]
    srt = [lab[i] for i in order]
    if style == "float":
        srt = [int(v) for v in srt]             # integral floats are shown as integers
    g.keys = srt
    g.names = [str(v) for v in srt]
    g.R = R
    g.arg = g.labels
    if form == "array":
        g.arg = np.array(g.labels)
    elif form == "series":
        import pandas as pd
        g.arg = pd.Series(g.labels, name="region")
    return g
