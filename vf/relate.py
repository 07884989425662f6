"""Relations between two fits: reordering observations, comparing everything two results report."""
import re
import numpy as np
import pandas as pd
from . import gen, models

ROWS = {"y", "x", "yend", "q", "coords"}
PVAL = re.compile(r"(stat|lm_\w+|moran\w*|rlm\w*|chow|join\w*)(\(\d+\))*\(\d\)$|prob|pvalue|p_value|(^|\.)(lam|lam_rhos|rho|lamols|lamsur)(\(\d+\))*$")
VOLATILE = {"message", "status", "success", "iteration", "n_iter", "niter", "nfev", "nit", "time"}


def rows(v, p):
    if isinstance(v, (pd.Series, pd.DataFrame)):
        return v.iloc[p]
    if isinstance(v, list):
        return [v[i] for i in p]
    return v[p]


def permuted(m, p, ids=None):
    """keyword arguments of the same fit with observations listed in the order p (p[i] = old position of new row i)"""
    kw, d = dict(m.kw), m.d
    n = d.n
    for k, role in m.roles.items():
        v = kw[k]
        if role in ROWS or role == "regimes":
            kw[k] = rows(v, p)
        elif role in ("bigy", "bigX", "bigyend", "bigq"):
            kw[k] = {r: a[p] for r, a in v.items()}
        elif role in ("wy", "wx"):
            kw[k] = v[p]
        elif role in ("py", "px"):
            kw[k] = v[np.concatenate([t * n + p for t in range(d.T)])]
        elif role == "w":
            tr = {"R": "r", "O": "o", "B": "b"}.get(v.transform, "o")
            kw[k] = gen.make_w(dense(v)[np.ix_(p, p)], [v.id_order[i] for i in p] if ids is None else ids, "o").w
            if tr != "o":
                kw[k].transform = tr
        elif role == "gwk":
            kw[k] = kernel_permuted(v, p)
    return kw


def dense(w):
    return np.asarray(w.full()[0], float)


def kernel_permuted(gwk, p):
    import libpysal
    K = np.asarray(gwk.full()[0], float)
    Kp = K[np.ix_(p, p)]
    n = K.shape[0]
    nb = {i: [int(j) for j in np.nonzero(Kp[i])[0]] for i in range(n)}
    new = libpysal.weights.W(nb, {i: [float(Kp[i, j]) for j in nb[i]] for i in range(n)}, id_order=list(range(n)), silence_warnings=True)
    new.__class__ = type(gwk)          # the front ends only accept objects of the kernel class
    for a in ("function", "kernel", "fixed", "diagonal"):
        if hasattr(gwk, a) and not hasattr(type(gwk), a):
            setattr(new, a, getattr(gwk, a))
    return new


def row_map(m, p):
    """(key, array) -> the array with its rows listed in the new order"""
    n = m.d.n
    T = getattr(m.d, "T", None)
    inner = {}
    if m.g is not None:
        for c, key in enumerate(m.g.keys):
            pos = np.nonzero(m.g.codes == c)[0]
            rank = np.empty(n, int)
            rank[pos] = np.arange(len(pos))
            inner[str(key)] = rank[[i for i in p if m.g.codes[i] == c]]
    big = None if T is None else np.concatenate([t * n + p for t in range(T)])

    def f(key, a):
        if a.ndim == 0:
            return a
        N = a.shape[0]
        if key.startswith("multi{"):
            q = inner[key[6:key.index("}")]]
            if N == len(q):
                return a[q]
        if N == n:
            return a[p]
        if big is not None and N == n * T:
            return a[big]
        return a
    return f


def volatile(key):
    return key.split(".")[-1] in VOLATILE


def compare(ctx, key, a, b, tol, fa=None, skip=(), atol=None):
    """all values of b against f(a); the worst relative difference is recorded"""
    bad, worst = [], 0.
    for k in sorted(set(a) | set(b)):
        if volatile(k) or any(s in k for s in skip):
            continue
        if k not in a or k not in b:
            bad.append(k + " (only in one)")
        elif isinstance(a[k], str) or isinstance(b[k], str):
            if a[k] != b[k]:
                bad.append("%s: %r against %r" % (k, str(a[k])[:60], str(b[k])[:60]))
        else:
            u, v = np.asarray(a[k], float), np.asarray(b[k], float)
            if fa is not None:
                u = np.asarray(fa(k, u), float)
            if u.shape != v.shape:
                bad.append("%s: shapes %s %s" % (k, u.shape, v.shape))
                continue
            if not (np.isnan(u) == np.isnan(v)).all() \
                    or not (np.isinf(u) == np.isinf(v)).all() or not (u[np.isinf(u)] == v[np.isinf(u)]).all():
                bad.append("%s: not finite in the same places" % k)
                continue
            f = np.isfinite(u)
            if not f.any():
                continue
            u, v = u[f], v[f]
            s = np.nanmax(np.abs(u))
            e = np.nanmax(np.abs(u - v))
            t = tol(k) if callable(tol) else tol
            if PVAL.search(k):
                s = max(s, 1.)
            if not e <= t * (s + (1e-12 if atol is None else atol)) + 1e-13:
                bad.append("%s: off by %.2g of %.3g" % (k, e, s))
            if s:
                worst = max(worst, e / (s * t))
    ctx.note(**{"worst_" + key: worst})
    ctx.ok(key, not bad, "; ".join(bad[:6]))
    return worst
