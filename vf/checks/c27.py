"""C27 regression clustering: every step of a recorded cut history is a valid, scored and best admissible cut."""
import warnings
import numpy as np
from scipy.sparse.csgraph import connected_components
from .. import gen
from ..core import Skip, StopCase

RULE = ("Skater_reg run on lattices, planar and nearest-neighbour graphs, paths and disconnected maps with random data, regression "
        "families, quorums and cluster counts; every step of the recorded history is replayed: connectivity and size of clusters, the "
        "cut edge, the score against separate regressions recomputed outside the library, and the score of every alternative cut.")
ASSUMPTIONS = ["the reduction over clusters is the default sum",
               "every admissible piece has enough observations to be estimated (quorum above the number of coefficients)"]
CASE_LIMIT = 200


def edges_of(F):
    i, j = F.nonzero()
    return {(min(a, b), max(a, b)) for a, b in zip(i.tolist(), j.tolist())}


def components(n, edges):
    lab = list(range(n))

    def root(a):
        while lab[a] != a:
            lab[a] = lab[lab[a]]
            a = lab[a]
        return a
    for a, b in edges:
        ra, rb = root(a), root(b)
        if ra != rb:
            lab[max(ra, rb)] = min(ra, rb)
    return np.array([root(a) for a in range(n)])


def kruskal(D, A):
    n = len(A)
    e = sorted((D[i, j], i, j) for i in range(n) for j in range(i + 1, n) if A[i, j])
    lab = list(range(n))

    def root(a):
        while lab[a] != a:
            lab[a] = lab[lab[a]]
            a = lab[a]
        return a
    tot, used = 0., 0
    for d, i, j in e:
        a, b = root(i), root(j)
        if a != b:
            lab[a] = b
            tot += d
            used += 1
    return tot, used


def world(ctx, pieces=1, n=None):
    """symmetric weights with `pieces` connected components, ids in random order"""
    rng = ctx.rng
    blocks = []
    xy = []
    for p in range(pieces):
        m = int(rng.integers(24, 46)) if n is None else n[p]
        kind = ctx.pick("graph%d" % p, ["grid", "planar", "knn", "path", "tree"])
        pts = rng.uniform(0, 10, (m, 2))
        A = np.zeros((m, m), bool)
        if kind == "grid":
            c = int(np.ceil(np.sqrt(m)))
            for i in range(m):
                if (i + 1) % c and i + 1 < m:
                    A[i, i + 1] = True
                if i + c < m:
                    A[i, i + c] = True
        elif kind == "planar":
            D = np.linalg.norm(pts[:, None] - pts[None], axis=2)
            for i in range(m):
                for j in range(i + 1, m):
                    if not np.any((D[i] ** 2 + D[j] ** 2 < D[i, j] ** 2 - 1e-12)):
                        A[i, j] = True
        elif kind == "knn":
            D = np.linalg.norm(pts[:, None] - pts[None], axis=2)
            for i in range(m):
                for j in np.argsort(D[i])[1:5]:
                    A[i, j] = True
        elif kind == "path":
            for i in range(m - 1):
                A[i, i + 1] = True
        else:
            for i in range(1, m):
                A[i, int(rng.integers(max(0, i - 4), i))] = True
        A = A | A.T
        nc, lab = connected_components(A)
        for c in range(1, nc):
            a = np.where(lab == 0)[0]
            b = np.where(lab == c)[0]
            i, j = int(rng.choice(a)), int(rng.choice(b))
            A[i, j] = A[j, i] = True
            lab[b] = 0
        blocks.append(A)
        xy.append(pts + [20. * p, 0])
    m = sum(len(b) for b in blocks)
    A = np.zeros((m, m), bool)
    o = 0
    for b in blocks:
        A[o:o + len(b), o:o + len(b)] = b
        o += len(b)
    if ctx.pick("shuffled", [True, False]):
        p = rng.permutation(m)
        A = A[np.ix_(p, p)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ws = gen.make_w(A.astype(float), ids=gen.make_ids(rng, m, ctx.pick("ids", ["int", "str", "perm"])),
                        transform=ctx.pick("transform", ["o", "r", "b"]))
    return ws, A


def observations(ctx, ws, A, k, regional=False):
    """data with regionally varying coefficients"""
    rng = ctx.rng
    n = len(A)
    x = rng.normal(size=(n, k)) * rng.choice([.3, 1, 20], size=k)
    start = int(rng.integers(n))
    d = np.full(n, 99)
    d[start] = 0
    front = [start]
    while front:
        nx = []
        for i in front:
            for j in np.where(A[i])[0]:
                if d[j] == 99:
                    d[j] = d[i] + 1
                    nx.append(j)
        front = nx
    reg = (d > np.median(d)).astype(float).reshape(-1, 1)
    if regional and k > 1 and reg.sum() > 3 and ctx.pick("regional", [False, False, True]):
        # nothing to explain with this variable in a part of the map: the clusters there go without it
        x[:, [int(rng.integers(k - 1))]] *= reg
    b0, b1 = rng.normal(0, 2, (k + 1, 1)), rng.normal(0, 2, (k + 1, 1))
    X = np.hstack([np.ones((n, 1)), x])
    y = X @ b0 + ctx.pick("contrast", [0., .5, 2.]) * reg * (X @ b1) + rng.normal(size=(n, 1)) * ctx.pick("noise", [.1, 1., 5.])
    kind = ctx.pick("attributes", ["x", "coarse", "other", "ones"])
    if kind == "x":
        data = (x - x.mean(0)) / x.std(0)
    elif kind == "coarse":
        data = np.round(rng.normal(size=(n, 2)))
    elif kind == "other":
        data = rng.normal(size=(n, int(rng.integers(1, 4))))
    else:
        data = None
    return x, y, data


def ssr(y, X):
    b = np.linalg.lstsq(X, y, rcond=None)[0]
    return float(np.sum((y - X @ b) ** 2))


class Score:
    """score of a cluster, computed once per cluster"""

    def __init__(self, f):
        self.f, self.memo = f, {}

    def __call__(self, members):
        key = tuple(members.tolist())
        if key not in self.memo:
            self.memo[key] = self.f(members)
        return self.memo[key]


def ols_score(x, y):
    X = np.hstack([np.ones((len(y), 1)), x])
    return Score(lambda m: ssr(y[m], X[m]))


def data_score(data):
    return Score(lambda m: float(np.sum(np.linalg.norm(data[m] - data[m].mean(0), axis=1))))


def split(labels):
    return [np.where(labels == l)[0] for l in np.unique(labels)]


def same_partition(a, b):
    return len(set(zip(a.tolist(), b.tolist()))) == len(set(a.tolist())) == len(set(b.tolist()))


def forest(ctx, A, data, first, metric=None):
    """the spanning forest: edges are links of the map, it spans every component, its length is minimal"""
    n = len(A)
    if data is None:
        D = np.ones((n, n))
    elif metric is None:
        D = np.linalg.norm(data[:, None] - data[None], axis=2)
    else:
        D = metric(data)
    ctx.ok("tree.links", all(A[i, j] for i, j in first), "the tree uses a link the weights do not have")
    nc = connected_components(A)[0]
    tot, used = kruskal(D, A)
    if not ctx.ok("tree.spans", len(first) == used == n - nc, "%d edges in a forest over %d units and %d components" % (len(first), n, nc)):
        return False
    ctx.close("tree.length", sum(D[i, j] for i, j in first), tot, rtol=1e-6, atol=1e-6)
    return True


def replay(ctx, trace, first, A, q, score, k, tol=1e-7):
    """walks through the recorded history; returns the last partition and whether a cut was still possible after it"""
    n = len(A)
    edges = set(first)
    cur = components(n, edges)
    prev = None
    taken = 0
    for s, (labels, cut) in enumerate(trace):
        if labels is None or len(labels) != n:
            ctx.fail("trace.labels", "step %d of the history has no labels" % s)
            return cur, None
        labels = np.asarray(labels)
        e = (min(int(cut.in_node), int(cut.out_node)), max(int(cut.in_node), int(cut.out_node)))
        if not ctx.ok("trace.edge", e in edges, "step %d cuts %s, not an edge of the forest" % (s, e)):
            return cur, None
        after = edges - {e}
        new = components(n, after)
        ctx.ok("trace.labels", same_partition(labels, new), "labels of step %d are not the components left by its cut" % s)
        ctx.ok("trace.labelset", set(labels.tolist()) == set(range(len(set(new.tolist())))), "labels are not 0..clusters-1")
        pieces = split(new)
        ctx.ok("trace.one_split", len(pieces) == len(split(cur)) + 1, "step %d does not split one cluster in two" % s)
        changed = [p for p in pieces if not any(np.array_equal(p, o) for o in split(cur))]
        ctx.ok("trace.two_pieces", len(changed) == 2, "step %d changed %d clusters" % (s, len(changed)))
        ctx.ok("trace.quorum", all(len(p) >= q for p in changed), "step %d leaves a cluster below the quorum" % s)
        for p in pieces:
            ctx.ok("trace.connected", connected_components(A[np.ix_(p, p)])[0] == 1, "a cluster of step %d is not connected" % s)
        total = sum(score(p) for p in pieces)
        before = sum(score(p) for p in split(cur))
        big = max(before, 1e-300)
        ctx.close("trace.score", float(cut.score), total, rtol=tol, atol=tol * big)
        if prev is not None:
            ctx.ok("trace.decreasing", cut.score <= prev * (1 + 1e-9), "score rose from %g to %g" % (prev, cut.score))
        prev = float(cut.score)
        best = np.inf
        for c in candidates(n, edges, cur, q):
            old, a, b = c
            best = min(best, before - score(old) + score(a) + score(b))
        ctx.ok("trace.best", total <= best + max(tol, 1e-7) * big, "step %d reached %.10g where a cut reaches %.10g" % (s, total, best))
        edges, cur = after, new
        taken += 1
    more = next(candidates(n, edges, cur, q), None) is not None
    return cur, more


def candidates(n, edges, cur, q):
    for e in sorted(edges):
        lab = components(n, edges - {e})
        a, b = np.where(lab == lab[e[0]])[0], np.where(lab == lab[e[1]])[0]
        if len(a) >= q and len(b) >= q:
            yield np.where(cur == cur[e[0]])[0], a, b


def whole(ctx, r, A, data, nclus, q, score, k, tol=1e-7, metric=None, warned=()):
    n = len(A)
    left = edges_of(r.minimum_spanning_forest_)
    tr = getattr(r, "_trace", None)
    steps = tr[1:]
    good = [s for s in steps if s[0] is not None and len(s[0]) == n and np.isfinite(s[1].score)]
    first = left | {(min(int(c.in_node), int(c.out_node)), max(int(c.in_node), int(c.out_node))) for _, c in good}
    if not forest(ctx, A, data, first, metric):
        return None
    cur, more = replay(ctx, [s for s in steps if s[1].in_node is not None or s[0] is not None and np.isfinite(s[1].score)],
                       first, A, q, score, k, tol)
    stuck = [s for s in steps if not np.isfinite(s[1].score)]
    count = len(split(cur))
    ctx.note(found=count)
    if ctx.ok("end.labels", r.current_labels_ is not None and len(np.ravel(r.current_labels_)) == n, "no labels at the end"):
        ctx.ok("end.partition", same_partition(np.asarray(r.current_labels_), cur), "final labels are not those of the last step")
    ctx.ok("end.forest", left == {e for e in first if cur[e[0]] == cur[e[1]]} and len(left) == n - count,
           "the remaining forest does not match the clusters")
    said = any("no valid moves" in str(w) for w in warned)
    if count < nclus:
        ctx.ok("end.stopped", more is False, "stopped at %d of %d clusters although cuts were left" % (count, nclus))
        ctx.ok("end.warning", said, "stopped short without a warning")
    else:
        ctx.ok("end.count", count == nclus, "%d clusters instead of %d" % (count, nclus))
        ctx.ok("end.warning", not said and not stuck, "a warning about missing moves although all clusters were found")
    return cur


def run(ctx, key, s, a, o):
    """one fit; returns the object and the texts of its warnings"""
    got = []

    def go():
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            r = s.fit(*a, **o)
        got.extend(str(w.message) for w in ws)
        return r
    return ctx.run(key, go), got


def options(ctx, n, k, least=None, counts=(2, 3, 4, 5)):
    q = least or int(k + 3 + ctx.rng.integers(0, 4))
    nc = ctx.pick("clusters", [c for c in counts if c * q < n])
    return nc, q


def trace(ctx):
    import spreg
    from spreg.skater_reg import Skater_reg
    rng = ctx.rng
    ws, A = world(ctx)
    k = ctx.pick("k", [1, 2, 3])
    x, y, data = observations(ctx, ws, A, k, True)
    n = len(y)
    nc, q = options(ctx, n, k)
    ctx.sig = [n, k, nc, q, round(float(y.sum()), 6)]
    cls = ctx.pick("reg", ["OLS", "BaseOLS", "stats"])
    o = dict(quorum=q)
    if cls == "stats":
        from statsmodels.api import OLS as R
        o["model_family"] = "statsmodels"
    else:
        R = getattr(spreg, cls) if cls == "OLS" else __import__("spreg.ols", fromlist=["BaseOLS"]).BaseOLS
    dr = {"reg": R, "y": y, "x": x}
    metric = None
    s = Skater_reg()
    how = ctx.pick("metric", ["default", "default", "manhattan", "affinity"])
    if data is not None and how == "manhattan":
        metric = lambda X, Y=None: np.abs(X[:, None] - (X if Y is None else Y)[None]).sum(2)
        s = Skater_reg(dissimilarity=metric)
    elif data is not None and how == "affinity":
        sim = lambda X, Y=None: np.exp(-((X[:, None] - (X if Y is None else Y)[None]) ** 2).sum(2))
        metric = lambda X, Y=None: ((X[:, None] - (X if Y is None else Y)[None]) ** 2).sum(2)
        s = Skater_reg(affinity=sim)
    r, wn = run(ctx, "fit", s, (nc, ws.w, data, dr), o)
    whole(ctx, r, A, data, nc, q, ols_score(x, y), k, metric=metric, warned=wn)


def rising(ctx, s, ws, A, data, nc, q, score, metric, o, pieces, dr=None):
    """sums of distances to a centre, or of squares of estimators other than least squares, can rise when a cluster is cut;
    the library then refuses to go on. The refusal is right only where the best cut really raises the sum"""
    got, bad = [], None
    with warnings.catch_warnings(record=True) as wl:
        warnings.simplefilter("always")
        try:
            r = s.fit(nc, ws.w, data, dr, **o)
        except Exception as ex:
            r, bad = None, ex
        got = [str(w.message) for w in wl]
    if r is not None:
        return r, got
    if not isinstance(bad, ValueError) or "score increased" not in str(bad):
        if "singular" in str(bad).lower() and "w" in (dr or {}) and "knn" in str(ctx.cfg):
            raise Skip("a closed group of mutual neighbours: lags collinear with the regressors")

        def again():
            raise bad
        ctx.run("fit", again)
    if data is None:
        raise Skip("score rises on a forest that is not unique")
    n = len(A)
    D = np.linalg.norm(data[:, None] - data[None], axis=2) if metric is None else metric(data)
    e = sorted((D[i, j], i, j) for i in range(n) for j in range(i + 1, n) if A[i, j])
    d = np.array([v[0] for v in e])
    if len(d) > 1 and np.diff(d).min() <= 1e-7 * d.max():
        raise Skip("score rises on a forest that is not unique")
    lab, edges = list(range(n)), set()

    def root(a):
        while lab[a] != a:
            a = lab[a]
        return a
    for _, i, j in e:
        a, b = root(i), root(j)
        if a != b:
            lab[a] = b
            edges.add((i, j))
    cur, prev = components(n, edges), np.inf
    qq = max(q, 1)
    want = nc + (pieces if pieces > 1 and o.get("islands", "increase") == "increase" else 0)
    while len(set(cur.tolist())) < want:
        total = sum(score(p) for p in split(cur))
        best = None
        for ed in sorted(edges):
            new = components(n, edges - {ed})
            a, b = np.where(new == new[ed[0]])[0], np.where(new == new[ed[1]])[0]
            if min(len(a), len(b)) >= qq:
                t = total - score(np.where(cur == cur[ed[0]])[0]) + score(a) + score(b)
                if best is None or t < best[0]:
                    best = (t, ed, new)
        if best is None:
            break
        if best[0] > prev - 1e-9 * abs(prev):
            raise Skip("the best cut raises the sum of distances")
        prev, cur, edges = best[0], best[2], edges - {best[1]}
    ctx.fail("score_increase", "refused because the score increased, but the best cuts never raise it")
    raise StopCase()


def exhaust(ctx):
    """more clusters asked than the tree can give: the search ends with the clusters it found"""
    import spreg
    from spreg.skater_reg import Skater_reg
    ws, A = world(ctx, n=[int(ctx.rng.integers(24, 34))])
    k = 1
    x, y, data = observations(ctx, ws, A, k)
    n = len(y)
    q = ctx.pick("quorum", [4, 5])
    nc = (n - 1) // q
    ctx.sig = [n, nc, q, round(float(y.sum()), 6)]
    dr = {"reg": spreg.OLS, "y": y, "x": x}
    reg = ctx.pick("score", ["reg", "data"])
    if reg == "data" and data is None:
        reg = "reg"
    if reg == "reg":
        r, wn = run(ctx, "fit", Skater_reg(), (nc, ws.w, data, dr), dict(quorum=q))
    else:
        r, wn = rising(ctx, Skater_reg(), ws, A, data, nc, q, data_score(data), None, dict(quorum=q), 1)
    whole(ctx, r, A, data, nc, q, ols_score(x, y) if reg == "reg" else data_score(data), k, warned=wn)


def plain(ctx):
    """clusters of attributes only, as documented when no regression is given"""
    from spreg.skater_reg import Skater_reg
    pieces = ctx.pick("pieces", [1, 1, 2])
    ws, A = world(ctx, pieces)
    x, y, data = observations(ctx, ws, A, 2)
    if data is None:
        data = (x - x.mean(0)) / x.std(0)
    q = ctx.pick("quorum", [-np.inf, 1, 3, 6])
    nc = ctx.pick("clusters", [2, 3, 5, 6])
    n = len(y)
    if nc * max(q, 0) >= n:
        raise Skip("too few observations")
    isl = ctx.pick("islands", ["increase", "ignore"])
    ctx.sig = [n, nc, q, round(float(data.sum()), 6)]
    metric = None
    s = Skater_reg()
    how = ctx.pick("metric", ["default", "manhattan", "affinity"])
    score = data_score(data)
    if how == "manhattan":
        metric = lambda X, Y=None: np.abs(X[:, None] - (X if Y is None else Y)[None]).sum(2)
        s = Skater_reg(dissimilarity=metric)
        score = Score(lambda m: float(np.sum(np.abs(data[m] - data[m].mean(0)))))
    elif how == "affinity":
        sim = lambda X, Y=None: np.exp(-((X[:, None] - (X if Y is None else Y)[None]) ** 2).sum(2))
        metric = lambda X, Y=None: ((X[:, None] - (X if Y is None else Y)[None]) ** 2).sum(2)
        s = Skater_reg(affinity=sim)
        score = Score(lambda m: float(np.sum((data[m] - data[m].mean(0)) ** 2)))
    if ctx.pick("center", ["mean", "mean", "median"]) == "median":
        s.center = np.median
        old = score
        f = {"default": lambda m, c: float(np.sum(np.linalg.norm(data[m] - c, axis=1))),
             "manhattan": lambda m, c: float(np.sum(np.abs(data[m] - c))),
             "affinity": lambda m, c: float(np.sum((data[m] - c) ** 2))}[how]
        score = Score(lambda m: f(m, np.median(data[m], axis=0)))
    r, wn = rising(ctx, s, ws, A, data, nc, q, score, metric, dict(quorum=q, islands=isl), pieces)
    want = nc + (pieces if pieces > 1 and isl == "increase" else 0)
    # attribute scores need not fall for a median centre, so only the recorded choice is judged
    whole(ctx, r, A, data, max(want, pieces), max(q, 1), score, 0, metric=metric, warned=wn)


def islands(ctx):
    """a map of two or three separate parts"""
    import spreg
    from spreg.skater_reg import Skater_reg
    rng = ctx.rng
    pieces = ctx.pick("pieces", [2, 3])
    ws, A = world(ctx, pieces, [int(rng.integers(12, 34)) for _ in range(pieces)])
    k = ctx.pick("k", [1, 2])
    x, y, data = observations(ctx, ws, A, k)
    # parts differ in their noise, so that sums over parts differ from the sum over the part being cut
    lab = connected_components(A)[1]
    y = y + rng.normal(size=y.shape) * np.choose(lab, [.1, 3., 10.]).reshape(-1, 1)
    n = len(y)
    q = k + 3 + int(rng.integers(0, 2))
    isl = ctx.pick("islands", ["increase", "ignore"])
    nc = ctx.pick("clusters", [2, 3, 4])
    ctx.sig = [n, k, nc, q, round(float(y.sum()), 6)]
    R = ctx.pick("reg", ["OLS", "stats", "GM_Lag"])
    o = dict(quorum=q, islands=isl)
    dr = {"y": y, "x": x}
    score = ols_score(x, y)
    tol = 1e-7
    if R == "stats":
        from statsmodels.api import OLS
        dr["reg"] = OLS
        o["model_family"] = "statsmodels"
    else:
        dr["reg"] = getattr(spreg, R)
        if R == "GM_Lag":
            dr["w"] = ws.w
            score = lag_score(x, y, ws.full)
            tol = 1e-5
    r, wn = rising(ctx, Skater_reg(), ws, A, data, nc, q, score, None, o, pieces, dr)
    ctx.ok("islands.said", any("disconnected" in m for m in wn), "no warning about a disconnected map")
    want = nc + (pieces if isl == "increase" else 0)
    whole(ctx, r, A, data, max(want, pieces), q, score, k, tol=tol, warned=wn)


def lag_score(x, y, W, yend=None, inst=None):
    """two-stage least squares by cluster, spatial lags taken over the whole map"""
    n = len(y)
    one = np.ones((n, 1))
    Z = np.hstack([one, x] + ([yend] if yend is not None else []) + [W @ y])
    Q = np.hstack([x] + ([inst] if inst is not None else []))
    H = np.hstack([one, Q, W @ Q])

    def f(m):
        h, z, v = H[m], Z[m], y[m]
        P = h @ np.linalg.lstsq(h, z, rcond=None)[0]
        b = np.linalg.lstsq(P, v, rcond=None)[0]
        return float(np.sum((v - z @ b) ** 2))
    return Score(f)


def models(ctx):
    """other estimators given as the regression"""
    import spreg
    from spreg.skater_reg import Skater_reg
    rng = ctx.rng
    name = ctx.pick("reg", ["GM_Lag", "GM_Lag", "TSLS", "ML_Error", "GM_Error", "OLS+"])
    ws, A = world(ctx, n=[int(rng.integers(30, 44))])
    k = ctx.pick("k", [1, 2])
    x, y, data = observations(ctx, ws, A, k)
    n = len(y)
    dr = {"reg": spreg.OLS if name == "OLS+" else getattr(spreg, name), "y": y, "x": x}
    tol = 1e-7
    if name in ("TSLS", "GM_Lag") and (name == "TSLS" or ctx.pick("endogenous", [False, True])):
        inst = rng.normal(size=(n, 1)) + x[:, :1]
        e = rng.normal(size=(n, 1))
        yend = inst + .5 * e + .3 * rng.normal(size=(n, 1))
        y = y + yend + .5 * e
        dr.update(y=y, yend=yend, q=inst)
    if name == "GM_Lag":
        dr["w"] = ws.w
        score = lag_score(x, y, ws.full, dr.get("yend"), dr.get("q"))
        tol = 1e-5
        q = 2 * k + 6 + int(rng.integers(0, 3))
    elif name == "TSLS":
        one = np.ones((n, 1))
        Z, H = np.hstack([one, x, yend]), np.hstack([one, x, inst])

        def f(m):
            P = H[m] @ np.linalg.lstsq(H[m], Z[m], rcond=None)[0]
            return float(np.sum((y[m] - Z[m] @ np.linalg.lstsq(P, y[m], rcond=None)[0]) ** 2))
        score = Score(f)
        tol = 1e-5
        q = k + 5
    elif name == "OLS+":
        dr["robust"] = "white"
        dr["nonspat_diag"] = False
        score = ols_score(x, y)
        q = k + 4
    else:
        dr["w"] = ws.w
        W = ws.full
        tr = ws.w.transform
        q = 9
        X1 = np.hstack([np.ones((n, 1)), x])

        def f(m):
            sub = gen.make_w(W[np.ix_(m, m)], ids=list(range(len(m))), transform="r" if tr == "R" else "o").w
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return float(np.sum(getattr(spreg, name)(y[m], x[m], w=sub).u ** 2))
        score = Score(f)
        tol = 1e-5
    nc = ctx.pick("clusters", [c for c in (2, 3) if c * q < n])
    ctx.sig = [name, n, k, nc, q, round(float(y.sum()), 6)]
    before = {a: (v.copy() if isinstance(v, np.ndarray) else v) for a, v in dr.items()}
    tr = ws.w.transform
    if name in ("ML_Error", "GM_Error"):
        try:
            Skater_reg().fit(nc, ws.w, data, dict(dr), quorum=q)
        except Exception as ex:
            if "power expansion" in str(ex):
                raise Skip("estimates of a piece lie outside the convergent range")
    try:
        r, wn = rising(ctx, Skater_reg(), ws, A, data, nc, q, score, None, dict(quorum=q), 1, dr)
    finally:
        ctx.ok("inputs", set(dr) == set(before) and all(np.array_equal(dr[a], before[a]) if isinstance(before[a], np.ndarray)
                                                        else dr[a] is before[a] for a in before) and ws.w.transform == tr,
               "the arguments were changed")
    whole(ctx, r, A, data, nc, q, score, k, tol=tol, warned=wn)


def scores(ctx):
    """the score functions on labels of the caller's choice and on those of the last fit"""
    import spreg
    from spreg.skater_reg import Skater_reg
    rng = ctx.rng
    ws, A = world(ctx)
    k = ctx.pick("k", [1, 2])
    x, y, data = observations(ctx, ws, A, k, True)
    if data is None:
        data = x
    n = len(y)
    fam = ctx.pick("family", ["spreg", "stats", "data"])
    s = Skater_reg()
    dr, f, score = None, s.score_spreg, data_score(data)
    if fam == "spreg":
        dr, score = {"reg": spreg.OLS, "y": y, "x": x}, ols_score(x, y)
    elif fam == "stats":
        from statsmodels.api import OLS
        dr, score, f = {"reg": OLS, "y": y, "x": x}, ols_score(x, y), s.score_stats
    R = int(rng.integers(2, 4))
    lab = rng.permutation(np.arange(n) % R)
    ctx.sig = [fam, n, R, round(float(y.sum()), 6)]
    want = sum(score(p) for p in split(lab))
    with ctx.quiet():
        tot, parts = ctx.run("score.given", f, data, dr, lab)
    ctx.close("score.given", float(tot), want, rtol=1e-8, atol=1e-8)
    if ctx.ok("score.parts", parts is not None and set(parts) == set(range(R)), "scores by cluster"):
        for l in range(R):
            ctx.close("score.part", float(parts[l]), score(np.where(lab == l)[0]), rtol=1e-8, atol=1e-8)
    small = min(len(p) for p in split(lab))
    with ctx.quiet():
        tot, _ = ctx.run("score.quorum", f, data, dr, lab, small)
        ctx.close("score.quorum_met", float(tot), want, rtol=1e-8, atol=1e-8)
        tot, _ = ctx.run("score.quorum", f, data, dr, lab, small + 1)
        ctx.ok("score.quorum_missed", np.isinf(tot) and tot > 0, "a partition below the quorum scored %r" % (tot,))
    o = dict(quorum=k + 4)
    if fam == "stats":
        o["model_family"] = "statsmodels"
    r, _ = rising(ctx, s, ws, A, data, 3, k + 4, score, None, o, 1, dr)
    with ctx.quiet():
        tot, parts = ctx.run("score.fitted", f, data, dr)
    ctx.close("score.fitted", float(tot), sum(score(p) for p in split(np.asarray(r.current_labels_))), rtol=1e-8, atol=1e-8)
    # a cut restricted to one of the clusters
    cur = np.asarray(r.current_labels_)
    F = r.minimum_spanning_forest_.copy()
    t = int(rng.integers(len(set(cur.tolist()))))
    edges = edges_of(F)
    q = k + 3
    opts = [(a, b) for old, a, b in candidates(n, edges, cur, q) if cur[a[0]] == t]
    ts = {int(l): score(np.where(cur == l)[0]) for l in set(cur.tolist())}
    with ctx.quiet():
        cut, ps, nf, m, nl = ctx.run("restricted", s.find_cut, F, data, dr, len(ts), cur, q, ts, cur, t,
                                     model_family=o.get("model_family", "spreg"))
    if not opts:
        ctx.ok("restricted.none", cut.in_node is None and not np.isfinite(cut.score), "found a cut where none is admissible")
        return
    ctx.note(restricted=True)
    tot = sum(ts.values())
    best = min(tot - ts[t] + score(a) + score(b) for a, b in opts)
    if ctx.ok("restricted.found", cut.in_node is not None and nl is not None, "no cut found"):
        ctx.ok("restricted.cluster", cur[int(cut.in_node)] == t, "cut in another cluster")
        ctx.close("restricted.best", float(cut.score), best, rtol=1e-7, atol=1e-7 * tot)
        ctx.ok("restricted.labels", same_partition(np.asarray(nl), components(n, edges_of(nf))), "labels do not match the forest")
        for l in set(np.asarray(nl).tolist()):
            ctx.close("restricted.parts", float(ps[l]), score(np.where(nl == l)[0]), rtol=1e-7, atol=1e-7 * tot)


def refuse(ctx):
    """impossible requests"""
    import spreg
    from spreg.skater_reg import Skater_reg
    rng = ctx.rng
    kind = ctx.pick("kind", ["too many", "small island", "family", "one label"])
    pieces = 2 if kind == "small island" else 1
    ws, A = world(ctx, pieces, [int(rng.integers(20, 30)), int(rng.integers(4, 7))][:pieces])
    x, y, data = observations(ctx, ws, A, 1)
    n = len(y)
    dr = {"reg": spreg.OLS, "y": y, "x": x}
    if kind == "too many":
        q = int(rng.integers(5, 9))
        nc = n // q + int(rng.integers(1, 4))
        ctx.refused("too_many", Skater_reg().fit, nc, ws.w, data, dr, quorum=q)
    elif kind == "small island":
        ctx.refused("small_island", Skater_reg().fit, 2, ws.w, data, dr, quorum=8)
    elif kind == "family":
        ctx.refused("family", Skater_reg().fit, 2, ws.w, data, dr, quorum=5, model_family="R")
    else:
        F = Skater_reg().fit(1, ws.w, data, dr, quorum=5)
        ctx.ok("one.cluster", len(set(np.asarray(F.current_labels_).tolist())) == 1, "one cluster")
        ctx.refused("one_label", F.find_cut, F.minimum_spanning_forest_, data, dr, 1, np.zeros(n, int), labels=np.zeros(n, int))


SUBS = {
    "trace": (trace, 48, 600),
    "exhaust": (exhaust, 24, 240),
    "plain": (plain, 48, 600),
    "islands": (islands, 32, 400),
    "models": (models, 40, 400),
    "scores": (scores, 40, 400),
    "refuse": (refuse, 24, 160),
}
