"""C15 representation: the same data in another container, the same weights in another form, names given or omitted."""
import re
import numpy as np
import pandas as pd
from scipy import sparse
from .. import models, relate
from ..core import Skip
from . import c13

RULE = ("Every public estimator fitted on plain floating two-dimensional arrays with explicit names, and on the same data in "
        "other containers drawn per argument (1-D vectors, named series and data frames with shuffled or repeated labels, "
        "integer columns, Fortran-ordered, strided and read-only arrays, lists and series of regimes, point geometries), with "
        "weights as W, graph, full array or sparse matrix; every value, every string and the text of the summary must agree. "
        "A third fit without names must differ in labels only.")
CASE_LIMIT = 90


def index(ctx, n):
    how = ctx.pick("index", ["range", "str", "shuffled", "repeated", "multi"])
    if how == "str":
        return pd.Index(["r%d" % i for i in range(n)])
    if how == "shuffled":
        return pd.Index(ctx.rng.permutation(n) + 5)
    if how == "repeated":
        return pd.Index(ctx.rng.integers(0, 3, n))
    if how == "multi":
        return pd.MultiIndex.from_arrays([np.arange(n) % 3, np.arange(n)])
    return pd.RangeIndex(n)


def layout(ctx, v, how):
    if how == "fortran":
        return np.asfortranarray(v)
    if how == "strided":
        big = np.full((v.shape[0] * 2, v.shape[1] * 2), np.nan)
        big[::2, ::2] = v
        return big[::2, ::2]
    if how == "readonly":
        v = v.copy()
        v.flags.writeable = False
        return v
    if how == "reversed":
        return v[::-1].copy()[::-1]
    return v


def column(ctx, arg, v, name, idx, ints):
    """one variable (y) in another container; returns (value, names are taken from it)"""
    if ints:
        v = v.astype(ctx.pick(arg + "_int", ["int64", "int32", "int16", "int8"]))
    how = ctx.pick(arg, ["vector", "series", "frame", "fortran", "strided", "readonly", "reversed"])
    if how == "vector":
        return v.ravel(), False
    if how == "series":
        return pd.Series(v.ravel(), index=idx, name=name), True
    if how == "frame":
        return pd.DataFrame(v, index=idx, columns=[name]), True
    return layout(ctx, v, how), False


def block(ctx, arg, v, names, idx, ints):
    if ints:
        ty = ctx.pick(arg + "_int", ["int64", "int32", "int16", "int8", "mixed"])
        if ty != "mixed":
            v = v.astype(ty)
    else:
        ty = "float"
    opts = ["frame", "frame", "fortran", "strided", "readonly", "reversed"]
    if v.shape[1] == 1:
        opts += ["vector", "series"]
    how = ctx.pick(arg, opts) if ty != "mixed" else ctx.pick(arg, ["frame"])
    if how == "frame":
        df = pd.DataFrame(v, index=idx, columns=names)
        if ty == "mixed":
            for j, c in enumerate(names):
                if j % 2 == 0:
                    df[c] = df[c].astype("int64")
        return df, True
    if how == "vector":
        return v.ravel(), False
    if how == "series":
        return pd.Series(v.ravel(), index=idx, name=names[0]), True
    return layout(ctx, v, how), False


def other_weights(ctx, w, forms):
    """the same values and order in another form"""
    import libpysal
    how = ctx.pick("w", forms)
    A = relate.dense(w)
    if how == "W":
        return w, how
    if how == "graph":
        if w.transform == "R":
            b = libpysal.weights.W(w.neighbors, {i: [1.0] * len(v) for i, v in w.neighbors.items()}, id_order=w.id_order, silence_warnings=True)
            g = libpysal.graph.Graph.from_W(b).transform("r")
            assert np.allclose(np.asarray(g.to_W().full()[0]), A)
            return g, how
        return libpysal.graph.Graph.from_W(w), how
    if how == "array":
        return A.copy(), how
    if how == "csr":
        return sparse.csr_matrix(A), how
    if how == "coo":
        return sparse.coo_matrix(A), how
    if how == "renamed":
        return libpysal.weights.W({("u", i): [("u", int(j)) for j in np.nonzero(A[i])[0]] for i in range(len(A))},
                                  {("u", i): [float(A[i, j]) for j in np.nonzero(A[i])[0]] for i in range(len(A))},
                                  id_order=[("u", i) for i in range(len(A))], silence_warnings=True), how


def values_only(w):
    """the same values as a weights object without transformation"""
    import libpysal
    A = relate.dense(w)
    ids = w.id_order
    pos = [np.nonzero(v)[0] for v in A]
    return libpysal.weights.W({ids[i]: [ids[j] for j in pos[i]] for i in range(len(A))},
                              {ids[i]: [float(A[i, j]) for j in pos[i]] for i in range(len(A))}, id_order=list(ids), silence_warnings=True)


def mk(label):
    def case(ctx):
        import spreg
        orig = models.make
        models.make = lambda c, l: orig(c, l, names=True)
        try:
            m = c13.instance(ctx, label)
        finally:
            models.make = orig
        d = m.d
        panel = label in models.PANEL
        ints = ctx.pick("integers", [False, False, True])
        kw = dict(m.kw)
        base = lambda v: np.asarray(v, float)
        if ints:
            for a, role in m.roles.items():
                if role in ("y", "py", "wy", "x", "px", "wx", "yend", "q"):
                    if label == "Probit" and a == "y":
                        continue
                    kw[a] = np.round(base(kw[a]) * 8).clip(-120, 120)
        kw["w"] = kw.get("w")
        if kw["w"] is None:
            del kw["w"]
        n_rows = base(kw["y"]).shape[0]
        idx = index(ctx, n_rows)
        alt = dict(kw)
        for a, role in m.roles.items():
            if role in ("y", "py") or (role == "wy"):
                nm = kw["name_y"]
                if role == "wy":
                    alt[a], lab = block(ctx, a, base(kw[a]), nm, idx, ints)
                else:
                    alt[a], lab = column(ctx, a, base(kw[a]), nm, idx, ints)
                if lab:
                    del alt["name_y"]
            elif role in ("x", "px", "wx"):
                alt[a], lab = block(ctx, a, base(kw[a]), kw["name_x"], idx, ints)
                if lab:
                    del alt["name_x"]
            elif role in ("yend", "q"):
                alt[a], lab = block(ctx, a, base(kw[a]), kw["name_" + a], idx, ints)
                if lab:
                    del alt["name_" + a]
            elif role == "regimes":
                how = ctx.pick("regimes", ["list", "array", "series"])
                lst = list(pd.Series(kw[a]).tolist())
                alt[a] = lst if how == "list" else np.array(lst) if how == "array" else pd.Series(lst, index=idx, name=kw["name_regimes"])
                if how == "series":
                    del alt["name_regimes"]
            elif role == "coords":
                how = ctx.pick("coords", ["frame", "points", "fortran"])
                if how == "frame":
                    alt[a] = pd.DataFrame(kw[a], index=idx, columns=kw["name_coords"])
                    del alt["name_coords"]
                elif how == "points":
                    import geopandas
                    alt[a] = geopandas.GeoSeries.from_xy(kw[a][:, 0], kw[a][:, 1])
                else:
                    alt[a] = np.asfortranarray(kw[a])
            elif role == "w":
                forms = ["W", "graph", "renamed"] if panel or label == "Probit" else ["W", "graph", "array", "csr", "coo", "renamed"]
                A = relate.dense(kw[a])
                binary = all(np.ptp(v[v != 0]) < 1e-12 for v in A if (v != 0).any())
                if not (ctx.pick("keep_transform", [True, False]) and kw[a].transform == "R" and binary):
                    kw[a] = values_only(kw[a])
                else:
                    forms = ["W", "graph"]
                alt[a], how = other_weights(ctx, kw[a], forms)
        if ctx.pick("key_sep", [False, True]):
            alt = {k: alt[k] for k in reversed(list(alt))}
        ctx.sig = [n_rows, label, ctx.idx]
        ref = getattr(spreg, m.cls)
        try:
            with ctx.quiet():
                r1 = ref(**kw)
        except Exception as e:
            if "power expansion" in str(e) or isinstance(e, np.linalg.LinAlgError):
                raise Skip("this instance cannot be estimated: %s" % str(e)[:60])
            raise
        r2 = ctx.run("other_container", ref, **alt)
        tol = 1e-3 if label == "NSLX" else 1e-4 if m.iterative else 1e-7
        same_values(ctx, "other_container", label, r1, r2, tol, words=True)
        bare = {k: v for k, v in kw.items() if not k.startswith("name_")}
        r3 = ctx.run("without_names", ref, **bare)
        same_values(ctx, "without_names", label, r1, r3, 1e-12 if not m.iterative else 1e-9, words=False)
        labels(ctx, label, m, r1, r3)
    return case


def same_values(ctx, key, label, r1, r2, tol, words):
    a, b = models.flat(r1), models.flat(r2)
    if not words:
        a = {k: v for k, v in a.items() if not isinstance(v, str)}
        b = {k: v for k, v in b.items() if not isinstance(v, str)}
    drop = lambda k: k.startswith(("name_w", "name_gwk", "name_ds"))
    relate.compare(ctx, key, {k: v for k, v in a.items() if not drop(k)}, {k: v for k, v in b.items() if not drop(k)}, tol,
                   skip=("e_filtered",) if label == "Panel_RE_Error" else ())
    ctx.note(values=len(a))
    if words:
        t1, t2 = text(r1.summary), text(r2.summary)
        ctx.ok(key + ".summary", t1 == t2, diff(t1, t2))


def text(s):
    s = re.sub(r"[-+]?\b(\d+\.?\d*|\.\d+)(e[-+]?\d+)?\b|\bnan\b|[-+]?inf\b", "#", str(s))
    return [re.sub(r"\s+", " ", v).strip() for v in s.splitlines() if not re.search(r"weights matrix|Kernel Weights", v, re.I)]


def diff(a, b):
    for u, v in zip(a, b):
        if u != v:
            return "%r against %r" % (u[:90], v[:90])
    return "%d lines against %d" % (len(a), len(b))


def labels(ctx, label, m, r1, r3):
    """a fit without names has the same structure of labels"""
    same = {}
    if not hasattr(r1, "output"):
        return
    o1, o3 = r1.output, r3.output
    for c in ("var_type", "regime", "equation"):
        if c in o1 and label not in models.REGIMES:
            ctx.ok("without_names.%s" % c, list(map(str, o1[c])) == list(map(str, o3[c])), "%s / %s" % (list(o1[c]), list(o3[c])))
    ctx.ok("without_names.rows", len(o1) == len(o3), "")
    # the same given name always becomes the same default name
    for u, v in zip(o1["var_names"], o3["var_names"]):
        ctx.ok("without_names.labels", same.setdefault(str(u), str(v)) == str(v), "%s -> %s and %s" % (u, same[str(u)], v))
    ctx.ok("without_names.distinct", len(set(o1["var_names"])) == len(set(o3["var_names"])), "%s / %s" % (list(o1["var_names"]), list(o3["var_names"])))


def sur_mk(label):
    def case(ctx):
        import spreg
        m = c13.instance(ctx, label)
        ints = ctx.pick("integers", [False, True])
        kw = dict(m.kw)
        alt = {}
        for a, role in m.roles.items():
            if role in ("bigy", "bigX", "bigyend", "bigq"):
                if ints and m.cls != "SURerrorML":
                    kw[a] = {r: np.round(v * 8).clip(-120, 120) for r, v in kw[a].items()}
                    if role == "bigX":
                        kw[a] = {r: np.hstack([np.ones((len(v), 1)), v[:, 1:]]) for r, v in kw[a].items()}
        alt = dict(kw)
        for a, role in m.roles.items():
            if role in ("bigy", "bigX", "bigyend", "bigq"):
                alt[a] = {}
                for r, v in kw[a].items():
                    if ints and m.cls != "SURerrorML":
                        v = v.astype(ctx.pick(a + "_int", ["int64", "int32", "int16"]))
                    alt[a][r] = layout(ctx, v, ctx.pick(a, ["fortran", "strided", "readonly", "reversed"]))
            elif role == "regimes":
                how = ctx.pick("regimes", ["list", "array", "series"])
                lst = list(pd.Series(kw[a]).tolist())
                alt[a] = lst if how == "list" else np.array(lst) if how == "array" else pd.Series(lst)
            elif role == "w":
                alt[a], how = other_weights(ctx, kw[a], ["W", "renamed"])
        ctx.sig = [m.d.n, label, ctx.idx]
        ref = getattr(spreg, m.cls)
        with ctx.quiet():
            r1 = ref(**kw)
        r2 = ctx.run("other_container", ref, **alt)
        tol = 5e-3 if m.cls == "SURerrorGM" else 1e-3 if m.cls == "SURerrorML" else 1e-4 if label == "SUR_iter" else 1e-7
        same_values(ctx, "other_container", label, r1, r2, tol, words=True)
        bare = {k: v for k, v in kw.items() if not k.startswith("name_")}
        r3 = ctx.run("without_names", ref, **bare)
        same_values(ctx, "without_names", label, r1, r3, 1e-9, words=False)
        frame(ctx, label, m, kw, ref, tol)
    return case


def frame(ctx, label, m, kw, ref, tol):
    """the system named by columns of a data frame"""
    d = m.d
    ne = len(kw["bigy"])
    cols, lists = {}, {}
    for a, role in m.roles.items():
        if role not in ("bigy", "bigX", "bigyend", "bigq"):
            continue
        lists[a] = []
        for r in range(ne):
            v = kw[a][r][:, 1:] if role == "bigX" else kw[a][r]
            nm = ["%s_%d_%d" % (role[3:], r, j) for j in range(v.shape[1])]
            cols.update(zip(nm, v.T))
            lists[a].append(nm[0] if role == "bigy" else nm)
    names = list(cols)
    ctx.rng.shuffle(names)
    df = pd.DataFrame({c: cols[c] for c in names}, index=index(ctx, d.n))
    rest = {k: v for k, v in kw.items() if k not in lists and not k.startswith("name_big")}
    named = {"name_" + a: {r: ([] if a != "bigX" else ["Constant_%d" % (r + 1)]) + list(v[r]) if a != "bigy" else v[r] for r in range(ne)}
             for a, v in lists.items()}
    with ctx.quiet():
        r1 = ref(**{**kw, **named})
    r2 = ctx.run("data_frame", ref, **lists, df=df, **rest)
    same_values(ctx, "data_frame", label, r1, r2, tol, words=True)


class Table:
    """a table read by libpysal: columns through by_col only"""

    def __init__(self, df):
        self.by_col = lambda name: df[name].tolist()

    def __getitem__(self, name):
        raise KeyError(name)


def wide_format(ctx):
    """sur_dictxy, sur_dictZ: one column per variable and equation, in a data frame or a table with by_col"""
    import spreg
    rng = ctx.rng
    n, ne = int(rng.integers(5, 20)), ctx.pick("n_eq", [2, 3, 4])
    ks = [int(rng.integers(1, 4)) for _ in range(ne)] if ctx.pick("ks", ["same", "different"]) == "different" else [2] * ne
    ny, nX = ["HR%d" % e for e in range(ne)], [["v%d_%d" % (e, j) for j in range(ks[e])] for e in range(ne)]
    cols = {c: rng.normal(size=n) for c in ny + sum(nX, [])}
    names = list(cols)
    rng.shuffle(names)
    df = pd.DataFrame({c: cols[c] for c in names}, index=index(ctx, n))
    db = Table(df) if ctx.pick("source", ["frame", "by_col"]) == "by_col" else df
    ctx.sig = [n, ne, str(ks)]
    before = [list(v) for v in nX]
    by, bX, by_n, bX_n = ctx.run("sur_dictxy", spreg.sur_dictxy, db, list(ny), nX)
    const = ctx.pick("const", [False, True])
    bZ, nZ = ctx.run("sur_dictZ", spreg.sur_dictZ, db, nX, form="spreg", const=const)
    ctx.ok("lists_kept", nX == before, "%s" % nX)
    ctx.ok("equations", list(by) == list(bX) == list(bZ) == list(range(ne)), "")
    for e in range(ne):
        xs = np.column_stack([cols[v] for v in before[e]])
        ctx.ok("y", np.array_equal(by[e], cols[ny[e]].reshape(-1, 1)), "")
        ctx.ok("X", np.array_equal(bX[e], np.column_stack([np.ones(n), xs])), "")
        ctx.ok("names", by_n[e] == ny[e] and list(bX_n[e]) == ["Constant_%d" % (e + 1)] + before[e], "%s %s" % (by_n[e], bX_n[e]))
        ctx.ok("Z", np.array_equal(bZ[e], np.column_stack([np.ones(n)] * int(const) + [xs])), "")
        ctx.ok("names_z", list(nZ[e]) == ["Constant_%d" % (e + 1)] * int(const) + before[e], str(nZ[e]))


def long_format(ctx):
    """sur_dictxy, sur_dictZ: one table row per unit and period, in any order, against one column per period"""
    import spreg
    rng = ctx.rng
    N, T, k = int(rng.integers(8, 20)), ctx.pick("T", [2, 3, 4]), ctx.pick("k", [1, 2, 3])
    y, x = rng.normal(size=(N, T)), rng.normal(size=(k, N, T))
    ids = ctx.pick("ids", ["int", "str"])
    sid = [int(v) for v in rng.permutation(N) + 1000] if ids == "int" else ["u%d" % v for v in rng.permutation(N)]
    tid = sorted(rng.choice(np.arange(1950, 2020), T, replace=False).tolist())
    order = rng.permutation(N * T) if ctx.pick("order", ["random", "stacked"]) == "random" else np.arange(N * T)
    rows = [(sid[i % N], tid[i // N], y[i % N, i // N], *x[:, i % N, i // N]) for i in order]
    xn = ["inc", "unemp", "age"][:k]
    df = pd.DataFrame(rows, columns=["FIPS", "YEAR", "HR"] + xn, index=index(ctx, N * T))
    ctx.sig = [N, T, k]
    if ctx.pick("source", ["frame", "by_col"]) == "by_col":
        df, frame = Table(df), df
    else:
        frame = df
    by, bX, ny, nX = ctx.run("sur_dictxy", spreg.sur_dictxy, df, ["HR"], [list(xn)], space_id=["FIPS"], time_id=["YEAR"])
    first = list(dict.fromkeys(frame["FIPS"].tolist()))
    pos = [sid.index(s) for s in first]
    bZ, nZ = ctx.run("sur_dictZ", spreg.sur_dictZ, df, [list(xn)], form="plm", const=ctx.pick("const", [False, True]),
                     space_id=["FIPS"], time_id=["YEAR"])
    for t in range(T):
        ctx.ok("y", np.array_equal(np.ravel(by[t]), y[pos, t]), "")
        ctx.ok("X", np.array_equal(bX[t], np.column_stack([np.ones(N), x[:, pos, t].T])), "")
        ctx.ok("names", ny[t] == "HR_%d" % tid[t] and nX[t] == ["%s_%d" % (v, tid[t]) for v in ["Constant"] + xn], "%s %s" % (ny[t], nX[t]))
        c = int(ctx.cfg["const"])
        ctx.ok("Z", np.array_equal(bZ[t], np.column_stack([np.ones(N)] * c + [x[:, pos, t].T])), "")
        ctx.ok("names_z", nZ[t] == ["%s_%d" % (v, tid[t]) for v in ["Constant"] * c + xn], str(nZ[t]))


SUBS = {label: (mk(label), 10, 120) for label in models.CROSS + models.PANEL}
SUBS.update({label: (sur_mk(label), 10, 120) for label in models.SURS})
SUBS["wide_format"] = (wide_format, 20, 200)
SUBS["long_format"] = (long_format, 20, 200)
