"""C30 invalid input is refused; redundant constant columns are dropped with a notice."""
import numpy as np
import pandas as pd
from .. import gen, models
from ..core import Skip, StopCase
from . import c10, c12, c13, c14

RULE = ("Every public front end (models.ALL) with a valid instance, in which one argument is replaced by an invalid one of each "
        "class of fault that applies to it (length, missing or non-numeric values, container type, weights, kernel, option names, "
        "instruments, regimes); the valid call is made first and has to succeed, the invalid one has to raise before a result "
        "is returned, and leave the caller's arguments untouched.  Second part: constant columns appended to or inserted in the "
        "regressors have to be dropped with a notice and leave the fit of the data without them.")
CASE_LIMIT = 120


def bad_values(rng, v):
    """the same array with one entry that is not a number"""
    v = np.array(v, float)
    i, j = int(rng.integers(v.shape[0])), int(rng.integers(v.shape[1]))
    out = []
    for what, val in (("nan", np.nan), ("inf", np.inf), ("minf", -np.inf)):
        u = v.copy()
        u[i, j] = val
        out.append((what, u))
    u = v.copy().astype(object)
    u[i, j] = None
    out.append(("none", u))
    u = v.copy().astype(object)
    u[i, j] = "n/a"
    out.append(("text", u))
    out.append(("strings", v.astype(str)))
    u = pd.DataFrame(v, columns=["c%d" % c for c in range(v.shape[1])])
    u.iloc[i, j] = np.nan
    out.append(("frame_nan", u))
    return out


def lengths(rng, v):
    v = np.asarray(v)
    i = int(rng.integers(v.shape[0]))
    return [("short", np.delete(v, i, 0)), ("long", np.vstack([v, v[i:i + 1]])), ("half", v[:v.shape[0] // 2])]


def weight_faults(ctx, m):
    import libpysal
    rng = ctx.rng
    n = m.d.n
    out = [("w_none", None), ("w_text", "queen"), ("w_list", [1, 2, 3])]
    for step in (-1, 1, -int(n // 2)):
        out.append(("w_size%+d" % step, _w_of(rng, n + step)))
    out.append(("w_kernel", gen.kernel(rng, n, "triangular", k=4)[0]))
    A = (rng.uniform(size=(n, n)) < .1) * 1.
    A = np.maximum(A, A.T)
    for i in range(n - 1):
        A[i, i + 1] = A[i + 1, i] = 1
    np.fill_diagonal(A, 0)
    for name, where in (("diag_one", [int(rng.integers(n))]), ("diag_all", range(n))):
        B = A.copy()
        for i in where:
            B[i, i] = 1.
        out.append(("w_" + name, _w_from(B)))
    for name, vals in (("negative", [-1.]), ("cancelling", [1., -1.])):
        B = A.copy()
        for i, v in zip(rng.choice(n, len(vals), replace=False), vals):
            B[i, i] = v
        out.append(("w_diag_" + name, _w_from(B, "o")))
    B = A.copy()
    i, j = np.argwhere(B > 0)[int(rng.integers(int(B.sum())))]
    for name, val in (("nan", np.nan), ("inf", np.inf)):
        B[i, j] = val
        out.append(("w_" + name, _w_from(B, "o")))
    return out


def _w_from(A, transform="r"):
    import libpysal
    n = A.shape[0]
    nb = {i: list(map(int, np.nonzero(A[i])[0])) for i in range(n)}
    w = libpysal.weights.W(nb, {i: [float(A[i, j]) for j in nb[i]] for i in range(n)}, silence_warnings=True)
    w.transform = transform
    return w


def _w_of(rng, n):
    A = np.zeros((n, n))
    for i in range(n - 1):
        A[i, i + 1] = A[i + 1, i] = 1
    return _w_from(A)


def faults(ctx, m):
    """(name, overrides) of every invalid call that can be made from this valid one"""
    rng = ctx.rng
    kw, roles = m.kw, m.roles
    out = []

    def add(name, **over):
        out.append((name, over))
    for arg, role in roles.items():
        v = kw[arg]
        if role in ("y", "x", "yend", "q", "py", "px", "wy", "wx"):
            if role[-1] == "y" or role[-1] == "x" or role in ("yend", "q"):
                for nm, u in bad_values(rng, v):
                    add("%s_%s" % (arg, nm), **{arg: u})
            for nm, u in lengths(rng, v):
                add("%s_%s" % (arg, nm), **{arg: u})
            add(arg + "_list", **{arg: np.asarray(v).tolist()})
            if role != "yend" or not m.cls.startswith(("GM_Lag", "GM_Combo", "GMM")):
                add(arg + "_none", **{arg: None})       # a lag model can do without other endogenous variables
            add(arg + "_text", **{arg: "income"})
            if role not in ("py", "wy"):
                add(arg + "_bool", **{arg: np.asarray(v) > np.median(v)})
            if role == "y":
                add("y_two_columns", y=np.hstack([v, v + 1]))
            add(arg + "_3d", **{arg: np.asarray(v)[:, :, None]})
        if role in ("bigy", "bigX", "bigyend", "bigq"):
            r = int(rng.integers(len(v)))
            key = list(v)[r]
            for nm, u in bad_values(rng, v[key]) + lengths(rng, v[key]):
                b = dict(v)
                b[key] = u
                add("%s_%s" % (arg, nm), **{arg: b})
            b = dict(v)
            b.pop(list(v)[-1])
            add(arg + "_missing_equation", **{arg: b})
            if role != "bigyend":
                add(arg + "_none", **{arg: None})
        if role == "x" or role == "px":
            wide_ = rng.normal(size=(np.asarray(v).shape[0], np.asarray(v).shape[0] + 2))
            add(arg + "_more_columns_than_rows", **{arg: wide_})
        if role == "w":
            for nm, u in weight_faults(ctx, m):
                if u is None and not needs_w(m):
                    continue
                if m.label in models.PANEL and nm.startswith("w_size") and m.layout == "long" and (m.d.n * m.d.T) % u.n == 0:
                    continue        # a panel of other units and periods
                if m.label == "SUR" and not m.kw.get("spat_diag"):
                    continue        # the weights have no use
                if nm == "w_kernel" and "slx" in m.label and m.kw.get("slx_lags") == 1:
                    continue        # allowed for lags of x
                add(nm, **{arg: u})
        if role == "gwk":
            gk = v
            add("gwk_none", gwk=None)
            add("gwk_contiguity", gwk=m.d.w)
            off, _ = gen.kernel(rng, m.d.n, "triangular", k=6)
            import libpysal
            off = libpysal.weights.Kernel(rng.uniform(size=(m.d.n, 2)), k=6, fixed=False, function="gaussian")
            add("gwk_diagonal", gwk=off)
            for nm, val in (("negative", -.2), ("above_one", 1.5)):
                off, _ = gen.kernel(rng, m.d.n, "triangular", k=6)
                i = off.id_order[int(rng.integers(m.d.n))]
                j = [t for t, b in enumerate(off.neighbors[i]) if b != i]
                if j:
                    off.weights[i] = [val if t == j[0] else e for t, e in enumerate(off.weights[i])]
                    add("gwk_" + nm, gwk=off)
            add("gwk_size", gwk=gen.kernel(rng, m.d.n - 3, "triangular", k=6)[0])
        if role == "regimes":
            g = m.g
            n = len(g.codes)
            add("regimes_single", regimes=["a"] * n)
            add("regimes_own", regimes=list(range(n)))
            add("regimes_short", regimes=list(v)[:-1])
            add("regimes_long", regimes=list(v) + list(v)[:1])
            add("regimes_text", regimes="south")
            add("regimes_none_entry", regimes=[None if i == 3 else t for i, t in enumerate(list(v))])
            add("regimes_nan_entry", regimes=[np.nan if i == 3 else t for i, t in enumerate(list(v))])
        if role == "coords":
            add("coords_short", coords=v[:-1])
            add("coords_three", coords=np.hstack([v, v[:, :1]]))
            add("coords_none", coords=None)
            add("coords_nan", coords=np.where(np.arange(len(v))[:, None] == 4, np.nan, v))
    if "yend" in roles:
        add("q_missing", q=None)
        if not m.cls.startswith(("GM_Lag", "GM_Combo")) and not m.kw.get("add_wy"):
            # (with a spatial lag the lagged regressors are instruments too)
            add("q_too_few", yend=rng.normal(size=(m.d.n, kw["q"].shape[1] + 1)), name_yend=None)
    elif m.cls in ("GM_Lag_Regimes", "GM_Combo_Regimes", "GM_Combo_Het_Regimes", "GM_Combo_Hom_Regimes"):
        n = m.d.n
        ye, q = rng.normal(size=(n, 1)), rng.normal(size=(n, 2))
        add("yend_long", yend=np.vstack([ye, ye[:1]]), q=q)
        add("yend_short", yend=ye[:-1], q=q)
        add("q_long", yend=ye, q=np.vstack([q, q[:1]]))
        add("q_short", yend=ye, q=q[:-1])
        add("q_nan", yend=ye, q=np.where(np.arange(n)[:, None] == 5, np.nan, q))
    return out


def needs_w(m):
    return m.label not in ("OLS", "OLS_white", "OLS_hac", "OLS_Regimes", "TSLS", "TSLS_hac", "TSLS_Regimes", "Probit", "SUR",
                           "SUR_iter", "SUR_reg", "ThreeSLS", "ThreeSLS_reg", "PooledOLS", "PanelFE", "PanelRE") or "slx" in m.label



def option_faults(ctx, m):
    """(name, overrides): options that do not exist, or that contradict the data"""
    rng = ctx.rng
    kw = m.kw
    out = []

    def add(name, **over):
        out.append((name, over))
    add("unknown_keyword", slx_lag=1)
    if m.label in models.SURS:
        if m.g is not None:
            add("regimes_single", regimes=["a"] * m.d.n)
            add("regimes_short", regimes=list(kw["regimes"])[:-1])
            add("regimes_long", regimes=list(kw["regimes"]) + list(kw["regimes"])[:1])
        if m.cls == "ThreeSLS":
            q = dict(kw["bigq"])
            e = dict(kw["bigyend"])
            k0 = list(q)[0]
            e[k0] = rng.normal(size=(m.d.n, q[k0].shape[1] + 1))
            add("q_too_few", bigyend=e)
        return out
    if m.label in models.PANEL:
        if m.names:
            for a in ("name_x",):
                add("name_x_number", name_x=list(kw["name_x"]) + ["one_more"])
        add("w_units", w=_w_of(rng, m.d.n * m.d.T + 1))
        return out
    for v in ("whyte", "hacs", "foo"):
        if m.cls.startswith(("OLS", "TSLS", "GM_Lag")):
            add("robust_" + v, robust=v)
    if m.cls.startswith(("OLS", "TSLS", "GM_Lag")):
        add("hac_without_kernel", robust="hac", gwk=None)
        add("hac_contiguity", robust="hac", gwk=m.d.w)
    if m.cls.startswith(("ML_Lag", "ML_Error")):
        for v in ("fulll", "cholesky", "eig"):
            add("method_" + v, method=v)
    if m.cls.startswith(("GM_Lag", "ML_Lag")):
        add("impacts_foo", spat_impacts="foo")
    if m.cls.startswith("GMM_Error"):
        add("estimator_foo", estimator="foo")
    if "_Het" in m.cls:
        if "inv_method" in kw:
            add("inv_method_foo", inv_method="foo", step1c=True)
    if "_Hom" in m.cls:
        add("A1_foo", A1="foo")
    if m.cls == "Probit":
        add("optim_foo", optim="foo")
        add("scalem_foo", scalem="foo")
        add("y_not_binary", y=m.d.y + rng.integers(0, 2, m.d.y.shape))
    if m.cls == "NSLX":
        add("params_kernel", params=[(6, np.inf, "foo")])
        add("params_short", params=[(6, np.inf)])
        add("params_number", params=[(6, np.inf, "power")] * (m.d.k + 1))
        add("slx_vars_long", slx_vars=list(kw["slx_vars"]) + [True])
        add("distance_metric_foo", distance_metric="foo")
        add("conv_foo", optim="foo")
    if "slx_lags" in kw:
        add("slx_vars_long", slx_vars=[True] * (m.d.k + 1))
        if m.d.k > 1:
            add("slx_vars_short", slx_vars=[True] * (m.d.k - 1))
        add("slx_vars_text", slx_vars="some")
        add("slx_vars_number", slx_vars=1)
        add("slx_without_w", w=None)
    if m.cls in ("OLS", "TSLS", "OLS_Regimes", "TSLS_Regimes"):
        if "robust" not in kw or kw["robust"] != "hac":
            add("spat_diag_without_w", w=None, spat_diag=True)
        add("slx_lags_without_w", w=None, slx_lags=1, spat_diag=False)
    if m.g is not None:
        n = m.d.k + (kw["yend"].shape[1] if "yend" in kw else 0)
        add("cols2regi_long", cols2regi=[True] * (n + 1))
        if n > 1:
            add("cols2regi_short", cols2regi=[True] * (n - 1))
        if not (kw.get("regime_err_sep") and (m.cls.startswith("GM_Combo") or kw.get("add_wy"))):
            add("cols2regi_text", cols2regi="some")
        add("constant_regi_foo", constant_regi="foo")
        R = m.g.R
        K = m.d.k + 1
        many = m.d.n // (K - 1) + 1 if K > 1 else m.d.n
        add("regimes_many", regimes=[i % many for i in range(m.d.n)])
        add("regimes_frame", regimes=pd.DataFrame({"a": list(kw["regimes"])}))
    return out


NOTICED = ("impacts_foo", "estimator_foo")     # replaced by the default, with a notice
ALIKE = {"slx_vars_array"}


def case(label):
    def run(ctx):
        import spreg
        m = c13.instance(ctx, label)
        valid = converges(ctx, "valid", m.call, spreg)
        cases = faults(ctx, m) + option_faults(ctx, m)
        if ctx.tier == "quick" and len(cases) > 24:
            cases = [cases[i] for i in sorted(ctx.rng.permutation(len(cases))[:24])]
        ctx.note(faults=len(cases))
        for name, over in cases:
            args = dict(m.kw)
            args.update(over)
            before = {k: c12.snap(v) for k, v in args.items()}
            key = "%s.%s" % (group(name), label)
            if name in NOTICED:
                r = ctx.run(key + ".noticed", m.call, spreg, **over)
                if r is not None:
                    text = r.summary if isinstance(r.summary, str) else ""
                    ctx.ok(key + ".noticed", "not supported" in text or "not allowed" in text or "Omitted" in text,
                           "%s of %s accepted without notice" % (name, label))
                continue
            e = ctx.refused(key, m.call, spreg, **over)
            if e is not None:
                ctx.ok("refusal_leaves_arguments", all(c12.snap(args[k]) == before[k] for k in args),
                       "the refused call %s of %s changed its arguments" % (name, label))
        again = ctx.run("valid_again", m.call, spreg)
        if again is not None:
            a, b = models.flat(valid), models.flat(again)
            ctx.ok("fit_after_refusals", set(a) == set(b) and all(models.same(a[k], b[k]) for k in a),
                   "a valid fit differs after refused calls")
    return run


def group(name):
    return name


def converges(ctx, key, call, *a, **kw):
    try:
        with ctx.quiet():
            return call(*a, **kw)
    except (Skip, StopCase):
        raise
    except Exception as e:
        if "power expansion" in str(e):
            raise Skip("estimate outside the convergent range")
        ctx.fail(key + ".exception", "%s: %s" % (type(e).__name__, e))
        raise StopCase()


def judge(ctx, m, label, over, added, spreg):
    base = converges(ctx, "base." + label, m.call, spreg)
    more = ctx.run("more." + label, m.call, spreg, **over)
    if more is None:
        raise StopCase()
    if label == "NSLX":
        c14.apart(label, base, more)
        lag = [i for i, v in enumerate(base.name_x) if str(v).startswith("W")]
        if len(lag) and np.min(np.abs(base.betas[lag])) < .02:
            raise Skip("a decay parameter of zero leaves its coefficient undetermined")
    a, b = models.flat(base), models.flat(more)
    for d in (a, b):
        for k in [k for k in d if k.startswith("cols2regi")]:
            d.pop(k)
    ctx.ok("attributes." + label, set(a) == set(b), "%s" % sorted(set(a) ^ set(b))[:6])
    for k_ in sorted(set(a) & set(b)):
        va, vb = a[k_], b[k_]
        if k_ in ("nit", "nfev", "njev", "status", "message", "success"):
            continue        # path of the optimiser
        if k_.split(".")[-1] in ("name_q", "name_h"):
            ctx.ok("instrument_names." + label, va == vb, "%s: %.200s / %.200s" % (k_, va, vb))
        elif isinstance(va, str) or isinstance(vb, str):
            ctx.ok("text.%s.%s" % (label, k_), va == vb, "%.200s / %.200s" % (va, vb))
        else:
            va, vb = np.asarray(va, float), np.asarray(vb, float)
            if ctx.ok("shape.%s.%s" % (label, k_), va.shape == vb.shape, "%s %s" % (va.shape, vb.shape)):
                if not ctx.ok("missing.%s.%s" % (label, k_), np.array_equal(np.isfinite(va), np.isfinite(vb)), "not finite elsewhere"):
                    continue
                va, vb = np.where(np.isfinite(va), va, 0.), np.where(np.isfinite(vb), vb, 0.)   # coefficients without inference
                sc = np.nanmax(np.abs(va[np.isfinite(va)])) if np.isfinite(va).any() else 1.
                ctx.close("same.%s.%s" % (label, k_), vb, va, rtol=1e-4 if m.iterative else 1e-6, atol=1e-7 if m.iterative else 1e-9,
                          scale=max(sc, 1. if "z_stat" in k_ and m.iterative else 1e-12))
    text = (more.summary if isinstance(more.summary, str) else "") + str(getattr(more, "warning", "") or "") + " ".join(
        str(w.message) for w in ctx._warns)
    ctx.ok("notice." + label, "constant" in text.lower() and "removed" in text.lower() or all(n in text for n in added),
           "no notice that %s were dropped" % added)
    if m.names:
        ctx.ok("notice_names." + label, all(n in text for n in added), "the notice does not name %s" % added)


def regime_constant(label):
    """separate regressions by regime: a variable constant in one of the regimes is dropped, with a notice"""
    def run(ctx):
        import spreg
        for attempt in range(12):
            try:
                m = models.make(ctx, label, sep=True)
                c10.estimable(m)
                if "Lag" in m.cls or "Combo" in m.cls or m.kw.get("add_wy"):
                    c10.admissible(m)
                break
            except Skip:
                ctx.idx += 1000
        else:
            raise Skip("no estimable instance")
        rng = ctx.rng
        x = np.asarray(m.kw["x"])
        z = rng.normal(size=(m.d.n, 1))
        r = int(rng.integers(m.g.R))
        z[m.g.codes == r] = ctx.pick("value", [0., 1., 7.5])
        at = int(rng.integers(0, x.shape[1] + 1))
        over = {"x": np.hstack([x[:, :at], z, x[:, at:]])}
        if m.names:
            nm = list(m.kw["name_x"])
            nm.insert(at, "flatc")
            over["name_x"] = nm
        elif at < x.shape[1]:
            over["x"] = np.hstack([x, z])       # default names count the columns given
        added = ["flatc"] if m.names else ["var_%d" % (x.shape[1] + 1)]
        ctx.note(regime=str(m.g.names[r]), at=at)
        judge(ctx, m, label, over, added, spreg)
    return run


def constants(label):
    """constant columns among the regressors leave the fit of the others"""
    def run(ctx):
        import spreg
        for attempt in range(6):
            m = c13.instance(ctx, label)
            rng = ctx.rng
            kw = m.kw
            if not (isinstance(kw.get("slx_vars"), list) or isinstance(kw.get("cols2regi"), list)):
                break
            if label == "NSLX":
                kw["slx_vars"], kw["params"] = "All", kw["params"] * np.asarray(kw["x"]).shape[1]
                break
            ctx.idx += 1000
        else:
            raise Skip("lists that count the columns of x")
        x = np.asarray(kw["x"])
        if m.label in models.PANEL and m.layout == "wide":
            T = m.d.T
            k = x.shape[1] // T
            cols = [x[:, j * T:(j + 1) * T] for j in range(k)]
            nm = [kw["name_x"][j * T:(j + 1) * T] for j in range(k)] if m.names else None
        else:
            T, k = 1, x.shape[1]
            cols = [x[:, j:j + 1] for j in range(k)]
            nm = [[v] for v in kw["name_x"]] if m.names else None
        added = []
        for c in range(ctx.pick("constants", [1, 1, 2])):
            val = ctx.pick("value%d" % c, [1., 0., -2.5, 100.])
            at = int(rng.integers(0, len(cols) + 1))
            cols.insert(at, np.full((x.shape[0], T), val))
            name = "flat%s" % "ab"[c]
            added.append(name)
            if nm is not None:
                nm.insert(at, ["%s%d" % (name, t) for t in range(T)] if T > 1 else [name])
        X = np.hstack(cols)
        if X.shape[1] > X.shape[0]:
            raise Skip("more columns than rows")
        form = ctx.pick("form", ["array", "array", "frame"]) if m.names else "array"
        over = {"x": X}
        if nm is not None:
            names = [v for g in nm for v in g]
            if form == "frame":
                over["x"] = pd.DataFrame(X, columns=names)
                over["name_x"] = None
            else:
                over["name_x"] = names
        judge(ctx, m, label, over, added, spreg)
    return run


NARROW = [l for l in models.ALL if l not in models.SURS]


def narrow(ctx):
    """a column that varies little is not a constant: it keeps its coefficient"""
    import spreg
    label = NARROW[ctx.idx % len(NARROW)]
    m = c13.instance(ctx, label)
    base = converges(ctx, "base." + label, m.call, spreg)
    x = np.array(m.kw["x"], float)
    j = int(ctx.rng.integers(x.shape[1]))
    f = 2. ** -int(ctx.rng.integers(20, 36))
    x[:, j] *= f
    try:
        with ctx.quiet():
            other = m.call(spreg, x=x)
    except Exception as e:
        if "constant" in str(e).lower():
            ctx.fail("narrow.refused." + label, "%s: a column with values of the order %g: %s" % (label, f, e))
        raise Skip("not estimable in these units: %s" % type(e).__name__)
    nb = lambda r: [np.asarray(b).size for b in r.betas] if isinstance(r.betas, (list, dict)) else np.asarray(r.betas).size
    ctx.ok("narrow.coefficients." + label, nb(base) == nb(other), "%s of %s coefficients left with a column of the order %g" % (
        nb(other), nb(base), f))
    text = str(getattr(other, "warning", "") or "") + (other.summary if isinstance(other.summary, str) else "")
    had = str(getattr(base, "warning", "") or "") + (base.summary if isinstance(base.summary, str) else "")
    ctx.ok("narrow.notice." + label, "constant" not in text.lower().replace("constant ", "") or "removed" not in text.lower() or
           "removed" in had.lower(), "notice of a dropped constant: %.200s" % text)
    ctx.sig = [label, ctx.idx]
    ctx.note(factor=f)


SUBS = {"narrow": (narrow, len(NARROW), 10 * len(NARROW))}
for _l in models.ALL:
    SUBS["refuse." + _l] = (case(_l), 6, 60)
for _l in models.ALL:
    if _l not in models.SURS:
        SUBS["constant." + _l] = (constants(_l), 5, 40)
for _l in models.REGIMES:
    SUBS["regime_constant." + _l] = (regime_constant(_l), 8, 40)
