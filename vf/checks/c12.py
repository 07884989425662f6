"""C12 purity: arguments untouched, repeated and interleaved fits bit-for-bit equal, results not aliased."""
import copy
import numpy as np
import pandas as pd
from .. import gen, models
from ..core import Skip, StopCase

RULE = ("Every public estimator (models.ALL) with arguments in every accepted container; a deep fingerprint of each argument "
        "is compared before and after, the fit is repeated on the same objects after another random fit shared them, "
        "and everything reachable from both result objects is compared bitwise; plus diagnostics, clustering, searches, "
        "generators called on shared objects.")
CASE_LIMIT = 90
FRESH = 8          # the registry is spread over this many fresh interpreters


def snap(o, depth=0):
    """fingerprint of everything a caller can observe about an argument"""
    import libpysal
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ("nd", o.shape, repr(o.tolist()))
        return ("nd", o.shape, str(o.dtype), o.flags.writeable, o.tobytes())
    if isinstance(o, (pd.Series,)):
        return ("series", o.name, tuple(o.index), str(o.dtype), repr(list(o)))
    if isinstance(o, pd.DataFrame):
        return ("frame", tuple(map(str, o.columns)), tuple(o.index), tuple(map(str, o.dtypes)), o.to_numpy().tobytes()
                if o.to_numpy().dtype != object else repr(o.to_numpy().tolist()))
    if isinstance(o, libpysal.weights.W):
        sp = o.sparse.tocsr()
        return ("W", o.transform, tuple(o.id_order), repr(sorted(((k, tuple(v)) for k, v in o.neighbors.items()), key=repr)),
                repr(sorted(((k, tuple(v)) for k, v in o.weights.items()), key=repr)), sp.data.tobytes(), sp.indices.tobytes(),
                sp.indptr.tobytes())
    if isinstance(o, dict):
        return ("dict", tuple((k, snap(v, depth + 1)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(snap(v, depth + 1) for v in o))
    if hasattr(o, "tocsr") and hasattr(o, "shape"):
        c = o.tocsr()
        return ("sparse", type(o).__name__, o.shape, c.data.tobytes(), c.indices.tobytes(), c.indptr.tobytes())
    if isinstance(o, (int, float, str, bool, type(None), np.generic)):
        return (type(o).__name__, repr(o))
    return ("obj", type(o).__name__)


def compare(ctx, key, before, args):
    for k, v in args.items():
        ctx.ok("%s.%s_untouched" % (key, ctx_role(k)), snap(v) == before[k], "argument %s of %s was changed" % (k, key))


def ctx_role(k):
    return k


def container(ctx, m):
    """give each argument in one of the containers the front end accepts"""
    rng = ctx.rng
    kw = m.kw
    form = ctx.pick("form", ["arrays", "one-dim", "pandas", "arrays"])
    if m.label in models.SURS:
        return
    ids = list(range(m.d.n))
    for k, role in list(m.roles.items()):
        v = kw[k]
        if role == "y":
            if form == "one-dim":
                kw[k] = v.ravel().copy()
            elif form == "pandas":
                kw[k] = pd.Series(v.ravel(), name="crime")
        elif role in ("x", "yend", "q"):
            if form == "one-dim" and v.shape[1] == 1:
                kw[k] = v.ravel().copy()
            elif form == "one-dim":
                kw[k] = np.asfortranarray(v)
            elif form == "pandas":
                kw[k] = pd.DataFrame(v, columns=["%s%d" % (k, i) for i in range(v.shape[1])])
        elif role == "regimes":
            c = ctx.pick("regform", ["list", "array", "series"])
            if c == "array":
                kw[k] = np.array(v)
            elif c == "series":
                kw[k] = pd.Series(v, name="region")


def differ(a, b):
    out = []
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b:
            out.append(k + " (only in one)")
        elif not models.same(a[k], b[k]):
            out.append(k)
    return out


OTHERS = ["OLS", "OLS_slx", "GM_Lag", "ML_Lag", "ML_Error", "GM_Error", "GM_Error_Het", "GM_Combo"]


def other_fit(spreg, m, rng):
    """another model on the very same objects"""
    kw = {k: m.kw[k] for k, r in m.roles.items() if r in ("y", "x", "w")}
    if "w" not in kw or m.label in models.SURS + models.PANEL:
        kw = dict(m.kw)
        return getattr(spreg, m.cls)(**kw)
    which = OTHERS[int(rng.integers(len(OTHERS)))]
    try:
        if which == "OLS":
            spreg.OLS(spat_diag=True, moran=True, **kw)
        elif which == "OLS_slx":
            spreg.OLS(slx_lags=1, **kw)
        elif which.startswith("ML"):
            getattr(spreg, which)(method=["full", "LU", "ord"][int(rng.integers(3))], **kw)
        else:
            getattr(spreg, which)(**kw)
    except Exception:
        pass           # not estimable on these data: irrelevant here


def mk(label):
    def case(ctx):
        import spreg
        m = models.make(ctx, label)
        if m.g is not None and label not in models.SURS:
            from . import c10
            c10.estimable(m)
            if "Lag" in m.cls or "Combo" in m.cls or m.kw.get("add_wy"):
                c10.admissible(m)
        container(ctx, m)
        d = m.d
        ctx.sig = [d.n, label, ctx.idx]
        before = {k: snap(v) for k, v in m.kw.items()}
        rs = np.random.get_state()[1].tobytes()
        opts = {k: ("opt", np.geterr(), np.get_printoptions()["precision"], np.get_printoptions()["suppress"]) for k in ["np"]}
        try:
            with ctx.quiet():
                m.call(spreg)
        except np.linalg.LinAlgError:
            if label == "Panel_RE_Error":       # its covariance matrix can be singular: see C21
                raise Skip("singular covariance of the deprecated random effects model")
        except Exception as e:
            if "power expansion" in str(e) and m.cls.startswith("GM_Lag") and m.kw["w"].transform != "R":
                raise Skip("reduced form out of reach of the power expansion")
        r1 = ctx.run("fit", m.call, spreg)
        compare(ctx, "fit", before, m.kw)
        ctx.ok("fit.numpy_state_untouched", opts["np"] == ("opt", np.geterr(), np.get_printoptions()["precision"],
                                                            np.get_printoptions()["suppress"]))
        a1 = models.flat(r1)
        if not ctx.ok("result_readable", len(a1) > 8, "only %d values" % len(a1)):
            return
        compare(ctx, "reading", before, m.kw)
        with ctx.quiet():
            other_fit(spreg, m, ctx.rng)
        compare(ctx, "other_fit", before, m.kw)
        b1 = models.flat(r1)
        ctx.ok("first_result_unchanged_by_later_fits", not differ(a1, b1), "changed: %s" % differ(a1, b1)[:5])
        r2 = ctx.run("fit_again", m.call, spreg)
        a2 = models.flat(r2)
        ctx.ok("same_result_again", not differ(a1, a2), "differs in %s" % differ(a1, a2)[:6])
        ctx.ok("same_summary_again", getattr(r1, "summary", "") == getattr(r2, "summary", ""), "summaries differ")
        # a caller who later changes the inputs must not change a finished coefficient table
        cp = {k: copy.deepcopy(v) for k, v in m.kw.items()}
        r3 = ctx.run("fit_on_copies", getattr(spreg, m.cls), **cp)
        a3 = models.flat(r3)
        ctx.ok("same_result_on_copies", not differ(a1, a3), "differs in %s" % differ(a1, a3)[:6])
        ctx.note(values=len(a1))
    return case


def case_diagnostics(ctx):
    """diagnostic functions leave the regression, the weights and the data as they were"""
    import spreg
    m = models.make(ctx, "OLS", names=False)
    d = m.d
    y, x, w = d.y, d.x, d.w
    before = {k: snap(v) for k, v in (("y", y), ("x", x), ("w", w))}
    with ctx.quiet():
        ols = spreg.OLS(y, x)
    a = models.flat(ols)
    fns = {"f_stat": lambda: spreg.f_stat(ols), "t_stat": lambda: spreg.t_stat(ols), "r2": lambda: spreg.r2(ols),
           "ar2": lambda: spreg.ar2(ols), "akaike": lambda: spreg.akaike(ols), "schwarz": lambda: spreg.schwarz(ols),
           "condition_index": lambda: spreg.condition_index(ols), "jarque_bera": lambda: spreg.jarque_bera(ols),
           "breusch_pagan": lambda: spreg.breusch_pagan(ols), "white": lambda: spreg.white(ols),
           "koenker_bassett": lambda: spreg.koenker_bassett(ols), "vif": lambda: spreg.vif(ols),
           "LMtests": lambda: [getattr(spreg.LMtests(ols, w), t) for t in ("lme", "lml", "rlme", "rlml", "sarma")],
           "MoranRes": lambda: vars(spreg.MoranRes(ols, w, z=True))}
    names = list(fns)
    first = {}
    for n in names:
        first[n] = repr(ctx.run(n, fns[n]))
        for k, v in (("y", y), ("x", x), ("w", w)):
            ctx.ok("%s.%s_untouched" % (n, k), snap(v) == before[k], "%s changed %s" % (n, k))
    for n in ctx.rng.permutation(names):
        ctx.ok("same_diagnostic_again", repr(ctx.run(n, fns[n])) == first[n], "%s differs when repeated in another order" % n)
    b = {k: v for k, v in models.flat(ols).items() if k in a}
    ctx.ok("regression_unchanged", not differ(a, b), "changed %s" % differ(a, b)[:5])
    ctx.sig = [d.n, ctx.idx]


def case_tools(ctx):
    """searches, clustering, generators, multipliers on shared objects"""
    import spreg
    rng = ctx.rng
    tool = ctx.pick("tool", ["stge_classic", "stge_kb", "stge_pre", "gets_gns", "gets_sdm", "skater", "dgp", "spmult", "nslx"])
    m = models.make(ctx, "GM_Lag", transform=ctx.pick("tr", ["r", "o", "b"]) if tool == "skater" else "r", names=False, kmin=2)
    d = m.d
    y, x, w = d.y, d.x, d.w
    before = {k: snap(v) for k, v in (("y", y), ("x", x), ("w", w))}
    ctx.sig = [d.n, tool, ctx.idx]

    def search(f, **kw):
        def go():
            r = f(y, x, w, **kw)
            return [(type(v).__name__, sorted((a, repr(b)) for a, b in models.flat(v).items()) if hasattr(v, "betas") else repr(v)[:80])
                    for v in r if v is not None and not isinstance(v, list)]
        return go
    s = sys_spsearch()
    if tool in ("stge_classic", "stge_kb", "stge_pre", "gets_gns", "gets_sdm"):
        f = search(getattr(s, tool), mprint=False)
    elif tool == "skater":
        def f():
            sk = spreg.Skater_reg()
            r = sk.fit(3, w, data, dreg, quorum=12)
            return [list(r.current_labels_), [repr(t) for t in r._trace]]
        data = d.x.copy()
        before["data"] = snap(data)
        dreg = {"reg": spreg.OLS, "y": y, "x": x}
        if ctx.pick("skreg", ["OLS", "GM_Lag"]) == "GM_Lag":
            dreg = {"reg": spreg.GM_Lag, "y": y, "x": x, "w": w}
        before["dreg"] = snap(dreg)
    elif tool == "dgp":
        u = spreg.dgp_errproc(d.n, .5) if False else rng.normal(size=(d.n, 1))
        before["u"] = snap(u)

        def f():
            xb = spreg.make_xb(x, list(range(1, x.shape[1] + 2)))
            wx = spreg.make_wx(x, w)
            wxg = spreg.make_wxg(wx, [.5] * wx.shape[1])
            return [a.tobytes() for a in (spreg.dgp_lag(u, xb, w, .4), spreg.dgp_slx(u, xb, wxg),
                                           spreg.dgp_sperror(u, xb, w, .3), spreg.dgp_slxerror(u, xb, wxg, w, .3),
                                           spreg.dgp_lagerr(u, xb, w, .3, .2))]
    elif tool == "spmult":
        def f():
            return [repr(spreg.spmultiplier(w, r, method=k)) for r in (.3, .6) for k in ("simple", "full", "power")]
    else:
        c = rng.uniform(0, 10, (d.n, 2))
        before["c"] = snap(c)

        def f():
            r = spreg.NSLX(y, x, c, params=[(6, np.inf, "exponential")], slx_vars=[True] + [False] * (d.k - 1))
            return sorted((a, repr(b)) for a, b in models.flat(r).items())
    if tool == "skater":
        try:
            with ctx.quiet():
                f()
        except np.linalg.LinAlgError:
            if "w" in dreg and d.k > 3:          # about as many coefficients as observations in the smallest clusters
                raise Skip("lag model too large for the clusters")
        except ValueError as e:
            if "score increased" in str(e) or "Islands must be larger" in str(e):     # documented refusals
                raise Skip("refused: " + str(e)[:40])
    one = ctx.run(tool, f)
    for k in before:
        v = {"y": y, "x": x, "w": w, "u": locals().get("u"), "c": locals().get("c"), "data": locals().get("data"),
             "dreg": locals().get("dreg")}[k]
        ctx.ok("%s.%s_untouched" % (tool, k), snap(v) == before[k], "%s changed %s" % (tool, k))
    two = ctx.run(tool + ".again", f)
    ctx.ok(tool + ".same_result_again", one == two, "repeated call differs")


def case_fresh(ctx):
    """the same fits in a fresh interpreter whose string hashes (the order of every set of names) differ"""
    import json
    import os
    import subprocess
    import sys
    from .. import core, fresh
    part = ctx.idx % FRESH
    labels = models.ALL[part::FRESH]
    ctx.cfg["part"] = part
    here = fresh.digests(ctx.seed, ctx.idx, labels)
    env = dict(os.environ)
    hs = str(1 + (ctx.idx * 7 + ctx.seed) % 1000)
    env["PYTHONHASHSEED"] = hs
    r = subprocess.run([sys.executable, "-m", "vf.fresh", str(ctx.seed), str(ctx.idx)] + labels, cwd=core.VERIF, env=env,
                       capture_output=True, text=True, timeout=CASE_LIMIT - 15)
    line = [t for t in r.stdout.splitlines() if t.startswith("DIGESTS ")]
    if not line:
        raise RuntimeError("fresh interpreter gave no result: " + r.stderr[-300:])
    there = json.loads(line[-1][8:])
    ctx.ok("same_models", sorted(here) == sorted(there), "fitted %s / %s" % (sorted(here), sorted(there)))
    n = 0
    for label in sorted(set(here) & set(there)):
        a, b = here[label], there[label]
        bad = sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
        ctx.ok("fresh_interpreter.%s" % label, not bad, "PYTHONHASHSEED %s: %s differ" % (hs, bad[:6]))
        n += len(a)
    if not n:
        raise Skip("nothing fitted")
    ctx.note(values=n)
    ctx.sig = [ctx.idx, n]


def sys_spsearch():
    import importlib
    return importlib.import_module("spreg.spsearch")


SUBS = {l: (mk(l), 5 if l in models.PANEL + models.SURS else 6, 90) for l in models.ALL}
SUBS["diagnostics"] = (case_diagnostics, 12, 150)
SUBS["tools"] = (case_tools, 27, 270)
SUBS["fresh"] = (case_fresh, 5, 80)
