"""C10 Chow tests of every regime model: Wald statistics of coefficient equality, looked up by coefficient name."""
import numpy as np
from scipy import stats
from .. import gen, ref, models
from ..core import Skip, StopCase

RULE = ("Every regime estimator (15 labels, separate and pooled errors, subsets of regime-varying regressors, global or "
        "varying constant, 2-3 regimes labelled by strings, digits, integers or floats) on random data; the coefficient "
        "table and covariance are read back by coefficient name and the Wald statistics recomputed; plus relabelled "
        "regimes, and data repeated in every regime, for which all statistics vanish.")
CASE_LIMIT = 60


def fit(ctx, label, **kw):
    """valid regime fit; instances whose model is not estimable are skipped"""
    import spreg
    m = models.make(ctx, label, **kw)
    if not m.kw.get("regime_err_sep", True) and "cols2regi" in m.kw and ctx.pick("const", ["many", "many", "one"]) == "one":
        if any(m.kw["cols2regi"][:m.d.k]):
            m.opt(constant_regi="one")
    estimable(m)
    return m


def estimable(m):
    """no regime may lose (nearly) all of its links, and no regressor be constant in one"""
    g, d = m.g, m.d
    for r in range(g.R):
        i = g.ids(r)
        if np.any(np.ptp(d.x[i], axis=0) == 0) or len(i) < 25:
            raise Skip("regime too small")
        if "w" in m.kw:
            s = d.W[np.ix_(i, i)].sum(1)
            if (s > 0).mean() < .7:
                raise Skip("too few links inside a regime")
            # short chains of neighbours: the higher lags of the regressors inside a regime are collinear
            W = d.W[np.ix_(i, i)]
            if d.ws.transform == "r":
                W = W / np.where(s > 0, s, 1.)[:, None]
            more = m.kw.get("w_lags", 1) + m.kw.get("slx_lags", 0)
            if more > 1:
                X = np.hstack([np.ones((len(i), 1)), d.x[i], ref.lags(W, d.x[i], more)])
                if len(i) <= X.shape[1] or np.linalg.cond(X / np.linalg.norm(X, axis=0)) > 1e6:
                    raise Skip("collinear lags inside a regime")


def admissible(m):
    """IV estimates of the lag coefficient can leave the parameter space, where the reduced form
    (impacts by power expansion, predictions) is not defined: those instances are not judged"""
    d, g = m.d, m.g
    y, x = d.y, d.x
    sets = [g.ids(r) for r in range(g.R)] if m.kw.get("regime_lag_sep") else [np.arange(d.n)]
    for i in sets:
        W = d.W[np.ix_(i, i)]
        if m.kw.get("regime_lag_sep") and m.d.ws.transform == "r":
            s = W.sum(1, keepdims=True)
            W = np.divide(W, s, out=np.zeros_like(W), where=s > 0)
        X = np.hstack([np.ones((len(i), 1)), x[i]])
        if len(sets) == 1:
            X = ref.interact(X, [True] * X.shape[1], g.codes, g.R)
        Xx = X if len(sets) == 1 else x[i]
        Z = np.hstack([X, W @ y[i]])
        H = np.hstack([X, W @ Xx])
        if "yend" in m.kw:
            Z, H = np.hstack([Z, d.yend[i]]), np.hstack([H, d.q[i], W @ d.q[i]])
        P = H @ np.linalg.lstsq(H, Z, rcond=None)[0]
        b = np.linalg.lstsq(P, y[i], rcond=None)[0]
        rho = float(b[X.shape[1], 0])
        if abs(rho) * max(np.abs(W).sum(1).max(), gen.spectral_bounds(W)) > .97:
            raise Skip("estimated spatial coefficient out of bounds")


def table(reg):
    o = reg.output
    return {n: (float(c), float(s) if _num(s) else None) for n, c, s in zip(o["var_names"], o["coefficients"], o["std_err"])}


def _num(v):
    try:
        return np.isfinite(float(v))
    except Exception:
        return False


def positions(ctx, t, vm, pre):
    """name -> row of vm, identified by the standard error the table reports"""
    s = np.sqrt(np.diag(vm))
    out = {}
    for n, (c, se) in t.items():
        if se is None:
            continue
        j = np.flatnonzero(np.abs(s / se - 1) < 1e-9)
        if len(j) == 1:
            out[n] = int(j[0])
        elif len(j) > 1:
            raise Skip("tied standard errors")
        else:
            ctx.ok(pre + "table_se_is_from_vm", False, "%s: %r not among sqrt diag vm" % (n, se))
            raise StopCase()
    return out


def expected(ctx, m, reg, pre):
    g = m.g
    t = table(reg)
    vm = np.asarray(reg.vm, float)
    pos = positions(ctx, t, vm, pre)
    first = g.names[0] + "_"
    bases = [n[len(first):] for n in t if n.startswith(first)]
    bases = [b for b in bases if (first + b) in pos]
    for b in bases:
        for nm in g.names:
            if not ctx.ok(pre + "every_regime_has_the_coefficient", "%s_%s" % (nm, b) in pos, "%s_%s missing" % (nm, b)):
                raise StopCase()
    bases.sort(key=lambda b: pos[first + b])
    b = np.zeros((vm.shape[0], 1))
    for n, i in pos.items():
        b[i, 0] = t[n][0]
    out, allp = [], []
    for nm in bases:
        pr = [(pos[g.names[0] + "_" + nm], pos[o + "_" + nm]) for o in g.names[1:]]
        out.append(ref.hetero_wald_chow(b, vm, pr))
        allp += pr
    if not bases:
        raise Skip("nothing varies")
    V = np.array([[vm[i, j] for j in range(len(vm))] for i in range(len(vm))])
    dg = np.sqrt(np.diag(V))
    if np.linalg.cond(V / np.outer(dg, dg)) > 1e9:
        raise Skip("near singular covariance")
    return bases, out, ref.hetero_wald_chow(b, vm, allp), len(allp)


def shifted(nr, reg, got, w):
    """the recorded defect, recognised exactly: with endogenous coefficients by regime and
    global exogenous ones, restrictions on the former are placed ignoring the latter"""
    kryd, kr = int(getattr(reg, "kryd", 0)), int(reg.kr)
    if kryd == 0 or "multi" in vars(reg) or got.shape != (len(w), 2):
        return False
    if np.allclose(got[:, 0], w, rtol=1e-6, atol=1e-9):
        return False
    vm = np.asarray(reg.vm, float)
    b = np.asarray(reg.betas, float)[:len(vm)]
    kex = kr - kryd
    want = []
    for v in range(kr):
        p0, st = (v, kex) if v < kex else (kex * (nr - 1) + v, kryd)
        want.append(ref.hetero_wald_chow(b, vm, [(p0, p0 + st * (j + 1)) for j in range(nr - 1)])[0])
    return (np.allclose(got[:, 0], want, rtol=1e-6, atol=1e-9) and
            np.allclose(got[:kex, 0], w[:kex], rtol=1e-6, atol=1e-9))


def judge(ctx, m, reg):
    pre = ("multi." if "multi" in vars(reg) else "pooled.")
    ctx.cfg["path"] = pre[:-1]
    bases, each, joint, df = expected(ctx, m, reg, pre)
    ctx.note(bases=bases, joint=joint[0])
    got = np.asarray(reg.chow.regi, float)
    if shifted(m.g.R, reg, got, np.array([e[0] for e in each])):
        ctx.fail(pre + "endogenous-rows-shifted-by-global-exogenous",
                 "rows %s expected %s" % (got[:, 0], [e[0] for e in each]))
        raise StopCase()
    if ctx.ok(pre + "one_row_per_varying_coefficient", got.shape == (len(bases), 2), "%s rows for %s" % (got.shape, bases)):
        w = np.array([e[0] for e in each])
        ctx.close(pre + "chow_each", got[:, 0] / np.maximum(w, 1e-12), np.ones(len(w)), rtol=0,
                  atol=1e-6) if w.min() > 1e-9 else None
        ctx.close(pre + "chow_each_p", got[:, 1], [e[1] for e in each], rtol=0, atol=1e-7)
    ctx.close(pre + "chow_joint", reg.chow.joint[0], joint[0], rtol=1e-6)
    ctx.close(pre + "chow_joint_p", reg.chow.joint[1], joint[1], rtol=0, atol=1e-7)
    # what the user reads
    oc = getattr(reg, "output_chow", None)
    if ctx.ok(pre + "output_chow_exists", oc is not None, "no Chow table"):
        want = bases + ["Global test"]
        names = list(oc["var_names"])
        ctx.ok(pre + "output_chow_names", names == want, "%s vs %s" % (names, want))
        if len(oc) == len(want):
            ctx.close(pre + "output_chow_values", np.asarray(oc["value"], float), [e[0] for e in each] + [joint[0]],
                      rtol=1e-6)
            ctx.close(pre + "output_chow_p", np.asarray(oc["prob"], float), [e[1] for e in each] + [joint[1]], rtol=0, atol=1e-7)
            ctx.ok(pre + "output_chow_df", list(oc["df"]) == [m.g.R - 1] * len(bases) + [df],
                   "%s for %d regimes, %d restrictions" % (list(oc["df"]), m.g.R, df))
    txt = reg.summary
    if ctx.ok(pre + "summary_has_chow_section", "CHOW TEST" in txt, "no Chow section in the summary"):
        sec = txt[txt.index("CHOW TEST"):].splitlines()[2:2 + len(bases) + 1]
        rows = []
        for ln in sec:
            f = ln.rsplit(None, 3)
            rows.append((f[0].strip(), f[1], f[2], f[3]) if len(f) == 4 else None)
        want = [(n, "%d" % (m.g.R - 1), "%.3f" % e[0], "%.4f" % e[1]) for n, e in zip(bases, each)]
        want.append(("Global test", "%d" % df, "%.3f" % joint[0], "%.4f" % joint[1]))
        good = all(r is not None and r[0] == w[0][-25:] and r[1] == w[1] and abs(float(r[2]) - float(w[2])) < 2e-3 and
                   abs(float(r[3]) - float(w[3])) < 2e-4 for r, w in zip(rows, want))
        ctx.ok(pre + "summary_chow_lines", good, "%s vs %s" % (rows, want))
    return bases, each, joint


def mk(label):
    def case(ctx):
        import spreg
        m = fit(ctx, label)
        ctx.sig = [m.d.n, m.g.R, round(float(np.sum(m.d.y)), 5)]
        if m.cls == "GM_Lag_Regimes" or "Combo" in m.cls or m.kw.get("add_wy"):
            admissible(m)
        reg = ctx.run("fit", m.call, spreg)
        bases, each, joint = judge(ctx, m, reg)
        if ctx.pick("relabel", [True, False, False]):
            # reverse the sorting order of the labels: same hypotheses, same statistics
            import copy
            g2 = copy.copy(m.g)
            R = m.g.R
            new = [{0: "zz", 1: "mm", 2: "aa", 3: "A"}[r] for r in range(R)]
            g2.labels = [new[c] for c in m.g.codes]
            g2.arg = g2.labels
            g2.codes = R - 1 - m.g.codes
            g2.names = g2.keys = new[::-1]
            m2 = copy.copy(m)
            m2.g = g2
            reg2 = ctx.run("relabelled", m.call, spreg, regimes=g2.arg)
            w = np.array([e[0] for e in each] + [joint[0]])
            got = list(np.asarray(reg2.chow.regi)[:, 0]) + [reg2.chow.joint[0]]
            tol = 2e-3 if m.iterative else 1e-5
            ctx.close("relabelled.same_statistics", np.array(got) / (w + .05), w / (w + .05), rtol=0, atol=tol)
    return case


def case_same(ctx):
    """the same sample in every regime: coefficients agree, the tests must be zero"""
    import spreg
    label = ctx.pick("label", models.REGIMES)
    m = models.make(ctx, label)
    d = m.d
    R = ctx.pick("copies", [2, 3])
    kw = {}
    for k, role in m.roles.items():
        if role in ("y", "x", "yend", "q"):
            kw[k] = np.vstack([m.kw[k]] * R)
        elif role == "w":
            kw[k] = gen.make_w(np.kron(np.eye(R), d.W), None, "o").w
    kw["regimes"] = list(np.repeat(["p", "a", "k"][:R], d.n))
    if m.kw.get("w") is None and "spat_diag" in m.kw:
        kw["spat_diag"] = False
    if m.kw.get("method") == "ord":
        kw["method"] = "full"
    if np.linalg.cond(d.X / np.linalg.norm(d.X, axis=0)) > 1e3:
        raise Skip("ill-conditioned")
    reg = ctx.run("fit", m.call, spreg, **kw)
    path = "multi" if "multi" in vars(reg) else "pooled"
    ctx.sig = [d.n, R, round(float(np.sum(d.y)), 5)]
    got = np.asarray(reg.chow.regi, float)
    if shifted(R, reg, got, np.zeros(len(got))):
        ctx.fail("pooled.endogenous-rows-shifted-by-global-exogenous", "rows %s expected zeros" % got[:, 0])
        return
    tol = 1e-6
    ctx.ok(path + ".zero_each", np.all(np.abs(got[:, 0]) < tol), "statistics %s" % got[:, 0])
    ctx.ok(path + ".zero_joint", abs(reg.chow.joint[0]) < tol * 10, "joint %s" % (reg.chow.joint,))
    ctx.ok(path + ".p_one", np.all(got[:, 1] > .99) and reg.chow.joint[1] > .99, "p %s %s" % (got[:, 1], reg.chow.joint))


SUBS = {l: (mk(l), 14, 300) for l in models.REGIMES}
SUBS["same_sample"] = (case_same, 45, 900)
