"""C29 coherence: names, tables, covariance, residuals and the printed report of one result describe the same numbers."""
import re
import inspect
import numpy as np
from scipy import stats
from .. import gen, models
from ..core import Skip
from . import c13, c09

RULE = ("Every public estimator with and without names and with random options; the columns named in the result are rebuilt from the "
        "caller's data by name and compared with the result's matrices and, weighted by the coefficients, with its predictions; the "
        "table is recomputed from coefficients and covariance; the printed report (also the LaTeX variant) is parsed block by block "
        "and every number in it compared at printed precision with the result.")
CASE_LIMIT = 90
NUM = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)"


def val(v):
    return float(np.asarray(v, float).reshape(-1)[0])


def printed(text, v):
    """text is v at the printed precision"""
    v = val(v)
    if text in ("nan", "inf", "-inf"):
        return not np.isfinite(v)
    try:
        t = float(text)
    except ValueError:
        return False
    m = re.match(r"[-+]?(\d+)(?:\.(\d*))?(?:[eE]([-+]?\d+))?$", text)
    if m.group(3):
        half = .5 * 10.0 ** (int(m.group(3)) - len(m.group(2) or ""))
    else:
        half = .5 * 10.0 ** (-len(m.group(2) or ""))
    return abs(t - v) <= half * 1.0001 + 1e-9 * abs(v)


class Judge:
    def __init__(self, ctx, m, r):
        self.ctx, self.m, self.r = ctx, m, r
        self.count = 0
        self.unknown = set()

    def num(self, key, text, v, what=""):
        self.count += 1
        self.ctx.ok(key, printed(text, v), "%s printed as %s, is %.10g" % (what, text, val(v)))

    def word(self, key, text, v):
        self.count += 1
        self.ctx.ok(key, str(text).strip() == str(v).strip(), "printed %r, is %r" % (text, str(v)))


# ------------------------------------------------------------------ columns by name
def columns(m, rows=None, W=None, base=None):
    """function name -> list of candidate columns built from the caller's data"""
    d = m.d
    n = m.kw["y"].shape[0] if "y" in m.kw and hasattr(m.kw["y"], "shape") else d.n
    kw = m.kw
    user = {"CONSTANT": np.ones(n)}
    x = np.asarray(kw["x"], float)
    nx = kw.get("name_x") or ["var_%d" % (i + 1) for i in range(x.shape[1])]
    for i, v in enumerate(nx):
        user[v] = x[:, i]
    ny = kw.get("name_y") or "dep_var"
    user[ny] = np.asarray(kw["y"], float).ravel()
    if kw.get("yend") is not None:
        ye = np.asarray(kw["yend"], float)
        for i, v in enumerate(kw.get("name_yend") or ["endogenous_%d" % (i + 1) for i in range(ye.shape[1])]):
            user[v] = ye[:, i]
        q = np.asarray(kw["q"], float)
        for i, v in enumerate(kw.get("name_q") or ["instrument_%d" % (i + 1) for i in range(q.shape[1])]):
            user[v] = q[:, i]
    if rows is None:
        rows = np.arange(n)
    user = {k: v[rows] for k, v in user.items()}

    def plain(name):
        if name in user:
            return [user[name]]
        mt = re.match(r"W(\d*)_(.*)$", name)
        if mt and mt.group(2) in user and W is not None:
            v = user[mt.group(2)]
            for _ in range(int(mt.group(1) or 1)):
                v = W @ v
            return [v]
        return None

    def find(name):
        c = plain(name)
        if c is not None:
            return c
        if m.g is None:
            return None
        for j, lab in enumerate(m.g.names):
            pre = str(lab) + "_"
            if name.startswith(pre):
                mask = (m.g.codes == j).astype(float)[rows]
                b = name[len(pre):]
                c = plain(b)
                if c is None:
                    continue
                out = [mask * c[0]]
                mt = re.match(r"W(\d*)_(.*)$", b)
                if mt and W is not None:                     # lags of the interacted variable
                    v = mask * user[mt.group(2)]
                    for _ in range(int(mt.group(1) or 1)):
                        v = W @ v
                    out.append(v)
                    Wr = W * np.outer(mask, mask)
                    if np.any(Wr):
                        s = Wr.sum(1)
                        Wn = Wr / np.where(s == 0, 1, s)[:, None]
                        for ww in (Wn, Wr):
                            v = mask * user[mt.group(2)]
                            for _ in range(int(mt.group(1) or 1)):
                                v = ww @ v
                            out.append(v)
                return out
        if name.startswith("_Global_"):
            return plain(name[len("_Global_"):])
        return None
    return find


def dense(a):
    return np.asarray(a.todense()) if hasattr(a, "todense") else np.asarray(a, float)


def match_columns(J, key, mat, names, find):
    ctx = J.ctx
    mat = dense(mat)
    if not ctx.ok(key + ".count", len(names) >= mat.shape[1], "%d names for %d columns: %s" % (len(names), mat.shape[1], names)):
        return
    for j in range(mat.shape[1]):
        c = find(names[j])
        if c is None:
            J.unknown.add("col:" + names[j])
            continue
        J.count += 1
        s = np.max(np.abs(mat[:, j])) + 1e-300
        ctx.ok(key, any(len(v) == len(mat) and np.max(np.abs(v - mat[:, j])) <= 1e-8 * s for v in c),
               "column %d is not %s" % (j, names[j]))


# ------------------------------------------------------------------ one result object (whole fit or one regime's)
def inference(o):
    b = np.asarray(o.betas, float).ravel()
    vm = np.asarray(o.vm, float)
    return b, np.sqrt(np.diag(vm))


def rows_of(J, o, names, key):
    """recompute the table of one object: list of (name, coef, se, stat, p), last four None without inference"""
    ctx = J.ctx
    with np.errstate(invalid="ignore"):
        b, se = inference(o)
        cls = type(o).__name__
        dist = stats.t(o.n - o.k) if "OLS" in cls else stats.norm
        st = b[:len(se)] / se
        p = 2 * dist.sf(np.abs(st))
    if not ctx.ok(key + ".names", len(names) == len(b), "%d names for %d coefficients: %s" % (len(names), len(b), names)):
        return None
    out = []
    for i in range(len(b)):
        out.append((names[i], b[i]) + ((se[i], st[i], p[i]) if i < len(se) else (None, None, None)))
    se_attr = np.asarray(o.std_err, float).ravel()
    k = len(se)
    ctx.close(key + ".std_err", se_attr[:k], se, rtol=1e-8)
    zt = getattr(o, "z_stat", None)
    if zt is None:
        zt = o.t_stat
    zt = np.array([[float(a), float(c)] for a, c in zt])[:k]
    good = np.isfinite(st)
    ctx.close(key + ".stat", zt[good, 0], st[good], rtol=1e-7)
    ctx.close(key + ".prob", zt[good, 1], p[good], rtol=0, atol=1e-8)
    J.count += 3 * k
    return out


def frame(J, o, df, rows, key):
    """a data frame of the output table against the recomputed rows"""
    ctx = J.ctx
    order = list(df.index)
    if not ctx.ok(key + ".rows", len(df) == len(rows), "%d rows for %d coefficients" % (len(df), len(rows))):
        return
    lo = min(order)
    for pos, i in enumerate(order):
        want = rows[i - lo]
        got = df.iloc[pos]
        J.count += 1
        ctx.ok(key + ".name", got["var_names"] == want[0], "%r vs %r" % (got["var_names"], want[0]))
        ctx.close(key + ".coef", float(got["coefficients"]), want[1], rtol=1e-9)
        for c, w in zip(("std_err", "zt_stat", "prob"), want[2:]):
            if w is None:
                ctx.ok(key + ".no_inference", got[c] is None or not np.isfinite(float(got[c])), "%s for %s" % (c, want[0]))
            elif np.isfinite(w):
                ctx.close(key + "." + c, float(got[c]), w, rtol=1e-7, atol=1e-8 if c == "prob" else 0, scale=max(abs(w), 1e-12))


def sizes(J, o, key, y, k=None):
    ctx = J.ctx
    ctx.ok(key + ".n", o.n == len(y), "n=%s for %d observations" % (o.n, len(y)))
    ctx.close(key + ".mean_y", val(o.mean_y), y.mean(), rtol=1e-9, scale=np.abs(y).max())
    ctx.close(key + ".std_y", val(o.std_y), y.std(ddof=1), rtol=1e-9)
    if hasattr(o, "utu") and hasattr(o, "u"):
        u = np.asarray(o.u, float)
        try:
            ctx.close(key + ".utu", val(o.utu), float((u * u).sum()), rtol=1e-8)
        except AttributeError:
            pass
    J.count += 3


# ------------------------------------------------------------------ the printed report
FIELDS = {
    "Data set": ("w", lambda o, r: o.name_ds), "Weights matrix": ("w", lambda o, r: o.name_w),
    "Dependent Variable": ("w", lambda o, r: o.name_y),
    "Number of Observations": ("n", lambda o, r: o.n), "Number of Variables": ("n", lambda o, r: o.k),
    "Degrees of Freedom": ("n", lambda o, r: o.n - o.k),
    "Mean dependent var": ("n", lambda o, r: np.mean(o.y)), "S.D. dependent var": ("n", lambda o, r: np.std(o.y, ddof=1)),
    "R-squared": ("n", lambda o, r: o.r2), "Adjusted R-squared": ("n", lambda o, r: o.ar2),
    "Pseudo R-squared": ("n", lambda o, r: o.pr2), "Spatial Pseudo R-squared": ("n", lambda o, r: o.pr2_e),
    "Sum squared residual": ("n", lambda o, r: (np.asarray(o.u) ** 2).sum()),
    "F-statistic": ("n", lambda o, r: o.f_stat[0]), "Prob(F-statistic)": ("n", lambda o, r: o.f_stat[1]),
    "Sigma-square": ("n", lambda o, r: o.sig2), "S.E. of regression": ("n", lambda o, r: np.sqrt(o.sig2)),
    "Sigma-square ML": ("n", lambda o, r: o.sig2ML if hasattr(o, "sig2ML") else o.sig2),
    "S.E of regression ML": ("n", lambda o, r: np.sqrt(o.sig2ML)), "S.E of regression": ("n", lambda o, r: np.sqrt(o.sig2)),
    "Log likelihood": ("n", lambda o, r: o.logll if hasattr(o, "logll") else o.ll),
    "Akaike info criterion": ("n", lambda o, r: o.aic), "Schwarz criterion": ("n", lambda o, r: o.schwarz),
    "Fixed-effects mean": ("n", lambda o, r: o.mean_mu_i),
    "N. of iterations": ("n", lambda o, r: o.iteration if hasattr(o, "iteration") else o.niter),
    "Step1c computed": ("w", lambda o, r: "Yes" if o.step1c else "No"), "A1 type": ("w", lambda o, r: o.A1),
    "Overall SSR": ("n", lambda o, r: (np.asarray(o.u) ** 2).sum()), "Number of clusters": ("n", lambda o, r: o.nr),
    "True positive rate": ("n", lambda o, r: o.fit["TPR"]), "True negative rate": ("n", lambda o, r: o.fit["TNR"]),
    "Balanced accuracy": ("n", lambda o, r: o.fit["BA"]), "% correctly pred.": ("n", lambda o, r: o.fit["PREDPC"]),
    "Log-Likelihood": ("n", lambda o, r: o.logl), "LR test": ("n", lambda o, r: o.LR[0]),
    "LR test (p-value)": ("n", lambda o, r: o.LR[1]), "McFadden's rho": ("n", lambda o, r: o.mcfadrho),
    "Distance metric": ("w", lambda o, r: o.distance_metric),
    "Number of Equations": ("n", lambda o, r: o.n_eq), "Number of Iterations": ("n", lambda o, r: o.niter),
    "Log likelihood (SUR)": ("n", lambda o, r: o.llik), "Log likel. (error)": ("n", lambda o, r: o.errllik),
    "Log likel. (SUR error)": ("n", lambda o, r: o.surerrllik),
}
TESTS = {
    "Jarque-Bera": lambda o: (o.jarque_bera["df"], o.jarque_bera["jb"], o.jarque_bera["pvalue"]),
    "Breusch-Pagan test": lambda o: (o.breusch_pagan["df"], o.breusch_pagan["bp"], o.breusch_pagan["pvalue"]),
    "Koenker-Bassett test": lambda o: (o.koenker_bassett["df"], o.koenker_bassett["kb"], o.koenker_bassett["pvalue"]),
    "White": lambda o: (o.white["df"], o.white["wh"], o.white["pvalue"]),
    "Moran's I (error)": lambda o: o.moran_res, "Lagrange Multiplier (lag)": lambda o: (1,) + tuple(o.lm_lag),
    "Robust LM (lag)": lambda o: (1,) + tuple(o.rlm_lag), "Lagrange Multiplier (error)": lambda o: (1,) + tuple(o.lm_error),
    "Robust LM (error)": lambda o: (1,) + tuple(o.rlm_error), "Lagrange Multiplier (SARMA)": lambda o: (2,) + tuple(o.lm_sarma),
    "LM test for WX": lambda o: (o.k - 1,) + tuple(o.lm_wx), "Robust LM WX test": lambda o: (o.k - 1,) + tuple(o.rlm_wx),
    "Robust LM Lag - SDM": lambda o: (1,) + tuple(o.rlm_durlag), "Joint test for SDM": lambda o: (o.k,) + tuple(o.lm_spdurbin),
    "Anselin-Kelejian Test": lambda o: (1,) + tuple(o.ak_test), "Durbin-Wu-Hausman test": lambda o: (None,) + tuple(o.dwh),
    "Common Factor Hypothesis Test": lambda o: (None,) + tuple(o.cfh_test),
    "Kelejian-Prucha (error)": lambda o: (1,) + tuple(o.KP_error), "Pinkse (error)": lambda o: (1,) + tuple(o.Pinkse_error),
    "Pinkse-Slade (error)": lambda o: (1,) + tuple(o.PS_error),
    "Hausman Specification Test": lambda o: (o.hausman_df, o.hausman_stat, o.hausman_p),
}
LINES = {"Sigma2_epsilon (Idiosyncratic)": lambda o: o.sigma2_epsilon, "Sigma2_mu (Individual)": lambda o: o.sigma2_mu,
         "Theta (Quasi-demeaning weight)": lambda o: o.theta}
SURTESTS = {
    "LM test on Sigma": lambda o: (o.lmtest[1], o.lmtest[0], o.lmtest[2]),
    "LR test on Sigma": lambda o: (o.lrtest[1], o.lrtest[0], o.lrtest[2]),
    "LR test on lambda": lambda o: (o.likrlambda[1], o.likrlambda[0], o.likrlambda[2]),
    "Joint significance (rho)": lambda o: (o.joinrho[1], o.joinrho[0], o.joinrho[2]),
    "Joint significance (lambda)": lambda o: (o.joinlam[1], o.joinlam[0], o.joinlam[2]),
    "Lagrange Multiplier (error)": lambda o: (o.lmEtest[1], o.lmEtest[0], o.lmEtest[2]),
    "Lagrange Multiplier (lag)": lambda o: (o.lmlagtest[1], o.lmlagtest[0], o.lmlagtest[2]),
}


def field_lines(line):
    """('label', value) pairs of a header line: 20 characters, colon, value, gap, 22 characters, colon, value"""
    mt = re.match(r"^(.{20}):\s*(.*?)(?:\s{2,}(\S.{0,21}?)\s*:\s*(\S.*))?$", line)
    if mt is None:
        mt = re.match(r"^([A-Z][\w .()%'-]{2,30}?)\s*:\s+(\S+)(?:\s{2,}(\S.{0,21}?)\s*:\s*(\S.*))?$", line)
    if mt is None:
        return []
    out = [(mt.group(1).strip(), mt.group(2).strip())]
    if mt.group(3):
        out.append((mt.group(3).strip(), mt.group(4).lstrip(": ").strip()))
    return out


def blocks(text):
    """split at the titles of the equations; list of (title, lines)"""
    out, cur = [], None
    for line in text.split("\n"):
        if line.startswith(("SUMMARY OF OUTPUT:", "SUMMARY OF EQUATION", "GLOBAL DIAGNOSTICS")):
            cur = (line, [])
            out.append(cur)
        elif cur is not None:
            cur[1].append(line)
    return out


def table_rows(lines):
    """rows of the coefficient table and the index behind it"""
    i = next((j for j, l in enumerate(lines) if re.match(r"\s+Variable\s+Coefficient", l)), None)
    if i is None:
        return None, 0
    j = i + 2
    rows = []
    while not lines[j].startswith("-----"):
        rows.append(lines[j])
        j += 1
    return rows, j


def judge_row(J, key, line, want):
    name = want[0]
    w = [v for v in want[1:] if v is not None]
    toks = line.split()
    vals = toks[-len(w):]
    J.word(key + ".name", " ".join(toks[:-len(w)]), name)
    for t, v in zip(vals, w):
        J.num(key + ".value", t, v, name)


def report(J, text, blocks_of, key, own=None, allrows=None):
    """blocks_of: list of (object, rows or None) for the blocks of the report in order"""
    ctx, r = J.ctx, J.r
    bl = blocks(text)
    ctx.ok(key + ".end", text.rstrip().endswith("END OF REPORT ====================================="), "report ends with %r" % text[-60:])
    if not ctx.ok(key + ".blocks", len([b for b in bl if not b[0].startswith("GLOBAL")]) == len(blocks_of),
                  "%d blocks for %d equations: %s" % (len(bl), len(blocks_of), [b[0] for b in bl])):
        return
    objs = list(blocks_of)
    for title, lines in bl:
        if title.startswith("GLOBAL"):
            o, rows = r, None
        else:
            o, rows = objs.pop(0)
        rest = 0
        if rows is not None:
            got, rest = table_rows(lines)
            if ctx.ok(key + ".table", got is not None and len(got) == len(rows), "%s printed rows for %d coefficients" % (
                    None if got is None else len(got), len(rows))):
                if own is not None:                          # systems list regime by regime
                    by = {v[0]: v for v in rows}
                    shown = [l.split()[0] for l in got]
                    if not ctx.ok(key + ".row.names", sorted(shown) == sorted(by), "rows %s for coefficients %s" % (shown, sorted(by))):
                        continue
                    rows_now = [by[v] for v in shown]
                else:
                    rows_now = rows
                for line, want in zip(got, rows_now):
                    judge_row(J, key + ".row", line, want)
        first = True
        for i, line in enumerate(lines):
            if rows is not None and lines.index(line) <= rest and re.match(r"\s{5,}\S", line) and i > 2 and ":" not in line:
                continue
            if fields(J, line, o, r, key):
                mt = re.match(r"^Regimes variable: (.*)$", line)
                if mt:
                    J.word(key + ".regimes", mt.group(1), r.name_regimes)
                continue
            mt = re.match(r"^\s*(\S.*?)\s{2,}(%s)\s+(%s)\s+(%s)\s*$" % (NUM, NUM, NUM), line)
            if mt and i > rest:
                lab = mt.group(1)
                T = TESTS if own is None else own
                bsk = getattr(o, "bsk", None)
                if bsk is not None and lab in list(bsk["Test"]):
                    b = bsk[bsk["Test"] == lab].iloc[0]
                    for t, v in zip(mt.groups()[1:], (b["df"], b["Statistic"], b["p-value"])):
                        J.num(key + ".test.bsk", t, v, lab)
                    continue
                if lab in T:
                    try:
                        w = T[lab](o if own is None else r)
                    except AttributeError as e:
                        J.unknown.add("test:%s %s" % (lab, e))
                        continue
                    for t, v in zip(mt.groups()[1:], w):
                        if v is not None:
                            J.num(key + ".test." + lab.replace(" ", "_"), t, v, lab)
                elif re.search("[A-Za-z]{3}", lab) and lab not in ("Global test", "CONSTANT", "lambda") and not (rows and any(lab in (v[0], v[0].split("_", 1)[-1]) for v in rows)):
                    J.unknown.add("line:" + re.sub(r"\d+", "#", lab))
            mt = re.match(r"^(\w.*?\))\s+(\S+)$", line)
            if mt and mt.group(1) in LINES:
                J.num(key + ".line", mt.group(2), LINES[mt.group(1)](o), mt.group(1))
            mt = re.match(r"^MULTICOLLINEARITY CONDITION NUMBER\s+(\S+)$", line)
            if mt:
                J.num(key + ".condition", mt.group(1), o.mulColli, "condition number")
        if not title.startswith("GLOBAL"):
            instruments(J, o, lines, key)
        variance(J, allrows, r, lines, key)
        chow(J, o, r, lines, key, rows if o is not r else allrows)
        impacts(J, o, lines, key, rows)
        slopes(J, o, lines, key)
        vif(J, o, lines, key)
        distances(J, o, lines, key)
        if not title.startswith("GLOBAL"):
            present(J, o, r, lines, key, own)


def distances(J, o, lines, key):
    """the options of the nonlinear weights"""
    if not hasattr(o, "d_upper_bound"):
        return
    for lab, want in (("Transformation", o.transform), ("KNN", o.knn), ("Distance upper bound", o.d_upper_bound)):
        at = [i for i, l in enumerate(lines) if l.startswith(lab + ": ")]
        if J.ctx.ok(key + ".nslx.present", len(at) == 1, "%d lines %s" % (len(at), lab)):
            text = lines[at[0]].split(":", 1)[1]
            for l in lines[at[0] + 1:]:
                if not l.startswith("      ") or ":" in l:
                    break
                text += " " + l.strip()
            J.word(key + ".nslx." + lab.replace(" ", "_"), " ".join(text.split()), ", ".join(str(v) for v in want))


OPTIONAL = ("Sigma-square", "S.E. of regression", "Sum squared residual", "Overall SSR", "Sigma-square ML", "S.E of regression ML",
            "S.E of regression")

UNPRINTED = [("Probit", "Log likelihood"), ("Probit", "Mean dependent var"), ("Probit", "S.D. dependent var"),
             ("ML_ErrorRE", "Log likelihood"), ("ML_ErrorRE", "Akaike info criterion"), ("ML_ErrorRE", "Schwarz criterion")]


def present(J, o, r, lines, key, own):
    """what was computed is in the report"""
    text = "\n".join(lines)
    for lab, fn in (TESTS if own is None else {}).items():
        try:
            fn(o)
        except (AttributeError, TypeError, KeyError):
            continue
        J.ctx.ok(key + ".test.present", lab in text, lab)
    for lab, (kind, fn) in FIELDS.items():
        try:
            fn(o, r)
        except (AttributeError, TypeError, KeyError):
            continue
        if lab not in OPTIONAL and not re.search(re.escape(lab) + r"\s*:", text):
            if own is None and (r.__class__.__name__, lab) not in UNPRINTED or own is not None and lab != "Number of Observations":
                J.ctx.ok(key + ".field.present", False, lab)
        else:
            J.ctx.ok(key + ".field.present", True)


def instruments(J, o, lines, key):
    text = "\n".join(lines)
    for word, attr in (("Instrumented: ", "name_yend"), ("Instruments: ", "name_q")):
        mt = re.search(r"^%s(.*(?:\n {13}.*)*)$" % word, text, flags=re.M)
        names = getattr(o, attr, None)
        if mt and names is not None:
            J.count += 1
            got = re.sub(r"\s+", "", mt.group(1)).split(",")
            want = [re.sub(r"\s+", "", str(v)) for v in names]
            J.ctx.ok(key + "." + attr, sorted(got) == sorted(want), "printed %s, is %s" % (got, want))
        elif (mt is None) != (not names):
            J.ctx.ok(key + "." + attr + ".shown", False, "%s %s" % (word, "missing" if names else "shown"))


def variance(J, rows, r, lines, key):
    try:
        i = lines.index("COEFFICIENTS VARIANCE MATRIX")
    except ValueError:
        return
    vm = np.asarray(r.vm, float)
    names = None
    for a in ("name_z", "name_x"):
        if isinstance(getattr(r, a, None), list):
            names = getattr(r, a)
            break
    J.count += 1
    b = [v[0] for v in rows if v[2] is not None] if rows else names[:len(vm)]
    J.ctx.ok(key + ".vm.header", lines[i + 2] == "".join("%12s" % v for v in b) and len(b) == len(vm),
             "header %r over %d columns of %s" % (lines[i + 2], len(vm), b))
    for a in range(len(vm)):
        t = [lines[i + 3 + a][12 * j:12 * j + 12].strip() for j in range(len(vm))]
        if any(len("%.6f" % v) > 12 for v in vm[a]):
            break
        for j in range(len(vm)):
            J.num(key + ".vm.value", t[j] or "x", vm[a, j], "vm[%d,%d]" % (a, j))


def chow(J, o, r, lines, key, rows):
    try:
        i = lines.index("- CHOW TEST -")
    except ValueError:
        return
    oc = getattr(o, "output_chow", None)
    if oc is None or not hasattr(o, "chow"):
        J.ctx.ok(key + ".chow", False, "no Chow results behind the printed table")
        return
    regi = np.asarray(o.chow.regi, float)
    J.ctx.ok(key + ".chow.rows", len(oc) == len(regi) + 1 and oc["var_names"].notna().all() and oc["df"].notna().all(),
             "%d rows for %d tests: %s" % (len(oc), len(regi), list(oc["var_names"])))
    inf = [v for v in rows if v[2] is not None]
    b, V = np.array([v[1] for v in inf]), np.asarray(o.vm, float)
    labs = [str(v) for v in o.regimes_set]
    where = {v[0]: i for i, v in enumerate(inf)}
    stat = np.vstack([regi.reshape(-1, 2), np.asarray(o.chow.joint, float).reshape(1, 2)])
    for j in range(min(len(oc), len(stat))):
        line = lines[i + 2 + j]
        mt = re.match(r"^\s*(\S.*?)\s{2,}(\d+)\s+(%s)\s+(%s)$" % (NUM, NUM), line)
        if not J.ctx.ok(key + ".chow.line", mt is not None, "no row for test %d: %r" % (j, line)):
            return
        J.word(key + ".chow.name", mt.group(1), oc["var_names"].iloc[j])
        base = mt.group(1)
        if base != "Global test" and len(V) == len(inf):
            pos = [where.get("%s_%s" % (g, base)) for g in labs]
            if J.ctx.ok(key + ".chow.coefficients", None not in pos, "no coefficients by regime behind the test of %s" % base):
                shift = J.m.kw.get("yend") is not None or any(v[0].endswith("W_" + str(r.name_y)) for v in inf)
                endo = base in (J.m.kw.get("name_yend") or []) or base.startswith("endogenous_") or base == "W_" + str(r.name_y)
                glob = any(v.startswith("_Global_") for v in r.name_x)
                J.num(key + ".chow.own" + ("-endogenous-after-global" if shift and endo and glob else ""), mt.group(3), equal(b, V, pos), "equality of %s" % base)
        J.num(key + ".chow.df", mt.group(2), oc["df"].iloc[j], "df")
        J.num(key + ".chow.value", mt.group(3), stat[j, 0], "Chow %s" % mt.group(1))
        J.num(key + ".chow.prob", mt.group(4), stat[j, 1], "Chow p %s" % mt.group(1))
        J.ctx.close(key + ".chow.in_output", [float(oc["value"].iloc[j]), float(oc["prob"].iloc[j])], stat[j], rtol=1e-9, scale=1)


def impacts(J, o, lines, key, rows):
    coef = {v[0]: v[1] for v in rows} if rows else {}
    for i, l in enumerate(lines):
        mt = re.match(r"^Impacts computed using the '(\w+)' method\.$", l)
        if not mt:
            continue
        j = i + 2
        while j < len(lines):
            mt2 = re.match(r"^\s*(\S.*?)\s{2,}(%s)\s+(%s)\s+(%s)$" % (NUM, NUM, NUM), lines[j])
            if not mt2:
                break
            a, b, c = map(float, mt2.groups()[1:])
            J.count += 1
            J.ctx.ok(key + ".impacts.sum", abs(a + b - c) <= 1.6e-4 + 1e-9 * abs(c), "%s: %g + %g is not %g" % (mt2.group(1), a, b, c))
            J.ctx.ok(key + ".impacts.name", not coef or mt2.group(1) in coef, "no coefficient named %s" % mt2.group(1))
            j += 1
        J.ctx.ok(key + ".impacts.method", mt.group(1) in o.sp_multipliers, "%s not in %s" % (mt.group(1), list(o.sp_multipliers)))
        if mt.group(1) == "simple" or not coef:
            continue


def slopes(J, o, lines, key):
    try:
        i = lines.index("MARGINAL EFFECTS")
    except ValueError:
        return
    s = np.asarray(o.slopes, float).ravel()
    se = np.sqrt(np.diag(np.asarray(o.slopes_vm, float)))
    for j in range(len(s)):
        judge_row(J, key + ".slope", lines[i + 5 + j], (o.name_x[j + 1], s[j], se[j], s[j] / se[j], 2 * stats.norm.sf(abs(s[j] / se[j]))))


def vif(J, o, lines, key):
    try:
        i = lines.index("VARIANCE INFLATION FACTOR")
    except ValueError:
        return
    x = dense(o.x)
    j = i + 2
    for c in range(1, x.shape[1]):
        mt = re.match(r"^\s*(\S+)\s+(%s)\s+(%s)$" % (NUM, NUM), lines[j])
        if not J.ctx.ok(key + ".vif.line", mt is not None, "no row for %s" % o.name_x[c]):
            return
        z = np.delete(x, c, 1)
        e = x[:, c] - z @ np.linalg.lstsq(z, x[:, c], rcond=None)[0]
        tol = (e @ e) / ((x[:, c] - x[:, c].mean()) ** 2).sum()
        J.word(key + ".vif.name", mt.group(1), o.name_x[c])
        J.num(key + ".vif.value", mt.group(2), 1 / tol, "VIF")
        J.num(key + ".vif.tolerance", mt.group(3), tol, "tolerance")
        j += 1


# ------------------------------------------------------------------ cases
def options(ctx, m, spreg):
    par = inspect.signature(getattr(spreg, m.cls).__init__).parameters
    if "vm" in par:
        m.opt(vm=ctx.pick("vm", [True, True, False]))
    return par


def names_in_table(o):
    df = o.output
    return list(df["var_names"].sort_index())


def predicted(J, o, rows, find, key):
    """sum of coefficient x column by name"""
    tot = 0
    for v in rows:
        if v[0].endswith("lambda") and find(v[0]) is None:
            continue
        c = find(v[0])
        if c is None:
            return None
        tot = tot + v[1] * c[0] if not isinstance(tot, list) else tot
    return tot


def mk(label):
    def case(ctx):
        import spreg
        m = c13.instance(ctx, label)
        options(ctx, m, spreg)
        try:
            with ctx.quiet():
                m.call(spreg)
        except np.linalg.LinAlgError:
            if label == "Panel_RE_Error":
                raise Skip("singular covariance of the deprecated random effects model")
            raise
        except Exception as e:
            if "power expansion" in str(e):
                raise Skip("reduced form out of reach of the power expansion")
        r = ctx.run("fit", m.call, spreg)
        ctx.sig = [label, ctx.idx, m.d.n]
        J = Judge(ctx, m, r)
        single(J, m, r)
        ctx.note(values=J.count, unknown=sorted(J.unknown)[:60])
    return case


def single(J, m, r):
    ctx, label = J.ctx, m.label
    y = np.asarray(m.kw["y"], float)
    panel = label in models.PANEL
    multi = getattr(r, "multi", None)
    W = m.d.W if not panel else None
    if m.g is not None and multi:
        parts = [(k, r.multi[k]) for k in sorted(r.multi, key=lambda v: list(r.regimes_set).index(v))]
        allrows = []
        objs = []
        for k, o in parts:
            j = [str(v) for v in m.g.names].index(str(k))
            ids = m.g.ids(j)
            Wr = c09_w(m, ids)
            key = "regime"
            rows = rows_of(J, o, table_names(o), key)
            if rows is None:
                return
            one(J, m, o, rows, columns(m, ids, Wr), y.ravel()[ids], key)
            allrows += rows
            objs.append((o, rows))
            ctx.ok("regime.names", all(v[0].startswith(str(k) + "_") for v in rows if v[0] != "lambda"), str([v[0] for v in rows]))
        b, se = inference(r)
        ctx.close("whole.betas", b, [v[1] for v in allrows], rtol=1e-12)
        if len(se) == len([v for v in allrows if v[2] is not None]):
            ctx.close("whole.se", se, [v[2] for v in allrows if v[2] is not None], rtol=1e-8)
        if hasattr(r, "output"):
            frame(J, r, r.output, allrows, "output")
        if hasattr(r, "u") and hasattr(r, "predy"):
            ctx.close("whole.y", np.ravel(r.u) + np.ravel(r.predy), y.ravel(), rtol=1e-9)
        report(J, r.summary, objs, "summary", allrows=allrows)
        return
    rows = rows_of(J, r, table_names(r), "table")
    if rows is None:
        return
    if panel:
        ctx.note(panel=True)
        panel_one(J, m, r, rows)
    else:
        one(J, m, r, rows, columns(m, None, W), y.ravel(), "fit")
    shown = rows
    if hasattr(r, "output"):
        frame(J, r, r.output, rows, "output")
        shown = [rows[i] for i in r.output.index]
        if m.g is not None:
            vt = r._var_type
            regs = [str(v[0]) for v in rows]
            seq = [rows[i][0] for i in r.output.index]
            pos = [next((j for j, g in enumerate(["_Global"] + [str(v) for v in m.g.names]) if s.startswith(g + "_")), 99) for s in seq]
            J.ctx.ok("output.grouped", len(set(pos)) == 1 + sum(a != b for a, b in zip(pos, pos[1:])), "rows of one regime apart: %s" % seq)
    report(J, r.summary, [(r, shown)], "summary", allrows=rows)


def table_names(o):
    if hasattr(o, "output"):
        n = list(o.output["var_names"].sort_index())
        if len(n) == len(np.asarray(o.betas)):
            return n
    from .c14 import names_of
    return list(names_of(o))


def c09_w(m, ids):
    if "w" not in m.kw:
        return None
    A = m.d.W[np.ix_(ids, ids)].copy()
    if m.kw["w"].transform == "R":
        s = A.sum(1)
        A = A / np.where(s == 0, 1, s)[:, None]
    return A


def one(J, m, o, rows, find, y, key):
    ctx = J.ctx
    if m.cls != "Probit":
        sizes(J, o, key, y)
    ctx.close(key + ".y", np.ravel(o.y), y, rtol=1e-12)
    if not m.cls.startswith("Probit"):
        ctx.close(key + ".predy_plus_u", np.ravel(o.predy) + np.ravel(o.u), y, rtol=1e-9)
        p = predicted(J, o, rows, find, key)
        if p is not None and not isinstance(p, int):
            ctx.close(key + ".predy_from_table", np.ravel(o.predy), p, rtol=1e-8, scale=np.abs(y).max())
            J.count += 1
        else:
            J.unknown.add("predy:" + m.cls)
        pr = getattr(o, "pr2", None)
        if pr is not None:
            ctx.close(key + ".pr2", val(pr), np.corrcoef(np.ravel(o.predy), y)[0, 1] ** 2, rtol=1e-7, scale=1)
    for mat, nm in (("x", "name_x"), ("yend", "name_yend"), ("q", "name_q"), ("z", "name_z"), ("h", "name_h")):
        a, v = getattr(o, mat, None), getattr(o, nm, None)
        if a is not None and isinstance(v, list) and hasattr(a, "shape"):
            match_columns(J, key + "." + nm, a, v, find)
    k = getattr(o, "name_z", None) or o.name_x
    ctx.ok(key + ".k", 0 <= len(rows) - o.k <= 1, "k=%s for %d coefficients" % (o.k, len(rows)))


def panel_one(J, m, r, rows):
    """names against the stacked data of the panel"""
    ctx = J.ctx
    y = np.asarray(m.kw["y"], float)
    x = np.asarray(m.kw["x"], float)
    T = r.t
    if y.ndim == 2 and y.shape[1] > 1:                      # wide: one column per period
        k = x.shape[1] // T
        yl = y.T.reshape(-1)
        xl = np.hstack([x[:, i * T:(i + 1) * T].T.reshape(-1, 1) for i in range(k)])
    else:
        yl, xl = y.ravel(), x
        k = x.shape[1]
    N = len(yl) // T

    def within(v):
        a = np.asarray(v, float).reshape(T, N)
        return (a - a.mean(0)).ravel()
    names = [v[0] for v in rows]
    nx = m.kw.get("name_x")
    if nx is not None and len(nx) != k:                     # one name per period
        have = ["".join(c for c in nx[i * T] if not c.isdigit()) for i in range(k)]
    else:
        have = nx or ["var_%d" % (i + 1) for i in range(k)]
    X = dense(r.x)
    col = {v[0]: i for i, v in enumerate(rows)}
    start = 1 if names[0] == "CONSTANT" else 0
    for i in range(k):
        if not ctx.ok("panel.name", names[start + i] == have[i], "%s for %s" % (names[start + i], have[i])):
            continue
        a, b = X[:, start + i], xl[:, i]
        ra, rb = within(a), within(b)
        J.count += 1
        ctx.ok("panel.column", np.max(np.abs(ra - rb)) <= 1e-8 * (np.max(np.abs(b)) + 1e-300), "column %d is not %s" % (start + i, have[i]))
    ctx.ok("panel.sizes", len(np.ravel(r.u)) == N * T and len(np.ravel(r.predy)) == N * T, "%d residuals for %d observations" % (
        len(np.ravel(r.u)), N * T))
    if m.cls != "PanelFE":                                  # its fit statistics are a finding of C20
        ctx.close("panel.predy_plus_u", within(np.ravel(r.predy) + np.ravel(r.u)), within(yl), rtol=1e-8)


def sur_mk(label):
    def case(ctx):
        import spreg
        m = c13.instance(ctx, label)
        if label.startswith(("SUR_iter", "SUR")) and ctx.pick("vm", [False, True]):
            m.opt(vm=True)
        r = ctx.run("fit", m.call, spreg)
        ctx.sig = [label, ctx.idx, m.d.n]
        J = Judge(ctx, m, r)
        three = hasattr(r, "b3SLS")
        B = r.b3SLS if three else r.bSUR
        inf = r.tsls_inf if three else r.sur_inf
        se_all = np.sqrt(np.diag(np.asarray(r.varb, float)))
        at = 0
        objs = []
        for e in range(r.n_eq):
            b = np.asarray(B[e], float).ravel()
            names = list(r.name_bigX[e])
            if three:
                names = names + list(r.name_bigyend[e])
            names = names[:len(b)] if len(names) > len(b) and names[-1].startswith("lambda") else names
            if not ctx.ok("sur.names", len(names) == len(b), "%d names for %d coefficients" % (len(names), len(b))):
                return
            if "name_bigX" not in m.kw and not label.endswith("_reg"):
                own = [v for v in names if not str(v).startswith(("Constant", "W_"))]
                nx = np.asarray(m.kw["bigX"][e]).shape[1] - int("Constant" in str(names[0]))
                pat = [r"var_%d_\d+$" % (i + 1) for i in range(nx)] + [r"end_%d_\d+$" % (i + 1) for i in range(len(own) - nx)]
                ctx.ok("sur.default_names", len(own) >= nx and all(re.match(q, str(v)) for q, v in zip(pat, own)), "%s" % names)
                if getattr(r, "name_bigq", None):
                    qn = [str(v) for v in r.name_bigq[e] if not str(v).startswith(("W_", "W2_"))]
                    ctx.ok("sur.default_names.q", all(re.match(r"inst_%d_\d+$" % (i + 1), v) for i, v in enumerate(qn)), "%s" % qn)
            se = se_all[at:at + len(b)]
            at += len(b)
            st = b / se
            p = 2 * stats.norm.sf(np.abs(st))
            got = np.asarray(inf[e], float)
            ctx.close("sur.std_err", got[:, 0], se, rtol=1e-8)
            ctx.close("sur.stat", got[:, 1], st, rtol=1e-8)
            ctx.close("sur.prob", got[:, 2], p, rtol=0, atol=1e-8)
            rows = [(names[i], b[i], se[i], st[i], p[i]) for i in range(len(b))]
            lam = getattr(r, "lamsur", getattr(r, "lamols", None)) if "Error" in type(r).__name__ or "error" in type(r).__name__ else None
            if lam is not None:
                inf_l = getattr(r, "lamsetp", None)
                three_l = tuple(float(np.asarray(v).ravel()[e]) for v in inf_l) if inf_l is not None and m.kw.get("vm") else (None,) * 3
                rows.append(("lambda_%d" % (e + 1), float(np.asarray(lam).ravel()[e])) + three_l)
                if three_l[0] is not None:
                    z = rows[-1][1] / three_l[0]
                    ctx.close("sur.lambda", [three_l[1], three_l[2]], [z, 2 * stats.norm.sf(abs(z))], rtol=1e-7, scale=1)
            o = Equation(r, e, len(b))
            objs.append((o, rows))
        sur_report(J, r, objs)
        ctx.note(values=J.count, unknown=sorted(J.unknown)[:60])
    return case


class Equation:
    """what the report shows for one equation of a system"""

    def __init__(self, r, e, k):
        self.name_y, self.k, self.n = r.name_bigy[e], k, r.n
        y = np.asarray(r.bigy[e], float)
        self.y = np.mean(y) + (y - np.mean(y)) * np.sqrt((len(y) - 1) / len(y))      # reports of systems divide by n
        if hasattr(r, "name_bigq"):
            self.name_q, self.name_yend = r.name_bigq[e], r.name_bigyend[e]


def sur_report(J, r, objs):
    ctx = J.ctx
    text = r.summary
    head = text[:text.index("SUMMARY OF EQUATION")]
    for line in head.split("\n"):
        fields(J, line, r, r, "summary")
    for lab, fn in SURTESTS.items():
        try:
            fn(r)
        except (AttributeError, TypeError, KeyError):
            continue
        ctx.ok("summary.test.present", lab in text, lab)
    for lab in ("Number of Equations", "Number of Observations", "Data set"):
        ctx.ok("summary.field.present", lab in head, lab)
    body = text[text.index("SUMMARY OF EQUATION"):]
    end = min([i for i in (body.find("\nREGRESSION DIAGNOSTICS\n"), body.find("\nOTHER DIAGNOSTICS"), body.find("\nDIAGNOSTICS FOR SPATIAL"),
                           body.find("\nERROR CORRELATION MATRIX")) if i > 0])
    report(J, body[:end] + "\n================================ END OF REPORT =====================================", objs, "summary", own=SURTESTS)
    B = r.b3SLS if hasattr(r, "b3SLS") else r.bSUR
    allb = np.concatenate([np.asarray(B[e], float).ravel() for e in range(r.n_eq)])
    V = np.asarray(r.varb, float)
    where, at = {}, 0
    for e, (o, rows) in enumerate(objs):
        for v in rows:
            if not v[0].startswith("lambda_"):
                where[e, v[0]] = at
                at += 1
    line3 = r"^\s*(\S.*?)\s{2,}(\d+)\s+(%s)\s+(%s)$" % (NUM, NUM)
    for e, (title, lines) in enumerate(blocks(body[:end])):
        i = next((j for j, l in enumerate(lines) if l.startswith("REGIMES DIAGNOSTICS - CHOW TEST")), None)
        if i is None:
            ctx.ok("summary.within.shown", not hasattr(r, "chow_regimes"), "no Chow tests of equation %d" % (e + 1))
            continue
        labs = [str(v) for v in r.regimes_set]
        seen = set()
        for l in lines[i + 2:]:
            mt = re.match(line3, l)
            if not mt:
                break
            name = mt.group(1)
            seen.add(name)
            if name == "Global test":
                continue
            base = [n for (q, n) in where if q == e and (n == "%s_%s" % (labs[0], name) or (
                name == "CONSTANT" and n.startswith(labs[0] + "_Constant")))]
            if not ctx.ok("summary.within.name", len(base) == 1, "no coefficients behind the test of %s" % name):
                continue
            rest_name = base[0][len(labs[0]) + 1:]
            pos = [where[e, "%s_%s" % (g, rest_name)] for g in labs]
            st = equal(allb, V, pos)
            J.num("summary.within.df", mt.group(2), len(labs) - 1, name)
            J.num("summary.within.value", mt.group(3), st, name)
            J.num("summary.within.prob", mt.group(4), stats.chi2.sf(st, len(labs) - 1), name)
        many = {n[len(labs[0]) + 1:] for (q, n) in where if q == e and n.startswith(labs[0] + "_")}
        ctx.ok("summary.within.all", len(seen) == len(many) + 1, "tests %s for varying coefficients %s" % (sorted(seen), sorted(many)))
    rest = body[end:].split("\n")
    i = next((j for j, l in enumerate(rest) if l.startswith("OTHER DIAGNOSTICS")), None)
    if i is not None:
        shown = 0
        for l in rest[i + 2:]:
            mt = re.match(line3, l)
            if not mt:
                break
            shown += 1
            first = mt.group(1).split(", ")[0]
            if first.rstrip(".") != first or (0, first) not in where:
                if first != "lambda":
                    J.unknown.add("between:" + first)
                continue
            k = where[0, first]
            pos = [sum(len(B[q]) for q in range(e)) + k for e in range(r.n_eq)]
            st = equal(allb, V, pos)
            J.num("summary.between.df", mt.group(2), r.n_eq - 1, first)
            J.num("summary.between.value", mt.group(3), st, first)
            J.num("summary.between.prob", mt.group(4), stats.chi2.sf(st, r.n_eq - 1), first)
        ctx.ok("summary.between.all", shown >= len(B[0]), "%d tests for %d coefficients" % (shown, len(B[0])))
    for l in rest:
        mt = re.match(r"^\s*(\S.*?)\s{2,}(\d+)\s+(%s)\s+(%s)$" % (NUM, NUM), l)
        if mt and mt.group(1) in SURTESTS:
            for t, v in zip(mt.groups()[1:], SURTESTS[mt.group(1)](r)):
                J.num("summary.test." + mt.group(1).replace(" ", "_"), t, v, mt.group(1))
    i = next((j for j, l in enumerate(rest) if l.startswith("ERROR CORRELATION MATRIX")), None)
    if ctx.ok("summary.corr.shown", i is not None, "no correlation matrix"):
        S = np.asarray(r.sig, float)
        C = S / np.sqrt(np.outer(np.diag(S), np.diag(S)))
        for a in range(r.n_eq):
            t = rest[i + 2 + a].split()
            for b in range(r.n_eq):
                J.num("summary.corr", t[b], C[a, b], "corr[%d,%d]" % (a, b))


def equal(b, V, pos):
    """Wald statistic of equality of the coefficients at the positions"""
    R = np.zeros((len(pos) - 1, len(b)))
    R[:, pos[0]] = 1
    for i in range(1, len(pos)):
        R[i - 1, pos[i]] = -1
    g = R @ b
    return float(g @ np.linalg.solve(R @ V @ R.T, g))


def fields(J, line, o, r, key):
    fl = field_lines(line)
    for lab, v in fl:
        if lab not in FIELDS:
            if lab not in ("Regimes variable", "Instruments", "Instrumented", "Coordinates", "Transformation", "KNN", "Method",
                           "Distance upper bound", "Warning"):
                J.unknown.add("field:" + lab)
            continue
        kind, fn = FIELDS[lab]
        try:
            w = fn(o, r)
        except (AttributeError, KeyError) as e:
            J.unknown.add("field:%s %s" % (lab, e))
            continue
        if kind == "w":
            J.word(key + ".field." + lab.replace(" ", "_"), v, w)
        else:
            J.num(key + ".field." + lab.split(" (")[0].replace(" ", "_"), v, w, lab)
    return fl


SUBS = {label: (mk(label), 8, 80) for label in models.CROSS + models.PANEL}


def latex(ctx):
    """the LaTeX variant carries the same table"""
    import spreg
    for _ in range(30):
        label = models.CROSS[int(ctx.rng.integers(len(models.CROSS)))] if ctx.pick("panel", [False, False, True]) is False else \
            models.PANEL[int(ctx.rng.integers(len(models.PANEL)))]
        cls = label.split("_white")[0].split("_hac")[0].split("_slx")[0].split("_durbin")[0].removesuffix("_endog")
        if "latex" in inspect.signature(getattr(spreg, cls).__init__).parameters:
            break
    else:
        raise Skip("no class with LaTeX output drawn")
    m = c13.instance(ctx, label)
    try:
        with ctx.quiet():
            a = m.call(spreg)
    except Exception as e:
        raise Skip(str(e))
    b = ctx.run("latex_fit", m.call, spreg, latex=True)
    ctx.sig = [label, ctx.idx]
    rows = []
    for l in b.summary.split("\n"):
        mt = re.match(r"^(.*?) & (.*?) & (.*?) & (.*?) & (.*?) \\\\$", l)
        if mt and "Coefficient" not in l:
            rows.append([v.strip() for v in mt.groups()])
    out = a.output
    J = Judge(ctx, m, b)
    if not ctx.ok("latex.rows", len(rows) == len(out), "%d rows for %d coefficients" % (len(rows), len(out))):
        return
    for row, (_, w) in zip(rows, out.iterrows()):
        J.word("latex.name", row[0].replace("\\_", "_").replace("\\%", "%"), w["var_names"])
        for t, c in zip(row[1:], ("coefficients", "std_err", "zt_stat", "prob")):
            if w[c] is None or not np.isfinite(float(w[c])):
                ctx.ok("latex.blank", t in ("nan", "", "None"), "%s for a missing %s" % (t, c))
            else:
                J.num("latex.value", t, w[c], "%s of %s" % (c, w["var_names"]))
    ctx.ok("latex.same_output", out.equals(b.output), "the table differs")
    rest = lambda s: [l for l in s.split("\n") if "&" not in l and not l.startswith("----") and "\\" not in l and
                      not re.match(r"^\s+Variable\s+Coefficient", l)]
    drop = lambda s: [l for l in rest(s) if not any(l.split()[:1] == [str(v).strip()] and len(l.split()) in (2, 5) for v in out["var_names"])]
    ctx.ok("latex.same_text", drop(a.summary) == drop(b.summary), "the rest of the report differs: %s" % [
        p for p in zip(drop(a.summary), drop(b.summary)) if p[0] != p[1]][:2])
    ctx.note(values=J.count, label=label)


SUBS["latex"] = (latex, 60, 600)

LAGGED = [l for l in models.CROSS if l.startswith(("GM_Lag", "GM_Combo"))]


def instruments_by_name(ctx):
    """every column used as regressor or instrument of a model with a spatial lag is the variable it is named after"""
    import spreg
    label = LAGGED[ctx.idx % len(LAGGED)]
    m = c13.instance(ctx, label)
    rng = ctx.rng
    n, k = m.kw["x"].shape
    slx = int(rng.integers(0, 3))
    m.opt(slx_lags=slx, w_lags=int(rng.integers(1, 3)), lag_q=bool(rng.integers(2)))
    m.kw.pop("slx_vars", None)
    par = inspect.signature(getattr(spreg, m.cls).__init__).parameters
    if slx and k > 1 and "slx_vars" in par and rng.integers(2):
        sel = [bool(v) for v in rng.integers(2, size=k)]
        sel[int(rng.integers(k))] = True
        m.opt(slx_vars=sel)
    sel = m.kw.get("slx_vars") or [True] * k
    if slx and isinstance(m.kw.get("cols2regi"), list):
        c = m.kw["cols2regi"]
        m.opt(cols2regi=c[:k] + [bool(v) for v in rng.integers(2, size=slx * sum(sel))] + c[k:])
    opts = {v: m.kw.get(v) for v in ("slx_lags", "w_lags", "lag_q", "slx_vars", "regime_lag_sep", "regime_err_sep")}
    opts["yend"] = m.kw.get("yend") is not None
    try:
        with ctx.quiet():
            m.call(spreg)
    except Exception as e:
        if "power expansion" in str(e) or "less observations than variables" in str(e) or isinstance(e, np.linalg.LinAlgError):
            raise Skip(str(e))
    r = ctx.run("fit", m.call, spreg)
    ctx.sig = [label, ctx.idx]
    J = Judge(ctx, m, r)
    parts = [(o, m.g.ids([str(v) for v in m.g.names].index(str(v_))), True) for v_, o in r.multi.items()] if getattr(r, "multi", None) else \
        [(r, np.arange(n), False)]
    for o, ids, sep in parts:
        if sep:
            own, whole = columns(m, ids, c09_w(m, ids)), columns(m, None, m.d.W)
            complete = lambda v: [c[ids] for c in whole(v)] if whole(v) is not None else None
        else:
            own = complete = columns(m, None, m.d.W)
        for mat, nm in (("x", "name_x"), ("yend", "name_yend"), ("q", "name_q"), ("z", "name_z"), ("h", "name_h")):
            # with Durbin terms the lags of x (and of q) come from the complete weights, the lag of y from the regime's own
            find = complete if slx and mat in ("x", "q", "h") else own if not slx or mat == "yend" else \
                lambda v: (own(v) or []) + (complete(v) or []) or None
            a, v = getattr(o, mat, None), getattr(o, nm, None)
            if isinstance(v, list) and mat in ("x", "q") and hasattr(a, "shape"):
                extra = len(v) - a.shape[1]
                ctx.ok("instruments.%s.count" % nm, extra == 0, "%s: %d names for %d columns: %s" % (opts, len(v), a.shape[1], v))
            if a is not None and isinstance(v, list) and hasattr(a, "shape"):
                match_columns(J, "instruments." + nm, a, v, find)
        ctx.ok("instruments.names_known", not J.unknown, "%s: %s" % (opts, sorted(J.unknown)[:5]))
    ctx.note(values=J.count, label=label, opts=str(opts))


SUBS["instruments"] = (instruments_by_name, 66, 660)
SUBS.update({label: (sur_mk(label), 6, 60) for label in models.SURS})
