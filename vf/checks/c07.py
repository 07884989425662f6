"""C07 HET / HOM generalized-moments spatial error family."""
import numpy as np
from numpy.linalg import inv
from scipy import optimize
from .. import ref
from ..core import Skip
from . import c06

RULE = ("Random spatial error / lag-error data (heteroskedastic or not) over seven weight layouts, crossed with the "
        "estimator (HET, HOM), its iteration and moment options, endogenous regressors, Durbin terms and a spatial lag.")


def sym(A):
    return (A + A.T) / 2


class Chain:
    """Steps 1 and 2 of the two-step GMM estimator, evaluated densely."""

    def __init__(self, fam, W, y, Z, H, A1name="hom_sc", endog=False, clamp=False):
        self.fam, self.W, self.y, self.Z, self.H, self.endog, self.clamp = fam, W, y, Z, H, endog, clamp
        self.n = len(y)
        if fam == "het" or A1name == "het":
            self.A1 = ref.a1_het(W)
        else:
            self.A1 = ref.a1_hom(W, A1name == "hom_sc")
        self.A = [sym(self.A1), sym(W)]

    def F(self, l, a):
        return a - l * (self.W @ a)

    def Zs(self, l):
        """the regressors the second step uses"""
        return self.F(l, self.Z)

    def fit(self, l):
        """coefficients from data filtered by l (l = 0: first step)"""
        ys, Zs = self.F(l, self.y), self.Zs(l)
        if self.endog:
            b = ref.tsls(ys, Zs, self.H).b
            if self.clamp and abs(b[-1, 0]) > .9:
                raise Skip("lag coefficient at the bound")
        else:
            b = ref.ols(ys, Zs).b
        return b, self.y - self.Z @ b

    def P(self, Zs):
        n, H = self.n, self.H
        hh = inv(H.T @ H / n)
        hz = H.T @ Zs / n
        p = hh @ hz
        return p @ inv(hz.T @ p)

    def moments(self, u):
        return ref.mom2(self.A[0], self.A[1], self.W, u)

    def psi(self, u, l, Zs=None, premultiply=False, P=None):
        """covariance of the sample moments at (u, l); a_r for the endogenous case"""
        n = self.n
        us = self.F(l, u)
        a = [np.zeros((n, 1)), np.zeros((n, 1))]
        if Zs is not None:
            P = self.P(Zs) if P is None else P
            for r in (0, 1):
                al = -2. / n * (Zs.T @ (self.A[r] @ us))
                a[r] = self.H @ P @ al
                if premultiply:
                    a[r] = np.linalg.solve((np.eye(n) - l * self.W).T, a[r])
        out = np.zeros((2, 2))
        if self.fam == "het":
            s = (us ** 2)
            for r in (0, 1):
                for c in (0, 1):
                    B = 2 * self.A[r] * s.T          # (A+A') Sigma
                    C = 2 * self.A[c] * s.T
                    out[r, c] = float((B * C.T).sum()) / (2 * n) + float((a[r] * s * a[c]).sum()) / n
        else:
            s2, m3, m4 = float((us ** 2).mean()), float((us ** 3).mean()), float((us ** 4).mean())
            v = [np.diag(A).reshape(-1, 1) for A in self.A]
            for r in (0, 1):
                for c in (0, 1):
                    out[r, c] = (2 * s2 ** 2 * float((self.A[r] * self.A[c].T).sum())
                                 + (m4 - 3 * s2 ** 2) * float((v[r] * v[c]).sum())
                                 + s2 * float((a[r] * a[c]).sum())
                                 + m3 * (float((a[r] * v[c]).sum()) + float((a[c] * v[r]).sum()))) / n
        return out, a

    def crit(self, u, psi=None):
        G, g = self.moments(u)
        return ref.mom2_crit(G, g, None if psi is None else inv(psi))

    def first_lambda(self, step1c):
        b, u = self.fit(0.)
        l, v, nloc = ref.minimise(self.crit(u))
        if step1c:
            if self.endog:
                psi, _ = self.psi(u, l, self.F(l, self.Z), premultiply=True, P=self.P(self.Z))
            else:
                psi, _ = self.psi(u, l)
            l, v, n2 = ref.minimise(self.crit(u, psi))
            nloc = max(nloc, n2)
        return l, nloc

    def second(self, l):
        b, u = self.fit(l)
        psi, _ = self.psi(u, l, self.Zs(l) if self.endog else None)
        f = self.crit(u, psi)
        return b, u, f

    def vm(self, u, l):
        """joint covariance of (coefficients, lambda)"""
        n = self.n
        G, _ = self.moments(u)
        j = G @ np.array([[1.], [2 * l]])
        Zs, us = self.F(l, self.Z), self.F(l, u)
        if not self.endog:
            psi, _ = self.psi(u, l)
            pinv = inv(psi)
            ll = inv(j.T @ pinv @ j)
            Q = inv(Zs.T @ Zs / n)
            if self.fam == "het":
                dd = Q @ (Zs.T * (us.T ** 2)) @ Zs / n @ Q
                dl = np.zeros((dd.shape[0], 1))
            else:
                s2, m3 = float((us ** 2).mean()), float((us ** 3).mean())
                dd = s2 * Q
                v = np.hstack([np.diag(A).reshape(-1, 1) for A in self.A])
                dl = Q @ (m3 * self.Z.T @ v / n) @ pinv @ j @ ll
        else:
            psi, a = self.psi(u, l, Zs)
            pinv = inv(psi)
            ll = inv(j.T @ pinv @ j)
            P, H, a = self.P(Zs), self.H, np.hstack(a)
            if self.fam == "het":
                S = us ** 2
                dd = P.T @ (H.T @ (S * H) / n) @ P
                pdl = H.T @ (S * a) / n
            else:
                s2, m3 = float((us ** 2).mean()), float((us ** 3).mean())
                v = np.hstack([np.diag(A).reshape(-1, 1) for A in self.A])
                dd = s2 * P.T @ (H.T @ H / n) @ P
                pdl = (m3 * H.T @ v + s2 * H.T @ a) / n
            dl = P.T @ pdl @ pinv @ j @ ll
        return np.block([[dd, dl], [dl.T, ll]]) / n


def judge(ctx, reg, ch, pre, step1c, max_iter, lam1=None, has_lag=False, d=None, table=True):
    y, Z, W, n = ch.y, ch.Z, ch.W, ch.n
    betas = np.asarray(reg.betas, float).reshape(-1, 1)
    lam, b = float(betas[-1, 0]), betas[:-1]
    ctx.ok(pre + "n_coef", len(b) == Z.shape[1], "%d coefficients for %d columns" % (len(b), Z.shape[1]))
    sy = np.abs(y).max()
    u = y - Z @ b
    ctx.close(pre + "u", reg.u, u, rtol=1e-8, scale=sy)
    ctx.close(pre + "predy", reg.predy, y - u, rtol=1e-8, scale=sy)
    ctx.close(pre + "e_filtered", reg.e_filtered, u - lam * W @ u, rtol=1e-8, scale=sy)
    lam1, nloc = ch.first_lambda(step1c) if lam1 is None else lam1
    # lambda the coefficients were filtered with
    s = np.sqrt(np.abs(np.diag(ch.vm(u, lam)))[:-1]).reshape(-1, 1)
    dist = lambda l: float((((ch.fit(l)[0] - b) / s) ** 2).max())
    lo, hi, m = (lam1 - .02, lam1 + .02, 13) if max_iter == 1 else (-.99, .99, 100)
    grid = np.linspace(lo, hi, m)
    gi = int(np.argmin([dist(l) for l in grid]))
    r = optimize.minimize_scalar(dist, bounds=(max(lo, grid[max(gi - 1, 0)]), min(hi, grid[min(gi + 1, m - 1)])),
                                 method="bounded", options=dict(xatol=1e-10))
    lf = float(r.x)
    ctx.note(lam=lam, lam_step1=lam1, lam_filter=lf)
    # the vertex may be flat: use distance rather than position
    ctx.ok(pre + "betas_solve_filtered_model", np.sqrt(dist(lf)) < 2e-5,
           "coefficients are %.3g std. errors away from any filtered fit (best at %.5f)" % (np.sqrt(dist(lf)), lf))
    if max_iter == 1 and nloc == 1:
        ctx.ok(pre + "filter_is_first_step_lambda", np.sqrt(dist(lam1)) < 5e-3,
               "filtered at %.6f, first step minimises at %.6f" % (lf, lam1))
    b2, u2, f = ch.second(lf)
    # how far does lambda move with the filter: bounded by evaluating the criterion at the coefficients reported
    psi, _ = ch.psi(u, lf, ch.Zs(lf) if ch.endog else None)
    crit = ch.crit(u, psi)
    c06.lambda_ok(ctx, pre, crit, lam, 1e-3, 1e-5)
    if max_iter > 1 and nloc == 1:
        # chain of iterations, from the oracle
        l, it, eps = lam1, 0, 1.
        multi = False
        while it < max_iter and eps > 1e-5:
            _, _, f = ch.second(l)
            ln, _, nl = ref.minimise(f)
            multi |= nl > 1 or c06.weak(f, ln, f(ln))
            eps, l, it = abs(ln - l), ln, it + 1
        if not multi:
            ctx.close(pre + "iterated_lambda", lam, l, rtol=0, atol=3e-3)
    V = ch.vm(u, lam)
    sd = np.sqrt(np.diag(V))
    ctx.ok(pre + "vm_shape", np.shape(reg.vm) == V.shape, "%s vs %s" % (np.shape(reg.vm), V.shape))
    ctx.close(pre + "vm", np.asarray(reg.vm) / np.outer(sd, sd), V / np.outer(sd, sd), rtol=0, atol=1e-6)
    yy, pp = y.ravel(), (y - u).ravel()
    ctx.close(pre + "pr2", reg.pr2, np.corrcoef(yy, pp)[0, 1] ** 2, rtol=0, atol=1e-7)
    if has_lag:
        c06.combo_reduced(ctx, reg, d, b, u, pre)
    if not table:
        return u, lam
    o = reg.output
    ctx.close(pre + "table.coef", np.asarray(o["coefficients"], float), betas, rtol=1e-9)
    ctx.close(pre + "table.se", np.asarray(o["std_err"], float) / sd, np.ones(len(sd)), rtol=1e-5)
    return u, lam


def make(fam):
    def case(ctx):
        import spreg
        d, X, Yend, Q, Z, H, model, kw = c06.combo_data(ctx, yend_scale=8. if fam == "het" else 1.)
        endog = Yend is not None
        combo = model.startswith("combo")
        if fam == "het":
            cls = {"error": spreg.GM_Error_Het, "endog": spreg.GM_Endog_Error_Het, "combo": spreg.GM_Combo_Het,
                   "combo_endog": spreg.GM_Combo_Het}[model]
            kw["step1c"] = step1c = ctx.pick("step1c", [False, True])
            if endog:
                kw["inv_method"] = ctx.pick("inv", ["power_exp", "true_inv"])
                if step1c and ctx.cfg["W"] in ("directed", "knn"):
                    kw["inv_method"] = "true_inv"
            A1 = "het"
        else:
            cls = {"error": spreg.GM_Error_Hom, "endog": spreg.GM_Endog_Error_Hom, "combo": spreg.GM_Combo_Hom,
                   "combo_endog": spreg.GM_Combo_Hom}[model]
            kw["A1"] = A1 = ctx.pick("A1", ["hom_sc", "hom", "het"])
            step1c = False
        kw["max_iter"] = mi = ctx.pick("max_iter", [1, 1, 3, 20])
        ch = Chain(fam, d.W, d.y, Z, H, A1, endog, clamp=combo)
        lam1 = ch.first_lambda(step1c)
        if abs(lam1[0]) > .95:
            raise Skip("first-step lambda near the bound")
        b, u, f = ch.second(lam1[0])
        if fam == "het" and model == "endog" and max(abs(b[-1, 0]), abs(ch.fit(0.)[0][-1, 0])) > .9:
            raise Skip("coefficient above 0.9: see bigcoef")
        l2 = ref.minimise(f)[0]
        if abs(l2) > .97:
            raise Skip("lambda near the bound")
        reg = ctx.run(cls.__name__, cls, d.y, d.x, w=d.w, **kw)
        pre = model + (".rescaled." if ctx.cfg["yscale"] else ".")
        judge(ctx, reg, ch, pre, step1c, mi, lam1, combo, d)
    return case


def case_big(ctx):
    """an ordinary endogenous regressor may have any coefficient"""
    import spreg
    from .. import gen
    rng = ctx.rng
    d = gen.dataset(rng, n=int(rng.integers(60, 120)), k=2, kind=ctx.pick("W", gen.SYM_KINDS), transform="r", lam=.3,
                    nend=1, niv=2, style="normal")
    extra = ctx.pick("shift", [-3., -1.5, 1.5, 4.])
    d.y = d.y + extra * d.yend
    X, Yend, Q = d.X, d.yend, d.q
    Z, H = np.hstack([X, Yend]), np.hstack([X, Q])
    which = ctx.pick("estimator", ["het", "het_step1c", "hom", "gmm_het"])
    ch = Chain("hom" if which == "hom" else "het", d.W, d.y, Z, H, "hom_sc", True)
    s1 = which == "het_step1c"
    lam1 = ch.first_lambda(s1)
    ctx.sig = [d.n, round(float(d.y.sum()), 6)]
    if abs(lam1[0]) > .95 or abs(ref.minimise(ch.second(lam1[0])[2])[0]) > .97:
        raise Skip("lambda near the bound")
    hb = ctx.pick("hard_bound", [False, True])
    if which == "hom":
        reg = ctx.run("hom", spreg.GM_Endog_Error_Hom, d.y, d.x, d.yend, d.q, d.w, hard_bound=hb)
    elif which == "gmm_het":
        reg = ctx.run("gmm", spreg.GMM_Error, d.y, d.x, d.w, d.yend, d.q, estimator="het", hard_bound=hb)
    else:
        reg = ctx.run("het", spreg.GM_Endog_Error_Het, d.y, d.x, d.yend, d.q, d.w, step1c=s1, hard_bound=hb,
                      inv_method="true_inv")
    b = float(np.asarray(reg.betas).reshape(-1)[-2])
    if which != "hom" and abs(ch.fit(0.)[0][-1, 0]) > .9 >= abs(ch.second(lam1[0])[0][-1, 0]):
        raise Skip("clamped in the first step only")
    if which != "hom" and abs(b) == .9 and abs(ch.second(lam1[0])[0][-1, 0]) > .9:
        ctx.fail("bigcoef.het-clamps-ordinary-endogenous-at-0.9", "coefficient reported as %g, filtered IV gives %.4f" % (
            b, ch.second(lam1[0])[0][-1, 0]))
        return
    judge(ctx, reg, ch, "bigcoef.", s1, 1, lam1)


MIN_FRACTION = 0.3
SUBS = {"het": (make("het"), 260, 3000), "hom": (make("hom"), 220, 2500), "bigcoef": (case_big, 60, 400)}
