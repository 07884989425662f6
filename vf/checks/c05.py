"""C05 ML spatial error: optimum of the likelihood, for every method."""
import numpy as np
from .. import ref, chk
from ..core import Skip
from .c04 import mldata, opt_checks, structure, vm_check

RULE = ("Random error-model data over seven weight layouts (row-standardised, or general weights scaled to unit "
        "spectral radius) crossed with evaluation method, true coefficient and SLX selection.")
ASSUMPTIONS = ["spectral radius of the weights is at most one (the estimator searches (-1, 1))"]


def case_err(ctx):
    import spreg
    d, X, slx, sel, meth, tr = mldata(ctx, err=True)
    st = ctx.cfg["structure"] = structure(d)
    pre = "err.%s." % meth.lower()
    if meth == "ord":
        pre = "err.ord-%s." % st
    f = ref.err_conc(d.y, X, d.W)
    opt = ref.maximise(f)
    if abs(opt[0]) > .985:
        raise Skip("optimum at the boundary of the parameter space")
    reg = ctx.run("ML_Error.%s" % meth.lower(), spreg.ML_Error, d.y, d.x, d.w, slx_lags=slx,
                  slx_vars="All" if sel is None else sel, method=meth)
    lam = float(np.asarray(reg.lam).reshape(-1)[0])
    ll = float(np.asarray(reg.logll).reshape(-1)[0])
    opt_checks(ctx, f, lam, ll, pre, opt)
    ys, Xs = d.y - lam * (d.W @ d.y), X - lam * (d.W @ X)
    o = ref.ols(ys, Xs)
    k = X.shape[1]
    u = d.y - X @ o.b
    sy = np.abs(d.y).max()
    ctx.close(pre + "betas", reg.betas, np.vstack([o.b, [[lam]]]), rtol=1e-6)
    ctx.close(pre + "u", reg.u, u, rtol=1e-6, scale=sy)
    ctx.close(pre + "predy", reg.predy, d.y - u, rtol=1e-6, scale=sy)
    ctx.close(pre + "e_filtered", reg.e_filtered, u - lam * (d.W @ u), rtol=1e-6, scale=sy)
    ctx.close(pre + "sig2", reg.sig2, o.sig2n, rtol=1e-6)
    V = ref.ml_err_vm(Xs, d.W, lam, o.sig2n)
    if abs(lam) < .97:
        Vs = ref.ml_err_vm(Xs, ref.sym_similar(d.W), lam, o.sig2n) if pre == "err.ord-sym-binary." else None
        vm_check(ctx, pre + "vm", reg.vm, V, Vs)
    ctx.close(pre + "aic", reg.aic, 2 * k - 2 * ll, rtol=1e-9)
    ctx.close(pre + "schwarz", reg.schwarz, k * np.log(d.n) - 2 * ll, rtol=1e-9)
    ctx.close(pre + "pr2", reg.pr2, np.corrcoef(d.y.ravel(), np.asarray(reg.predy).ravel())[0, 1] ** 2, rtol=0, atol=1e-7)
    chk.table(ctx, reg, pre="table.")


def case_methods(ctx):
    import spreg
    d, X, slx, sel, meth, tr = mldata(ctx, err=True)
    f = ref.err_conc(d.y, X, d.W)
    r, v, nloc = ref.maximise(f)
    if abs(r) > .97 or nloc > 1:
        raise Skip("boundary or several optima")
    regs = {}
    for m in ("full", "lu", "ord"):
        regs[m] = ctx.run("ML_Error." + m, spreg.ML_Error, d.y, d.x, d.w, slx_lags=slx,
                          slx_vars="All" if sel is None else sel, method=m)
    a = regs["full"]
    sb = structure(d) == "sym-binary" and tr == "r"
    for m in ("lu", "ord"):
        b = regs[m]
        ctx.close("agree.%s.lam" % m, b.lam, a.lam, rtol=0, atol=1e-4)
        ctx.close("agree.%s.betas" % m, b.betas, a.betas, rtol=0, atol=1e-3 * max(1, np.abs(a.betas).max()))
        ctx.close("agree.%s.logll" % m, b.logll, a.logll, rtol=1e-8)
        s = np.sqrt(np.diag(a.vm))
        ctx.close("agree.%s.se" % (m + "-symbinary" if sb and m == "ord" else m), np.sqrt(np.diag(b.vm)) / s, np.ones_like(s), rtol=2e-3)


SUBS = {"err": (case_err, 400, 5000), "methods": (case_methods, 120, 1500)}
