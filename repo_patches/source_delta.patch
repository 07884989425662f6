From c86fc81c4ce9edb77b9b8acc3ad27a6a16880db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 001/105] fix: apply boolean slx_vars to every spatial lag
 order in set_endog

---
 spreg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index 3fbf27a..ae29e85 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -716,7 +716,7 @@ def set_endog(y, x, w, yend, q, w_lags, lag_q, slx_lags=0, slx_vars="all"):
             if slx_vars.shape[0] != x.shape[1]:
                 raise Exception("slx_vars incompatible with x column dimensions")
             
-            lag_x = lag_x[:, slx_vars]
+            lag_x = lag_x[:, np.tile(slx_vars, slx_lags)]
             return yend, q, lag_x
 
 
-- 
2.43.0


From 14effc71912136cfa849061413156f3412743386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 002/105] fix: ORD method uses eigenvalues of the weights
 given, and leaves their transformation as it was

---
 spreg/ml_error.py |  4 ++--
 spreg/ml_lag.py   |  4 ++--
 spreg/w_utils.py  | 26 +++++++++++++++++++++++++-
 3 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/spreg/ml_error.py b/spreg/ml_error.py
index e12fe7f..75d0482 100755
--- a/spreg/ml_error.py
+++ b/spreg/ml_error.py
@@ -14,7 +14,7 @@ from .utils import RegressionPropsY, RegressionPropsVM, set_warn, get_lags
 from . import diagnostics as DIAG
 from . import user_output as USER
 from . import regimes as REGI
-from .w_utils import symmetrize
+from .w_utils import symmetrize, is_rowstd_binary
 import pandas as pd
 from .output import output, _nonspat_top
 
@@ -203,7 +203,7 @@ class BaseML_Error(RegressionPropsY, RegressionPropsVM, REGI.Regimes_Frame):
                 W = Wsp
             elif methodML == "ORD":
                 # check on symmetry structure
-                if w.asymmetry(intrinsic=False) == []:
+                if w.asymmetry(intrinsic=False) == [] and is_rowstd_binary(w):
                     ww = symmetrize(w)
                     WW = np.array(ww.todense())
                     evals = la.eigvalsh(WW)
diff --git a/spreg/ml_lag.py b/spreg/ml_lag.py
index 41cbba2..46e14d9 100755
--- a/spreg/ml_lag.py
+++ b/spreg/ml_lag.py
@@ -17,7 +17,7 @@ from . import diagnostics as DIAG
 from . import user_output as USER
 import pandas as pd
 from .output import output, _nonspat_top, _spat_diag_out, _spat_pseudo_r2, _summary_impacts
-from .w_utils import symmetrize
+from .w_utils import symmetrize, is_rowstd_binary
 from libpysal import weights
 
 try:
@@ -235,7 +235,7 @@ class BaseML_Lag(RegressionPropsY, RegressionPropsVM):
                 )
             elif methodML == "ORD":
                 # check on symmetry structure
-                if w.asymmetry(intrinsic=False) == []:
+                if w.asymmetry(intrinsic=False) == [] and is_rowstd_binary(w):
                     ww = symmetrize(w)
                     WW = np.array(ww.todense())
                     evals = la.eigvalsh(WW)
diff --git a/spreg/w_utils.py b/spreg/w_utils.py
index 657a498..9c79925 100644
--- a/spreg/w_utils.py
+++ b/spreg/w_utils.py
@@ -23,4 +23,28 @@ def symmetrize(w):
     Di12 = SPARSE.dia_matrix((1.0 / d, [0]), shape=(w.n, w.n))
     D12 = SPARSE.dia_matrix((d, [0]), shape=(w.n, w.n))
     w.transform = "r"
-    return D12 @ w.sparse @ Di12
+    result = D12 @ w.sparse @ Di12
+    w.transform = current
+    return result
+
+
+def is_rowstd_binary(w):
+    """Checks whether weights are row-standardized contiguity weights (without
+    islands), i.e. similar to the matrix returned by symmetrize.
+
+    Parameters
+    ----------
+    w: weights.W
+       weights object
+
+    Returns
+    -------
+    bool
+    """
+    ws = w.sparse
+    b = (ws != 0).astype(float)
+    d = np.asarray(b.sum(axis=1)).flatten()
+    if d.min() == 0:
+        return False
+    diff = abs(SPARSE.dia_matrix((1.0 / d, [0]), shape=(w.n, w.n)) @ b - ws)
+    return diff.max() < 1e-10
-- 
2.43.0


From ba18ace45536a5dc27ac128be30079b04905a838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:00 +0000
Subject: [PATCH 003/105] fix: keep coefficient names in order when
 TSLS_Regimes lists many coefficients

---
 spreg/twosls_regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index 9f408bc..e4200a1 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -625,7 +625,7 @@ class TSLS_Regimes(BaseTSLS, REGI.Regimes_Frame):
         else:
             diag_out = None
         if summ:
-            self.output.sort_values(by='regime', inplace=True)
+            self.output.sort_values(by='regime', inplace=True, kind='stable')
             output(reg=self, vm=vm, robust=robust, other_end=diag_out, latex=latex)
 
     def _get_spat_diag_props(self, results, regi_ids, x, yend, q):
-- 
2.43.0


From 7c37bdfc1d5145bb4f046d68ffd1d5f4a81a4311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 004/105] fix: regimes labelled by non-integral floats keep
 their labels

---
 spreg/regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/regimes.py b/spreg/regimes.py
index 10d17f9..040e978 100755
--- a/spreg/regimes.py
+++ b/spreg/regimes.py
@@ -695,7 +695,7 @@ def _get_regimes_set(regimes):
     regimes_set = list(set(regimes))
     if isinstance(regimes_set[0], float):
         regimes_set1 = list(set(map(int, regimes_set)))
-        if len(regimes_set1) == len(regimes_set):
+        if set(regimes_set1) == set(regimes_set):
             regimes_set = regimes_set1
     regimes_set.sort()
     return regimes_set
-- 
2.43.0


From a802ef0d41473315a02a0c444d8f9562464cd7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:52 +0000
Subject: [PATCH 005/105] fix: keep the weights of general W when it is subset
 or united by regimes

---
 spreg/regimes.py | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/spreg/regimes.py b/spreg/regimes.py
index 040e978..9684ba6 100755
--- a/spreg/regimes.py
+++ b/spreg/regimes.py
@@ -497,6 +497,21 @@ def set_name_x_regimes(name_x, constant_regi, cols2regi, regimes_set, xtype, rli
         return name_x_regi, xtype_full
 
 
+def _subset_w(w, ids):
+    """
+    Returns the subset of W for the given ids, keeping the (untransformed)
+    weights of the links among them (libpysal's w_subset makes them all 1).
+    """
+    keep = set(ids)
+    original = w.transformations["O"]
+    neighbors, w_values = {}, {}
+    for i in ids:
+        links = [(j, v) for j, v in zip(w.neighbors[i], original[i]) if j in keep]
+        neighbors[i] = [j for j, v in links]
+        w_values[i] = [v for j, v in links]
+    return weights.W(neighbors, w_values, id_order=list(ids), silence_warnings=True)
+
+
 def w_regime(w, regi_ids, regi_i, transform=True, min_n=None):
     """
     Returns the subset of W matrix according to a given regime ID
@@ -517,7 +532,7 @@ def w_regime(w, regi_ids, regi_i, transform=True, min_n=None):
     """
     w_ids = list(map(w.id_order.__getitem__, regi_ids))
     warn = None
-    w_regi_i = weights.set_operations.w_subset(w, w_ids, silence_warnings=True)
+    w_regi_i = _subset_w(w, w_ids)
     if min_n:
         if w_regi_i.n < min_n:
             raise Exception(
@@ -557,9 +572,7 @@ def w_regimes(w, regimes, regimes_set, transform=True, get_ids=None, min_n=None)
     w_regi_i = {}
     warn = None
     for r in regimes_set:
-        w_regi_i[r] = weights.set_operations.w_subset(
-            w, w_ids[r], silence_warnings=True
-        )
+        w_regi_i[r] = _subset_w(w, w_ids[r])
         if min_n:
             if w_regi_i[r].n < min_n:
                 raise Exception(
@@ -592,16 +605,12 @@ def w_regimes_union(w, w_regi_i, regimes_set):
     w_regi      : pysal W object
                   Spatial weights object containing the union of the subsets of W
     """
-    w_regi = weights.set_operations.w_union(
-        w_regi_i[regimes_set[0]], w_regi_i[regimes_set[1]], silence_warnings=True
-    )
-    if len(regimes_set) > 2:
-        for i in range(len(regimes_set))[2:]:
-            w_regi = weights.set_operations.w_union(
-                w_regi, w_regi_i[regimes_set[i]], silence_warnings=True
-            )
-    w_regi = weights.util.remap_ids(
-        w_regi, dict((i, i) for i in w_regi.id_order), w.id_order
+    neighbors, w_values = {}, {}
+    for r in regimes_set:
+        neighbors.update(w_regi_i[r].neighbors)
+        w_values.update(w_regi_i[r].transformations["O"])
+    w_regi = weights.W(
+        neighbors, w_values, id_order=w.id_order, silence_warnings=True
     )
     w_regi.transform = w.get_transform()
     return w_regi
-- 
2.43.0


From 188618a198fdb1b185cf536d4f2473068202c43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 006/105] fix: filter with the current lambda in every
 iteration of the HOM regime models

---
 spreg/error_sp_hom_regimes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/spreg/error_sp_hom_regimes.py b/spreg/error_sp_hom_regimes.py
index 46262e5..d987810 100644
--- a/spreg/error_sp_hom_regimes.py
+++ b/spreg/error_sp_hom_regimes.py
@@ -427,8 +427,8 @@ class GM_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             self.iteration, eps = 0, 1
             while self.iteration < max_iter and eps > epsilon:
                 # 2a. SWLS --> \hat{\delta}
-                xs = get_spFilter(w, lambda1, x_constant1)
-                ys = get_spFilter(w, lambda1, y)
+                xs = get_spFilter(w, lambda_old, x_constant1)
+                ys = get_spFilter(w, lambda_old, y)
                 xs = REGI.Regimes_Frame.__init__(
                     self, xs, regimes, constant_regi=None, cols2regi=cols2regi
                 )[0]
@@ -1069,12 +1069,12 @@ class GM_Endog_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             self.iteration, eps = 0, 1
             while self.iteration < max_iter and eps > epsilon:
                 # 2a. GS2SLS --> \hat{\delta}
-                xs = get_spFilter(w, lambda1, x_constant1)
+                xs = get_spFilter(w, lambda_old, x_constant1)
                 xs = REGI.Regimes_Frame.__init__(
                     self, xs, regimes, constant_regi=None, cols2regi=cols2regi
                 )[0]
-                ys = get_spFilter(w, lambda1, y)
-                yend_s = get_spFilter(w, lambda1, yend)
+                ys = get_spFilter(w, lambda_old, y)
+                yend_s = get_spFilter(w, lambda_old, yend)
                 yend_s = REGI.Regimes_Frame.__init__(
                     self,
                     yend_s,
-- 
2.43.0


From ee5732c9e5686b248482e666356334fb3b08f6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 007/105] fix: separate regime and lambda in the coefficient
 name of HET regime models

---
 spreg/error_sp_het_regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/error_sp_het_regimes.py b/spreg/error_sp_het_regimes.py
index d149d9e..59fcb51 100644
--- a/spreg/error_sp_het_regimes.py
+++ b/spreg/error_sp_het_regimes.py
@@ -1923,7 +1923,7 @@ def _work_endog_error(
     model.name_y = "%s_%s" % (str(r), name_y)
     model.name_x = ["%s_%s" % (str(r), i) for i in name_x]
     model.name_yend = ["%s_%s" % (str(r), i) for i in name_yend]
-    model.name_z = model.name_x + model.name_yend + [str(r)+"lambda"]
+    model.name_z = model.name_x + model.name_yend + [str(r)+"_lambda"]
     model.name_q = ["%s_%s" % (str(r), i) for i in name_q]
     model.name_h = model.name_x + model.name_q
     model.name_w = name_w
-- 
2.43.0


From 9c7c1a1a6352b5052396f39867bf8a87d15a2dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 008/105] fix: sums of squares of optimally weighted GMM
 regimes are those of its own residuals

---
 spreg/twosls_regimes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index e4200a1..ebbbc87 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -717,6 +717,8 @@ def _optimal_weight(reg, sig2n_k, warn=True):
     else:
         vm = fac2 * reg.n
     RegressionProps_basic(reg, betas=betas, vm=vm, sig2=False)
+    for i in ["utu", "sig2n", "sig2n_k"]:  # cached with the first-step residuals
+        reg._cache.pop(i, None)
     #reg.title += " (Optimal-Weighted GMM)"
     if warn:
         set_warn(
-- 
2.43.0


From 71b477616730a702bc937c3dfdd90ad3e2af8772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 009/105] fix: no common factor test in regimes where X and WX
 coefficients are not paired

---
 spreg/output.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/spreg/output.py b/spreg/output.py
index 3fcdd0a..540d091 100755
--- a/spreg/output.py
+++ b/spreg/output.py
@@ -290,18 +290,21 @@ def _spat_diag_out(reg, w, type, moran=False, ml=False):
                     x_indices = []
                     for m in reg.output['regime'].unique():
                         x_indices.extend(reg.output[(reg.output['regime'] == m) & (reg.output['var_type'] == 'x')].index)
-                    vm_indices = x_indices + wx_indices.tolist() + reg.output[reg.output['var_type'] == 'rho'].index.tolist()
-                    cft, cft_p = diagnostics_sp.comfac_test(reg.rho,
-                                                        reg.betas[x_indices],
-                                                        reg.betas[wx_indices],
-                                                        reg.vm[vm_indices, :][:, vm_indices])
-                    reg.cfh_test = cft, cft_p
-                    strSummary += "%-27s    %2d   %12.3f        %9.4f\n" % (
-                        "Common Factor Hypothesis Test",
-                        len(wx_indices),
-                        reg.cfh_test[0],
-                        reg.cfh_test[1],
-                    )
+                    # no test either if x and wx are not paired (e.g. only one of them varies by regimes)
+                    if len(x_indices) == len(wx_indices) and (reg.output.loc[x_indices, 'regime'].values ==
+                                                              reg.output.loc[wx_indices, 'regime'].values).all():
+                        vm_indices = x_indices + wx_indices.tolist() + reg.output[reg.output['var_type'] == 'rho'].index.tolist()
+                        cft, cft_p = diagnostics_sp.comfac_test(reg.rho,
+                                                            reg.betas[x_indices],
+                                                            reg.betas[wx_indices],
+                                                            reg.vm[vm_indices, :][:, vm_indices])
+                        reg.cfh_test = cft, cft_p
+                        strSummary += "%-27s    %2d   %12.3f        %9.4f\n" % (
+                            "Common Factor Hypothesis Test",
+                            len(wx_indices),
+                            reg.cfh_test[0],
+                            reg.cfh_test[1],
+                        )
 
     elif type == "ols":
         strSummary += "- SARERR -\n"
-- 
2.43.0


From d73791ade5f48e2a3f6a236ced6801b33fb07c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 010/105] fix: slx_vars and cols2regi lists in spatial Durbin
 regime models

---
 spreg/ml_lag_regimes.py    | 14 +++++++++++---
 spreg/twosls_sp_regimes.py | 37 ++++++++++++++++++++++++-------------
 2 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/spreg/ml_lag_regimes.py b/spreg/ml_lag_regimes.py
index 060da2c..8d72469 100644
--- a/spreg/ml_lag_regimes.py
+++ b/spreg/ml_lag_regimes.py
@@ -401,6 +401,7 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
                 w,
                 regi_ids,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 cores=cores,
                 cols2regi=cols2regi,
                 method=method,
@@ -442,6 +443,7 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
             #self.output['var_type'] = ['o'] + ['x'] * (len(self.name_x) - 2) + ['rho']
             self.output['equation'] = 0
             self.slx_lags = slx_lags
+            self.slx_vars = slx_vars
             diag_out = None
             if slx_lags > 0:
                 self.title = ("MAXIMUM LIKELIHOOD SPATIAL DURBIN - REGIMES"+ " (METHOD = "+ method+ ")")
@@ -478,6 +480,7 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
         w,
         regi_ids,
         slx_lags,
+        slx_vars,
         cores,
         cols2regi,
         method,
@@ -606,8 +609,13 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
             results[r].other_top += _nonspat_top(results[r], ml=True)
             results[r].other_mid = ""
             if slx_lags > 0:
-                kx = (len(results[r].name_x) - 1) // (slx_lags + 1)
-                var_types = ['o']+['x']*kx + ['wx'] * kx * slx_lags + ['rho']
+                results[r].slx_vars = slx_vars
+                if isinstance(slx_vars, list):
+                    kx = len(slx_vars)
+                else:
+                    kx = (len(results[r].name_x) - 1) // (slx_lags + 1)
+                kwx = len(results[r].name_x) - 2 - kx
+                var_types = ['o'] + ['x'] * kx + ['wx'] * kwx + ['rho']
             else:
                 var_types = ['o']+['x'] * (len(results[r].name_x) - 2) + ['rho']
             results[r].output = pd.DataFrame({'var_names': results[r].name_x,
@@ -617,7 +625,7 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
             if spat_diag and slx_lags == 1:
                 results[r].other_mid += _spat_diag_out(results[r], None, 'yend', ml=True)
             if spat_impacts:
-                results[r].sp_multipliers, impacts_str = _summary_impacts(results[r], results[r].w, spat_impacts, slx_lags)
+                results[r].sp_multipliers, impacts_str = _summary_impacts(results[r], results[r].w, spat_impacts, slx_lags, slx_vars)
                 results[r].other_mid += impacts_str
             counter += 1
         self.multi = results
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index b698967..aa5bef9 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -521,12 +521,8 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             name_q_temp = [next(iter_slx) if keep else name for name, keep in zip(name_x, slx_vars)]
             name_q.extend(USER.set_name_q_sp(name_q_temp, w_lags, name_q, lag_q, force_all=True))
             name_x += name_slx
-            if cols2regi == 'all':
-                cols2regi = REGI.check_cols2regi(
-                    constant_regi, cols2regi, x_constant, yend=yend2, add_cons=False)[0:-1]
-            else:
-                cols2regi = REGI.check_cols2regi(
-                    constant_regi, cols2regi, x_constant, yend=yend2, add_cons=False)
+            cols2regi = REGI.check_cols2regi(
+                constant_regi, cols2regi, x_constant, yend=yend, add_cons=False)
         else:
             name_q.extend(USER.set_name_q_sp(name_x, w_lags, name_q, lag_q, force_all=True))
             yend2, q2 = yend, q
@@ -577,6 +573,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
                 q=q2,
                 w_lags=w_lags,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 lag_q=lag_q,
                 cores=cores,
                 robust=robust,
@@ -641,10 +638,17 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             self.regime_lag_sep = regime_lag_sep
             self.title = "SPATIAL " + self.title
             if slx_lags > 0:
-                for m in self.regimes_set:
-                    r_output = self.output[(self.output['regime'] == str(m)) & (self.output['var_type'].isin(['x', 'o']))]
-                    wx_index = r_output.index[-((len(r_output)-1)//(slx_lags+1)) * slx_lags:]
-                    self.output.loc[wx_index, 'var_type'] = 'wx'
+                kx = x_constant.shape[1] - wx.shape[1]
+                fixed_wx = cols2regi[kx:x_constant.shape[1]].count(False)
+                kwx = wx.shape[1] - fixed_wx
+                if kwx > 0:
+                    for m in self.regimes_set:
+                        r_output = self.output[(self.output['regime'] == str(m)) & (self.output['var_type'].isin(['x', 'o']))]
+                        wx_index = r_output.index[-kwx:]
+                        self.output.loc[wx_index, 'var_type'] = 'wx'
+                if fixed_wx > 0:
+                    g_output = self.output[(self.output['regime'] == '_Global') & (self.output['var_type'].isin(['x', 'o']))]
+                    self.output.loc[g_output.index[-fixed_wx:], 'var_type'] = 'wx'
                 self.title = " SPATIAL 2SLS WITH SLX (SPATIAL DURBIN MODEL) - REGIMES"
             top_diag = _spat_pseudo_r2(self)
             try:
@@ -652,6 +656,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             except:
                 self.other_top = top_diag
             self.slx_lags = slx_lags
+            self.slx_vars = slx_vars
             diag_out = None
             if spat_diag:
                 diag_out = _spat_diag_out(self, w, 'yend')
@@ -675,6 +680,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
         q=None,
         w_lags=1,
         slx_lags=0,
+        slx_vars='all',
         lag_q=True,
         robust=None,
         gwk=None,
@@ -853,8 +859,13 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             results[r].other_top += _spat_pseudo_r2(results[r])
             results[r].other_mid = ""
             if slx_lags > 0:
-                kx = (results[r].k - results[r].kstar - 1) // (slx_lags + 1)
-                var_types = ['o'] + ['x']*kx + ['wx'] * kx * slx_lags + ['yend'] * (len(results[r].name_yend) - 1) + ['rho']
+                results[r].slx_vars = slx_vars
+                if isinstance(slx_vars, list):
+                    kx = len(slx_vars)
+                else:
+                    kx = (results[r].k - results[r].kstar - 1) // (slx_lags + 1)
+                kwx = results[r].k - results[r].kstar - 1 - kx
+                var_types = ['o'] + ['x'] * kx + ['wx'] * kwx + ['yend'] * (len(results[r].name_yend) - 1) + ['rho']
             else:
                 var_types = ['o'] + ['x'] * (len(results[r].name_x)-1) + ['yend'] * (len(results[r].name_yend)-1) + ['rho']
             results[r].output = pd.DataFrame({'var_names': results[r].name_x + results[r].name_yend,
@@ -864,7 +875,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             if spat_diag:
                 results[r].other_mid += _spat_diag_out(results[r], results[r].w, 'yend')
             if spat_impacts:
-                results[r].sp_multipliers, impacts_str = _summary_impacts(results[r], results[r].w, spat_impacts, slx_lags)
+                results[r].sp_multipliers, impacts_str = _summary_impacts(results[r], results[r].w, spat_impacts, slx_lags, slx_vars)
                 results[r].other_mid += impacts_str
             counter += 1
         self.multi = results
-- 
2.43.0


From 352b8f85aa14e4b4806fbe8482794762b347a99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:30 +0000
Subject: [PATCH 011/105] fix: spatially lagged dependent variable by regime in
 spatial Durbin models with regime_lag_sep

---
 spreg/twosls_sp_regimes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index aa5bef9..d81d432 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -597,6 +597,8 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
         else:
             if regime_lag_sep == True:
                 w = REGI.w_regimes_union(w, w_i, self.regimes_set)
+                if slx_lags > 0:
+                    yend2[:, -1:] = w.sparse @ y  # only WX is computed using the complete W
             if slx_lags == 0:
                 yend2, q2 = set_endog(y, x_constant, w, yend2, q2, w_lags, lag_q)
             name_yend.append(USER.set_name_yend_sp(name_y))
@@ -971,6 +973,7 @@ def _work(
         yend_r, q_r = set_endog_sparse(y_r, x_r[:, 1:], w_r, yend_r, q_r, w_lags, lag_q)
         title = "SPATIAL TWO STAGE LEAST SQUARES ESTIMATION - REGIME %s" % r
     else:
+        yend_r = np.hstack((yend_r[:, :-1], w_r @ y_r))  # only WX is computed using the complete W
         title = "SPATIAL 2SLS WITH SLX (SPATIAL DURBIN MODEL) - REGIME %s" % r
     # x_constant = USER.check_constant(x_r)
     if robust == "hac" or robust == "ogmm":
-- 
2.43.0


From 742b7c0ffb555075eab9d85114095c4f6a30c0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 012/105] fix: impacts of spatial Durbin regime models when not
 all variables are lagged or vary by regimes

---
 spreg/sputils.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/spreg/sputils.py b/spreg/sputils.py
index 993ff9a..70af697 100755
--- a/spreg/sputils.py
+++ b/spreg/sputils.py
@@ -362,13 +362,17 @@ def _sp_effects(reg, variables, spmult, slx_lags=0,slx_vars="All"):
     # Assumes all SLX effects are indirect effects. 
     if slx_lags > 0:
         if reg.output.regime.nunique() > 1:
-            btot_idx = pd.Series(btot.flatten(), index=variables_x_index)   
-            wchunk_size = len(variables.query("regime == @reg.output.regime.iloc[0]")) #Number of exogenous variables in each regime
-            for i in range(slx_lags):
-                chunk_indices = variables_x_index + (i+1) * wchunk_size
-                bmult = m1 * reg.betas[chunk_indices]
-                btot_idx[variables_x_index] += bmult.flatten()
-                btot = btot_idx.to_numpy().reshape(btot.shape)
+            variables_wx = reg.output.query("var_type == 'wx'")
+            wx_index = dict(zip(variables_wx['var_names'], variables_wx.index))
+            btot = btot.copy()
+            for h, (name, regime) in enumerate(zip(variables['var_names'], variables['regime'])):
+                name = name[len(str(regime)) + 1:]  # without the regime
+                for i in range(slx_lags):
+                    wname = ('W_' if i == 0 else 'W%d_' % (i + 1)) + name
+                    for r in (regime, '_Global'):
+                        if '%s_%s' % (r, wname) in wx_index:
+                            btot[h] += m1 * reg.betas[wx_index['%s_%s' % (r, wname)], 0]
+                            break
 
         else:
             variables_wx = reg.output.query("var_type == 'wx'")
-- 
2.43.0


From 5f8c917d7d41fdc710936d2805e88bb1847f85a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:08 +0000
Subject: [PATCH 013/105] fix: spatial diagnostics of separate OLS regimes keep
 the covariance and count all coefficients

---
 spreg/ols_regimes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/spreg/ols_regimes.py b/spreg/ols_regimes.py
index 4ebfd1b..0c9d7c0 100755
--- a/spreg/ols_regimes.py
+++ b/spreg/ols_regimes.py
@@ -681,8 +681,7 @@ class OLS_Regimes(BaseOLS, REGI.Regimes_Frame, RegressionPropsY):
         output(reg=self, vm=vm, robust=robust, other_end=other_end, latex=latex)
 
     def _get_spat_diag_props(self, x, sig2n_k):
-        self.k = self.kr
-        self._cache = {}
+        self.k = self.kr * self.nr
         self.x = REGI.regimeX_setup(
             x, self.regimes, [True] * x.shape[1], self.regimes_set
         )
-- 
2.43.0


From 4fee2ffecb740c4c133ce9879bb6ad7466122ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:08 +0000
Subject: [PATCH 014/105] fix: Chow section of the summary and output_chow in
 regime models

---
 spreg/ml_error_regimes.py | 2 +-
 spreg/output.py           | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/spreg/ml_error_regimes.py b/spreg/ml_error_regimes.py
index 12af71a..2306e9e 100644
--- a/spreg/ml_error_regimes.py
+++ b/spreg/ml_error_regimes.py
@@ -327,8 +327,8 @@ class ML_Error_Regimes(BaseML_Error, REGI.Regimes_Frame):
 
         self.name_x_r = USER.set_name_x(name_x, x_constant)
 
+        self.cols2regi = cols2regi
         cols2regi = REGI.check_cols2regi(constant_regi, cols2regi, x_constant)
-        self.cols2regi = cols2regi        
         self.regimes_set = REGI._get_regimes_set(regimes)
         self.regimes = regimes
         USER.check_regimes(self.regimes_set, self.n, x.shape[1])
diff --git a/spreg/output.py b/spreg/output.py
index 540d091..df609da 100755
--- a/spreg/output.py
+++ b/spreg/output.py
@@ -227,7 +227,7 @@ def _summary_chow(reg):
     try:
         tot_SSR = reg.score
     except:
-        tot_SSR = np.dot(reg.u.T, reg.u)
+        tot_SSR = np.dot(reg.u.T, reg.u).item()
     try:
         n_clust = reg.nr
     except:
@@ -245,7 +245,7 @@ def _summary_chow(reg):
     if reg.constant_regi == "many":
         names_chow = ["CONSTANT"] + names_chow
 
-    if 'lambda' in reg.output.var_type.values:
+    if 'lambda' in reg.output.var_type.values and len(regi) > len(names_chow):
         if reg.output.var_type.value_counts()['lambda'] > 1:
             names_chow += ["lambda"]
 
-- 
2.43.0


From 08b9b4512f6030834ed750be6d00cff43e298a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:01 +0000
Subject: [PATCH 015/105] fix: singular auxiliary regression of the White test
 in pooled regime models

---
 spreg/diagnostics.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spreg/diagnostics.py b/spreg/diagnostics.py
index 2811c17..28baab8 100755
--- a/spreg/diagnostics.py
+++ b/spreg/diagnostics.py
@@ -999,7 +999,12 @@ def white(reg):
         A = A[:, keepcolumn]
     else:
         raise Exception("unknown A type, %s" % type(X).__name__)
-    A = sphstack(np.ones((A.shape[0], 1)), A)  # add a constant back in
+    # add a constant back in, unless the columns already add up to one (regimes)
+    const = np.ones((n, 1))
+    A_dense = A.toarray() if SP.issparse(A) else A
+    gap = const - np.dot(A_dense, la.lstsq(A_dense, const, rcond=None)[0])
+    if np.sqrt((gap**2).sum() / n) > 1e-8:
+        A = sphstack(const, A)
     n, k = A.shape
 
     # Conduct the auxiliary regression and calculate the statistic
-- 
2.43.0


From 15e6517aa5293a792d6ebc17836d47eee595d3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:48 +0000
Subject: [PATCH 016/105] fix: SUR estimators leave the caller's dictionaries
 and name lists unchanged

---
 spreg/sur.py       |  3 +++
 spreg/sur_error.py |  4 +++-
 spreg/sur_lag.py   | 13 +++++++++++++
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/spreg/sur.py b/spreg/sur.py
index fbe4352..aa48d63 100755
--- a/spreg/sur.py
+++ b/spreg/sur.py
@@ -427,6 +427,7 @@ class SUR(BaseSUR, REGI.Regimes_Frame):
             else:
                 raise Exception("Error: bigy and bigX must be both lists or both dictionaries")
 
+        bigX = dict(bigX)  # equations are replaced below when there are regimes
         self.name_ds = USER.set_name_ds(name_ds)
         self.name_w = USER.set_name_w(name_w, w)
         self.n_eq = len(bigy.keys())
@@ -827,6 +828,8 @@ class ThreeSLS(BaseThreeSLS, REGI.Regimes_Frame):
             else:
                 raise Exception("Error: bigy, bigX, bigyend and bigq must be all lists or all dictionaries")
 
+        # equations are replaced below when there are regimes
+        bigX, bigyend, bigq = dict(bigX), dict(bigyend), dict(bigq)
         self.name_ds = USER.set_name_ds(name_ds)
         self.n_eq = len(bigy.keys())
 
diff --git a/spreg/sur_error.py b/spreg/sur_error.py
index 9a1585c..6852c40 100644
--- a/spreg/sur_error.py
+++ b/spreg/sur_error.py
@@ -327,6 +327,7 @@ class SURerrorGM(BaseSURerrorGM, REGI.Regimes_Frame):
             else:
                 raise Exception("Error: bigy and bigX must be both lists or both dictionaries")
 
+        bigX = dict(bigX)  # equations are replaced below when there are regimes
         # check on variable names for listing results
         self.name_ds = USER.set_name_ds(name_ds)
         self.name_w = USER.set_name_w(name_w, w)
@@ -773,7 +774,8 @@ class SURerrorML(BaseSURerrorML, REGI.Regimes_Frame):
                     raise Exception("Error: bigy and bigX must have the same number of elements")
             else:
                 raise Exception("Error: bigy and bigX must be both lists or both dictionaries")
-            
+
+        bigX = dict(bigX)  # equations are replaced below when there are regimes
         # check on variable names for listing results
         self.name_ds = USER.set_name_ds(name_ds)
         self.name_w = USER.set_name_w(name_w, w)
diff --git a/spreg/sur_lag.py b/spreg/sur_lag.py
index 6eab0ac..35e0245 100644
--- a/spreg/sur_lag.py
+++ b/spreg/sur_lag.py
@@ -244,6 +244,19 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
             else:
                 raise Exception("Error: bigy, bigX, bigyend (if provided) and bigq (if provided) must be all lists or all dictionaries")
 
+        # equations, instruments and names are extended below
+        bigX = dict(bigX)
+        if bigyend is not None:
+            bigyend = dict(bigyend)
+        if bigq is not None:
+            bigq = dict(bigq)
+        if name_bigX is not None:
+            name_bigX = {r: list(name_bigX[r]) for r in name_bigX}
+        if name_bigyend is not None:
+            name_bigyend = {r: list(name_bigyend[r]) for r in name_bigyend}
+        if name_bigq is not None:
+            name_bigq = {r: list(name_bigq[r]) for r in name_bigq}
+
         self.name_ds = USER.set_name_ds(name_ds)
         self.n_eq = len(bigy.keys())
         
-- 
2.43.0


From 43b9693a4f7d911b622c8e8245b19e4ba8626a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:48 +0000
Subject: [PATCH 017/105] fix: SURlagIV keeps the given names of endogenous
 variables and instruments

---
 spreg/sur_lag.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/spreg/sur_lag.py b/spreg/sur_lag.py
index 35e0245..7c86572 100644
--- a/spreg/sur_lag.py
+++ b/spreg/sur_lag.py
@@ -291,18 +291,20 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
             name_bigyend = {}
         if bigyend is not None:  # check on other endogenous
             self.bigyend = bigyend
-            for r in range(self.n_eq):
-                ky = bigyend[r].shape[1]
-                name_ye = ["end_" + str(i + 1) + "_" + str(r + 1) for i in range(ky)]
-                name_bigyend[r] = name_ye
+            if not name_bigyend:
+                for r in range(self.n_eq):
+                    ky = bigyend[r].shape[1]
+                    name_ye = ["end_" + str(i + 1) + "_" + str(r + 1) for i in range(ky)]
+                    name_bigyend[r] = name_ye
         if name_bigq is None:
             name_bigq = {}
         if bigq is not None:  # check on instruments
             self.bigq = bigq
-            for r in range(self.n_eq):
-                ki = bigq[r].shape[1]
-                name_i = ["inst_" + str(i + 1) + "_" + str(r + 1) for i in range(ki)]
-                name_bigq[r] = name_i
+            if not name_bigq:
+                for r in range(self.n_eq):
+                    ki = bigq[r].shape[1]
+                    name_i = ["inst_" + str(i + 1) + "_" + str(r + 1) for i in range(ki)]
+                    name_bigq[r] = name_i
 
         if regimes is not None:
             self.constant_regi = "many"
-- 
2.43.0


From 5c0d6734c065ba0400c0d8b5f218bb70213f099c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:15 +0000
Subject: [PATCH 018/105] fix: SURlagIV with regimes: other endogenous
 variables, their names and the Chow table between equations

---
 spreg/summary_output.py | 47 ++++++++++++++++-------------------------
 spreg/sur_lag.py        | 17 ++++++++-------
 2 files changed, 27 insertions(+), 37 deletions(-)

diff --git a/spreg/summary_output.py b/spreg/summary_output.py
index 33145e8..a126333 100755
--- a/spreg/summary_output.py
+++ b/spreg/summary_output.py
@@ -1900,37 +1900,26 @@ def summary_diag_sur(
                 if tsls:
                     kend = len(reg.name_bigyend[list(reg.name_bigyend.keys())[0]])
                     kx += -kend
-                names_chow = {}
-                reg_counter = 1
-                for k in range(len(reg.surchow)):
-                    names_chow[k] = ""
-                    if k < ((kx + kend) * reg_counter - kend) / regK:
-                        kxadj = int(k - (reg_counter - 1) * kend / regK)
-                        for i in reg.name_bigX:
-                            names_chow[k] += reg.name_bigX[i][kxadj] + ", "
+                # coefficients regime by regime, those common to all regimes last
+                kxr, kendr = kx // regK, kend // regK
+                order = []
+                for i in range(regK):
+                    order += range(i * kxr, (i + 1) * kxr)
+                    order += range(kx + i * kendr, kx + (i + 1) * kendr)
+                order += range(kx + regK * kendr, kx + kend)
+                for k in order:
+                    if k < kx:
+                        names_k = [reg.name_bigX[i][k] for i in reg.name_bigX]
                     else:
-                        for j in reg.name_bigyend:
-                            kxadj = int(k - kx * reg_counter / regK)
-                            names_chow[k] += reg.name_bigyend[j][kxadj] + ", "
-                    if k + 1 == (kx + kend) * reg_counter / regK:
-                        reg_counter += 1
-                    if len(names_chow[k]) > 42:
-                        names_chow[k] = names_chow[k][0:38] + "..."
-                    else:
-                        names_chow[k] = names_chow[k][:-2]
-                reg_counter = 1
-                for k in range(len(reg.surchow)):
-                    if k < ((kx + kend) * reg_counter - kend) / regK:
-                        kadj = int(k - (reg_counter - 1) * kend / regK)
-                    else:
-                        kadj = int(kx + k - kx * reg_counter / regK)
-                    if k + 1 == (kx + kend) * reg_counter / regK:
-                        reg_counter += 1
+                        names_k = [reg.name_bigyend[i][k - kx] for i in reg.name_bigyend]
+                    names_chow = ", ".join(names_k)
+                    if len(names_chow) > 40:
+                        names_chow = names_chow[0:38] + "..."
                     strChow += "%41s        %2d   %10.3f           %6.4f\n" % (
-                        names_chow[k],
-                        reg.surchow[kadj][1],
-                        reg.surchow[kadj][0],
-                        reg.surchow[kadj][2],
+                        names_chow,
+                        reg.surchow[k][1],
+                        reg.surchow[k][0],
+                        reg.surchow[k][2],
                     )
             if spat_diag and chow_lamb:
                 strChow += "%41s        %2d   %10.3f           %6.4f\n" % (
diff --git a/spreg/sur_lag.py b/spreg/sur_lag.py
index 7c86572..17cfc3e 100644
--- a/spreg/sur_lag.py
+++ b/spreg/sur_lag.py
@@ -13,6 +13,7 @@ from . import regimes as REGI
 from .sur import BaseThreeSLS
 from .diagnostics_sur import sur_setp, sur_chow, sur_joinrho
 from .sur_utils import check_k, sur_dictxy, sur_dictZ
+from .sputils import sphstack
 
 __all__ = ["SURlagIV"]
 
@@ -375,7 +376,7 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
         # spatial lag dependent variable fixed across regimes or no regimes
         if regimes is None or regime_lag_sep == False:
             bigyend, self.name_bigyend = _get_spatial_lag(
-                self, bigyend, WS, name_bigyend
+                self, bigyend, WS, self.name_bigyend
             )
         # spatially lagged exogenous variables
         bigwx = {}
@@ -389,13 +390,13 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
                     bigwq = {}
                     for r in range(self.n_eq):
                         bigwq = WS @ bigq[r]
-                        bigq[r] = np.hstack((bigq[r], bigwx[r], bigwq))
+                        bigq[r] = sphstack(sphstack(bigq[r], bigwx[r]), bigwq)
                         wqnames = ["W_" + i for i in self.name_bigq[r]]
                         wxnames[r] = wxnames[r] + wqnames
                         self.name_bigq[r] = self.name_bigq[r] + wxnames[r]
                 else:  # no lags for other instruments
                     for r in range(self.n_eq):
-                        bigq[r] = np.hstack((bigq[r], bigwx[r]))
+                        bigq[r] = sphstack(bigq[r], bigwx[r])
                         self.name_bigq[r] = self.name_bigq[r] + wxnames[r]
             else:  # no other instruments only wx
                 bigq = {}
@@ -410,7 +411,7 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
                 wxnames[r] = nameswork
                 for i in range(1, w_lags):
                     bigwxwork = WS @ bigwxwork
-                    bigwx[r] = np.hstack((bigwx[r], bigwxwork))
+                    bigwx[r] = sphstack(bigwx[r], bigwxwork)
                     nameswork = ["W" + i for i in nameswork]
                     wxnames[r] = wxnames[r] + nameswork
             if bigq:  # other instruments
@@ -424,15 +425,15 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
                         wq[r] = bigwq
                         for i in range(1, w_lags):
                             bigwq = WS @ bigwq
-                            wq[r] = np.hstack((wq[r], bigwq))
+                            wq[r] = sphstack(wq[r], bigwq)
                             wqnameswork = ["W" + i for i in wqnameswork]
                             wqnames[r] = wqnames[r] + wqnameswork
-                        bigq[r] = np.hstack((bigq[r], bigwx[r], wq[r]))
+                        bigq[r] = sphstack(sphstack(bigq[r], bigwx[r]), wq[r])
                         self.name_bigq[r] = self.name_bigq[r] + wxnames[r] + wqnames[r]
 
                 else:  # no lags for other instruments
                     for r in range(self.n_eq):
-                        bigq[r] = np.hstack((bigq[r], bigwx[r]))
+                        bigq[r] = sphstack(bigq[r], bigwx[r])
                         self.name_bigq[r] = self.name_bigq[r] + wxnames[r]
             else:  # no other instruments only wx
                 bigq = {}
@@ -499,7 +500,7 @@ def _get_spatial_lag(reg, bigyend, WS, name_bigyend):
         bigylag[r] = WS @ reg.bigy[r]
     if bigyend is not None:
         for r in range(reg.n_eq):
-            bigyend[r] = np.hstack((bigyend[r], bigylag[r]))
+            bigyend[r] = sphstack(bigyend[r], bigylag[r])
         # adjust variable names
         for r in range(reg.n_eq):
             wyname = "W_" + reg.name_bigy[r]
-- 
2.43.0


From 55df2a281e391f191188a26832cf2296e291095d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:15 +0000
Subject: [PATCH 019/105] fix: Chow tests of endogenous variables in 3SLS and
 SURlagIV regimes; degrees of freedom of their global test

---
 spreg/summary_output.py | 2 +-
 spreg/sur.py            | 2 +-
 spreg/sur_lag.py        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/spreg/summary_output.py b/spreg/summary_output.py
index a126333..6a9743f 100755
--- a/spreg/summary_output.py
+++ b/spreg/summary_output.py
@@ -1584,7 +1584,7 @@ def summary_chow(reg, lambd=False, sur=False):
         )
     sum_text += "%25s        %2d    %12.3f        %9.4f\n" % (
         "Global test",
-        reg.kr * (reg.nr - 1),
+        len(regi) * (reg.nr - 1),
         joint[0],
         joint[1],
     )
diff --git a/spreg/sur.py b/spreg/sur.py
index aa48d63..f712838 100755
--- a/spreg/sur.py
+++ b/spreg/sur.py
@@ -944,7 +944,7 @@ class ThreeSLS(BaseThreeSLS, REGI.Regimes_Frame):
                 self.chow_regimes[r] = REGI._chow_run(
                     len(cols2regi_dic[r]),
                     0,
-                    0,
+                    bigyend[r].shape[1] // len(self.regimes_set),
                     len(self.regimes_set),
                     self.b3SLS[r],
                     self.varb[varb_counter:counter_end, varb_counter:counter_end],
diff --git a/spreg/sur_lag.py b/spreg/sur_lag.py
index 17cfc3e..5575b1b 100644
--- a/spreg/sur_lag.py
+++ b/spreg/sur_lag.py
@@ -477,7 +477,7 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
                 self.chow_regimes[r] = REGI._chow_run(
                     len(cols2regi_dic[r]),
                     fixed_lag,
-                    0,
+                    (bigyend[r].shape[1] - fixed_lag) // len(self.regimes_set),
                     len(self.regimes_set),
                     self.b3SLS[r],
                     self.varb[varb_counter:counter_end, varb_counter:counter_end],
-- 
2.43.0


From f8b36d7ebbe86cdeaaf1065b55f5a25934f4018c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:28 +0000
Subject: [PATCH 020/105] fix: check_endog leaves one-dimensional arrays of the
 caller as they are

---
 spreg/user_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/user_output.py b/spreg/user_output.py
index 097dace..b8e9c2b 100755
--- a/spreg/user_output.py
+++ b/spreg/user_output.py
@@ -542,7 +542,7 @@ def check_endog(arrays, names):
         if arrays[i] is None:
             pass
         elif len(arrays[i].shape) == 1:
-            arrays[i].shape = (arrays[i].shape[0], 1)
+            arrays[i] = arrays[i].reshape((arrays[i].shape[0], 1))
         check_numeric_bool(arrays[i])
     return (*arrays, *names)
 
-- 
2.43.0


From 218c0ff3dad97434657ca02f748186a1c60d63e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:49 +0000
Subject: [PATCH 021/105] fix: Skater_reg.fit leaves the transformation of the
 caller's weights as it was

---
 spreg/skater_reg.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index c563597..157d8ba 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -222,8 +222,11 @@ class Skater_reg(object):
         if data.shape[0] <= n_clusters*quorum:
             raise ValueError("The number of observations is less than the number of clusters times the quorum.")
         
+        transform = W.transform
         W.transform = "b"
-        W = W.sparse
+        Wsp = W.sparse
+        W.transform = transform
+        W = Wsp
         start = time.time()
 
         super_verbose = verbose > 1
-- 
2.43.0


From cd7f420a75ce4d161242509575ccb275a5221855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:59 +0000
Subject: [PATCH 022/105] fix: Skater_reg does not add instruments to the
 caller's data_reg

---
 spreg/skater_reg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index 157d8ba..5da65a1 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -540,6 +540,7 @@ class Skater_reg(object):
 
     def _prep_lag(self, data_reg):
         # if the model is a spatial lag, add the lagged dependent variable to the model
+        data_reg = dict(data_reg)
         data_reg['yend'], data_reg['q'] = set_endog(data_reg["y"], data_reg["x"][:, 1:], data_reg["w"], yend=None,
             q=None, w_lags=1, lag_q=True)
         return data_reg
-- 
2.43.0


From cf6376755646725d7f005ba5e5a15c6079581605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:45 +0000
Subject: [PATCH 023/105] fix: ML_Error_Regimes accepts a single
 one-dimensional regressor

---
 spreg/ml_error_regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/ml_error_regimes.py b/spreg/ml_error_regimes.py
index 2306e9e..d28a072 100644
--- a/spreg/ml_error_regimes.py
+++ b/spreg/ml_error_regimes.py
@@ -331,7 +331,7 @@ class ML_Error_Regimes(BaseML_Error, REGI.Regimes_Frame):
         cols2regi = REGI.check_cols2regi(constant_regi, cols2regi, x_constant)
         self.regimes_set = REGI._get_regimes_set(regimes)
         self.regimes = regimes
-        USER.check_regimes(self.regimes_set, self.n, x.shape[1])
+        USER.check_regimes(self.regimes_set, self.n, x_constant.shape[1])
         self.regime_err_sep = regime_err_sep
 
         if regime_err_sep == True:
-- 
2.43.0


From cb016b07c173ca2823679ed001c3d5584566b857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:45 +0000
Subject: [PATCH 024/105] fix: make_wnslx keeps the dimension when the last
 observations are nobody's neighbor

---
 spreg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index ae29e85..c6e365b 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -945,7 +945,7 @@ def make_wnslx(coords,params,leafsize=30,distance_metric='Euclidean'):
         colids = nbrs[pickgd].flatten()
         fdis = fdis[pickgd].flatten()
     
-    spdis = coo_array((fdis,(rowids,colids)))
+    spdis = coo_array((fdis,(rowids,colids)), shape=(n,n))
     spdis = spdis.tocsr(copy=True)
     
     return spdis
-- 
2.43.0


From 5fba8c8ed04e6e467ac9cfac56fbad78e19f7d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:45 +0000
Subject: [PATCH 025/105] fix: SURerrorML does not evaluate the Jacobian where
 it is singular

---
 spreg/sur_error.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/sur_error.py b/spreg/sur_error.py
index 6852c40..96e6d39 100644
--- a/spreg/sur_error.py
+++ b/spreg/sur_error.py
@@ -540,7 +540,7 @@ class BaseSURerrorML:
         self.llik = reg0.llik  # as is, includes constant
 
         # iteration
-        lambdabounds = [(-1.0, +1.0) for i in range(self.n_eq)]
+        lambdabounds = [(-0.999, +0.999) for i in range(self.n_eq)]
         while abs(fun0 - fun1) > epsilon:
             fun0 = fun1
             sply = filter_dict(lam, self.bigy, self.bigylag)
-- 
2.43.0


From 81df4647112aa857f5751e568ce61726f378213b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:36 +0000
Subject: [PATCH 026/105] fix: starting values of SURerrorML with regimes
 (concentrated likelihood of sparse regressors)

---
 spreg/ml_error.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spreg/ml_error.py b/spreg/ml_error.py
index 75d0482..6b05186 100755
--- a/spreg/ml_error.py
+++ b/spreg/ml_error.py
@@ -577,8 +577,8 @@ def err_c_loglik_sp(lam, n, y, ylag, x, xlag, I, Wsp):
 
     # 2. OLS residuals (using solve instead of inv)
     # Equivalent to: B = (X'X)^-1 X'y
-    xsxs = np.dot(xs.T, xs)
-    xsys = np.dot(xs.T, ys)
+    xsxs = spdot(xs.T, xs, array_out=True)
+    xsys = spdot(xs.T, ys)
     
     try:
         # Solves Ax = B for x. stable and faster than inv
@@ -587,7 +587,7 @@ def err_c_loglik_sp(lam, n, y, ylag, x, xlag, I, Wsp):
         return np.inf # Return infinity if singular to steer optimizer away
 
     # Calculate residuals
-    xb = np.dot(xs, betas)
+    xb = spdot(xs, betas)
     e = ys - xb
     
     # Calculate sigma^2
-- 
2.43.0


From a89bd5209bb27f9311e08ccee2af25956d4868f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:09 +0000
Subject: [PATCH 027/105] fix: orthonormal eigenvectors for symmetric weights
 in the random effects ML error models

---
 spreg/panel.py    | 5 ++++-
 spreg/panel_re.py | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/spreg/panel.py b/spreg/panel.py
index 57902d3..84eaa60 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -1939,7 +1939,10 @@ class BaseML_ErrorRE(RegressionPropsY, RegressionPropsVM):
             xlag[:, i] = (x_reshaped[:, :, i] @ Wsp.T).reshape(-1)
 
         I = np.identity(N)
-        evals, evecs = la.eig(W)
+        if np.allclose(W, W.T):
+            evals, evecs = la.eigh(W)  # orthonormal eigenvectors
+        else:
+            evals, evecs = la.eig(W)
         
         y_mean_small = y_reshaped.mean(axis=0).reshape(N, 1)        
         x_mean_small = x_reshaped.mean(axis=0) # N x k
diff --git a/spreg/panel_re.py b/spreg/panel_re.py
index a55e9b9..1851738 100755
--- a/spreg/panel_re.py
+++ b/spreg/panel_re.py
@@ -20,7 +20,7 @@ from scipy import sparse as sp
 from scipy.sparse.linalg import splu as SuperLU
 from .utils import RegressionPropsY, RegressionPropsVM, inverse_prod, set_warn
 from .sputils import spdot, spfill_diagonal, spinv
-from spreg.w_utils import symmetrize
+from spreg.w_utils import symmetrize, is_rowstd_binary
 from . import diagnostics as DIAG
 from . import user_output as USER
 from . import summary_output as SUMMARY
@@ -486,7 +486,9 @@ class BasePanel_RE_Error(RegressionPropsY, RegressionPropsVM):
 
         # concentrated Log Likelihood
         I = np.identity(self.n)
-        if w.asymmetry(intrinsic=False) == []:
+        if np.allclose(W, W.T):
+            evals, evecs = la.eigh(W)
+        elif w.asymmetry(intrinsic=False) == [] and is_rowstd_binary(w):
             ww = symmetrize(w)
             WW = np.array(ww.todense())
             evals, evecs = la.eigh(WW)
-- 
2.43.0


From d765c5599e165e9c80469ea9bbdc44330eb3bda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:42 +0000
Subject: [PATCH 028/105] fix: White test leaves out auxiliary regressors that
 are linear combinations of others

---
 spreg/diagnostics.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/spreg/diagnostics.py b/spreg/diagnostics.py
index 28baab8..65f260e 100755
--- a/spreg/diagnostics.py
+++ b/spreg/diagnostics.py
@@ -13,6 +13,7 @@ import numpy as np
 import numpy.linalg as la
 import scipy.sparse as SP
 from scipy import stats
+from scipy.linalg import qr
 from .ols import BaseOLS
 from .utils import spmultiply, sphstack, spmin, spmax
 
@@ -999,12 +1000,12 @@ def white(reg):
         A = A[:, keepcolumn]
     else:
         raise Exception("unknown A type, %s" % type(X).__name__)
-    # add a constant back in, unless the columns already add up to one (regimes)
-    const = np.ones((n, 1))
+    A = sphstack(np.ones((n, 1)), A)  # add a constant back in
+    # leave out columns that are linear combinations of others (regimes)
     A_dense = A.toarray() if SP.issparse(A) else A
-    gap = const - np.dot(A_dense, la.lstsq(A_dense, const, rcond=None)[0])
-    if np.sqrt((gap**2).sum() / n) > 1e-8:
-        A = sphstack(const, A)
+    R, pivot = qr(A_dense / la.norm(A_dense, axis=0), mode="r", pivoting=True)
+    keepcolumn = np.sort(pivot[: (np.abs(np.diag(R)) > 1e-10).sum()])
+    A = A[:, keepcolumn]
     n, k = A.shape
 
     # Conduct the auxiliary regression and calculate the statistic
-- 
2.43.0


From 024e578a81620e3ff635cc26dbd809e1fcfc15a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:33 +0000
Subject: [PATCH 029/105] fix: Panel_RE_Error does not evaluate the likelihood
 where it is singular

---
 spreg/panel_re.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/panel_re.py b/spreg/panel_re.py
index 1851738..e9cf40f 100755
--- a/spreg/panel_re.py
+++ b/spreg/panel_re.py
@@ -503,7 +503,7 @@ class BasePanel_RE_Error(RegressionPropsY, RegressionPropsVM):
         res = minimize(
             err_c_loglik_ord,
             (0.0, 0.1),
-            bounds=((-1.0, 1.0), (0.0, 10000.0)),
+            bounds=((-0.999, 0.999), (0.0, 10000.0)),
             method="L-BFGS-B",
             args=(
                 evals,
-- 
2.43.0


From 46274006f7208fbc70fd0d1610c13cb6f5281690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:27 +0000
Subject: [PATCH 030/105] fix: units of the information matrix of ML_LagRE

---
 spreg/panel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/panel.py b/spreg/panel.py
index 84eaa60..c08c1bf 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -2882,7 +2882,7 @@ class BaseML_LagRE(RegressionPropsY, RegressionPropsVM):
             (
                 np.zeros((self.k, 1)),
                 self.t * tr1 / self.sig2,
-                -N / self.sig2 ** 2,
+                -N / self.sig2,
                 NT / (2.0 * self.sig2 ** 2),
             )
         )
-- 
2.43.0


From 439fb1a99741fb63fbd7ae3f30502a9a16cebf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:43 +0000
Subject: [PATCH 031/105] fix: LM lag test in SUR weighs each equation's score
 by the inverse covariance

The score for the lag coefficient of equation j is the sum over r of
sigi[r, j] * e_r'Wy_j, as in surLMerr; the matrix product mixed lags of
different equations, changed the value with the units of the equations and
undersized the test.
---
 spreg/diagnostics_sur.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/diagnostics_sur.py b/spreg/diagnostics_sur.py
index cc6a032..eff8b7a 100644
--- a/spreg/diagnostics_sur.py
+++ b/spreg/diagnostics_sur.py
@@ -225,7 +225,7 @@ def surLMlag(n_eq, WS, bigy, bigX, bigE, bigYP, sig, varb):
     WY = WS @ Y
     EWY = np.dot(bigE.T, WY)
     sigi = la.inv(sig)
-    SEWE = sigi @ EWY
+    SEWE = sigi * EWY
     score = SEWE.sum(axis=0)  # column sums
     score.resize(1, n_eq)  # score as a row vector
 
-- 
2.43.0


From fb212247c0928b027c56ab3ddf2b67840ed23908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:33 +0000
Subject: [PATCH 032/105] fix: PanelFE demeans integer regressors in floating
 point

np.zeros_like of an integer array is an integer array, which truncated the
within-demeaned regressors.
---
 spreg/panel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/panel.py b/spreg/panel.py
index c08c1bf..0c2bcaa 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -357,7 +357,7 @@ class PanelFE(RegressionPropsY, RegressionPropsVM):
         
         dem_y = bigy - np.tile(y_mean, T).reshape(-1, 1)
         
-        dem_x = np.zeros_like(bigx)
+        dem_x = np.zeros_like(bigx, dtype=float)
         for i in range(self.k):
             col_mean = x_mean[:, i] 
             col_vals = bigx[:, i] 
-- 
2.43.0


From 9f0b922be287dd7321949085318f6cbedaaef2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:33 +0000
Subject: [PATCH 033/105] fix: ML_ErrorPooled keeps the name of y worked out
 from the panel columns

---
 spreg/panel.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/spreg/panel.py b/spreg/panel.py
index 0c2bcaa..93d156b 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -1053,7 +1053,6 @@ class ML_ErrorPooled(BaseML_ErrorPooled):
         BaseML_ErrorPooled.__init__(self, bigy, bigx, w, method=method, epsilon=epsilon)
         
         self.name_ds = USER.set_name_ds(name_ds)
-        self.name_y = USER.set_name_y(name_y)
         self.slx_lags = slx_lags
         self.name_w = USER.set_name_w(name_w, w)
         
-- 
2.43.0


From 5ccaf5d272ce9533dce54de68efcbb8ab2045d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:44 +0000
Subject: [PATCH 034/105] fix: panel models accept series and one-dimensional
 arrays in long format

y.name is used for the name of a series, but y.shape[1] then failed.
---
 spreg/panel_utils.py | 8 +++++++-
 spreg/sp_panels.py   | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/spreg/panel_utils.py b/spreg/panel_utils.py
index e4bbb47..18079a4 100755
--- a/spreg/panel_utils.py
+++ b/spreg/panel_utils.py
@@ -72,9 +72,15 @@ def check_panel(y, x, w, name_y, name_x):
             try:
                 name_x = x.columns.to_list()
             except AttributeError:
-                name_x = x.name
+                name_x = [x.name]
         x = x.to_numpy()
 
+    # A single column may come as a series or a one-dimensional array
+    if y.ndim == 1:
+        y = y.reshape(-1, 1)
+    if x.ndim == 1:
+        x = x.reshape(-1, 1)
+
     # Check if 'y' is a balanced panel with respect to 'W'
     if y.shape[0] / w.n != y.shape[0] // w.n:
         raise Exception("y must be ntx1 or nxt, and w must be an nxn PySAL W" "object.")
diff --git a/spreg/sp_panels.py b/spreg/sp_panels.py
index 7a27a5e..67eb784 100755
--- a/spreg/sp_panels.py
+++ b/spreg/sp_panels.py
@@ -506,9 +506,15 @@ def _get_panel_data(y, x, w, name_y, name_x):
             try:
                 name_x = x.columns.to_list()
             except AttributeError:
-                name_x = x.name
+                name_x = [x.name]
         x = x.to_numpy()
 
+    # A single column may come as a series or a one-dimensional array
+    if y.ndim == 1:
+        y = y.reshape(-1, 1)
+    if x.ndim == 1:
+        x = x.reshape(-1, 1)
+
     if y.shape[0] / w.n != y.shape[0] // w.n:
         raise Exception("y must be ntx1 or nxt, and w must be an nxn PySAL W object.")
     N, T = y.shape[0], y.shape[1]
-- 
2.43.0


From 00d8037f3e8dbf0c027998453033f72f6b2d2553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:15 +0000
Subject: [PATCH 035/105] fix: a graph keeps its transformation when converted
 to a weights object

Graph.to_W() drops it, so a row-standardised graph was not treated as row-
standardised where it matters (weights within regimes, ord method).
---
 spreg/user_output.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spreg/user_output.py b/spreg/user_output.py
index b8e9c2b..9406a3c 100755
--- a/spreg/user_output.py
+++ b/spreg/user_output.py
@@ -595,7 +595,10 @@ def check_weights(w, y, w_required=False, time=False, slx_lags=0, allow_wk=False
     """
     if w_required == True or (w is not None) or slx_lags > 0:
         if isinstance(w, graph.Graph):
+            transform = w.transformation
             w = w.to_W()
+            if transform in ("R", "B", "D", "V"):
+                w.transform = transform
 
         if isinstance(w, np.ndarray):        
             w = weights.full2W(w)
-- 
2.43.0


From 57f005dcc381c9cba3cf18642a4ac1702ca46960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:28 +0000
Subject: [PATCH 036/105] fix: PanelFE reports the inverse cross-product of the
 demeaned regressors

xtxi was that of the raw regressors, which is not the matrix its covariance is
built from and overflows for narrow integer columns.
---
 spreg/panel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/panel.py b/spreg/panel.py
index 93d156b..de02b22 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -367,8 +367,8 @@ class PanelFE(RegressionPropsY, RegressionPropsVM):
         self.y, self.x = bigy, bigx
         self.betas = reg_ols.betas
         self.predy = np.dot(bigx, self.betas)
+        self.xtxi = reg_ols.xtxi
         self.u = bigy - self.predy
-        self.xtxi = la.inv(np.dot(bigx.T, bigx))
         self.df_resid = NT - N
 
         ssr = reg_ols.u.T @ reg_ols.u
-- 
2.43.0


From a49bd6575ee4a8df15d7a80e8674c74bebce0ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:16 +0000
Subject: [PATCH 037/105] fix: long (splm/plm) format of sur_dictxy and
 sur_dictZ works in Python 3

dict.has_key no longer exists.
---
 spreg/sur_utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/spreg/sur_utils.py b/spreg/sur_utils.py
index 3041e41..0457234 100644
--- a/spreg/sur_utils.py
+++ b/spreg/sur_utils.py
@@ -121,11 +121,11 @@ def sur_dictxy(db, y_vars, x_vars, space_id=None, time_id=None):
         for i in range(bign):
             sval = ss[i][0]  # e.g. FIPSNO 27077
             tval = tt[i][0]  # e.g. TIME 1960
-            if tmpy.has_key(tval):
+            if tval in tmpy:
                 tmpy[tval][sval] = y[i]
-            if tmpX.has_key(tval):
+            if tval in tmpX:
                 tmpX[tval][sval] = longxc[i]
-            if not sdict.has_key(sval):
+            if sval not in sdict:
                 skeys.append(sval)
                 sdict[sval] = True
 
@@ -226,9 +226,9 @@ def sur_dictZ(db, z_vars, form="spreg", const=False, space_id=None, time_id=None
         for i in range(bign):
             sval = ss[i][0]  # e.g. 27077
             tval = tt[i][0]  # e.g. 1960
-            if tmpz.has_key(tval):
+            if tval in tmpz:
                 tmpz[tval][sval] = longz[i]
-            if not sdict.has_key(sval):
+            if sval not in sdict:
                 skeys.append(sval)
                 sdict[sval] = True
 
-- 
2.43.0


From 7872e4d1ac4c582008f3bfa486a770b451b89fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:22 +0000
Subject: [PATCH 038/105] fix: Breusch-Pagan and Koenker-Bassett leave out
 linearly dependent columns

Squares of a variable coded -.5/.5 (or of x and of x with signs switched) are
linear combinations of the other columns: the tests failed with a singular
matrix or were those of a singular regression, and OLS could not be
estimated. A given set of variables (z) is accepted: z == None compared
element by element.
---
 spreg/diagnostics.py | 74 +++++++++++++++++---------------------------
 1 file changed, 28 insertions(+), 46 deletions(-)

diff --git a/spreg/diagnostics.py b/spreg/diagnostics.py
index 65f260e..9529fbb 100755
--- a/spreg/diagnostics.py
+++ b/spreg/diagnostics.py
@@ -708,6 +708,27 @@ def jarque_bera(reg):
     return jb_result
 
 
+def _independent_columns(A):
+    """
+    Positions of columns of A that span all of its columns, none of them a
+    linear combination of the others.
+
+    Parameters
+    ----------
+    A            : array
+                   n by k, dense or sparse
+
+    Returns
+    -------
+    columns      : array
+                   positions in ascending order
+    """
+    A = A.toarray() if SP.issparse(A) else A
+    norms = la.norm(A, axis=0)
+    R, pivot = qr(A / np.where(norms == 0, 1, norms), mode="r", pivoting=True)
+    return np.sort(pivot[: (np.abs(np.diag(R)) > 1e-10).sum()])
+
+
 def breusch_pagan(reg, z=None):
     """
     Calculates the Breusch-Pagan test statistic to check for
@@ -801,7 +822,7 @@ def breusch_pagan(reg, z=None):
     den = ete / n
     g = e2 / den - 1.0
 
-    if z == None:
+    if z is None:
         x = reg.x
         # constant = constant_check(x)
         # if constant == False:
@@ -817,26 +838,8 @@ def breusch_pagan(reg, z=None):
 
     n, p = z.shape
 
-    # Check to identify any duplicate columns in Z
-    omitcolumn = []
-    for i in range(p):
-        current = z[:, i]
-        for j in range(p):
-            check = z[:, j]
-            if i < j:
-                test = abs(current - check).sum()
-                if test == 0:
-                    omitcolumn.append(j)
-
-    uniqueomit = set(omitcolumn)
-    omitcolumn = list(uniqueomit)
-
-    # Now the identified columns must be removed (done in reverse to
-    # prevent renumbering)
-    omitcolumn.sort()
-    omitcolumn.reverse()
-    for c in omitcolumn:
-        z = np.delete(z, c, 1)
+    # Leave out columns that duplicate or combine others
+    z = z[:, _independent_columns(z)]
     n, p = z.shape
 
     df = p - 1
@@ -1002,10 +1005,7 @@ def white(reg):
         raise Exception("unknown A type, %s" % type(X).__name__)
     A = sphstack(np.ones((n, 1)), A)  # add a constant back in
     # leave out columns that are linear combinations of others (regimes)
-    A_dense = A.toarray() if SP.issparse(A) else A
-    R, pivot = qr(A_dense / la.norm(A_dense, axis=0), mode="r", pivoting=True)
-    keepcolumn = np.sort(pivot[: (np.abs(np.diag(R)) > 1e-10).sum()])
-    A = A[:, keepcolumn]
+    A = A[:, _independent_columns(A)]
     n, k = A.shape
 
     # Conduct the auxiliary regression and calculate the statistic
@@ -1118,7 +1118,7 @@ def koenker_bassett(reg, z=None):
     g = u - ubari
     v = (1.0 / n) * np.sum((u - ubar) ** 2)
 
-    if z == None:
+    if z is None:
         x = reg.x
         # constant = constant_check(x)
         # if constant == False:
@@ -1134,26 +1134,8 @@ def koenker_bassett(reg, z=None):
 
     n, p = z.shape
 
-    # Check to identify any duplicate columns in Z
-    omitcolumn = []
-    for i in range(p):
-        current = z[:, i]
-        for j in range(p):
-            check = z[:, j]
-            if i < j:
-                test = abs(current - check).sum()
-                if test == 0:
-                    omitcolumn.append(j)
-
-    uniqueomit = set(omitcolumn)
-    omitcolumn = list(uniqueomit)
-
-    # Now the identified columns must be removed (done in reverse to
-    # prevent renumbering)
-    omitcolumn.sort()
-    omitcolumn.reverse()
-    for c in omitcolumn:
-        z = np.delete(z, c, 1)
+    # Leave out columns that duplicate or combine others
+    z = z[:, _independent_columns(z)]
     n, p = z.shape
 
     df = p - 1
-- 
2.43.0


From b80a847afe56f4a900397a7e946f0c7e1bd9aa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:29 +0000
Subject: [PATCH 039/105] fix: likelihood ratio test counts the coefficient of
 spatial error models

k of an error model does not include lambda, so the test of a Durbin model
against an error model, or of an SLX error model against OLS, had the wrong
degrees of freedom.
---
 spreg/diagnostics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spreg/diagnostics.py b/spreg/diagnostics.py
index 9529fbb..28b7a02 100755
--- a/spreg/diagnostics.py
+++ b/spreg/diagnostics.py
@@ -1375,7 +1375,8 @@ def likratiotest(reg0, reg1):
         likr = -likr
 
     # generalize to multiple parameters, e.g., spatial Durbin
-    df = reg1.k - reg0.k
+    # (lambda of an error model is not counted in k)
+    df = (reg1.k + hasattr(reg1, "lam")) - (reg0.k + hasattr(reg0, "lam"))
     if not(df > 0):
         df = 1
 
-- 
2.43.0


From 7c7212c6311f29b73dcc50845ece7a76937424eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:42 +0000
Subject: [PATCH 040/105] fix: power approximation of the direct multiplier
 stopped at the first trace that is zero or negative

---
 spreg/sputils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/spreg/sputils.py b/spreg/sputils.py
index 70af697..07dfe70 100755
--- a/spreg/sputils.py
+++ b/spreg/sputils.py
@@ -317,15 +317,17 @@ def spmultiplier(w, rho, method="simple", mtol=0.00000001):
         ww = ws3
         pow = 1
         adi = 1.0
-        adidiff = 100.00
+        # a power may have a trace of zero or a negative contribution, so the size of
+        # the matrix itself is used to decide whether the rest can be ignored
+        wsize = 100.00
 
-        while adidiff > mtol:
+        while wsize > mtol:
             pow = pow + 1
             ww = SP.csr_matrix.dot(ww, ws3)
             trw = ww.diagonal().sum()
             rhop = rhop * rho
-            adidiff = rhop * trw / n
-            adi = adi + adidiff
+            adi = adi + rhop * trw / n
+            wsize = abs(rhop) * abs(ww).max()
         multipliers["adi"] = adi.item()
         multipliers["pow"] = pow
     else:
-- 
2.43.0


From 1b01334905e4d239c6e23e832a7b2fe4e666be81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:41 +0000
Subject: [PATCH 041/105] fix: average total impact (full, power) for weights
 with rows that do not add up to one

---
 spreg/sputils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spreg/sputils.py b/spreg/sputils.py
index 07dfe70..a178f31 100755
--- a/spreg/sputils.py
+++ b/spreg/sputils.py
@@ -311,6 +311,7 @@ def spmultiplier(w, rho, method="simple", mtol=0.00000001):
         invirw0 = np.linalg.inv(irw0)
         adii0 = np.sum(np.diag(invirw0))
         multipliers["adi"] = adii0 / n
+        multipliers["ati"] = np.sum(invirw0) / n    # 1/(1-rho) if all rows add up to one
     elif method == "power":
         ws3 = w.to_sparse(fmt='csr')        
         rhop = rho
@@ -330,6 +331,8 @@ def spmultiplier(w, rho, method="simple", mtol=0.00000001):
             wsize = abs(rhop) * abs(ww).max()
         multipliers["adi"] = adi.item()
         multipliers["pow"] = pow
+        irw0 = SP.identity(n, format='csc') - np.squeeze(rho) * ws3.tocsc()
+        multipliers["ati"] = SPla.spsolve(irw0, np.ones(n)).sum() / n   # as in "full"
     else:
         multipliers["warn"] = "Method '"+method+"' not supported for spatial impacts.\n"
         multipliers["method"] ='simple'
-- 
2.43.0


From bcd84dba8c225cfa8ebda511d4feed35492070d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:53 +0000
Subject: [PATCH 042/105] fix: impacts of panel Durbin models with selected
 lagged variables

---
 spreg/panel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spreg/panel.py b/spreg/panel.py
index de02b22..438dfc1 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -2684,6 +2684,7 @@ class ML_LagFE(BaseML_LagFE):
         self.mean_mu_i = self.mu_i.mean()
         self.other_top += "%-20s:%12.4f\n" % (
             "Fixed-effects mean", self.mean_mu_i)        
+        self.slx_vars = slx_vars
         if spat_impacts:
             self.sp_multipliers, impacts_str = _summary_impacts(self, w, spat_impacts, slx_lags,slx_vars)
             other_end += impacts_str
@@ -3080,6 +3081,7 @@ class ML_LagRE(BaseML_LagRE):
         self.output['regime'], self.output['equation'] = (0, 0)
         self.other_top, self.other_mid, other_end = ("", "", "")
         self.other_top += _nonspat_top(self, ml=True)
+        self.slx_vars = slx_vars
         if spat_impacts:
             self.sp_multipliers, impacts_str = _summary_impacts(self, w, spat_impacts, slx_lags,slx_vars)
             other_end += impacts_str
-- 
2.43.0


From c2f6169ffb01384be74da4558489a3e54016296c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:48 +0000
Subject: [PATCH 043/105] fix: power expansion rejected convergent expansions
 whose norm increases temporarily

---
 spreg/utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index c6e365b..fb52957 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -659,6 +659,7 @@ def power_expansion(
     increment = copy.copy(data)
     count = 1
     test = 10000000
+    smallest, stalled = np.inf, 0
     if max_iterations == None:
         max_iterations = 10000000
     while test > threshold and count <= max_iterations:
@@ -667,9 +668,14 @@ def power_expansion(
         else:
             increment = ws @ increment * scalar
         running_total += increment
-        test_old = test
         test = la.norm(increment)
-        if test > test_old:
+        # the norm may increase for a few steps even if the expansion converges
+        # (for example in the presence of hubs), so look for lasting lack of progress
+        if test < smallest:
+            smallest, stalled = test, 0
+        else:
+            stalled += 1
+        if stalled > 100:
             raise Exception(
                 "power expansion will not converge, check model specification and that weight are less than 1"
             )
-- 
2.43.0


From 8b9f4a78581b1e53e3afe6836239667b0a49815f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:04 +0000
Subject: [PATCH 044/105] fix: degrees of freedom of the probit likelihood
 ratio test

---
 spreg/diagnostics_probit.py | 687 ++++++++++++++++++------------------
 1 file changed, 344 insertions(+), 343 deletions(-)

diff --git a/spreg/diagnostics_probit.py b/spreg/diagnostics_probit.py
index 40c3edd..e9d7bef 100644
--- a/spreg/diagnostics_probit.py
+++ b/spreg/diagnostics_probit.py
@@ -1,343 +1,344 @@
-"""
-Diagnostics in probit regression. 
-        
-"""
-__author__ = (
-    "Luc Anselin lanselin@gmail.com, Pedro Amaral pedrovma@gmail.com "
-)
-
-from math import sqrt, pi
-
-from libpysal.common import MISSINGVALUE
-import numpy as np
-import numpy.linalg as la
-import scipy.sparse as SP
-from scipy import stats
-from scipy.stats import norm
-
-__all__ = [
-    "pred_table",
-    "probit_fit",
-    "probit_lrtest",
-    "mcfad_rho",
-    "probit_ape",
-    "sp_tests",
-    "moran_KP",
-]
-
-
-def pred_table(reg):
-    """
-    Calculates a table comparing predicted to actual outcomes for a 
-    discrete choice model
-
-    Parameters
-    ----------
-    reg             : regression object
-                      output instance from a probit regression model
-
-    Returns
-    ----------
-    predtab_vals    : dictionary
-                      includes margins and cells of actual and predicted
-                      values for discrete choice model
-                      actpos   : observed positives (=1)
-                      actneg   : observed negatives (=0)
-                      predpos  : predicted positives 
-                      predneg  : predicted negatives
-                      truepos  : predicted 1 when actual = 1
-                      falsepos : predicted 1 when actual = 0
-                      trueneg  : predicted 0 when actual = 0
-                      falseneg : predicted 0 when actual = 1
-
-    """
-    predtab_vals = {}
-    pos = reg.y.sum()
-    predtab_vals["actpos"] = int(pos)
-    neg = reg.n - pos
-    predtab_vals["actneg"] = int(neg)
-    act1 = (reg.y == 1) * 1
-    act0 = (reg.y == 0) * 1
-    ppos = reg.predybin.sum()
-    predtab_vals["predpos"] = ppos
-    pneg = reg.n - ppos
-    predtab_vals["predneg"] = pneg
-    pred1 = (reg.predybin == 1) * 1
-    pred0 = (reg.predybin == 0) * 1
-    truep = (pred1 * act1) * 1
-    predtab_vals["truepos"] = truep.sum()
-    truen = (pred0 * act0) * 1
-    predtab_vals["trueneg"] = truen.sum()
-    fpos = (pred1 * act0) * 1
-    predtab_vals["falsepos"] = fpos.sum()
-    fneg = (pred0 * act1) * 1
-    predtab_vals["falseneg"] = fneg.sum()
-
-    return predtab_vals
-
-
-def probit_fit(reg):
-    """
-    Various measures of fit for discrete choice models, derived from the
-    prediction table (pred_table)
-    
-    Parameters
-    ----------
-    reg             : regression object
-                      output instance from a probit regression model
-                      must contain predtable attribute
-
-    Returns
-    ----------
-    prob_fit    : a dictionary containing various measures of fit
-                  TPR    : true positive rate (sensitivity, recall, hit rate)
-                  TNR    : true negative rate (specificity, selectivity)
-                  PREDPC : accuracy, percent correctly predicted
-                  BA     : balanced accuracy
-    
-    """
-
-    prob_fit = {}
-    prob_fit["TPR"] = 100.0 * reg.predtable["truepos"] / reg.predtable["actpos"]
-    prob_fit["TNR"] = 100.0 * reg.predtable["trueneg"] / reg.predtable["actneg"]
-    prob_fit["BA"] = (prob_fit["TPR"] + prob_fit["TNR"])/2.0
-    prob_fit["PREDPC"] = 100.0 * (reg.predtable["truepos"] + reg.predtable["trueneg"]) / reg.n
-
-    return prob_fit
-
-def probit_lrtest(regprob):
-    """
-    Likelihood ratio test statistic for probit model
-
-    Parameters
-    ----------
-    regprob      : probit regression object
-
-    Returns
-    -------
-
-    likratio     : dictionary
-                   contains the statistic for the null model (L0), the LR test(likr), 
-                   the degrees of freedom (df) and the p-value (pvalue)
-    L0           : float
-                   log likelihood of null model
-    likr         : float
-                   likelihood ratio statistic
-    df           : integer
-                   degrees of freedom
-    p-value      : float
-                   p-value
-    """
-
-    likratio = {}
-    P = np.mean(regprob.y)
-    L0 = regprob.n * (P * np.log(P) + (1 - P) * np.log(1 - P))
-    likratio["L0"] = L0
-    LR = -2.0 * (L0 - regprob.logl)
-    likratio["likr"] = LR
-    likratio["df"] = regprob.k
-    pval = stats.chisqprob(LR, regprob.k)
-    likratio["p-value"] = pval
-
-    return likratio
-
-def mcfad_rho(regprob):
-    """
-    McFadden's rho measure of fit
-
-    Parameters
-    ---------
-    regprob    : probit regression object
-
-    Returns
-    -------
-    rho        : McFadden's rho (1 - L/L0)
-    
-    """
-
-    rho = 1.0 - (regprob.logl / regprob.L0)
-    return rho
-
-def probit_ape(regprob):
-    """
-    Average partial effects
-
-    Parameters
-    ----------
-    regprob   : probit regression object
-
-    Returns
-    -------
-    tuple with:
-        scale          : the scale of the marginal effects, determined by regprob.scalem
-                         Default: 'phimean' (Mean of individual marginal effects)
-                         Alternative: 'xmean' (Marginal effects at variables mean)
-        slopes         : marginal effects or average partial effects (not for constant)
-        slopes_vm      : estimates of variance of marginal effects (not for constant)
-        slopes_std_err : estimates of standard errors of marginal effects
-        slopes_z_stat  : tuple with z-statistics and p-values for marginal effects
-    
-    """
-        
-
-    if regprob.scalem == "xmean":
-        xmb = regprob.xmean.T @ regprob.betas
-        scale = stats.norm.pdf(xmb)
-            
-    elif regprob.scalem == "phimean":
-        scale = np.mean(regprob.phiy,axis=0)
-
-    # average partial effects (no constant)
-    slopes = (regprob.betas[1:,0] * scale).reshape(-1,1)
-
-    # variance of partial effects
-    xmb = regprob.xmean.T @ regprob.betas
-    bxt = regprob.betas @ regprob.xmean.T
-    dfdb = np.eye(regprob.k) - xmb * bxt
-    slopes_vm = (scale ** 2) * ((dfdb @ regprob.vm) @ dfdb.T)
-
-    # standard errors
-    slopes_std_err = np.sqrt(slopes_vm[1:,1:].diagonal()).reshape(-1,1)
-
-    # z-stats and p-values
-    sl_zStat = slopes / slopes_std_err
-    slopes_z_stat = [(sl_zStat[i,0],stats.norm.sf(abs(sl_zStat[i,0])) * 2) for i in range(len(slopes))]
-
-
-    return (scale, slopes,slopes_vm[1:,1:],slopes_std_err,slopes_z_stat)
-
-
-def sp_tests(regprob=None, obj_list=None):
-    """
-    Calculates tests for spatial dependence in Probit models
-
-    Parameters
-    ----------
-    regprob     : regression object from spreg
-                  output instance from a probit model
-    obj_list    : list
-                  list of regression elements from both libpysal and statsmodels' ProbitResults
-                  The list should be such as:
-                  [libpysal.weights, ProbitResults.fittedvalues, ProbitResults.resid_response, ProbitResults.resid_generalized]               
-    
-    Returns
-    -------
-    tuple with LM_Err, moran, ps as 2x1 arrays with statistic and p-value
-               LM_Err: Pinkse
-               moran : Kelejian-Prucha generalized Moran
-               ps    : Pinkse-Slade
-
-    Examples
-    --------
-    The results of this function will be automatically added to the output of the probit model if using spreg.
-    If using the Probit estimator from statsmodels, the user can call the function with the obj_list argument.
-    The argument obj_list should be a list with the following elements, in this order:
-    [libpysal.weights, ProbitResults.fittedvalues, ProbitResults.resid_response, ProbitResults.resid_generalized]
-    The function will then return and print the results of the spatial diagnostics.
-
-    >>> import libpysal
-    >>> import statsmodels.api as sm
-    >>> import geopandas as gpd
-    >>> from spreg.diagnostics_probit import sp_tests
-
-    >>> columb = libpysal.examples.load_example('Columbus')
-    >>> dfs = gpd.read_file(columb.get_path("columbus.shp"))
-    >>> w = libpysal.weights.Queen.from_dataframe(dfs)
-    >>> w.transform='r'
-
-    >>> y = (dfs["CRIME"] > 40).astype(float)
-    >>> X = dfs[["INC","HOVAL"]]
-    >>> X = sm.add_constant(X)
-
-    >>> probit_mod = sm.Probit(y, X)
-    >>> probit_res = probit_mod.fit(disp=False)
-    >>> LM_err, moran, ps = sp_tests(obj_list=[w, probit_res.fittedvalues, probit_res.resid_response, probit_res.resid_generalized])
-    PROBIT MODEL DIAGNOSTICS FOR SPATIAL DEPENDENCE
-    TEST                              DF         VALUE           PROB
-    Kelejian-Prucha (error)           1          1.721           0.0852
-    Pinkse (error)                    1          3.132           0.0768
-    Pinkse-Slade (error)              1          2.558           0.1097
-
-    """
-    if regprob:
-        w, Phi, phi, u_naive, u_gen, n = regprob.w, regprob.predy, regprob.phiy, regprob.u_naive, regprob.u_gen, regprob.n
-    elif obj_list:
-        w, fittedvalues, u_naive, u_gen = obj_list
-        Phi = norm.cdf(fittedvalues)
-        phi = norm.pdf(fittedvalues)
-        n = w.n
-
-    try:
-        w = w.sparse
-    except:
-        w = w
-        
-    # Pinkse_error:
-    Phi_prod = Phi * (1 - Phi)
-    sig2 = np.sum((phi * phi) / Phi_prod) / n
-    LM_err_num = np.dot(u_gen.T, (w @ u_gen)) ** 2
-    trWW = np.sum((w @ w).diagonal())
-    trWWWWp = trWW + np.sum((w @ w.T).diagonal())
-    LM_err = (1.0 * LM_err_num / (sig2 ** 2 * trWWWWp)).item()
-    LM_err = np.array([LM_err, stats.chisqprob(LM_err, 1)])
-    # KP_error:
-    moran = moran_KP(w, u_naive, Phi_prod)
-    # Pinkse-Slade_error:
-    u_std = u_naive / np.sqrt(Phi_prod)
-    ps_num = np.dot(u_std.T, (w @ u_std)) ** 2
-    trWpW = np.sum((w.T @ w).diagonal())
-    ps = (ps_num / (trWW + trWpW)).item()
-    # chi-square instead of bootstrap.
-    ps = np.array([ps, stats.chisqprob(ps, 1)])
-
-    if obj_list:
-        from .output import _probit_out
-        reg_simile = type('reg_simile', (object,), {})()
-        reg_simile.Pinkse_error = LM_err
-        reg_simile.KP_error = moran
-        reg_simile.PS_error = ps
-        print("PROBIT MODEL "+_probit_out(reg_simile, spat_diag=True, sptests_only=True)[1:])
-
-    return LM_err, moran, ps
-
-def moran_KP(w, u, sig2i):
-    """
-    Calculates Kelejian-Prucha Moran-flavoured tests
-
-    Parameters
-    ----------
-
-    w           : W
-                  PySAL weights instance aligned with y
-    u           : array
-                  nx1 array of naive residuals
-    sig2i       : array
-                  nx1 array of individual variance
-
-    Returns
-    -------
-    moran       : array, Kelejian-Prucha Moran's I with p-value   
-    """
-    try:
-        w = w.sparse
-    except:
-        pass
-    moran_num = np.dot(u.T, (w @ u))
-    E = SP.lil_matrix(w.shape)
-    E.setdiag(sig2i.flat)
-    E = E.asformat("csr")
-    WE = w @ E
-    moran_den = np.sqrt(np.sum((WE @ WE + (w.T @ E) @ WE).diagonal()))
-    moran = (1.0 * moran_num / moran_den).item()
-    moran = np.array([moran, stats.norm.sf(abs(moran)) * 2.0])
-    return moran
-
-
-def _test():
-    import doctest
-
-    doctest.testmod()
-
-
-if __name__ == "__main__":
-    _test()
+"""
+Diagnostics in probit regression. 
+        
+"""
+__author__ = (
+    "Luc Anselin lanselin@gmail.com, Pedro Amaral pedrovma@gmail.com "
+)
+
+from math import sqrt, pi
+
+from libpysal.common import MISSINGVALUE
+import numpy as np
+import numpy.linalg as la
+import scipy.sparse as SP
+from scipy import stats
+from scipy.stats import norm
+
+__all__ = [
+    "pred_table",
+    "probit_fit",
+    "probit_lrtest",
+    "mcfad_rho",
+    "probit_ape",
+    "sp_tests",
+    "moran_KP",
+]
+
+
+def pred_table(reg):
+    """
+    Calculates a table comparing predicted to actual outcomes for a 
+    discrete choice model
+
+    Parameters
+    ----------
+    reg             : regression object
+                      output instance from a probit regression model
+
+    Returns
+    ----------
+    predtab_vals    : dictionary
+                      includes margins and cells of actual and predicted
+                      values for discrete choice model
+                      actpos   : observed positives (=1)
+                      actneg   : observed negatives (=0)
+                      predpos  : predicted positives 
+                      predneg  : predicted negatives
+                      truepos  : predicted 1 when actual = 1
+                      falsepos : predicted 1 when actual = 0
+                      trueneg  : predicted 0 when actual = 0
+                      falseneg : predicted 0 when actual = 1
+
+    """
+    predtab_vals = {}
+    pos = reg.y.sum()
+    predtab_vals["actpos"] = int(pos)
+    neg = reg.n - pos
+    predtab_vals["actneg"] = int(neg)
+    act1 = (reg.y == 1) * 1
+    act0 = (reg.y == 0) * 1
+    ppos = reg.predybin.sum()
+    predtab_vals["predpos"] = ppos
+    pneg = reg.n - ppos
+    predtab_vals["predneg"] = pneg
+    pred1 = (reg.predybin == 1) * 1
+    pred0 = (reg.predybin == 0) * 1
+    truep = (pred1 * act1) * 1
+    predtab_vals["truepos"] = truep.sum()
+    truen = (pred0 * act0) * 1
+    predtab_vals["trueneg"] = truen.sum()
+    fpos = (pred1 * act0) * 1
+    predtab_vals["falsepos"] = fpos.sum()
+    fneg = (pred0 * act1) * 1
+    predtab_vals["falseneg"] = fneg.sum()
+
+    return predtab_vals
+
+
+def probit_fit(reg):
+    """
+    Various measures of fit for discrete choice models, derived from the
+    prediction table (pred_table)
+    
+    Parameters
+    ----------
+    reg             : regression object
+                      output instance from a probit regression model
+                      must contain predtable attribute
+
+    Returns
+    ----------
+    prob_fit    : a dictionary containing various measures of fit
+                  TPR    : true positive rate (sensitivity, recall, hit rate)
+                  TNR    : true negative rate (specificity, selectivity)
+                  PREDPC : accuracy, percent correctly predicted
+                  BA     : balanced accuracy
+    
+    """
+
+    prob_fit = {}
+    prob_fit["TPR"] = 100.0 * reg.predtable["truepos"] / reg.predtable["actpos"]
+    prob_fit["TNR"] = 100.0 * reg.predtable["trueneg"] / reg.predtable["actneg"]
+    prob_fit["BA"] = (prob_fit["TPR"] + prob_fit["TNR"])/2.0
+    prob_fit["PREDPC"] = 100.0 * (reg.predtable["truepos"] + reg.predtable["trueneg"]) / reg.n
+
+    return prob_fit
+
+def probit_lrtest(regprob):
+    """
+    Likelihood ratio test statistic for probit model
+
+    Parameters
+    ----------
+    regprob      : probit regression object
+
+    Returns
+    -------
+
+    likratio     : dictionary
+                   contains the statistic for the null model (L0), the LR test(likr), 
+                   the degrees of freedom (df) and the p-value (pvalue)
+    L0           : float
+                   log likelihood of null model
+    likr         : float
+                   likelihood ratio statistic
+    df           : integer
+                   degrees of freedom
+    p-value      : float
+                   p-value
+    """
+
+    likratio = {}
+    P = np.mean(regprob.y)
+    L0 = regprob.n * (P * np.log(P) + (1 - P) * np.log(1 - P))
+    likratio["L0"] = L0
+    LR = -2.0 * (L0 - regprob.logl)
+    likratio["likr"] = LR
+    df = regprob.k - 1  # the null model has a constant
+    likratio["df"] = df
+    pval = stats.chisqprob(LR, df)
+    likratio["p-value"] = pval
+
+    return likratio
+
+def mcfad_rho(regprob):
+    """
+    McFadden's rho measure of fit
+
+    Parameters
+    ---------
+    regprob    : probit regression object
+
+    Returns
+    -------
+    rho        : McFadden's rho (1 - L/L0)
+    
+    """
+
+    rho = 1.0 - (regprob.logl / regprob.L0)
+    return rho
+
+def probit_ape(regprob):
+    """
+    Average partial effects
+
+    Parameters
+    ----------
+    regprob   : probit regression object
+
+    Returns
+    -------
+    tuple with:
+        scale          : the scale of the marginal effects, determined by regprob.scalem
+                         Default: 'phimean' (Mean of individual marginal effects)
+                         Alternative: 'xmean' (Marginal effects at variables mean)
+        slopes         : marginal effects or average partial effects (not for constant)
+        slopes_vm      : estimates of variance of marginal effects (not for constant)
+        slopes_std_err : estimates of standard errors of marginal effects
+        slopes_z_stat  : tuple with z-statistics and p-values for marginal effects
+    
+    """
+        
+
+    if regprob.scalem == "xmean":
+        xmb = regprob.xmean.T @ regprob.betas
+        scale = stats.norm.pdf(xmb)
+            
+    elif regprob.scalem == "phimean":
+        scale = np.mean(regprob.phiy,axis=0)
+
+    # average partial effects (no constant)
+    slopes = (regprob.betas[1:,0] * scale).reshape(-1,1)
+
+    # variance of partial effects
+    xmb = regprob.xmean.T @ regprob.betas
+    bxt = regprob.betas @ regprob.xmean.T
+    dfdb = np.eye(regprob.k) - xmb * bxt
+    slopes_vm = (scale ** 2) * ((dfdb @ regprob.vm) @ dfdb.T)
+
+    # standard errors
+    slopes_std_err = np.sqrt(slopes_vm[1:,1:].diagonal()).reshape(-1,1)
+
+    # z-stats and p-values
+    sl_zStat = slopes / slopes_std_err
+    slopes_z_stat = [(sl_zStat[i,0],stats.norm.sf(abs(sl_zStat[i,0])) * 2) for i in range(len(slopes))]
+
+
+    return (scale, slopes,slopes_vm[1:,1:],slopes_std_err,slopes_z_stat)
+
+
+def sp_tests(regprob=None, obj_list=None):
+    """
+    Calculates tests for spatial dependence in Probit models
+
+    Parameters
+    ----------
+    regprob     : regression object from spreg
+                  output instance from a probit model
+    obj_list    : list
+                  list of regression elements from both libpysal and statsmodels' ProbitResults
+                  The list should be such as:
+                  [libpysal.weights, ProbitResults.fittedvalues, ProbitResults.resid_response, ProbitResults.resid_generalized]               
+    
+    Returns
+    -------
+    tuple with LM_Err, moran, ps as 2x1 arrays with statistic and p-value
+               LM_Err: Pinkse
+               moran : Kelejian-Prucha generalized Moran
+               ps    : Pinkse-Slade
+
+    Examples
+    --------
+    The results of this function will be automatically added to the output of the probit model if using spreg.
+    If using the Probit estimator from statsmodels, the user can call the function with the obj_list argument.
+    The argument obj_list should be a list with the following elements, in this order:
+    [libpysal.weights, ProbitResults.fittedvalues, ProbitResults.resid_response, ProbitResults.resid_generalized]
+    The function will then return and print the results of the spatial diagnostics.
+
+    >>> import libpysal
+    >>> import statsmodels.api as sm
+    >>> import geopandas as gpd
+    >>> from spreg.diagnostics_probit import sp_tests
+
+    >>> columb = libpysal.examples.load_example('Columbus')
+    >>> dfs = gpd.read_file(columb.get_path("columbus.shp"))
+    >>> w = libpysal.weights.Queen.from_dataframe(dfs)
+    >>> w.transform='r'
+
+    >>> y = (dfs["CRIME"] > 40).astype(float)
+    >>> X = dfs[["INC","HOVAL"]]
+    >>> X = sm.add_constant(X)
+
+    >>> probit_mod = sm.Probit(y, X)
+    >>> probit_res = probit_mod.fit(disp=False)
+    >>> LM_err, moran, ps = sp_tests(obj_list=[w, probit_res.fittedvalues, probit_res.resid_response, probit_res.resid_generalized])
+    PROBIT MODEL DIAGNOSTICS FOR SPATIAL DEPENDENCE
+    TEST                              DF         VALUE           PROB
+    Kelejian-Prucha (error)           1          1.721           0.0852
+    Pinkse (error)                    1          3.132           0.0768
+    Pinkse-Slade (error)              1          2.558           0.1097
+
+    """
+    if regprob:
+        w, Phi, phi, u_naive, u_gen, n = regprob.w, regprob.predy, regprob.phiy, regprob.u_naive, regprob.u_gen, regprob.n
+    elif obj_list:
+        w, fittedvalues, u_naive, u_gen = obj_list
+        Phi = norm.cdf(fittedvalues)
+        phi = norm.pdf(fittedvalues)
+        n = w.n
+
+    try:
+        w = w.sparse
+    except:
+        w = w
+        
+    # Pinkse_error:
+    Phi_prod = Phi * (1 - Phi)
+    sig2 = np.sum((phi * phi) / Phi_prod) / n
+    LM_err_num = np.dot(u_gen.T, (w @ u_gen)) ** 2
+    trWW = np.sum((w @ w).diagonal())
+    trWWWWp = trWW + np.sum((w @ w.T).diagonal())
+    LM_err = (1.0 * LM_err_num / (sig2 ** 2 * trWWWWp)).item()
+    LM_err = np.array([LM_err, stats.chisqprob(LM_err, 1)])
+    # KP_error:
+    moran = moran_KP(w, u_naive, Phi_prod)
+    # Pinkse-Slade_error:
+    u_std = u_naive / np.sqrt(Phi_prod)
+    ps_num = np.dot(u_std.T, (w @ u_std)) ** 2
+    trWpW = np.sum((w.T @ w).diagonal())
+    ps = (ps_num / (trWW + trWpW)).item()
+    # chi-square instead of bootstrap.
+    ps = np.array([ps, stats.chisqprob(ps, 1)])
+
+    if obj_list:
+        from .output import _probit_out
+        reg_simile = type('reg_simile', (object,), {})()
+        reg_simile.Pinkse_error = LM_err
+        reg_simile.KP_error = moran
+        reg_simile.PS_error = ps
+        print("PROBIT MODEL "+_probit_out(reg_simile, spat_diag=True, sptests_only=True)[1:])
+
+    return LM_err, moran, ps
+
+def moran_KP(w, u, sig2i):
+    """
+    Calculates Kelejian-Prucha Moran-flavoured tests
+
+    Parameters
+    ----------
+
+    w           : W
+                  PySAL weights instance aligned with y
+    u           : array
+                  nx1 array of naive residuals
+    sig2i       : array
+                  nx1 array of individual variance
+
+    Returns
+    -------
+    moran       : array, Kelejian-Prucha Moran's I with p-value   
+    """
+    try:
+        w = w.sparse
+    except:
+        pass
+    moran_num = np.dot(u.T, (w @ u))
+    E = SP.lil_matrix(w.shape)
+    E.setdiag(sig2i.flat)
+    E = E.asformat("csr")
+    WE = w @ E
+    moran_den = np.sqrt(np.sum((WE @ WE + (w.T @ E) @ WE).diagonal()))
+    moran = (1.0 * moran_num / moran_den).item()
+    moran = np.array([moran, stats.norm.sf(abs(moran)) * 2.0])
+    return moran
+
+
+def _test():
+    import doctest
+
+    doctest.testmod()
+
+
+if __name__ == "__main__":
+    _test()
-- 
2.43.0


From 826db011fee0001a28318273bae0347fdd6dd9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:04 +0000
Subject: [PATCH 045/105] fix: prediction table of the probit model was never
 printed

---
 spreg/probit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/probit.py b/spreg/probit.py
index 7b786d5..90d526e 100755
--- a/spreg/probit.py
+++ b/spreg/probit.py
@@ -514,7 +514,7 @@ class Probit(BaseProbit):
         self.output = pd.DataFrame(self.name_x, columns=['var_names'])
         self.output['var_type'] = ['o'] + ['x'] * (len(self.name_x)-1)
         self.output['regime'], self.output['equation'] = (0, 0)
-        self.other_top, self.other_mid, other_end = _probit_out(reg=self, spat_diag=spat_diag)
+        self.other_top, self.other_mid, other_end = _probit_out(reg=self, spat_diag=spat_diag, predflag=predflag)
         output(reg=self, vm=vm, robust=None, other_end=other_end, latex=latex)
 
 
-- 
2.43.0


From eda235c4b775e265f47e796d284277bd8c92c0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:03 +0000
Subject: [PATCH 046/105] fix: panel regressors constant within one period were
 dropped from wide data

---
 spreg/panel_fe.py    |  8 ++++----
 spreg/panel_utils.py | 11 ++++++-----
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/spreg/panel_fe.py b/spreg/panel_fe.py
index 703d351..f4e4fb1 100755
--- a/spreg/panel_fe.py
+++ b/spreg/panel_fe.py
@@ -333,9 +333,9 @@ class Panel_FE_Lag(BasePanel_FE_Lag):
     ):
         set_warn(self, "This function is deprecated and was superseded by spreg.ML_LagFE in panel.py")
         n_rows = USER.check_arrays(y, x)
-        x_constant, name_x, warn = USER.check_constant(x, name_x, just_rem=True)
+        bigy, bigx, name_y, name_x, T, warn = check_panel(y, x, w, name_y, name_x)
         set_warn(self, warn)
-        bigy, bigx, name_y, name_x, T, warn = check_panel(y, x_constant, w, name_y, name_x)
+        bigx, name_x, warn = USER.check_constant(bigx, name_x, just_rem=True)
         set_warn(self, warn)
         w = USER.check_weights(w, bigy, w_required=True, time=True)
 
@@ -623,9 +623,9 @@ class Panel_FE_Error(BasePanel_FE_Error):
     ):
         set_warn(self, "This function is deprecated and was superseded by spreg.ML_ErrorFE in panel.py")
         n_rows = USER.check_arrays(y, x)
-        x_constant, name_x, warn = USER.check_constant(x, name_x, True)
+        bigy, bigx, name_y, name_x, T, warn = check_panel(y, x, w, name_y, name_x)
         set_warn(self, warn)
-        bigy, bigx, name_y, name_x, T, warn = check_panel(y, x_constant, w, name_y, name_x)
+        bigx, name_x, warn = USER.check_constant(bigx, name_x, just_rem=True)
         set_warn(self, warn)
         w = USER.check_weights(w, bigy, w_required=True, time=True)
 
diff --git a/spreg/panel_utils.py b/spreg/panel_utils.py
index 18079a4..535fc20 100755
--- a/spreg/panel_utils.py
+++ b/spreg/panel_utils.py
@@ -21,13 +21,14 @@ def prepare_panel(y, x, w, name_y, name_x, slx_lags, slx_vars, title, add_consta
     """
     warn = []
     n_rows = USER.check_arrays(y, x)
-    x_constant, name_x, warn_add = USER.check_constant(x, name_x, just_rem=True)
+    bigy, bigx, name_y, name_x, T, warn_add = check_panel(y, x, w, name_y, name_x)
     warn.append(warn_add)
-    bigy, bigx, name_y, name_x, T, warn_add = check_panel(y, x_constant, w, name_y, name_x)
+    # a variable is constant only if it is so over units and periods, which can
+    # be told only once the data are in long format
+    bigx, name_x, warn_add = USER.check_constant(
+        bigx, name_x, just_rem=not add_constant
+    )
     warn.append(warn_add)
-    if add_constant:
-        bigx, name_x, warn_add = USER.check_constant(bigx, name_x)
-        warn.append(warn_add)
     name_x = USER.set_name_x(name_x, bigx, constant=not add_constant)
     name_y = USER.set_name_y(name_y)
 
-- 
2.43.0


From 29c4304eb5b6f56251a91f7bc393af7e6c73d863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:59 +0000
Subject: [PATCH 047/105] fix: regressors that do not change over time made
 fixed effects models singular

---
 spreg/panel_utils.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/spreg/panel_utils.py b/spreg/panel_utils.py
index 535fc20..2567a32 100755
--- a/spreg/panel_utils.py
+++ b/spreg/panel_utils.py
@@ -29,6 +29,9 @@ def prepare_panel(y, x, w, name_y, name_x, slx_lags, slx_vars, title, add_consta
         bigx, name_x, just_rem=not add_constant
     )
     warn.append(warn_add)
+    if not add_constant:
+        bigx, name_x, warn_add = drop_time_invariant(bigx, name_x, w.n)
+        warn.append(warn_add)
     name_x = USER.set_name_x(name_x, bigx, constant=not add_constant)
     name_y = USER.set_name_y(name_y)
 
@@ -135,6 +138,33 @@ def check_panel(y, x, w, name_y, name_x):
     return bigy, bigx, name_y, name_x, T, warn
 
 
+def drop_time_invariant(bigx, name_x, n):
+    """
+    Removes the variables that do not change over time for any unit: they are
+    not identified when there is one effect per unit.
+
+    Parameters
+    ----------
+    bigx        : array
+                  n*txk array in long format
+    name_x      : list of strings
+                  Names of independent variables
+    n           : integer
+                  Number of units
+    """
+    by_period = bigx.reshape((-1, n, bigx.shape[1]))
+    varies = np.any(by_period != by_period[0], axis=(0, 1))
+    if np.all(varies):
+        return bigx, name_x, None
+    if name_x:
+        removed = "Variable(s) " + str([i for i, keep in zip(name_x, varies) if not keep])
+        name_x = [i for i, keep in zip(name_x, varies) if keep]
+    else:
+        removed = str(np.sum(~varies)) + " variable(s)"
+    warn = removed + " removed for not changing over time."
+    return bigx[:, varies], name_x, warn
+
+
 def demean_panel(arr, n, t, phi=0):
     """
     Returns demeaned variable.
-- 
2.43.0


From 1364440bbd19e5067cd52c89840ee65fdb554d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:10 +0000
Subject: [PATCH 048/105] fix: pooled spatial error panels could not be
 estimated without diagnostics

---
 spreg/panel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spreg/panel.py b/spreg/panel.py
index 438dfc1..4be79ff 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -854,6 +854,7 @@ class GM_ErrorPooled(BaseGM_ErrorPooled):
         self.output['regime'], self.output['equation'] = (0, 0)
         self.other_top = _summary_iteration(self)
 
+        other_end = ""
         if nonspat_diag:
             self.bsk = BSK_tests(self, w, which=['LMC_RE'])
             other_end = "\nDIAGNOSTIC TESTS\n"
@@ -1066,6 +1067,7 @@ class ML_ErrorPooled(BaseML_ErrorPooled):
         self.schwarz = DIAG.schwarz(reg=self)
         self.other_top = _nonspat_top(self, ml=True)     
 
+        other_end = ""
         if nonspat_diag:
             self.bsk = BSK_tests(self, w, which=['LMC_RE'])
             other_end = "\nDIAGNOSTIC TESTS\n"
-- 
2.43.0


From 04f410c330cee56315fe14295d0c2c4392e84d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:33 +0000
Subject: [PATCH 049/105] fix: BSK tests that need pooled residuals failed
 unless LM1 or LMJ was asked of a PooledOLS

---
 spreg/diagnostics_panel.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/spreg/diagnostics_panel.py b/spreg/diagnostics_panel.py
index 8222809..06d6b34 100755
--- a/spreg/diagnostics_panel.py
+++ b/spreg/diagnostics_panel.py
@@ -273,16 +273,19 @@ def BSK_tests(reg, w, which="all", GM_BSK=False):
 
     if any(test in which for test in ["LMJ", "LM1", "LM2"]):
         if reg.__class__.__name__ != 'PooledOLS':
-            pooled_mod = PooledOLS(reg.y, reg.x)
+            pooled_mod = PooledOLS(
+                reg.y, reg.x, w, nonspat_diag=False, spat_diag=False
+            )
         else:
             pooled_mod = reg
 
+        u = pooled_mod.u
+        u_mat = u.reshape((T, N))
+        u_sq_sum = np.sum(u**2)
+
         if any(test in which for test in ["LMJ", "LM1"]):
             # G term (Random Effects) - Eq 2.11
-            u = pooled_mod.u 
-            u_mat = u.reshape((T, N))
             u_sum_sq = np.sum(np.sum(u_mat, axis=0)**2) 
-            u_sq_sum = np.sum(u**2)
             G = (u_sum_sq / u_sq_sum) - 1
 
             # LM1: Marginal RE (Eq 2.12)
-- 
2.43.0


From 0bf79a20c905a719c5c7cb601b6b24488cd08847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:43 +0000
Subject: [PATCH 050/105] fix: p-value of the joint BSK test when only one of
 its components is positive

---
 spreg/diagnostics_panel.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/spreg/diagnostics_panel.py b/spreg/diagnostics_panel.py
index 06d6b34..bc32eb3 100755
--- a/spreg/diagnostics_panel.py
+++ b/spreg/diagnostics_panel.py
@@ -327,17 +327,12 @@ def BSK_tests(reg, w, which="all", GM_BSK=False):
 
         if "LMJ" in which:
             # Joint Test (Eq 2.19)
-            if LM1 > 0 and LM2 > 0:
-                LM_J = LM1**2 + LM2**2
+            LM_J = max(LM1, 0)**2 + max(LM2, 0)**2
+            if LM_J > 0:
+                # the mixture does not depend on which components are positive
                 prob_ch1 = 1 - stats.chi2.cdf(LM_J, df=1)
                 prob_ch2 = 1 - stats.chi2.cdf(LM_J, df=2)
                 pval_J = 0.5 * prob_ch1 + 0.25 * prob_ch2
-            elif LM1 > 0 and LM2 <= 0:
-                LM_J = LM1**2
-                pval_J = 0.5 * (1 - stats.chi2.cdf(LM_J, df=1)) 
-            elif LM1 <= 0 and LM2 > 0:
-                LM_J = LM2**2
-                pval_J = 0.5 * (1 - stats.chi2.cdf(LM_J, df=1))
             else:
                 LM_J = 0
                 pval_J = 1.0
-- 
2.43.0


From 08e3b0fb40591c3c5fc2f81df857896d8d10d307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:07 +0000
Subject: [PATCH 051/105] fix: degrees of freedom of the spatial panel Hausman
 test counted the constant

---
 spreg/diagnostics_panel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/diagnostics_panel.py b/spreg/diagnostics_panel.py
index bc32eb3..e7a2e30 100755
--- a/spreg/diagnostics_panel.py
+++ b/spreg/diagnostics_panel.py
@@ -218,7 +218,7 @@ def panel_Hausman(panel_fe, panel_re, sp_lag=True):
     vard = panel_re.varb[1:, 1:] - panel_fe.varb
     vardi = la.inv(vard)
     h = spdot(d.T, spdot(vardi, d))
-    pval = chisqprob(h, panel_re.k)
+    pval = chisqprob(h, d.shape[0])
     return (h[0][0], pval[0][0])
 
 def BSK_tests(reg, w, which="all", GM_BSK=False):
-- 
2.43.0


From d14679a4f49ed322a308362835ca72c6d4231e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:28 +0000
Subject: [PATCH 052/105] fix: Hausman test of spatial error panels needs the
 covariance that ML_ErrorRE did not keep

---
 spreg/panel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spreg/panel.py b/spreg/panel.py
index 4be79ff..4ea825c 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -2076,6 +2076,7 @@ class BaseML_ErrorRE(RegressionPropsY, RegressionPropsVM):
         vv1 = np.hstack((np.zeros((2, self.k)), vm1[:2, :2]))
 
         self.vm = np.vstack((vv, vv1))
+        self.varb = varb
         self.n = NT
 
     def err_c_loglik_ord(self, 
-- 
2.43.0


From bf4a51e8bba6c12477ba7ba59338f0c42f226ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:15 +0000
Subject: [PATCH 053/105] fix: iterated SUR ran one iteration more than maxiter

---
 spreg/sur.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/sur.py b/spreg/sur.py
index f712838..289f2f9 100755
--- a/spreg/sur.py
+++ b/spreg/sur.py
@@ -136,7 +136,7 @@ class BaseSUR:
         # self.niter = 0
         if iter:  # iterated FGLS aka ML
             n_iter = 0
-            while np.abs(det1 - det0) > epsilon and n_iter <= maxiter:
+            while np.abs(det1 - det0) > epsilon and n_iter < maxiter:
                 n_iter += 1
                 det0 = det1
                 self.bSUR, self.varb, self.sig = sur_est(
-- 
2.43.0


From 0f44b9974d0a3921377e0613e41ac9f0782592c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:15 +0000
Subject: [PATCH 054/105] fix: summary of SUR systems whose equations split the
 same number of regressors differently

---
 spreg/summary_output.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/spreg/summary_output.py b/spreg/summary_output.py
index 6a9743f..6ff90e5 100755
--- a/spreg/summary_output.py
+++ b/spreg/summary_output.py
@@ -1908,10 +1908,13 @@ def summary_diag_sur(
                     order += range(kx + i * kendr, kx + (i + 1) * kendr)
                 order += range(kx + regK * kendr, kx + kend)
                 for k in order:
-                    if k < kx:
-                        names_k = [reg.name_bigX[i][k] for i in reg.name_bigX]
-                    else:
-                        names_k = [reg.name_bigyend[i][k - kx] for i in reg.name_bigyend]
+                    # the split between exogenous and endogenous may differ by equation
+                    names_k = []
+                    for i in reg.name_bigX:
+                        names_i = list(reg.name_bigX[i])
+                        if tsls:
+                            names_i += list(reg.name_bigyend[i])
+                        names_k.append(names_i[k])
                     names_chow = ", ".join(names_k)
                     if len(names_chow) > 40:
                         names_chow = names_chow[0:38] + "..."
-- 
2.43.0


From b8bf8ad8d5affa9c98badb077a80c37a9dedd412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:26 +0000
Subject: [PATCH 055/105] fix: joint test of rho in SUR lag regimes left out
 all regimes but the last

---
 spreg/diagnostics_sur.py | 18 +++++++++++++-----
 spreg/sur_lag.py         |  7 ++++++-
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/spreg/diagnostics_sur.py b/spreg/diagnostics_sur.py
index eff8b7a..88fc7a2 100644
--- a/spreg/diagnostics_sur.py
+++ b/spreg/diagnostics_sur.py
@@ -308,7 +308,7 @@ def sur_chow(n_eq, bigK, bSUR, varb):
     return test
 
 
-def sur_joinrho(n_eq, bigK, bSUR, varb):
+def sur_joinrho(n_eq, bigK, bSUR, varb, nr=1, bigyend=None):
     """
     Test on joint significance of spatial autoregressive coefficient in SUR
 
@@ -325,6 +325,12 @@ def sur_joinrho(n_eq, bigK, bSUR, varb):
                  the spatial autoregressive term as last
     varb       : array
                  variance-covariance matrix for regression coefficients
+    nr         : int
+                 number of spatial autoregressive coefficients by equation
+                 (the number of regimes when the spatial lag varies by regime)
+    bigyend    : dictionary
+                 with the endogenous variables by equation, needed when nr > 1:
+                 its columns repeat by regime with the spatial lag last in each
 
     Returns
     -------
@@ -333,11 +339,13 @@ def sur_joinrho(n_eq, bigK, bSUR, varb):
 
     """
     bb = sur_dict2mat(bSUR)
-    R = np.zeros((n_eq, varb.shape[0]))
-    q = np.zeros((n_eq, 1))
+    R = np.zeros((n_eq * nr, varb.shape[0]))
+    q = np.zeros((n_eq * nr, 1))
     kc = -1
     for i in range(n_eq):
         kc = kc + bigK[i]
-        R[i, kc] = 1
+        for j in range(nr):
+            back = j * (bigyend[i].shape[1] // nr) if j else 0
+            R[i * nr + j, kc - back] = 1
     w, p = wald_test(bb, R, q, varb)
-    return (w, n_eq, p)
+    return (w, n_eq * nr, p)
diff --git a/spreg/sur_lag.py b/spreg/sur_lag.py
index 5575b1b..cd4ba14 100644
--- a/spreg/sur_lag.py
+++ b/spreg/sur_lag.py
@@ -453,7 +453,12 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
 
         # test on joint significance of spatial coefficients
         if spat_diag:
-            self.joinrho = sur_joinrho(self.n_eq, self.bigK, self.b3SLS, self.varb)
+            nr = 1  # spatial coefficients by equation
+            if regimes is not None and regime_lag_sep == True:
+                nr = len(self.regimes_set)
+            self.joinrho = sur_joinrho(
+                self.n_eq, self.bigK, self.b3SLS, self.varb, nr, bigyend
+            )
         else:
             self.joinrho = None
 
-- 
2.43.0


From d22822736b7db18c58e3fdc9872a747452601313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:04 +0000
Subject: [PATCH 056/105] fix: names of the lagged variables in NSLX when
 slx_vars leaves one of several params

---
 spreg/nslx.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spreg/nslx.py b/spreg/nslx.py
index b2aa5d7..b34b858 100755
--- a/spreg/nslx.py
+++ b/spreg/nslx.py
@@ -343,6 +343,7 @@ class NSLX(BaseNSLX):
                 if g == len(slx_vars):  # params does not have correct form
                     params = list(compress(params,slx_vars))
                     transform = list(compress(transform,slx_vars))
+                    g = len(params)
                 elif g != len(xw_name):
                     raise Exception("Mismatch dimension params and slx_vars")
 
-- 
2.43.0


From 2cbef862c5e2be58f2b8754c90647000b43224e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:04 +0000
Subject: [PATCH 057/105] fix: analytical variance of NSLX with power
 transformation was nan for zero weights

---
 spreg/nslx.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spreg/nslx.py b/spreg/nslx.py
index b34b858..7b7dc0a 100755
--- a/spreg/nslx.py
+++ b/spreg/nslx.py
@@ -542,7 +542,8 @@ def _nltransform(a,w,transform,gradflag=0):
         elif gradflag == 1:
             walpha = walpha.power(a)
             ww = w.copy()
-            np.log(ww.data, out = ww.data)
+            # a zero weight (farthest neighbor) stays zero: its gradient is 0, not 0*log(0)
+            ww.data = np.log(np.where(ww.data > 0, ww.data, 1.0))
             wgrad = walpha.multiply(ww)
             walpha = wgrad
             
-- 
2.43.0


From bc1a8ec5d6a150f4dc82042442e8bf169b7733b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:04 +0000
Subject: [PATCH 058/105] fix: NSLX variance from the inverse Hessian was half
 of what it should be

---
 spreg/nslx.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spreg/nslx.py b/spreg/nslx.py
index 7b7dc0a..e3df4d6 100755
--- a/spreg/nslx.py
+++ b/spreg/nslx.py
@@ -66,7 +66,7 @@ class BaseNSLX(RegressionPropsY):
     ihess     : inverse of Hessian matrix
     sign      : estimate of residual variance (divided by n)
     sig2      : same as sign
-    vm      : coefficient variance-covariance matrix (sign x ihess)
+    vm      : coefficient variance-covariance matrix (2 x sign x ihess when var_flag=0)
     predy     : vector of predicted values
     u         : vector of residuals
 
@@ -138,7 +138,9 @@ class BaseNSLX(RegressionPropsY):
             self.vm = vb * self.sig2
         elif var_flag == 0:
             self.ihess = ssmin.hess_inv            
-            self.vm = self.ihess * self.sig2
+            # the objective is the sum of squared residuals, so that
+            # the information matrix is the Hessian over 2 sig2
+            self.vm = 2.0 * self.ihess * self.sig2
         
 
 
@@ -221,7 +223,7 @@ class NSLX(BaseNSLX):
     ihess     : inverse of Hessian matrix
     sign      : estimate of residual variance (divided by n)
     sig2      : same as sign
-    vm        : coefficient variance-covariance matrix (sign x ihess)
+    vm        : coefficient variance-covariance matrix (2 x sign x ihess when var_flag=0)
     predy     : vector of predicted values
     u         : vector of residuals
     ll        : float
-- 
2.43.0


From f370abca53610f121d48dabcd01e4f22f7cc9272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:21 +0000
Subject: [PATCH 059/105] fix: dgp_spdurbin and dgp_gns report incompatible
 dimensions like the others

---
 spreg/dgp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spreg/dgp.py b/spreg/dgp.py
index a61b7f7..f60932d 100644
--- a/spreg/dgp.py
+++ b/spreg/dgp.py
@@ -659,6 +659,7 @@ def dgp_spdurbin(u,xb,wxg,w,rho=0.5,imethod='power_exp',ybin=False):
         return None
     if w.n != n1:
         print("Error: incompatible weights dimensions")
+        return None
     y1 = xb + wxg + u
     y = inverse_prod(w,y1,rho,inv_method=imethod)
     if ybin:
@@ -784,6 +785,7 @@ def dgp_gns(u,xb,wxg,w,rho=0.5,lam=0.2,model='sar',imethod='power_exp',ybin=Fals
         return None
     if w.n != n1:
         print("Error: incompatible weights dimensions")
+        return None
     if model == 'sar':
         u1 = inverse_prod(w,u,lam,inv_method=imethod)
     elif model == 'ma':
-- 
2.43.0


From fc65ba3db691a541f2fe5f02373440afa17a003d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:30 +0000
Subject: [PATCH 060/105] fix: Skater_reg scores of given labels and of the
 labels of the last fit

---
 spreg/skater_reg.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index 5da65a1..a88c1e7 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -369,7 +369,9 @@ class Skater_reg(object):
         current_tree: integer indicating the tree's label currently being considered for division
         """
 
-        labels, subtree_quorums = self._prep_score(all_labels, current_tree, current_labels)
+        all_labels, labels, subtree_quorums = self._prep_score(
+            all_labels, current_tree, current_labels
+        )
         if (subtree_quorums < quorum).any():
             return np.inf, None
 
@@ -467,7 +469,7 @@ class Skater_reg(object):
         NOTE: Optimization occurs with respect to a *dissimilarity* metric, so the problem *minimizes*
               the map dissimilarity. So, lower scores are better.
         """
-        labels, subtree_quorums = self._prep_score(
+        all_labels, labels, subtree_quorums = self._prep_score(
             all_labels, current_tree, current_labels
         )
         if (subtree_quorums < quorum).any():
@@ -508,15 +510,16 @@ class Skater_reg(object):
     def _prep_score(self, all_labels, current_tree, current_labels):
         if all_labels is None:
             try:
-                labels = self.current_labels_
+                all_labels = self.current_labels_
             except AttributeError:
                 raise ValueError(
                     "Labels not provided and MSF_Prune object has not been fit to data yet."
                 )
+        labels = all_labels
         if current_tree is not None:
             labels = all_labels[current_labels == current_tree]
         _, subtree_quorums = np.unique(labels, return_counts=True)
-        return labels, subtree_quorums
+        return all_labels, labels, subtree_quorums
 
     def _data_reg_none(self, data, all_labels, set_labels):
         assert data.shape[0] == len(
-- 
2.43.0


From 12d1e6633e09ff1191ed061ce9d8532a43f32690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:46 +0000
Subject: [PATCH 061/105] fix: Skater_reg lost its labels when the forest
 admits no further cut

---
 spreg/skater_reg.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index a88c1e7..eedb052 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -290,10 +290,10 @@ class Skater_reg(object):
         while current_n_subtrees < n_clusters:  # while we don't have enough regions
             (
                 best_deletion,
-                trees_scores,
+                new_trees_scores,
                 new_MSF,
-                current_n_subtrees,
-                current_labels,
+                new_n_subtrees,
+                new_labels,
             ) = self.find_cut(
                 MSF,
                 data,
@@ -320,6 +320,9 @@ class Skater_reg(object):
                     )
                 prev_score = best_deletion.score
                 MSF = new_MSF
+                trees_scores = new_trees_scores
+                current_n_subtrees = new_n_subtrees
+                current_labels = new_labels
             else:  # otherwise, it means the MSF admits no further cuts
                 prev_n_subtrees, _ = cg.connected_components(MSF, directed=False)
                 warn(
@@ -330,6 +333,7 @@ class Skater_reg(object):
                     OptimizeWarning,
                     stacklevel=2,
                 )
+                break  # the labels found so far are the result
             if trace:
                 self._trace.append((current_labels, best_deletion))
 
-- 
2.43.0


From 2a0494cc156b40a85c162fa368476b9cced42d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:46 +0000
Subject: [PATCH 062/105] fix: Skater_reg broke links between neighbors with
 equal attributes

---
 spreg/skater_reg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index eedb052..0f80bba 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -232,7 +232,8 @@ class Skater_reg(object):
         super_verbose = verbose > 1
         start_W = time.time()
         dissim = W.multiply(attribute_kernel)
-        dissim.eliminate_zeros()
+        # neighbors without any dissimilarity stay linked: a zero would be no edge
+        dissim.data[dissim.data == 0] = np.finfo(float).tiny
         end_W = time.time() - start_W
 
         if super_verbose:
-- 
2.43.0


From 6e7a8e22dbf75e5b491ad50b94a9e44953ab5083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:46 +0000
Subject: [PATCH 063/105] fix: Skater_reg with GM_Lag left the first regressor
 and the user's yend and q out

---
 spreg/skater_reg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index 0f80bba..c5b514e 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -549,8 +549,8 @@ class Skater_reg(object):
     def _prep_lag(self, data_reg):
         # if the model is a spatial lag, add the lagged dependent variable to the model
         data_reg = dict(data_reg)
-        data_reg['yend'], data_reg['q'] = set_endog(data_reg["y"], data_reg["x"][:, 1:], data_reg["w"], yend=None,
-            q=None, w_lags=1, lag_q=True)
+        data_reg['yend'], data_reg['q'] = set_endog(data_reg["y"], data_reg["x"], data_reg["w"],
+            yend=data_reg.get("yend"), q=data_reg.get("q"), w_lags=1, lag_q=True)
         return data_reg
 
     def find_cut(
-- 
2.43.0


From e7c26cb27319a69915f64dd9924f54d45ae3d7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:46 +0000
Subject: [PATCH 064/105] fix: Skater_reg scored only the component being cut
 when the map is disconnected

---
 spreg/skater_reg.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index c5b514e..c04af7e 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -287,6 +287,11 @@ class Skater_reg(object):
             if super_verbose:
                 print(self._trace[-1])
         trees_scores = None
+        if current_n_subtrees > 1 and current_n_subtrees < n_clusters:
+            # cuts of different components are compared by the total they lead to
+            score = self.score_stats if model_family == "statsmodels" else self.score_spreg
+            if data_reg is None or data_reg["reg"].__name__ not in {"GM_Lag", "BaseGM_Lag"}:
+                _, trees_scores = score(data, data_reg, current_labels)
         prev_score = np.inf
         while current_n_subtrees < n_clusters:  # while we don't have enough regions
             (
-- 
2.43.0


From ce72934fcc75538d35eda14a48dabd8774db5ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:46 +0000
Subject: [PATCH 065/105] fix: Skater_reg with an affinity could not score
 clusters by their attributes

---
 spreg/skater_reg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index c04af7e..2f97e5e 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -157,7 +157,9 @@ class Skater_reg(object):
         if affinity is not None:
             # invert the 0,1 affinity to
             # to an unbounded positive dissimilarity
-            metric = lambda x: -np.log(affinity(x))
+            metric = lambda X, Y=None: -np.log(
+                affinity(X) if Y is None else affinity(X, Y)
+            )
         else:
             metric = dissimilarity
         self.metric = metric
-- 
2.43.0


From 6aaade7cb53883dcb76af01807de25e94d148577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:33 +0000
Subject: [PATCH 066/105] fix: Skater_reg replaced the user's weights by binary
 ones in the regressions of the clusters

---
 spreg/skater_reg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index 2f97e5e..5bbe421 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -6,8 +6,8 @@ from scipy.sparse import csgraph as cg
 from scipy.optimize import OptimizeWarning
 from collections import namedtuple
 from warnings import warn
-from libpysal.weights import w_subset
 from .utils import set_endog
+from .regimes import w_regime
 import time
 import numpy as np
 import copy
@@ -413,8 +413,8 @@ class Skater_reg(object):
                     regi_ids = label_indices[l]
 
                     if "w" in data_reg:
-                        w_ids = list(map(data_reg["w"].id_order.__getitem__, regi_ids))
-                        kargs["w"] = w_subset(data_reg["w"], w_ids, silence_warnings=True)
+                        # keeps values and transformation of the weights
+                        kargs["w"], _ = w_regime(data_reg["w"], regi_ids, l)
 
                     x = data_reg["x"][regi_ids]
                     y = data_reg["y"][regi_ids]
-- 
2.43.0


From 4e91f5da5e673525c09c4f9709aaa7c9e68952c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:23 +0000
Subject: [PATCH 067/105] fix: stge_pre reported LAG for a Durbin model whose
 parameters are out of bounds

---
 spreg/spsearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/spsearch.py b/spreg/spsearch.py
index be59729..9f021e3 100755
--- a/spreg/spsearch.py
+++ b/spreg/spsearch.py
@@ -697,7 +697,7 @@ def stge_pre(
                 except:  # ignore lag model
                     if p_rlag <= p_rerror:
                         k = idv + 1
-                        result = models[1]
+                        result = models[k]
 
                     else:
                         k = idv + 2
-- 
2.43.0


From e897e14bea4c375af8d788d8605bf5313b2a3e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:23 +0000
Subject: [PATCH 068/105] fix: gets_sdm computed tests that are not defined for
 a model with lagged regressors

---
 spreg/spsearch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spreg/spsearch.py b/spreg/spsearch.py
index 9f021e3..52427ba 100755
--- a/spreg/spsearch.py
+++ b/spreg/spsearch.py
@@ -1269,7 +1269,7 @@ def gets_sdm(
         )
 
         # check on LM-Error
-        errtest = LMtests(model_ols, w)
+        errtest = LMtests(model_ols, w, tests=["lme"])
         if errtest.lme[1] < p:  # ERROR
             result = "ERROR"
 
@@ -1295,7 +1295,7 @@ def gets_sdm(
                 latex=latex,
             )
 
-            errtest = LMtests(model_slx, w)
+            errtest = LMtests(model_slx, w, tests=["lme"])
             if errtest.lme[1] < p:  # SLX-ERROR
                 result = "SLX-Err"
 
-- 
2.43.0


From 0ec3bb65e836e5f1d9f0c459acd72af222c98482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:23 +0000
Subject: [PATCH 069/105] fix: stray print of the class name with every non-OLS
 result

---
 spreg/output.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/spreg/output.py b/spreg/output.py
index df609da..8b827cb 100755
--- a/spreg/output.py
+++ b/spreg/output.py
@@ -92,7 +92,6 @@ def out_part_top(strSummary, reg, m):
     else:
         _reg.z_stat = diagnostics.t_stat(_reg, z_stat=True)
         if _reg.__class__.__name__ not in ('NSLX','PSM','LagPSM') and not _reg.__class__.__name__.endswith('Probit'):
-            print(_reg.__class__.__name__)
             _reg.pr2 = diagnostics_tsls.pr2_aspatial(_reg)
             strSummary += "%-20s:%12.4f\n" % ("Pseudo R-squared", _reg.pr2)
         _reg.__summary["summary_zt"] = "z"
-- 
2.43.0


From aeff87b1e740eb14e510bc27020e62f07f918709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:23 +0000
Subject: [PATCH 070/105] fix: specification searches dropped name_y given
 without name_x and the reverse, and showed False as name of the weights

---
 spreg/spsearch.py    | 10 ++++++++++
 spreg/user_output.py |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/spreg/spsearch.py b/spreg/spsearch.py
index 52427ba..ff30cc4 100755
--- a/spreg/spsearch.py
+++ b/spreg/spsearch.py
@@ -138,6 +138,8 @@ def stge_classic(
             w=w,
             slx_lags=0,
             spat_diag=True,
+            name_y=name_y or None,
+            name_x=name_x or None,
             name_w=name_w,
             name_ds=name_ds,
             latex=latex,
@@ -384,6 +386,8 @@ def stge_kb(
             w=w,
             slx_lags=0,
             spat_diag=True,
+            name_y=name_y or None,
+            name_x=name_x or None,
             name_w=name_w,
             name_ds=name_ds,
             latex=latex,
@@ -582,6 +586,8 @@ def stge_pre(
             w=w,
             slx_lags=0,
             spat_diag=True,
+            name_y=name_y or None,
+            name_x=name_x or None,
             name_w=name_w,
             name_ds=name_ds,
             latex=latex,
@@ -870,6 +876,8 @@ def gets_gns(
                 add_wy=True,
                 w_lags=w_lags,
                 hard_bound=True,
+                name_y=name_y or None,
+                name_x=name_x or None,
                 name_w=name_w,
                 name_ds=name_ds,
                 latex=latex,
@@ -1205,6 +1213,8 @@ def gets_sdm(
                 slx_lags=1,
                 w_lags=w_lags,
                 hard_bound=True,
+                name_y=name_y or None,
+                name_x=name_x or None,
                 name_w=name_w,
                 name_ds=name_ds,
                 latex=latex,
diff --git a/spreg/user_output.py b/spreg/user_output.py
index 9406a3c..025da4d 100755
--- a/spreg/user_output.py
+++ b/spreg/user_output.py
@@ -299,7 +299,7 @@ def set_name_w(name_w, w):
 
     """
     if w != None:
-        if name_w != None:
+        if name_w != None and name_w is not False:
             return name_w
         else:
             return "unknown"
-- 
2.43.0


From 477b908eed1dad916629ba906725e92c3efec7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:36 +0000
Subject: [PATCH 071/105] fix: header of the printed variance matrix named
 coefficients that have no column in it

---
 spreg/output.py         | 10 ++++++----
 spreg/summary_output.py |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/spreg/output.py b/spreg/output.py
index 8b827cb..e941326 100755
--- a/spreg/output.py
+++ b/spreg/output.py
@@ -541,11 +541,13 @@ def _summary_vm(reg):
     strVM += "COEFFICIENTS VARIANCE MATRIX\n"
     strVM += "----------------------------\n"
     try:
-        for name in reg.name_z:
-            strVM += "%12s" % (name)
+        names = reg.name_z
     except:
-        for name in reg.name_x:
-            strVM += "%12s" % (name)
+        names = reg.name_x
+    if len(names) != reg.vm.shape[1]:  # coefficients without inference have no column
+        names = reg.output['var_names'][reg.output['std_err'].notna()]
+    for name in names:
+        strVM += "%12s" % (name)
     strVM += "\n"
     nrow = reg.vm.shape[0]
     ncol = reg.vm.shape[1]
diff --git a/spreg/summary_output.py b/spreg/summary_output.py
index 6ff90e5..38cd976 100755
--- a/spreg/summary_output.py
+++ b/spreg/summary_output.py
@@ -1949,7 +1949,7 @@ def summary_vm(reg, instruments):
         for name in reg.name_z:
             strVM += "%12s" % (name)
     else:
-        for name in reg.name_x:
+        for name in reg.name_x[: reg.vm.shape[1]]:
             strVM += "%12s" % (name)
     strVM += "\n"
     nrow = reg.vm.shape[0]
-- 
2.43.0


From 0b4ee641ef3c56da626e714a6f387a40a2060e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:34 +0000
Subject: [PATCH 072/105] fix: systems of equations accepted missing values,
 equations without data and weights with diagonal entries

---
 spreg/sur.py       |  5 +++++
 spreg/sur_error.py |  5 +++++
 spreg/sur_lag.py   |  4 +++-
 spreg/sur_utils.py | 29 +++++++++++++++++++++++++++++
 4 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/spreg/sur.py b/spreg/sur.py
index 289f2f9..097e058 100755
--- a/spreg/sur.py
+++ b/spreg/sur.py
@@ -20,6 +20,7 @@ from .sur_utils import (
     sur_resids,
     sur_predict,
     check_k,
+    check_sur_data,
 )
 from .diagnostics_sur import (
     sur_setp,
@@ -427,6 +428,9 @@ class SUR(BaseSUR, REGI.Regimes_Frame):
             else:
                 raise Exception("Error: bigy and bigX must be both lists or both dictionaries")
 
+        check_sur_data(bigy, bigX)
+        if spat_diag and w is not None:
+            w = USER.check_weights(w, bigy[list(bigy)[0]])
         bigX = dict(bigX)  # equations are replaced below when there are regimes
         self.name_ds = USER.set_name_ds(name_ds)
         self.name_w = USER.set_name_w(name_w, w)
@@ -828,6 +832,7 @@ class ThreeSLS(BaseThreeSLS, REGI.Regimes_Frame):
             else:
                 raise Exception("Error: bigy, bigX, bigyend and bigq must be all lists or all dictionaries")
 
+        check_sur_data(bigy, bigX, bigyend, bigq)
         # equations are replaced below when there are regimes
         bigX, bigyend, bigq = dict(bigX), dict(bigyend), dict(bigq)
         self.name_ds = USER.set_name_ds(name_ds)
diff --git a/spreg/sur_error.py b/spreg/sur_error.py
index 96e6d39..f748317 100644
--- a/spreg/sur_error.py
+++ b/spreg/sur_error.py
@@ -29,6 +29,7 @@ from .sur_utils import (
     sur_resids,
     filter_dict,
     check_k,
+    check_sur_data,
 )
 from .sur import BaseSUR, _sur_ols
 from .diagnostics_sur import sur_setp, lam_setp, sur_chow
@@ -327,6 +328,8 @@ class SURerrorGM(BaseSURerrorGM, REGI.Regimes_Frame):
             else:
                 raise Exception("Error: bigy and bigX must be both lists or both dictionaries")
 
+        check_sur_data(bigy, bigX)
+        w = USER.check_weights(w, bigy[list(bigy)[0]], w_required=True)
         bigX = dict(bigX)  # equations are replaced below when there are regimes
         # check on variable names for listing results
         self.name_ds = USER.set_name_ds(name_ds)
@@ -775,6 +778,8 @@ class SURerrorML(BaseSURerrorML, REGI.Regimes_Frame):
             else:
                 raise Exception("Error: bigy and bigX must be both lists or both dictionaries")
 
+        check_sur_data(bigy, bigX)
+        w = USER.check_weights(w, bigy[list(bigy)[0]], w_required=True)
         bigX = dict(bigX)  # equations are replaced below when there are regimes
         # check on variable names for listing results
         self.name_ds = USER.set_name_ds(name_ds)
diff --git a/spreg/sur_lag.py b/spreg/sur_lag.py
index cd4ba14..f6f462b 100644
--- a/spreg/sur_lag.py
+++ b/spreg/sur_lag.py
@@ -12,7 +12,7 @@ from . import user_output as USER
 from . import regimes as REGI
 from .sur import BaseThreeSLS
 from .diagnostics_sur import sur_setp, sur_chow, sur_joinrho
-from .sur_utils import check_k, sur_dictxy, sur_dictZ
+from .sur_utils import check_k, check_sur_data, sur_dictxy, sur_dictZ
 from .sputils import sphstack
 
 __all__ = ["SURlagIV"]
@@ -263,6 +263,8 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
         
         if w is None:
             raise Exception("Spatial weights required for SUR-Lag")
+        check_sur_data(bigy, bigX, bigyend, bigq)
+        w = USER.check_weights(w, bigy[list(bigy)[0]], w_required=True)
         self.w = w
         WS = w.sparse
         self.name_ds = USER.set_name_ds(name_ds)
diff --git a/spreg/sur_utils.py b/spreg/sur_utils.py
index 0457234..4158a07 100644
--- a/spreg/sur_utils.py
+++ b/spreg/sur_utils.py
@@ -8,6 +8,7 @@ __author__ = "Luc Anselin lanselin@gmail.com,    \
 import numpy as np
 import numpy.linalg as la
 import pandas as pd
+from . import user_output as USER
 from .utils import spdot
 
 __all__ = [
@@ -21,6 +22,7 @@ __all__ = [
     "sur_resids",
     "filter_dict",
     "check_k",
+    "check_sur_data",
 ]
 
 
@@ -514,3 +516,30 @@ def check_k(bigK):
     k = kk[0]
     check = np.equal(k, kk)
     return all(check)
+
+
+def check_sur_data(bigy, bigX, bigyend=None, bigq=None):
+    """
+    Check that the data by equation of a system match, equation by equation
+
+    Parameters
+    ----------
+    bigy       : dictionary
+                 vectors of dependent variable, one for each equation
+    bigX       : dictionary
+                 matrices of explanatory variables, one for each equation
+    bigyend    : dictionary
+                 matrices of endogenous variables, one for each equation (optional)
+    bigq       : dictionary
+                 matrices of instruments, one for each equation (optional)
+
+    Returns
+    -------
+    Nothing, raises an exception when equations are missing, lengths differ
+    or values are missing
+    """
+    parts = [i for i in (bigy, bigX, bigyend, bigq) if i]
+    if any(set(i.keys()) != set(bigy.keys()) for i in parts):
+        raise Exception("Error: all variables must be given for the same equations")
+    if len(set(USER.check_arrays(*[i[r] for i in parts]) for r in bigy)) > 1:
+        raise Exception("Error: all equations must have the same number of observations")
-- 
2.43.0


From 2fb55fb21acaf4624315019f5da22e46ed55b6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:34 +0000
Subject: [PATCH 073/105] fix: two stage and three stage least squares returned
 estimates with fewer instruments than endogenous variables

---
 spreg/sur.py    | 2 ++
 spreg/twosls.py | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/spreg/sur.py b/spreg/sur.py
index 097e058..ffb9048 100755
--- a/spreg/sur.py
+++ b/spreg/sur.py
@@ -833,6 +833,8 @@ class ThreeSLS(BaseThreeSLS, REGI.Regimes_Frame):
                 raise Exception("Error: bigy, bigX, bigyend and bigq must be all lists or all dictionaries")
 
         check_sur_data(bigy, bigX, bigyend, bigq)
+        if any(bigq[r].shape[1] < bigyend[r].shape[1] for r in bigyend):
+            raise Exception("Error: fewer instruments than endogenous variables")
         # equations are replaced below when there are regimes
         bigX, bigyend, bigq = dict(bigX), dict(bigyend), dict(bigq)
         self.name_ds = USER.set_name_ds(name_ds)
diff --git a/spreg/twosls.py b/spreg/twosls.py
index 0c59bb6..b39a210 100644
--- a/spreg/twosls.py
+++ b/spreg/twosls.py
@@ -150,6 +150,10 @@ class BaseTSLS(RegressionPropsY, RegressionPropsVM):
         if type(h).__name__ not in ["ndarray", "csr_matrix"]:
             # including exogenous variables and instrument
             h = sphstack(self.x, q)
+        if h.shape[1] < z.shape[1]:
+            raise Exception(
+                "There are fewer instruments than endogenous variables, the model is not identified."
+            )
         self.z = z
         self.h = h
         self.q = q
-- 
2.43.0


From 90235e71117fa6f806e526e214501a1ce376fa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:54 +0000
Subject: [PATCH 074/105] fix: regimes models accepted endogenous variables or
 instruments of another length than y

---
 spreg/error_sp_het_regimes.py | 2 +-
 spreg/error_sp_hom_regimes.py | 2 +-
 spreg/error_sp_regimes.py     | 2 +-
 spreg/twosls_regimes.py       | 4 ++--
 spreg/twosls_sp_regimes.py    | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/spreg/error_sp_het_regimes.py b/spreg/error_sp_het_regimes.py
index 59fcb51..5920a55 100644
--- a/spreg/error_sp_het_regimes.py
+++ b/spreg/error_sp_het_regimes.py
@@ -1720,7 +1720,7 @@ class GM_Combo_Het_Regimes(GM_Endog_Error_Het_Regimes):
         if regime_err_sep and not regime_lag_sep:
             set_warn(self, "regime_err_sep set to False when regime_lag_sep=False.")                
             regime_err_sep = False
-        n = USER.check_arrays(y, x)
+        n = USER.check_arrays(y, x, yend, q)
         self.step1c = step1c
         y, name_y = USER.check_y(y, n, name_y)
         w = USER.check_weights(w, y, w_required=True, slx_lags=slx_lags)
diff --git a/spreg/error_sp_hom_regimes.py b/spreg/error_sp_hom_regimes.py
index d987810..f3aaacc 100644
--- a/spreg/error_sp_hom_regimes.py
+++ b/spreg/error_sp_hom_regimes.py
@@ -1720,7 +1720,7 @@ class GM_Combo_Hom_Regimes(GM_Endog_Error_Hom_Regimes):
         if regime_err_sep and not regime_lag_sep:
             set_warn(self, "regime_err_sep set to False when regime_lag_sep=False.")                
             regime_err_sep = False
-        n = USER.check_arrays(y, x)
+        n = USER.check_arrays(y, x, yend, q)
         y, name_y = USER.check_y(y, n, name_y)
         w = USER.check_weights(w, y, w_required=True, slx_lags=slx_lags)
         yend, q, name_yend, name_q = USER.check_endog([yend, q], [name_yend, name_q])
diff --git a/spreg/error_sp_regimes.py b/spreg/error_sp_regimes.py
index e5c1a2f..f6aeb1f 100644
--- a/spreg/error_sp_regimes.py
+++ b/spreg/error_sp_regimes.py
@@ -1501,7 +1501,7 @@ class GM_Combo_Regimes(GM_Endog_Error_Regimes, REGI.Regimes_Frame):
         if regime_err_sep and not regime_lag_sep:
             set_warn(self, "regime_err_sep set to False when regime_lag_sep=False.")                
             regime_err_sep = False
-        n = USER.check_arrays(y, x)
+        n = USER.check_arrays(y, x, yend, q)
         y, name_y = USER.check_y(y, n, name_y)
         w = USER.check_weights(w, y, w_required=True, slx_lags=slx_lags)
         yend, q, name_yend, name_q = USER.check_endog([yend, q], [name_yend, name_q])
diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index ebbbc87..f4e9e50 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -342,7 +342,7 @@ class TSLS_Regimes(BaseTSLS, REGI.Regimes_Frame):
         latex=False,
     ):
 
-        n = USER.check_arrays(y, x)
+        n = USER.check_arrays(y, x, yend, q)
         y, name_y = USER.check_y(y, n, name_y)
         USER.check_robust(robust, gwk)
         yend, q, name_yend, name_q = USER.check_endog([yend, q], [name_yend, name_q])
@@ -1065,7 +1065,7 @@ class TSLS_Endog_Regimes(TSLS_Regimes):
         self, y, x, yend, q, w=None, n_clusters=None, quorum=-1, trace=True, name_y=None, name_x=None, name_yend=None, name_q=None, 
         constant_regi='many', cols2regi='all', regime_err_sep=True, **kwargs):
 
-        n = USER.check_arrays(y, x)
+        n = USER.check_arrays(y, x, yend, q)
         y, name_y = USER.check_y(y, n, name_y)
         yend, q, name_yend, name_q = USER.check_endog([yend, q], [name_yend, name_q])
         w = USER.check_weights(w, y, w_required=True)
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index d81d432..11273d6 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -482,7 +482,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
         hard_bound=False,
     ):
 
-        n = USER.check_arrays(y, x)
+        n = USER.check_arrays(y, x, yend, q)
         y, name_y = USER.check_y(y, n, name_y)
         yend, q, name_yend, name_q = USER.check_endog([yend, q], [name_yend, name_q])
         w = USER.check_weights(w, y, w_required=True, slx_lags=slx_lags)
-- 
2.43.0


From 48d56619221d0019b099303d29744b158ab64f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:54 +0000
Subject: [PATCH 075/105] fix: slx_vars other than a list or 'All' silently
 lagged all variables

---
 spreg/user_output.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spreg/user_output.py b/spreg/user_output.py
index 025da4d..41a41ce 100755
--- a/spreg/user_output.py
+++ b/spreg/user_output.py
@@ -985,6 +985,8 @@ def flex_wx(w,x,name_x,constant=True,slx_lags=1,slx_vars="All",panel=False,q_lag
         xnamework = name_x
     
     q_vars = []
+    if not isinstance(slx_vars, list) and str(slx_vars).lower() != "all":
+        raise Exception("slx_vars must be either 'All' or a list of booleans")
     if isinstance(slx_vars,list):
         if len(slx_vars) == len(xnamework):
             if q_lags > 0:
-- 
2.43.0


From 40c66f21e0879e812cfa089738420b4aec9d31bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:54 +0000
Subject: [PATCH 076/105] fix: Probit accepted a dependent variable with other
 values than 0 and 1

---
 spreg/probit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spreg/probit.py b/spreg/probit.py
index 90d526e..8b74edc 100755
--- a/spreg/probit.py
+++ b/spreg/probit.py
@@ -457,6 +457,8 @@ class Probit(BaseProbit):
 
         n = USER.check_arrays(y, x)
         y, name_y = USER.check_y(y, n, name_y)
+        if not np.isin(y, (0, 1)).all():
+            raise Exception("y must only have values 0 and 1")
         x_constant, name_x, warn = USER.check_constant(x, name_x)
         set_warn(self, warn)
         self.name_x = USER.set_name_x(name_x, x_constant)
-- 
2.43.0


From 971d82d841fa99374498d024efe161b095258980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:26 +0000
Subject: [PATCH 077/105] fix: wide panels accepted weights for another number
 of units and dropped columns of x that complete no variable

---
 spreg/panel_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spreg/panel_utils.py b/spreg/panel_utils.py
index 2567a32..a87c241 100755
--- a/spreg/panel_utils.py
+++ b/spreg/panel_utils.py
@@ -97,6 +97,10 @@ def check_panel(y, x, w, name_y, name_x):
             "to k2, etc."
         )
         N, T = y.shape[0], y.shape[1]
+        if N != w.n:
+            raise Exception("y must be ntx1 or nxt, and w must be an nxn PySAL W object.")
+        if x.shape[1] % T != 0:
+            raise Exception("x must have one column for each variable and period.")
         k = x.shape[1] // T
         bigy = y.reshape((y.size, 1), order="F")
         bigx = x[:, 0:T].reshape((N * T, 1), order="F")
-- 
2.43.0


From 02fe4652e5368827d54d71d090aace148cd3ed6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:46 +0000
Subject: [PATCH 078/105] fix: wide data of the KKP panel model were accepted
 with weights for another number of units

---
 spreg/sp_panels.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spreg/sp_panels.py b/spreg/sp_panels.py
index 67eb784..a45e614 100755
--- a/spreg/sp_panels.py
+++ b/spreg/sp_panels.py
@@ -518,6 +518,8 @@ def _get_panel_data(y, x, w, name_y, name_x):
     if y.shape[0] / w.n != y.shape[0] // w.n:
         raise Exception("y must be ntx1 or nxt, and w must be an nxn PySAL W object.")
     N, T = y.shape[0], y.shape[1]
+    if T > 1 and N != w.n:
+        raise Exception("y must be ntx1 or nxt, and w must be an nxn PySAL W object.")
     k = x.shape[1] // T
     if x.shape[0] != N and x.shape[0] != N * T:
         raise Exception(
-- 
2.43.0


From 14fc28e46b21e6dda7034b4c51efc0858e55d798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:46 +0000
Subject: [PATCH 079/105] fix: Probit lost the notice about constant variables
 removed from x

---
 spreg/probit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spreg/probit.py b/spreg/probit.py
index 8b74edc..a01b306 100755
--- a/spreg/probit.py
+++ b/spreg/probit.py
@@ -460,7 +460,6 @@ class Probit(BaseProbit):
         if not np.isin(y, (0, 1)).all():
             raise Exception("y must only have values 0 and 1")
         x_constant, name_x, warn = USER.check_constant(x, name_x)
-        set_warn(self, warn)
         self.name_x = USER.set_name_x(name_x, x_constant)
 
         w_required=False
@@ -517,6 +516,8 @@ class Probit(BaseProbit):
         self.output['var_type'] = ['o'] + ['x'] * (len(self.name_x)-1)
         self.output['regime'], self.output['equation'] = (0, 0)
         self.other_top, self.other_mid, other_end = _probit_out(reg=self, spat_diag=spat_diag, predflag=predflag)
+        if warn:  # reg.warning is the flag of the optimizer in this model
+            self.other_mid = "Warning: " + warn + "\n" + self.other_mid
         output(reg=self, vm=vm, robust=None, other_end=other_end, latex=latex)
 
 
-- 
2.43.0


From 450c1656c4de12f1a2d655f6db59362e90b36f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:19 +0000
Subject: [PATCH 080/105] fix: weights with missing or infinite values were
 accepted

---
 spreg/user_output.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spreg/user_output.py b/spreg/user_output.py
index 41a41ce..23c5b0f 100755
--- a/spreg/user_output.py
+++ b/spreg/user_output.py
@@ -623,6 +623,8 @@ def check_weights(w, y, w_required=False, time=False, slx_lags=0, allow_wk=False
 
         if w.n != y.shape[0] and time == False:
             raise Exception("y must have n rows, and w must be an nxn PySAL W object")
+        if not np.isfinite(w.sparse.data).all():
+            raise Exception("w has missing or infinite values.")
         diag = w.sparse.diagonal()
         # check to make sure all entries equal 0
         if diag.min() != 0 or diag.max() != 0:
-- 
2.43.0


From 348452ae0b17f815085ee8fa3f492379367eb8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:34 +0000
Subject: [PATCH 081/105] fix: separate regressions by regime failed when a
 variable is constant in a regime

---
 spreg/error_sp_het_regimes.py | 2 ++
 spreg/error_sp_hom_regimes.py | 2 ++
 spreg/error_sp_regimes.py     | 2 ++
 spreg/ml_error_regimes.py     | 1 +
 spreg/ml_lag_regimes.py       | 1 +
 spreg/twosls_sp_regimes.py    | 1 +
 6 files changed, 9 insertions(+)

diff --git a/spreg/error_sp_het_regimes.py b/spreg/error_sp_het_regimes.py
index 5920a55..0235f3e 100644
--- a/spreg/error_sp_het_regimes.py
+++ b/spreg/error_sp_het_regimes.py
@@ -475,6 +475,7 @@ class GM_Error_Het_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                 is_win = False
         """
         x_constant, name_x = REGI.check_const_regi(self, x, name_x, regi_ids)
+        cols2regi = cols2regi[x.shape[1] + 1 - x_constant.shape[1]:]
         self.name_x_r = name_x
         for r in self.regimes_set:
             if cores:
@@ -1174,6 +1175,7 @@ class GM_Endog_Error_Het_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                 is_win = False
         """
         x_constant, name_x = REGI.check_const_regi(self, x, name_x, regi_ids)
+        cols2regi = cols2regi[x.shape[1] + 1 - x_constant.shape[1]:]
         self.name_x_r = name_x + name_yend
         for r in self.regimes_set:
             if cores:
diff --git a/spreg/error_sp_hom_regimes.py b/spreg/error_sp_hom_regimes.py
index f3aaacc..f721ddb 100644
--- a/spreg/error_sp_hom_regimes.py
+++ b/spreg/error_sp_hom_regimes.py
@@ -487,6 +487,7 @@ class GM_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                 is_win = False
         """
         x_constant, name_x = REGI.check_const_regi(self, x, name_x, regi_ids)
+        cols2regi = cols2regi[x.shape[1] + 1 - x_constant.shape[1]:]
         self.name_x_r = name_x
         for r in self.regimes_set:
             if cores:
@@ -1169,6 +1170,7 @@ class GM_Endog_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                 is_win = False
         """
         x_constant, name_x = REGI.check_const_regi(self, x, name_x, regi_ids)
+        cols2regi = cols2regi[x.shape[1] + 1 - x_constant.shape[1]:]
         self.name_x_r = name_x + name_yend
         for r in self.regimes_set:
             if cores:
diff --git a/spreg/error_sp_regimes.py b/spreg/error_sp_regimes.py
index f6aeb1f..cc0198a 100644
--- a/spreg/error_sp_regimes.py
+++ b/spreg/error_sp_regimes.py
@@ -398,6 +398,7 @@ class GM_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                 is_win = False
         """
         x_constant, name_x = REGI.check_const_regi(self, x, name_x, regi_ids)
+        cols2regi = cols2regi[x.shape[1] + 1 - x_constant.shape[1]:]
         self.name_x_r = name_x
         for r in self.regimes_set:
             if cores:
@@ -997,6 +998,7 @@ class GM_Endog_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                 is_win = False
         """
         x_constant, name_x = REGI.check_const_regi(self, x, name_x, regi_ids)
+        cols2regi = cols2regi[x.shape[1] + 1 - x_constant.shape[1]:]
         self.name_x_r = name_x + name_yend
         for r in self.regimes_set:
             if cores:
diff --git a/spreg/ml_error_regimes.py b/spreg/ml_error_regimes.py
index d28a072..8b06a52 100644
--- a/spreg/ml_error_regimes.py
+++ b/spreg/ml_error_regimes.py
@@ -415,6 +415,7 @@ class ML_Error_Regimes(BaseML_Error, REGI.Regimes_Frame):
                 is_win = False
         """
         x_constant, name_x = REGI.check_const_regi(self, x, name_x, regi_ids)
+        cols2regi = cols2regi[x.shape[1] + 1 - x_constant.shape[1]:]
         self.name_x_r = name_x
         for r in self.regimes_set:
             if cores:
diff --git a/spreg/ml_lag_regimes.py b/spreg/ml_lag_regimes.py
index 8d72469..48929ec 100644
--- a/spreg/ml_lag_regimes.py
+++ b/spreg/ml_lag_regimes.py
@@ -507,6 +507,7 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
                 is_win = False
         """
         x_constant, name_x = REGI.check_const_regi(self, x, name_x, regi_ids)
+        cols2regi = cols2regi[x.shape[1] + 1 - x_constant.shape[1]:]
         name_x = name_x + [USER.set_name_yend_sp(name_y)]
         for r in self.regimes_set:
             if cores:
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index 11273d6..6a71c7c 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -719,6 +719,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
                 is_win = False
         """
         x_constant, name_x = REGI.check_const_regi(self, x, name_x, regi_ids)
+        cols2regi = cols2regi[x.shape[1] + 1 - x_constant.shape[1]:]
         self.name_x_r = name_x
         for r in self.regimes_set:
             w_r = w_i[r].sparse
-- 
2.43.0


From d6642517710b0e8c883a05f3f6e19e6818c2def8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:22 +0000
Subject: [PATCH 082/105] fix: GMM_Error with regimes dropped slx_vars and
 hard_bound, and slx_vars when falling back to the default estimator

---
 spreg/error_sp.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spreg/error_sp.py b/spreg/error_sp.py
index 18cc550..e2f2185 100644
--- a/spreg/error_sp.py
+++ b/spreg/error_sp.py
@@ -1324,6 +1324,11 @@ class GMM_Error(GM_Error, GM_Endog_Error, GM_Combo, GM_Error_Het, GM_Endog_Error
         if regimes is not None:
             from .error_sp_regimes import GMM_Error_Regimes
             self.__class__ = GMM_Error_Regimes
+            # not all the regimes estimators have these two arguments
+            if not (isinstance(slx_vars, str) and slx_vars.lower() == "all"):
+                kwargs["slx_vars"] = slx_vars
+            if hard_bound:
+                kwargs["hard_bound"] = hard_bound
             self.__init__(
                 y=y, x=x, regimes=regimes, w=w, yend=yend, q=q, estimator=estimator, add_wy=add_wy, 
                 slx_lags=slx_lags, vm=vm, name_y=name_y, name_x=name_x, name_w=name_w, name_yend=name_yend,
@@ -1373,7 +1378,7 @@ class GMM_Error(GM_Error, GM_Endog_Error, GM_Combo, GM_Error_Het, GM_Endog_Error
                                         name_w=name_w, name_ds=name_ds, latex=latex, hard_bound=hard_bound)
             else:
                 set_warn(self, 'Combination of arguments passed to GMM_Error not allowed. Using default arguments instead.')
-                GM_Error_Het.__init__(self, y=y, x=x, w=w, slx_lags=slx_lags, vm=vm, name_y=name_y, name_x=name_x, 
+                GM_Error_Het.__init__(self, y=y, x=x, w=w, slx_lags=slx_lags, slx_vars=slx_vars, vm=vm, name_y=name_y, name_x=name_x, 
                                         name_w=name_w, name_ds=name_ds, latex=latex, hard_bound=hard_bound)
 
 
-- 
2.43.0


From f2fdc5d176a8b3582d6513db0244b636e3050eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:22 +0000
Subject: [PATCH 083/105] fix: OLS, TSLS, GM_Lag, ML_Lag and ML_Error dropped
 slx_vars when regimes are given

---
 spreg/ml_error.py  | 1 +
 spreg/ml_lag.py    | 1 +
 spreg/ols.py       | 1 +
 spreg/twosls.py    | 1 +
 spreg/twosls_sp.py | 1 +
 5 files changed, 5 insertions(+)

diff --git a/spreg/ml_error.py b/spreg/ml_error.py
index 6b05186..12c0f93 100755
--- a/spreg/ml_error.py
+++ b/spreg/ml_error.py
@@ -499,6 +499,7 @@ class ML_Error(BaseML_Error):
                 regimes=regimes,
                 w=w,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 method=method,
                 epsilon=epsilon,
                 vm=vm,
diff --git a/spreg/ml_lag.py b/spreg/ml_lag.py
index 46e14d9..8f37a5f 100755
--- a/spreg/ml_lag.py
+++ b/spreg/ml_lag.py
@@ -626,6 +626,7 @@ class ML_Lag(BaseML_Lag):
                 regimes=regimes,
                 w=w,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 method=method,
                 epsilon=epsilon,
                 spat_impacts=spat_impacts,
diff --git a/spreg/ols.py b/spreg/ols.py
index 9b1da1d..a4b411f 100755
--- a/spreg/ols.py
+++ b/spreg/ols.py
@@ -474,6 +474,7 @@ class OLS(BaseOLS):
                 robust=robust,
                 gwk=gwk,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 sig2n_k=sig2n_k,
                 nonspat_diag=nonspat_diag,
                 spat_diag=spat_diag,
diff --git a/spreg/twosls.py b/spreg/twosls.py
index b39a210..6aff037 100644
--- a/spreg/twosls.py
+++ b/spreg/twosls.py
@@ -496,6 +496,7 @@ class TSLS(BaseTSLS):
                 robust=robust,
                 gwk=gwk,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 sig2n_k=sig2n_k,
                 spat_diag=spat_diag,
                 vm=vm,
diff --git a/spreg/twosls_sp.py b/spreg/twosls_sp.py
index 8efc6e6..26eb06a 100755
--- a/spreg/twosls_sp.py
+++ b/spreg/twosls_sp.py
@@ -548,6 +548,7 @@ class GM_Lag(BaseGM_Lag):
                 w=w,
                 w_lags=w_lags,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 lag_q=lag_q,
                 robust=robust,
                 gwk=gwk,
-- 
2.43.0


From 23ca6e21a8bb1ac6942c20c6f93115d5dbb249aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:22 +0000
Subject: [PATCH 084/105] fix: OLS with regimes dropped vif without a notice

---
 spreg/ols.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spreg/ols.py b/spreg/ols.py
index a4b411f..a21278e 100755
--- a/spreg/ols.py
+++ b/spreg/ols.py
@@ -466,6 +466,8 @@ class OLS(BaseOLS):
         if regimes is not None:
             from .ols_regimes import OLS_Regimes
             self.__class__ = OLS_Regimes
+            if vif:
+                set_warn(self, "Variance inflation factors are not available for models with regimes.")
             self.__init__(
                 y=y,
                 x=x,
-- 
2.43.0


From 681fb7fe23832f2aaf945196ab79f766983be42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:30 +0000
Subject: [PATCH 085/105] fix: TSLS_Regimes with separate regressions and
 spatial diagnostics lost its covariance matrix

---
 spreg/twosls_regimes.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index f4e9e50..63d8ee7 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -629,7 +629,6 @@ class TSLS_Regimes(BaseTSLS, REGI.Regimes_Frame):
             output(reg=self, vm=vm, robust=robust, other_end=diag_out, latex=latex)
 
     def _get_spat_diag_props(self, results, regi_ids, x, yend, q):
-        self._cache = {}
         x = REGI.regimeX_setup(x, self.regimes, [True] * x.shape[1], self.regimes_set)
         self.z = sphstack(
             x,
-- 
2.43.0


From b4842da1206a7818f63967b041800ce37da2c079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:31 +0000
Subject: [PATCH 086/105] fix: endogenous regimes with room for two regimes
 only no longer fit an empty partition

---
 spreg/ols_regimes.py       | 3 ++-
 spreg/twosls_regimes.py    | 3 ++-
 spreg/twosls_sp_regimes.py | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/spreg/ols_regimes.py b/spreg/ols_regimes.py
index 0c9d7c0..4d18987 100755
--- a/spreg/ols_regimes.py
+++ b/spreg/ols_regimes.py
@@ -1063,7 +1063,8 @@ class OLS_Endog_Regimes(OLS_Regimes):
                 raise ValueError(
                     "The combination of the values of `N` and `quorum` is not compatible with regimes estimation.")
             sk_reg_results = Skater_reg().fit(n_clusters_opt, w, x_std, {'reg':BaseOLS,'y':y,'x':x_constant}, quorum=quorum, trace=True)
-            n_clusters = optim_k([sk_reg_results._trace[i][1][2] for i in range(1, len(sk_reg_results._trace))])
+            # a single split leaves two regimes, the least there can be
+            n_clusters = max(2, optim_k([sk_reg_results._trace[i][1][2] for i in range(1, len(sk_reg_results._trace))]))
             self.clusters = sk_reg_results._trace[n_clusters-1][0]
             self.score = sk_reg_results._trace[n_clusters-1][1][2]
         else:
diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index 63d8ee7..7367367 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -1085,7 +1085,8 @@ class TSLS_Endog_Regimes(TSLS_Regimes):
                 raise ValueError(
                     "The combination of the values of `N` and `quorum` is not compatible with regimes estimation.")
             sk_reg_results = Skater_reg().fit(n_clusters_opt, w, x_std, {'reg':BaseTSLS,'y':y,'x':x_constant,'yend':yend,'q':q}, quorum=quorum, trace=True)
-            n_clusters = optim_k([sk_reg_results._trace[i][1][2] for i in range(1, len(sk_reg_results._trace))])
+            # a single split leaves two regimes, the least there can be
+            n_clusters = max(2, optim_k([sk_reg_results._trace[i][1][2] for i in range(1, len(sk_reg_results._trace))]))
             self.clusters = sk_reg_results._trace[n_clusters-1][0]
             self.score = sk_reg_results._trace[n_clusters-1][1][2]
         else:
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index 6a71c7c..5a7c2c4 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -1350,7 +1350,8 @@ class GM_Lag_Endog_Regimes(GM_Lag_Regimes):
                 raise ValueError(
                     "The combination of the values of `N` and `quorum` is not compatible with regimes estimation.")
             sk_reg_results = Skater_reg().fit(n_clusters_opt, w, x_std, {'reg':BaseGM_Lag,'y':y,'x':x_constant,'w':w}, quorum=quorum, trace=True)
-            n_clusters = optim_k([sk_reg_results._trace[i][1][2] for i in range(1, len(sk_reg_results._trace))])
+            # a single split leaves two regimes, the least there can be
+            n_clusters = max(2, optim_k([sk_reg_results._trace[i][1][2] for i in range(1, len(sk_reg_results._trace))]))
             self.clusters = sk_reg_results._trace[n_clusters-1][0]
             self.score = sk_reg_results._trace[n_clusters-1][1][2]
         else:
-- 
2.43.0


From 5b9d67f6f706ad2c495175b8c6ecd12affa08749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:31 +0000
Subject: [PATCH 087/105] fix: endogenous regimes accept trace=False

---
 spreg/ols_regimes.py       | 10 ++++++----
 spreg/twosls_regimes.py    | 10 ++++++----
 spreg/twosls_sp_regimes.py | 10 ++++++----
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/spreg/ols_regimes.py b/spreg/ols_regimes.py
index 4d18987..f69f711 100755
--- a/spreg/ols_regimes.py
+++ b/spreg/ols_regimes.py
@@ -1057,7 +1057,8 @@ class OLS_Endog_Regimes(OLS_Regimes):
         if quorum < 0:
             quorum = np.max([(x_constant.shape[1]+1)*10, 30])
 
-        if not n_clusters:
+        auto = not n_clusters
+        if auto:
             n_clusters_opt = x_constant.shape[0]*0.70//quorum
             if n_clusters_opt < 2:
                 raise ValueError(
@@ -1070,7 +1071,7 @@ class OLS_Endog_Regimes(OLS_Regimes):
         else:
             try:
                 # Call the Skater_reg method based on OLS
-                sk_reg_results = Skater_reg().fit(n_clusters, w, x_std, {'reg':BaseOLS,'y':y,'x':x_constant}, quorum=quorum, trace=trace)
+                sk_reg_results = Skater_reg().fit(n_clusters, w, x_std, {'reg':BaseOLS,'y':y,'x':x_constant}, quorum=quorum, trace=True)
                 self.clusters = sk_reg_results.current_labels_
                 self.score = sk_reg_results._trace[-1][1][2]
             except Exception as e:
@@ -1079,8 +1080,9 @@ class OLS_Endog_Regimes(OLS_Regimes):
                 else:
                     print("An error occurred:", e)
 
-        self._trace = sk_reg_results._trace
-        self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
+        self.SSR = [sk_reg_results._trace[i][1][2] for i in range(1, len(sk_reg_results._trace))]
+        if auto or trace:
+            self._trace = sk_reg_results._trace
         OLS_Regimes.__init__(self, y, x_constant, regimes=self.clusters, w=w, name_regimes='Skater_reg', name_y=name_y, name_x=name_x,
                                      constant_regi='many', cols2regi='all', regime_err_sep=True, **kwargs)
 
diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index 7367367..1c3d1ff 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -1079,7 +1079,8 @@ class TSLS_Endog_Regimes(TSLS_Regimes):
         if quorum < 0:
             quorum = np.max([(x_constant.shape[1]+1)*10, 30])
         
-        if not n_clusters:
+        auto = not n_clusters
+        if auto:
             n_clusters_opt = x_constant.shape[0]*0.70//quorum
             if n_clusters_opt < 2:
                 raise ValueError(
@@ -1091,7 +1092,7 @@ class TSLS_Endog_Regimes(TSLS_Regimes):
             self.score = sk_reg_results._trace[n_clusters-1][1][2]
         else:
             try:
-                sk_reg_results = Skater_reg().fit(n_clusters, w, x_std, {'reg':BaseTSLS,'y':y,'x':x_constant,'yend':yend,'q':q}, quorum=quorum, trace=trace)
+                sk_reg_results = Skater_reg().fit(n_clusters, w, x_std, {'reg':BaseTSLS,'y':y,'x':x_constant,'yend':yend,'q':q}, quorum=quorum, trace=True)
                 self.clusters = sk_reg_results.current_labels_
                 self.score = sk_reg_results._trace[-1][1][2]
             except Exception as e:
@@ -1100,8 +1101,9 @@ class TSLS_Endog_Regimes(TSLS_Regimes):
                 else:
                     print("An error occurred:", e)
 
-        self._trace = sk_reg_results._trace
-        self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
+        self.SSR = [sk_reg_results._trace[i][1][2] for i in range(1, len(sk_reg_results._trace))]
+        if auto or trace:
+            self._trace = sk_reg_results._trace
         TSLS_Regimes.__init__(self, y, x_constant, yend, q, regimes=self.clusters, w=w, name_y=name_y, name_x=name_x, name_yend=name_yend, 
                               name_q=name_q, name_regimes='Skater_reg', constant_regi='many', cols2regi='all', regime_err_sep=True, **kwargs)
 
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index 5a7c2c4..7d79f78 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -1344,7 +1344,8 @@ class GM_Lag_Endog_Regimes(GM_Lag_Regimes):
         if quorum < 0:
             quorum = np.max([(x.shape[1]+1)*10, 30])
         
-        if not n_clusters:
+        auto = not n_clusters
+        if auto:
             n_clusters_opt = x_constant.shape[0]*0.70//quorum
             if n_clusters_opt < 2:
                 raise ValueError(
@@ -1357,7 +1358,7 @@ class GM_Lag_Endog_Regimes(GM_Lag_Regimes):
         else:
             try:
                 # Call the Skater_reg method based on GM_Lag
-                sk_reg_results = Skater_reg().fit(n_clusters, w, x_std, {'reg':BaseGM_Lag,'y':y,'x':x_constant,'w':w}, quorum=quorum, trace=trace)
+                sk_reg_results = Skater_reg().fit(n_clusters, w, x_std, {'reg':BaseGM_Lag,'y':y,'x':x_constant,'w':w}, quorum=quorum, trace=True)
                 self.clusters = sk_reg_results.current_labels_
                 self.score = sk_reg_results._trace[-1][1][2]
             except Exception as e:
@@ -1366,8 +1367,9 @@ class GM_Lag_Endog_Regimes(GM_Lag_Regimes):
                 else:
                     print("An error occurred:", e)
 
-        self._trace = sk_reg_results._trace
-        self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
+        self.SSR = [sk_reg_results._trace[i][1][2] for i in range(1, len(sk_reg_results._trace))]
+        if auto or trace:
+            self._trace = sk_reg_results._trace
         GM_Lag_Regimes.__init__(self, y, x, regimes=self.clusters, w=w, name_y=name_y, name_x=name_x, name_regimes='Skater_reg',
                                 constant_regi='many', cols2regi='all', regime_err_sep=False, **kwargs)
 
-- 
2.43.0


From b3015b808157bc114a88aa87688027c274f07481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:32 +0000
Subject: [PATCH 088/105] fix: endogenous regimes raise the error of the
 clustering instead of failing on an unset name

---
 spreg/ols_regimes.py       | 2 +-
 spreg/twosls_regimes.py    | 2 +-
 spreg/twosls_sp_regimes.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/spreg/ols_regimes.py b/spreg/ols_regimes.py
index f69f711..32769dc 100755
--- a/spreg/ols_regimes.py
+++ b/spreg/ols_regimes.py
@@ -1078,7 +1078,7 @@ class OLS_Endog_Regimes(OLS_Regimes):
                 if str(e) == "one or more input arrays have more columns than rows":
                     raise ValueError("One or more input ended up with more variables than observations. Please check your setting for `quorum`.")
                 else:
-                    print("An error occurred:", e)
+                    raise
 
         self.SSR = [sk_reg_results._trace[i][1][2] for i in range(1, len(sk_reg_results._trace))]
         if auto or trace:
diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index 1c3d1ff..3337e26 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -1099,7 +1099,7 @@ class TSLS_Endog_Regimes(TSLS_Regimes):
                 if str(e) == "one or more input arrays have more columns than rows":
                     raise ValueError("One or more input ended up with more variables than observations. Please check your setting for `quorum`.")
                 else:
-                    print("An error occurred:", e)
+                    raise
 
         self.SSR = [sk_reg_results._trace[i][1][2] for i in range(1, len(sk_reg_results._trace))]
         if auto or trace:
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index 7d79f78..47a88d6 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -1365,7 +1365,7 @@ class GM_Lag_Endog_Regimes(GM_Lag_Regimes):
                 if str(e) == "one or more input arrays have more columns than rows":
                     raise ValueError("One or more input ended up with more variables than observations. Please check your setting for `quorum`.")
                 else:
-                    print("An error occurred:", e)
+                    raise
 
         self.SSR = [sk_reg_results._trace[i][1][2] for i in range(1, len(sk_reg_results._trace))]
         if auto or trace:
-- 
2.43.0


From 4971b76b7099dd1f93633ab5ddb18d9ccea5eaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:32 +0000
Subject: [PATCH 089/105] fix: GM_Lag_Endog_Regimes drops constant columns from
 the data as well as from the names

---
 spreg/twosls_sp_regimes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index 47a88d6..5b0596d 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -1342,7 +1342,7 @@ class GM_Lag_Endog_Regimes(GM_Lag_Regimes):
         x_std = (x_constant - np.mean(x_constant, axis=0)) / np.std(x_constant, axis=0)
 
         if quorum < 0:
-            quorum = np.max([(x.shape[1]+1)*10, 30])
+            quorum = np.max([(x_constant.shape[1]+1)*10, 30])
         
         auto = not n_clusters
         if auto:
@@ -1370,7 +1370,7 @@ class GM_Lag_Endog_Regimes(GM_Lag_Regimes):
         self.SSR = [sk_reg_results._trace[i][1][2] for i in range(1, len(sk_reg_results._trace))]
         if auto or trace:
             self._trace = sk_reg_results._trace
-        GM_Lag_Regimes.__init__(self, y, x, regimes=self.clusters, w=w, name_y=name_y, name_x=name_x, name_regimes='Skater_reg',
+        GM_Lag_Regimes.__init__(self, y, x_constant, regimes=self.clusters, w=w, name_y=name_y, name_x=name_x, name_regimes='Skater_reg',
                                 constant_regi='many', cols2regi='all', regime_err_sep=False, **kwargs)
 
 
-- 
2.43.0


From e6ad5d1de6370e47743c654959ac4eb0edac903f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:31 +0000
Subject: [PATCH 090/105] fix: flex_wx names the extra instruments in the order
 of their columns

---
 spreg/user_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/user_output.py b/spreg/user_output.py
index 23c5b0f..614e100 100755
--- a/spreg/user_output.py
+++ b/spreg/user_output.py
@@ -1011,7 +1011,7 @@ def flex_wx(w,x,name_x,constant=True,slx_lags=1,slx_vars="All",panel=False,q_lag
             bigq = lag_xq
             qlagname2 = []
         xlagname,qlagname = set_name_spatial_lags(xnamework,slx_lags, additional=q_lags)
-        bignameq = qlagname2 + qlagname 
+        bignameq = qlagname + qlagname2
         bigx = np.hstack((x,lagx))
         bignamex = name_x + xlagname
         return(bigx,bignamex,bigq,bignameq)
-- 
2.43.0


From df08fdcd95e519510fec7b80a0fdf4a18c346e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:31 +0000
Subject: [PATCH 091/105] fix: set_endog_sparse adds each spatial lag of the
 instruments once

---
 spreg/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index fb52957..ef345b4 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -737,15 +737,17 @@ def set_endog_sparse(y, x, w, yend, q, w_lags, lag_q):
             lag_vars = sphstack(x, q)
         else:
             lag_vars = x
-        spatial_inst = w @ lag_vars
+        spatial_inst = lag = w @ lag_vars
         for i in range(w_lags - 1):
-            spatial_inst = sphstack(spatial_inst, w @ spatial_inst)
+            lag = w @ lag
+            spatial_inst = sphstack(spatial_inst, lag)
         q = sphstack(q, spatial_inst)
         yend = sphstack(yend, yl)
     elif yend == None:  # spatial instruments only
-        q = w @ x
+        q = lag = w @ x
         for i in range(w_lags - 1):
-            q = sphstack(q, w @ q)
+            lag = w @ lag
+            q = sphstack(q, lag)
         yend = yl
     else:
         raise Exception("invalid value passed to yend")
-- 
2.43.0


From 02c5a555fb54e729da8a8355d6a4e691b72f014a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:31 +0000
Subject: [PATCH 092/105] fix: spbroadcast returns an array or a CSR matrix as
 documented

---
 spreg/sputils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spreg/sputils.py b/spreg/sputils.py
index a178f31..b39f8e4 100755
--- a/spreg/sputils.py
+++ b/spreg/sputils.py
@@ -148,9 +148,9 @@ def spbroadcast(a, b, array_out=False):
         b_mod = SP.lil_matrix((b.shape[0], b.shape[0]))
         b_mod.setdiag(b)
         ab = (a.T @ b_mod).T
+        ab = ab.tocsr()
         if array_out:
-            if type(ab).__name__ == "csr_matrix":
-                ab = ab.toarray()
+            ab = ab.toarray()
     else:
         raise Exception(
             "Invalid format for 'spbroadcast' argument: %s and %s"
-- 
2.43.0


From f20c04846eee4ca9d6ac8c5733d8697d9efbd8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:46 +0000
Subject: [PATCH 093/105] fix: i_multipliers accepts the ID as a pandas Series
 and with any index

---
 spreg/sputils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/spreg/sputils.py b/spreg/sputils.py
index b39f8e4..85bbbb6 100755
--- a/spreg/sputils.py
+++ b/spreg/sputils.py
@@ -2,7 +2,6 @@ import numpy as np
 import numpy.linalg as la
 import scipy.sparse as SP
 import pandas as pd
-import geopandas as gpd
 from scipy.sparse import linalg as SPla
 from itertools import compress
 import libpysal.weights as weights
@@ -479,11 +478,13 @@ def i_multipliers(w,coef=0.0,model='lag',id=None):
     eofNbrs = ww.sum(axis=1).reshape(-1,1)
     eonNbrs = ww.sum(axis=0).reshape(-1,1) 
 
-    if (isinstance(id,pd.core.frame.DataFrame)) or (isinstance(id,gpd.geoseries.GeoSeries)):
-        pdid = id   # already a data frame
+    if isinstance(id,pd.Series):
+        pdid = id.to_frame("ID" if id.name is None else id.name).reset_index(drop=True)
+    elif isinstance(id,pd.DataFrame):
+        pdid = id.reset_index(drop=True)   # already a data frame
     elif isinstance(id,np.ndarray):
         pdid = pd.DataFrame(id,columns=["ID"])
-    elif id == None:
+    elif id is None:
         id = np.arange(n,dtype='int32').reshape(-1,1)
         pdid = pd.DataFrame(id,columns=["ID"])
     else:
-- 
2.43.0


From 07430918ea87b0b0f05977cf6c856d84a751adcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:07 +0000
Subject: [PATCH 094/105] fix: power expansion of integer data

---
 spreg/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spreg/utils.py b/spreg/utils.py
index ef345b4..d0a4c84 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -655,6 +655,8 @@ def power_expansion(
         ws = w
     if post_multiply:
         data = data.T
+    if data.dtype.kind in "biu":  # the expansion of integers is not made of integers
+        data = data.astype(float)
     running_total = copy.copy(data)
     increment = copy.copy(data)
     count = 1
-- 
2.43.0


From d0e6fbd1124d75ea31a0188de58b2ed15dfd723f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:22 +0000
Subject: [PATCH 095/105] fix: GM_Combo models apply hard_bound to the spatial
 lag coefficient too

---
 spreg/error_sp.py             | 2 +-
 spreg/error_sp_het.py         | 2 +-
 spreg/error_sp_het_regimes.py | 4 ++--
 spreg/error_sp_hom.py         | 2 +-
 spreg/error_sp_hom_regimes.py | 4 ++--
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/spreg/error_sp.py b/spreg/error_sp.py
index e2f2185..4a001ea 100644
--- a/spreg/error_sp.py
+++ b/spreg/error_sp.py
@@ -999,7 +999,7 @@ class GM_Combo(BaseGM_Endog_Error):
 
         self.rho = self.betas[-2]
         self.predy_e, self.e_pred, warn = sp_att(
-            w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho
+            w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho, hard_bound=hard_bound
         )
         set_warn(self, warn)
         self.title = "SPATIALLY WEIGHTED 2SLS - GM-COMBO MODEL"
diff --git a/spreg/error_sp_het.py b/spreg/error_sp_het.py
index a03d423..17aa1e2 100755
--- a/spreg/error_sp_het.py
+++ b/spreg/error_sp_het.py
@@ -1456,7 +1456,7 @@ class GM_Combo_Het(BaseGM_Combo_Het):
         )
         self.rho = self.betas[-2]
         self.predy_e, self.e_pred, warn = UTILS.sp_att(
-            w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho
+            w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho, hard_bound=hard_bound
         )
         UTILS.set_warn(self, warn)
         self.title = "SPATIALLY WEIGHTED 2SLS- GM-COMBO MODEL (HET)"
diff --git a/spreg/error_sp_het_regimes.py b/spreg/error_sp_het_regimes.py
index 0235f3e..76db431 100644
--- a/spreg/error_sp_het_regimes.py
+++ b/spreg/error_sp_het_regimes.py
@@ -1805,7 +1805,7 @@ class GM_Combo_Het_Regimes(GM_Endog_Error_Het_Regimes):
         if regime_err_sep != True:
             self.rho = self.betas[-2]
             self.predy_e, self.e_pred, warn = UTILS.sp_att(
-                w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho
+                w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho, hard_bound=hard_bound
             )
             UTILS.set_warn(self, warn)
             self.regime_lag_sep = regime_lag_sep
@@ -1907,7 +1907,7 @@ def _work_endog_error(
     if add_lag != False:
         model.rho = model.betas[-2]
         model.predy_e, model.e_pred, warn = sp_att(
-            w_r, model.y, model.predy, model.yend[:, -1].reshape(model.n, 1), model.rho
+            w_r, model.y, model.predy, model.yend[:, -1].reshape(model.n, 1), model.rho, hard_bound=hard_bound
         )
         set_warn(model, warn)
         
diff --git a/spreg/error_sp_hom.py b/spreg/error_sp_hom.py
index e7210ff..c7c0d3a 100644
--- a/spreg/error_sp_hom.py
+++ b/spreg/error_sp_hom.py
@@ -1406,7 +1406,7 @@ class GM_Combo_Hom(BaseGM_Combo_Hom):
         )
         self.rho = self.betas[-2]
         self.predy_e, self.e_pred, warn = sp_att(
-            w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho
+            w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho, hard_bound=hard_bound
         )
         set_warn(self, warn)
         self.title = "SPATIALLY WEIGHTED 2SLS- GM-COMBO MODEL (HOM)"
diff --git a/spreg/error_sp_hom_regimes.py b/spreg/error_sp_hom_regimes.py
index f721ddb..6a70070 100644
--- a/spreg/error_sp_hom_regimes.py
+++ b/spreg/error_sp_hom_regimes.py
@@ -1804,7 +1804,7 @@ class GM_Combo_Hom_Regimes(GM_Endog_Error_Hom_Regimes):
         if regime_err_sep != True:
             self.rho = self.betas[-2]
             self.predy_e, self.e_pred, warn = sp_att(
-                w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho
+                w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho, hard_bound=hard_bound
             )
             set_warn(self, warn)
             self.regime_lag_sep = regime_lag_sep
@@ -1897,7 +1897,7 @@ def _work_endog_error(
     if add_lag != False:
         model.rho = model.betas[-2]
         model.predy_e, model.e_pred, warn = sp_att(
-            w_r, model.y, model.predy, model.yend[:, -1].reshape(model.n, 1), model.rho
+            w_r, model.y, model.predy, model.yend[:, -1].reshape(model.n, 1), model.rho, hard_bound=hard_bound
         )
         set_warn(model, warn)
     if slx_lags == 0:
-- 
2.43.0


From ba76a5c7fb402443ad614f61bcd522f220a75522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:29 +0000
Subject: [PATCH 096/105] fix: GM_Error_Regimes, GM_Endog_Error_Regimes and
 GM_Combo_Regimes accept hard_bound as documented

---
 spreg/error_sp_regimes.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/spreg/error_sp_regimes.py b/spreg/error_sp_regimes.py
index cc0198a..20c0d9b 100644
--- a/spreg/error_sp_regimes.py
+++ b/spreg/error_sp_regimes.py
@@ -295,6 +295,7 @@ class GM_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
         name_ds=None,
         name_regimes=None,
         latex=False,
+        hard_bound=False,
     ):
 
         n = USER.check_arrays(y, x)
@@ -330,7 +331,7 @@ class GM_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
         if regime_err_sep == True:
             if set(cols2regi) == set([True]):
                 self._error_regimes_multi(
-                    y, x_constant, regimes, w, slx_lags, cores, cols2regi, vm, name_x, latex
+                    y, x_constant, regimes, w, slx_lags, cores, cols2regi, vm, name_x, latex, hard_bound
                 )
             else:
                 raise Exception(
@@ -352,7 +353,7 @@ class GM_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             ols = BaseOLS(y=y, x=self.x)
             self.k = ols.x.shape[1]
             moments = _momentsGM_Error(w, ols.u)
-            lambda1 = optim_moments(moments)
+            lambda1 = optim_moments(moments, hard_bound=hard_bound)
             xs = get_spFilter(w, lambda1, x_constant1)
             ys = get_spFilter(w, lambda1, y)
             xs = REGI.Regimes_Frame.__init__(
@@ -382,7 +383,7 @@ class GM_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             self.output['equation'] = 0
             output(reg=self, vm=vm, robust=False, other_end=False, latex=latex)
 
-    def _error_regimes_multi(self, y, x, regimes, w, slx_lags, cores, cols2regi, vm, name_x, latex):
+    def _error_regimes_multi(self, y, x, regimes, w, slx_lags, cores, cols2regi, vm, name_x, latex, hard_bound):
         regi_ids = dict(
             (r, list(np.where(np.array(regimes) == r)[0])) for r in self.regimes_set
         )
@@ -416,6 +417,7 @@ class GM_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                         name_x + ["lambda"],
                         self.name_w,
                         self.name_regimes,
+                        hard_bound,
                         #slx_lags,
                     ),
                 )
@@ -432,6 +434,7 @@ class GM_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                         name_x + ["lambda"],
                         self.name_w,
                         self.name_regimes,
+                        hard_bound,
                         #slx_lags,
                     )
                 )
@@ -819,6 +822,7 @@ class GM_Endog_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
         summ=True,
         add_lag=False,
         latex=False,
+        hard_bound=False,
     ):
 
         n = USER.check_arrays(y, x, yend, q)
@@ -876,6 +880,7 @@ class GM_Endog_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                     name_q,
                     add_lag,
                     latex,
+                    hard_bound,
                 )
             else:
                 raise Exception(
@@ -913,7 +918,7 @@ class GM_Endog_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             self.x = tsls.x
             self.yend, self.z = tsls.yend, tsls.z
             moments = _momentsGM_Error(w, tsls.u)
-            lambda1 = optim_moments(moments)
+            lambda1 = optim_moments(moments, hard_bound=hard_bound)
             xs = get_spFilter(w, lambda1, x_constant1)
             xs = REGI.Regimes_Frame.__init__(
                 self, xs, regimes, constant_regi=None, cols2regi=cols2regi
@@ -976,6 +981,7 @@ class GM_Endog_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
         name_q,
         add_lag,
         latex,
+        hard_bound,
     ):
 
         regi_ids = dict(
@@ -1022,6 +1028,7 @@ class GM_Endog_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                         self.name_regimes,
                         add_lag,
                         slx_lags,
+                        hard_bound,
                     ),
                 )
             else:
@@ -1043,6 +1050,7 @@ class GM_Endog_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                         self.name_regimes,
                         add_lag,
                         slx_lags,
+                        hard_bound,
                     )
                 )
 
@@ -1496,6 +1504,7 @@ class GM_Combo_Regimes(GM_Endog_Error_Regimes, REGI.Regimes_Frame):
         name_ds=None,
         name_regimes=None,
         latex=False,
+        hard_bound=False,
     ):
         if regime_lag_sep and not regime_err_sep:
             set_warn(self, "regime_err_sep set to True when regime_lag_sep=True.")                
@@ -1576,12 +1585,13 @@ class GM_Combo_Regimes(GM_Endog_Error_Regimes, REGI.Regimes_Frame):
             summ=False,
             add_lag=add_lag,
             latex=latex,
+            hard_bound=hard_bound,
         )
 
         if regime_err_sep != True:
             self.rho = self.betas[-2]
             self.predy_e, self.e_pred, warn = sp_att(
-                w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho
+                w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho, hard_bound=hard_bound
             )
             set_warn(self, warn)
             if slx_lags == 0:
@@ -1972,11 +1982,11 @@ class GMM_Error_Regimes(GM_Error_Regimes, GM_Combo_Regimes, GM_Endog_Error_Regim
                                             constant_regi=constant_regi, cols2regi=cols2regi, regime_err_sep=regime_err_sep,
                                             name_w=name_w, name_regimes=name_regimes, name_ds=name_ds, latex=latex)
 
-def _work_error(y, x, regi_ids, r, w, name_ds, name_y, name_x, name_w, name_regimes):
+def _work_error(y, x, regi_ids, r, w, name_ds, name_y, name_x, name_w, name_regimes, hard_bound):
     w_r, warn = REGI.w_regime(w, regi_ids[r], r, transform=True)
     y_r = y[regi_ids[r]]
     x_r = x[regi_ids[r]]
-    model = BaseGM_Error(y_r, x_r, w_r.sparse)
+    model = BaseGM_Error(y_r, x_r, w_r.sparse, hard_bound=hard_bound)
     set_warn(model, warn)
     model.w = w_r
     model.title = "GM SPATIALLY WEIGHTED LEAST SQUARES ESTIMATION - REGIME %s" % r
@@ -2005,6 +2015,7 @@ def _work_endog_error(
     name_regimes,
     add_lag,
     slx_lags,
+    hard_bound,
 ):
     w_r, warn = REGI.w_regime(w, regi_ids[r], r, transform=True)
     y_r = y[regi_ids[r]]
@@ -2018,13 +2029,13 @@ def _work_endog_error(
         yend_r, q_r = set_endog(
             y_r, x_r[:, 1:], w_r, yend_r, q_r, add_lag[0], add_lag[1]
         )
-    model = BaseGM_Endog_Error(y_r, x_r, yend_r, q_r, w_r.sparse)
+    model = BaseGM_Endog_Error(y_r, x_r, yend_r, q_r, w_r.sparse, hard_bound=hard_bound)
     set_warn(model, warn)
     if add_lag != False:
         model.rho = model.betas[-2]
         model.predy_e, model.e_pred, warn = sp_att(
             w_r, model.y, model.predy, model.yend[:, -
-                                                  1].reshape(model.n, 1), model.rho
+                                                  1].reshape(model.n, 1), model.rho, hard_bound=hard_bound
         )
         set_warn(model, warn)
     model.w = w_r
-- 
2.43.0


From 1df700ba9fe8af2ffe8889c1403aa1d5b74b4c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:09 +0000
Subject: [PATCH 097/105] fix: instruments of spatial Durbin models with
 endogenous variables start at the first lag not used as a regressor

---
 spreg/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index d0a4c84..17ab05a 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -691,7 +691,8 @@ def set_endog(y, x, w, yend, q, w_lags, lag_q, slx_lags=0, slx_vars="all"):
     # spatial and non-spatial instruments
     if issubclass(type(yend), np.ndarray):
         if slx_lags > 0:
-            lag_x, lag_xq = get_lags_split(w, x, slx_lags+1, slx_lags)
+            lag_x = get_lags(w, x, slx_lags)
+            lag_xq = lag_x[:, -x.shape[1]:]  # lagged once more below
         else:
             lag_xq = x
         if lag_q:
-- 
2.43.0


From 8975bdb675035cc925ee5681396bfcf19f489b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:41 +0000
Subject: [PATCH 098/105] fix: names of the instruments of spatial Durbin
 models follow their columns

---
 spreg/error_sp.py             | 20 ++++----------------
 spreg/error_sp_het.py         | 20 ++++----------------
 spreg/error_sp_het_regimes.py |  2 +-
 spreg/error_sp_hom.py         | 21 ++-------------------
 spreg/error_sp_hom_regimes.py |  2 +-
 spreg/error_sp_regimes.py     |  2 +-
 spreg/twosls_sp.py            | 20 ++++----------------
 spreg/twosls_sp_regimes.py    |  4 +---
 spreg/user_output.py          | 31 +++++++++++++++++++++++++++++++
 9 files changed, 49 insertions(+), 73 deletions(-)

diff --git a/spreg/error_sp.py b/spreg/error_sp.py
index 4a001ea..66258f6 100644
--- a/spreg/error_sp.py
+++ b/spreg/error_sp.py
@@ -1038,22 +1038,10 @@ class GM_Combo(BaseGM_Endog_Error):
         self.name_z.append("lambda")
         self.name_q = USER.set_name_q(name_q, q)
 
-        if slx_lags > 0:  # need to remove all but last SLX variables from name_x
-            self.name_x0 = []
-            self.name_x0.append(self.name_x[0])  # constant
-            if (isinstance(slx_vars,list)):   # boolean list passed
-                # x variables that were not lagged
-                self.name_x0.extend(list(compress(self.name_x[1:],[not i for i in slx_vars])))
-                # last wkx variables
-                self.name_x0.extend(self.name_x[-wkx:])
-
-
-            else:
-                okx = int((self.k - self.yend.shape[1] - 1) / (slx_lags + 1))  # number of original exogenous vars
-
-                self.name_x0.extend(self.name_x[-okx:])
-
-            self.name_q.extend(USER.set_name_q_sp(self.name_x0, w_lags, self.name_q, lag_q))
+        if slx_lags > 0:
+            self.name_q.extend(
+                USER.set_name_q_slx(self.name_x[1 : kx + 1], slx_lags, w_lags, self.name_q, lag_q)
+            )
 
             #var_types = ['x'] * (kx + 1) + ['wx'] * kx * slx_lags + ['yend'] * (len(self.name_yend) - 1) + ['rho']
             var_types = ['o']+['x']*kx + ['wx'] * wkx * slx_lags + ['yend'] * (len(self.name_yend) - 1) + ['rho','lambda']
diff --git a/spreg/error_sp_het.py b/spreg/error_sp_het.py
index 17aa1e2..ee04373 100755
--- a/spreg/error_sp_het.py
+++ b/spreg/error_sp_het.py
@@ -1493,22 +1493,10 @@ class GM_Combo_Het(BaseGM_Combo_Het):
         self.name_z.append("lambda")  # listing lambda last
         self.name_q = USER.set_name_q(name_q, q)
 
-        if slx_lags > 0:  # need to remove all but last SLX variables from name_x
-            self.name_x0 = []
-            self.name_x0.append(self.name_x[0])  # constant
-            if (isinstance(slx_vars,list)):   # boolean list passed
-                # x variables that were not lagged
-                self.name_x0.extend(list(compress(self.name_x[1:],[not i for i in slx_vars])))
-                # last wkx variables
-                self.name_x0.extend(self.name_x[-wkx:])
-
-
-            else:
-                okx = int((self.k - self.yend.shape[1] - 1) / (slx_lags + 1))  # number of original exogenous vars
-
-                self.name_x0.extend(self.name_x[-okx:])
-
-            self.name_q.extend(USER.set_name_q_sp(self.name_x0, w_lags, self.name_q, lag_q))
+        if slx_lags > 0:
+            self.name_q.extend(
+                USER.set_name_q_slx(self.name_x[1 : kx + 1], slx_lags, w_lags, self.name_q, lag_q)
+            )
 
             #var_types = ['x'] * (kx + 1) + ['wx'] * kx * slx_lags + ['yend'] * (len(self.name_yend) - 1) + ['rho']
             var_types = ['o'] + ['x'] * kx + ['wx'] * wkx * slx_lags + ['yend'] * (len(self.name_yend) - 1) + ['rho','lambda']
diff --git a/spreg/error_sp_het_regimes.py b/spreg/error_sp_het_regimes.py
index 76db431..8908e87 100644
--- a/spreg/error_sp_het_regimes.py
+++ b/spreg/error_sp_het_regimes.py
@@ -1744,7 +1744,7 @@ class GM_Combo_Het_Regimes(GM_Endog_Error_Het_Regimes):
             yend2, q2, wx = set_endog(y, x_constant, w, yend, q, w_lags, lag_q, slx_lags)
             x_constant = np.hstack((x_constant, wx))
             name_slx = USER.set_name_spatial_lags(name_x, slx_lags)
-            name_q.extend(USER.set_name_q_sp(name_slx[-len(name_x):], w_lags, name_q, lag_q, force_all=True))
+            name_q.extend(USER.set_name_q_slx(name_x, slx_lags, w_lags, name_q, lag_q))
             name_x += name_slx   
             cols2regi = REGI.check_cols2regi(constant_regi, cols2regi, x_constant[:, :-1], yend=yend2, add_cons=False)
         else:
diff --git a/spreg/error_sp_hom.py b/spreg/error_sp_hom.py
index c7c0d3a..cc962f6 100644
--- a/spreg/error_sp_hom.py
+++ b/spreg/error_sp_hom.py
@@ -1445,26 +1445,9 @@ class GM_Combo_Hom(BaseGM_Combo_Hom):
         self.name_z.append("lambda")  # listing lambda last
         self.name_q = USER.set_name_q(name_q, q)
 
-        if slx_lags > 0:  # need to remove all but last SLX variables from name_x
-            self.name_x0 = []
-            self.name_x0.append(self.name_x[0])  # constant
-            if isinstance(slx_vars, list):  # boolean list passed
-                # x variables that were not lagged
-                self.name_x0.extend(
-                    list(compress(self.name_x[1:], [not i for i in slx_vars]))
-                )
-                # last wkx variables
-                self.name_x0.extend(self.name_x[-wkx:])
-
-            else:
-                okx = int(
-                    (self.k - self.yend.shape[1] - 1) / (slx_lags + 1)
-                )  # number of original exogenous vars
-
-                self.name_x0.extend(self.name_x[-okx:])
-
+        if slx_lags > 0:
             self.name_q.extend(
-                USER.set_name_q_sp(self.name_x0, w_lags, self.name_q, lag_q)
+                USER.set_name_q_slx(self.name_x[1 : kx + 1], slx_lags, w_lags, self.name_q, lag_q)
             )
 
             # var_types = ['x'] * (kx + 1) + ['wx'] * kx * slx_lags + ['yend'] * (len(self.name_yend) - 1) + ['rho']
diff --git a/spreg/error_sp_hom_regimes.py b/spreg/error_sp_hom_regimes.py
index 6a70070..5743576 100644
--- a/spreg/error_sp_hom_regimes.py
+++ b/spreg/error_sp_hom_regimes.py
@@ -1743,7 +1743,7 @@ class GM_Combo_Hom_Regimes(GM_Endog_Error_Hom_Regimes):
             yend2, q2, wx = set_endog(y, x_constant, w, yend, q, w_lags, lag_q, slx_lags)
             x_constant = np.hstack((x_constant, wx))
             name_slx = USER.set_name_spatial_lags(name_x, slx_lags)
-            name_q.extend(USER.set_name_q_sp(name_slx[-len(name_x):], w_lags, name_q, lag_q, force_all=True))
+            name_q.extend(USER.set_name_q_slx(name_x, slx_lags, w_lags, name_q, lag_q))
             name_x += name_slx   
             cols2regi = REGI.check_cols2regi(constant_regi, cols2regi, x_constant[:, :-1], yend=yend2, add_cons=False)
         else:
diff --git a/spreg/error_sp_regimes.py b/spreg/error_sp_regimes.py
index 20c0d9b..e93bd0d 100644
--- a/spreg/error_sp_regimes.py
+++ b/spreg/error_sp_regimes.py
@@ -1533,7 +1533,7 @@ class GM_Combo_Regimes(GM_Endog_Error_Regimes, REGI.Regimes_Frame):
             yend2, q2, wx = set_endog(y, x_constant, w, yend, q, w_lags, lag_q, slx_lags)
             x_constant = np.hstack((x_constant, wx))
             name_slx = USER.set_name_spatial_lags(name_x, slx_lags)
-            name_q.extend(USER.set_name_q_sp(name_slx[-len(name_x):], w_lags, name_q, lag_q, force_all=True))
+            name_q.extend(USER.set_name_q_slx(name_x, slx_lags, w_lags, name_q, lag_q))
             name_x += name_slx   
             cols2regi = REGI.check_cols2regi(constant_regi, cols2regi, x_constant[:, :-1], yend=yend2, add_cons=False)
         else:
diff --git a/spreg/twosls_sp.py b/spreg/twosls_sp.py
index 26eb06a..f0c1772 100755
--- a/spreg/twosls_sp.py
+++ b/spreg/twosls_sp.py
@@ -629,22 +629,10 @@ class GM_Lag(BaseGM_Lag):
             self.name_z = self.name_x + self.name_yend
             self.name_q = USER.set_name_q(name_q, q)
 
-            if slx_lags > 0:  # need to remove all but last SLX variables from name_x
-                self.name_x0 = []
-                self.name_x0.append(self.name_x[0])  # constant
-                if (isinstance(slx_vars,list)):   # boolean list passed
-                    # x variables that were not lagged
-                    self.name_x0.extend(list(compress(self.name_x[1:],[not i for i in slx_vars])))
-                    # last wkx variables
-                    self.name_x0.extend(self.name_x[-wkx:])
-
-
-                else:
-                    okx = int((self.k - self.kstar - 1) / (slx_lags + 1))  # number of original exogenous vars
-
-                    self.name_x0.extend(self.name_x[-okx:])
-
-                self.name_q.extend(USER.set_name_q_sp(self.name_x0, w_lags, self.name_q, lag_q))
+            if slx_lags > 0:
+                self.name_q.extend(
+                    USER.set_name_q_slx(self.name_x[1 : kx + 1], slx_lags, w_lags, self.name_q, lag_q)
+                )
 
                 #var_types = ['x'] * (kx + 1) + ['wx'] * kx * slx_lags + ['yend'] * (len(self.name_yend) - 1) + ['rho']
                 var_types = ['o'] + ['x']*kx + ['wx'] * wkx * slx_lags + ['yend'] * (len(self.name_yend) - 1) + ['rho']
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index 5b0596d..12e2541 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -517,9 +517,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             set_warn(self,"WX is computed using the complete W, i.e. not trimmed by regimes.")
             x_constant = np.hstack((x_constant, wx))
             name_slx = USER.set_name_spatial_lags(name_x, slx_lags, slx_vars=slx_vars)
-            iter_slx = iter(name_slx) 
-            name_q_temp = [next(iter_slx) if keep else name for name, keep in zip(name_x, slx_vars)]
-            name_q.extend(USER.set_name_q_sp(name_q_temp, w_lags, name_q, lag_q, force_all=True))
+            name_q.extend(USER.set_name_q_slx(name_x, slx_lags, w_lags, name_q, lag_q))
             name_x += name_slx
             cols2regi = REGI.check_cols2regi(
                 constant_regi, cols2regi, x_constant, yend=yend, add_cons=False)
diff --git a/spreg/user_output.py b/spreg/user_output.py
index 614e100..4b7ae57 100755
--- a/spreg/user_output.py
+++ b/spreg/user_output.py
@@ -242,6 +242,37 @@ def set_name_q_sp(name_x, w_lags, name_q, lag_q, force_all=False):
     return sp_inst_names
 
 
+def set_name_q_slx(name_x, slx_lags, w_lags, name_q, lag_q):
+    """Set the spatial instrument names of a spatial Durbin model, whose
+    instruments are the lags of all exogenous variables beyond slx_lags.
+
+    Parameters
+    ----------
+    name_x      : list of strings
+                  Names of the exogenous variables, without the constant.
+    slx_lags    : int
+                  Number of spatial lags of X in the model
+    w_lags      : int
+                  User provided number of spatial instruments lags
+    name_q      : list of strings
+                  User provided instrument variable names.
+    lag_q       : boolean
+                  If True, the instruments are lagged too
+
+    Returns
+    -------
+    name_q_sp   : list of strings
+
+    """
+    x_lags = set_name_spatial_lags(name_x, slx_lags + w_lags)[slx_lags * len(name_x):]
+    q_lags = set_name_spatial_lags(name_q, w_lags) if lag_q else []
+    kx, kq = len(name_x), len(q_lags) // w_lags
+    names = []
+    for i in range(w_lags):
+        names += x_lags[i * kx:(i + 1) * kx] + q_lags[i * kq:(i + 1) * kq]
+    return names
+
+
 def set_name_h(name_x, name_q):
     """Set the full instruments names in regression; return generic name if user
     provides no explicit name."
-- 
2.43.0


From f365360736ebc62aa28738f876453183acdb6729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:17 +0000
Subject: [PATCH 099/105] fix: regimes.Wald accepts the array q its
 documentation asks for

---
 spreg/regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/regimes.py b/spreg/regimes.py
index 9684ba6..403f6b3 100755
--- a/spreg/regimes.py
+++ b/spreg/regimes.py
@@ -143,7 +143,7 @@ class Wald:
     """
 
     def __init__(self, reg, r, q=None):
-        if not q:
+        if q is None:
             q = np.zeros((r.shape[0], 1))
         self.w, self.pvalue = wald_test(reg.betas, r, q, reg.vm)
 
-- 
2.43.0


From d51f5db2269b3559645f8f8aa833958a78e74d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:17 +0000
Subject: [PATCH 100/105] fix: diagnostics_probit keeps the line endings it had

---
 spreg/diagnostics_probit.py | 688 ++++++++++++++++++------------------
 1 file changed, 344 insertions(+), 344 deletions(-)

diff --git a/spreg/diagnostics_probit.py b/spreg/diagnostics_probit.py
index e9d7bef..6666445 100644
--- a/spreg/diagnostics_probit.py
+++ b/spreg/diagnostics_probit.py
@@ -1,344 +1,344 @@
-"""
-Diagnostics in probit regression. 
-        
-"""
-__author__ = (
-    "Luc Anselin lanselin@gmail.com, Pedro Amaral pedrovma@gmail.com "
-)
-
-from math import sqrt, pi
-
-from libpysal.common import MISSINGVALUE
-import numpy as np
-import numpy.linalg as la
-import scipy.sparse as SP
-from scipy import stats
-from scipy.stats import norm
-
-__all__ = [
-    "pred_table",
-    "probit_fit",
-    "probit_lrtest",
-    "mcfad_rho",
-    "probit_ape",
-    "sp_tests",
-    "moran_KP",
-]
-
-
-def pred_table(reg):
-    """
-    Calculates a table comparing predicted to actual outcomes for a 
-    discrete choice model
-
-    Parameters
-    ----------
-    reg             : regression object
-                      output instance from a probit regression model
-
-    Returns
-    ----------
-    predtab_vals    : dictionary
-                      includes margins and cells of actual and predicted
-                      values for discrete choice model
-                      actpos   : observed positives (=1)
-                      actneg   : observed negatives (=0)
-                      predpos  : predicted positives 
-                      predneg  : predicted negatives
-                      truepos  : predicted 1 when actual = 1
-                      falsepos : predicted 1 when actual = 0
-                      trueneg  : predicted 0 when actual = 0
-                      falseneg : predicted 0 when actual = 1
-
-    """
-    predtab_vals = {}
-    pos = reg.y.sum()
-    predtab_vals["actpos"] = int(pos)
-    neg = reg.n - pos
-    predtab_vals["actneg"] = int(neg)
-    act1 = (reg.y == 1) * 1
-    act0 = (reg.y == 0) * 1
-    ppos = reg.predybin.sum()
-    predtab_vals["predpos"] = ppos
-    pneg = reg.n - ppos
-    predtab_vals["predneg"] = pneg
-    pred1 = (reg.predybin == 1) * 1
-    pred0 = (reg.predybin == 0) * 1
-    truep = (pred1 * act1) * 1
-    predtab_vals["truepos"] = truep.sum()
-    truen = (pred0 * act0) * 1
-    predtab_vals["trueneg"] = truen.sum()
-    fpos = (pred1 * act0) * 1
-    predtab_vals["falsepos"] = fpos.sum()
-    fneg = (pred0 * act1) * 1
-    predtab_vals["falseneg"] = fneg.sum()
-
-    return predtab_vals
-
-
-def probit_fit(reg):
-    """
-    Various measures of fit for discrete choice models, derived from the
-    prediction table (pred_table)
-    
-    Parameters
-    ----------
-    reg             : regression object
-                      output instance from a probit regression model
-                      must contain predtable attribute
-
-    Returns
-    ----------
-    prob_fit    : a dictionary containing various measures of fit
-                  TPR    : true positive rate (sensitivity, recall, hit rate)
-                  TNR    : true negative rate (specificity, selectivity)
-                  PREDPC : accuracy, percent correctly predicted
-                  BA     : balanced accuracy
-    
-    """
-
-    prob_fit = {}
-    prob_fit["TPR"] = 100.0 * reg.predtable["truepos"] / reg.predtable["actpos"]
-    prob_fit["TNR"] = 100.0 * reg.predtable["trueneg"] / reg.predtable["actneg"]
-    prob_fit["BA"] = (prob_fit["TPR"] + prob_fit["TNR"])/2.0
-    prob_fit["PREDPC"] = 100.0 * (reg.predtable["truepos"] + reg.predtable["trueneg"]) / reg.n
-
-    return prob_fit
-
-def probit_lrtest(regprob):
-    """
-    Likelihood ratio test statistic for probit model
-
-    Parameters
-    ----------
-    regprob      : probit regression object
-
-    Returns
-    -------
-
-    likratio     : dictionary
-                   contains the statistic for the null model (L0), the LR test(likr), 
-                   the degrees of freedom (df) and the p-value (pvalue)
-    L0           : float
-                   log likelihood of null model
-    likr         : float
-                   likelihood ratio statistic
-    df           : integer
-                   degrees of freedom
-    p-value      : float
-                   p-value
-    """
-
-    likratio = {}
-    P = np.mean(regprob.y)
-    L0 = regprob.n * (P * np.log(P) + (1 - P) * np.log(1 - P))
-    likratio["L0"] = L0
-    LR = -2.0 * (L0 - regprob.logl)
-    likratio["likr"] = LR
-    df = regprob.k - 1  # the null model has a constant
-    likratio["df"] = df
-    pval = stats.chisqprob(LR, df)
-    likratio["p-value"] = pval
-
-    return likratio
-
-def mcfad_rho(regprob):
-    """
-    McFadden's rho measure of fit
-
-    Parameters
-    ---------
-    regprob    : probit regression object
-
-    Returns
-    -------
-    rho        : McFadden's rho (1 - L/L0)
-    
-    """
-
-    rho = 1.0 - (regprob.logl / regprob.L0)
-    return rho
-
-def probit_ape(regprob):
-    """
-    Average partial effects
-
-    Parameters
-    ----------
-    regprob   : probit regression object
-
-    Returns
-    -------
-    tuple with:
-        scale          : the scale of the marginal effects, determined by regprob.scalem
-                         Default: 'phimean' (Mean of individual marginal effects)
-                         Alternative: 'xmean' (Marginal effects at variables mean)
-        slopes         : marginal effects or average partial effects (not for constant)
-        slopes_vm      : estimates of variance of marginal effects (not for constant)
-        slopes_std_err : estimates of standard errors of marginal effects
-        slopes_z_stat  : tuple with z-statistics and p-values for marginal effects
-    
-    """
-        
-
-    if regprob.scalem == "xmean":
-        xmb = regprob.xmean.T @ regprob.betas
-        scale = stats.norm.pdf(xmb)
-            
-    elif regprob.scalem == "phimean":
-        scale = np.mean(regprob.phiy,axis=0)
-
-    # average partial effects (no constant)
-    slopes = (regprob.betas[1:,0] * scale).reshape(-1,1)
-
-    # variance of partial effects
-    xmb = regprob.xmean.T @ regprob.betas
-    bxt = regprob.betas @ regprob.xmean.T
-    dfdb = np.eye(regprob.k) - xmb * bxt
-    slopes_vm = (scale ** 2) * ((dfdb @ regprob.vm) @ dfdb.T)
-
-    # standard errors
-    slopes_std_err = np.sqrt(slopes_vm[1:,1:].diagonal()).reshape(-1,1)
-
-    # z-stats and p-values
-    sl_zStat = slopes / slopes_std_err
-    slopes_z_stat = [(sl_zStat[i,0],stats.norm.sf(abs(sl_zStat[i,0])) * 2) for i in range(len(slopes))]
-
-
-    return (scale, slopes,slopes_vm[1:,1:],slopes_std_err,slopes_z_stat)
-
-
-def sp_tests(regprob=None, obj_list=None):
-    """
-    Calculates tests for spatial dependence in Probit models
-
-    Parameters
-    ----------
-    regprob     : regression object from spreg
-                  output instance from a probit model
-    obj_list    : list
-                  list of regression elements from both libpysal and statsmodels' ProbitResults
-                  The list should be such as:
-                  [libpysal.weights, ProbitResults.fittedvalues, ProbitResults.resid_response, ProbitResults.resid_generalized]               
-    
-    Returns
-    -------
-    tuple with LM_Err, moran, ps as 2x1 arrays with statistic and p-value
-               LM_Err: Pinkse
-               moran : Kelejian-Prucha generalized Moran
-               ps    : Pinkse-Slade
-
-    Examples
-    --------
-    The results of this function will be automatically added to the output of the probit model if using spreg.
-    If using the Probit estimator from statsmodels, the user can call the function with the obj_list argument.
-    The argument obj_list should be a list with the following elements, in this order:
-    [libpysal.weights, ProbitResults.fittedvalues, ProbitResults.resid_response, ProbitResults.resid_generalized]
-    The function will then return and print the results of the spatial diagnostics.
-
-    >>> import libpysal
-    >>> import statsmodels.api as sm
-    >>> import geopandas as gpd
-    >>> from spreg.diagnostics_probit import sp_tests
-
-    >>> columb = libpysal.examples.load_example('Columbus')
-    >>> dfs = gpd.read_file(columb.get_path("columbus.shp"))
-    >>> w = libpysal.weights.Queen.from_dataframe(dfs)
-    >>> w.transform='r'
-
-    >>> y = (dfs["CRIME"] > 40).astype(float)
-    >>> X = dfs[["INC","HOVAL"]]
-    >>> X = sm.add_constant(X)
-
-    >>> probit_mod = sm.Probit(y, X)
-    >>> probit_res = probit_mod.fit(disp=False)
-    >>> LM_err, moran, ps = sp_tests(obj_list=[w, probit_res.fittedvalues, probit_res.resid_response, probit_res.resid_generalized])
-    PROBIT MODEL DIAGNOSTICS FOR SPATIAL DEPENDENCE
-    TEST                              DF         VALUE           PROB
-    Kelejian-Prucha (error)           1          1.721           0.0852
-    Pinkse (error)                    1          3.132           0.0768
-    Pinkse-Slade (error)              1          2.558           0.1097
-
-    """
-    if regprob:
-        w, Phi, phi, u_naive, u_gen, n = regprob.w, regprob.predy, regprob.phiy, regprob.u_naive, regprob.u_gen, regprob.n
-    elif obj_list:
-        w, fittedvalues, u_naive, u_gen = obj_list
-        Phi = norm.cdf(fittedvalues)
-        phi = norm.pdf(fittedvalues)
-        n = w.n
-
-    try:
-        w = w.sparse
-    except:
-        w = w
-        
-    # Pinkse_error:
-    Phi_prod = Phi * (1 - Phi)
-    sig2 = np.sum((phi * phi) / Phi_prod) / n
-    LM_err_num = np.dot(u_gen.T, (w @ u_gen)) ** 2
-    trWW = np.sum((w @ w).diagonal())
-    trWWWWp = trWW + np.sum((w @ w.T).diagonal())
-    LM_err = (1.0 * LM_err_num / (sig2 ** 2 * trWWWWp)).item()
-    LM_err = np.array([LM_err, stats.chisqprob(LM_err, 1)])
-    # KP_error:
-    moran = moran_KP(w, u_naive, Phi_prod)
-    # Pinkse-Slade_error:
-    u_std = u_naive / np.sqrt(Phi_prod)
-    ps_num = np.dot(u_std.T, (w @ u_std)) ** 2
-    trWpW = np.sum((w.T @ w).diagonal())
-    ps = (ps_num / (trWW + trWpW)).item()
-    # chi-square instead of bootstrap.
-    ps = np.array([ps, stats.chisqprob(ps, 1)])
-
-    if obj_list:
-        from .output import _probit_out
-        reg_simile = type('reg_simile', (object,), {})()
-        reg_simile.Pinkse_error = LM_err
-        reg_simile.KP_error = moran
-        reg_simile.PS_error = ps
-        print("PROBIT MODEL "+_probit_out(reg_simile, spat_diag=True, sptests_only=True)[1:])
-
-    return LM_err, moran, ps
-
-def moran_KP(w, u, sig2i):
-    """
-    Calculates Kelejian-Prucha Moran-flavoured tests
-
-    Parameters
-    ----------
-
-    w           : W
-                  PySAL weights instance aligned with y
-    u           : array
-                  nx1 array of naive residuals
-    sig2i       : array
-                  nx1 array of individual variance
-
-    Returns
-    -------
-    moran       : array, Kelejian-Prucha Moran's I with p-value   
-    """
-    try:
-        w = w.sparse
-    except:
-        pass
-    moran_num = np.dot(u.T, (w @ u))
-    E = SP.lil_matrix(w.shape)
-    E.setdiag(sig2i.flat)
-    E = E.asformat("csr")
-    WE = w @ E
-    moran_den = np.sqrt(np.sum((WE @ WE + (w.T @ E) @ WE).diagonal()))
-    moran = (1.0 * moran_num / moran_den).item()
-    moran = np.array([moran, stats.norm.sf(abs(moran)) * 2.0])
-    return moran
-
-
-def _test():
-    import doctest
-
-    doctest.testmod()
-
-
-if __name__ == "__main__":
-    _test()
+"""
+Diagnostics in probit regression. 
+        
+"""
+__author__ = (
+    "Luc Anselin lanselin@gmail.com, Pedro Amaral pedrovma@gmail.com "
+)
+
+from math import sqrt, pi
+
+from libpysal.common import MISSINGVALUE
+import numpy as np
+import numpy.linalg as la
+import scipy.sparse as SP
+from scipy import stats
+from scipy.stats import norm
+
+__all__ = [
+    "pred_table",
+    "probit_fit",
+    "probit_lrtest",
+    "mcfad_rho",
+    "probit_ape",
+    "sp_tests",
+    "moran_KP",
+]
+
+
+def pred_table(reg):
+    """
+    Calculates a table comparing predicted to actual outcomes for a 
+    discrete choice model
+
+    Parameters
+    ----------
+    reg             : regression object
+                      output instance from a probit regression model
+
+    Returns
+    ----------
+    predtab_vals    : dictionary
+                      includes margins and cells of actual and predicted
+                      values for discrete choice model
+                      actpos   : observed positives (=1)
+                      actneg   : observed negatives (=0)
+                      predpos  : predicted positives 
+                      predneg  : predicted negatives
+                      truepos  : predicted 1 when actual = 1
+                      falsepos : predicted 1 when actual = 0
+                      trueneg  : predicted 0 when actual = 0
+                      falseneg : predicted 0 when actual = 1
+
+    """
+    predtab_vals = {}
+    pos = reg.y.sum()
+    predtab_vals["actpos"] = int(pos)
+    neg = reg.n - pos
+    predtab_vals["actneg"] = int(neg)
+    act1 = (reg.y == 1) * 1
+    act0 = (reg.y == 0) * 1
+    ppos = reg.predybin.sum()
+    predtab_vals["predpos"] = ppos
+    pneg = reg.n - ppos
+    predtab_vals["predneg"] = pneg
+    pred1 = (reg.predybin == 1) * 1
+    pred0 = (reg.predybin == 0) * 1
+    truep = (pred1 * act1) * 1
+    predtab_vals["truepos"] = truep.sum()
+    truen = (pred0 * act0) * 1
+    predtab_vals["trueneg"] = truen.sum()
+    fpos = (pred1 * act0) * 1
+    predtab_vals["falsepos"] = fpos.sum()
+    fneg = (pred0 * act1) * 1
+    predtab_vals["falseneg"] = fneg.sum()
+
+    return predtab_vals
+
+
+def probit_fit(reg):
+    """
+    Various measures of fit for discrete choice models, derived from the
+    prediction table (pred_table)
+    
+    Parameters
+    ----------
+    reg             : regression object
+                      output instance from a probit regression model
+                      must contain predtable attribute
+
+    Returns
+    ----------
+    prob_fit    : a dictionary containing various measures of fit
+                  TPR    : true positive rate (sensitivity, recall, hit rate)
+                  TNR    : true negative rate (specificity, selectivity)
+                  PREDPC : accuracy, percent correctly predicted
+                  BA     : balanced accuracy
+    
+    """
+
+    prob_fit = {}
+    prob_fit["TPR"] = 100.0 * reg.predtable["truepos"] / reg.predtable["actpos"]
+    prob_fit["TNR"] = 100.0 * reg.predtable["trueneg"] / reg.predtable["actneg"]
+    prob_fit["BA"] = (prob_fit["TPR"] + prob_fit["TNR"])/2.0
+    prob_fit["PREDPC"] = 100.0 * (reg.predtable["truepos"] + reg.predtable["trueneg"]) / reg.n
+
+    return prob_fit
+
+def probit_lrtest(regprob):
+    """
+    Likelihood ratio test statistic for probit model
+
+    Parameters
+    ----------
+    regprob      : probit regression object
+
+    Returns
+    -------
+
+    likratio     : dictionary
+                   contains the statistic for the null model (L0), the LR test(likr), 
+                   the degrees of freedom (df) and the p-value (pvalue)
+    L0           : float
+                   log likelihood of null model
+    likr         : float
+                   likelihood ratio statistic
+    df           : integer
+                   degrees of freedom
+    p-value      : float
+                   p-value
+    """
+
+    likratio = {}
+    P = np.mean(regprob.y)
+    L0 = regprob.n * (P * np.log(P) + (1 - P) * np.log(1 - P))
+    likratio["L0"] = L0
+    LR = -2.0 * (L0 - regprob.logl)
+    likratio["likr"] = LR
+    df = regprob.k - 1  # the null model has a constant
+    likratio["df"] = df
+    pval = stats.chisqprob(LR, df)
+    likratio["p-value"] = pval
+
+    return likratio
+
+def mcfad_rho(regprob):
+    """
+    McFadden's rho measure of fit
+
+    Parameters
+    ---------
+    regprob    : probit regression object
+
+    Returns
+    -------
+    rho        : McFadden's rho (1 - L/L0)
+    
+    """
+
+    rho = 1.0 - (regprob.logl / regprob.L0)
+    return rho
+
+def probit_ape(regprob):
+    """
+    Average partial effects
+
+    Parameters
+    ----------
+    regprob   : probit regression object
+
+    Returns
+    -------
+    tuple with:
+        scale          : the scale of the marginal effects, determined by regprob.scalem
+                         Default: 'phimean' (Mean of individual marginal effects)
+                         Alternative: 'xmean' (Marginal effects at variables mean)
+        slopes         : marginal effects or average partial effects (not for constant)
+        slopes_vm      : estimates of variance of marginal effects (not for constant)
+        slopes_std_err : estimates of standard errors of marginal effects
+        slopes_z_stat  : tuple with z-statistics and p-values for marginal effects
+    
+    """
+        
+
+    if regprob.scalem == "xmean":
+        xmb = regprob.xmean.T @ regprob.betas
+        scale = stats.norm.pdf(xmb)
+            
+    elif regprob.scalem == "phimean":
+        scale = np.mean(regprob.phiy,axis=0)
+
+    # average partial effects (no constant)
+    slopes = (regprob.betas[1:,0] * scale).reshape(-1,1)
+
+    # variance of partial effects
+    xmb = regprob.xmean.T @ regprob.betas
+    bxt = regprob.betas @ regprob.xmean.T
+    dfdb = np.eye(regprob.k) - xmb * bxt
+    slopes_vm = (scale ** 2) * ((dfdb @ regprob.vm) @ dfdb.T)
+
+    # standard errors
+    slopes_std_err = np.sqrt(slopes_vm[1:,1:].diagonal()).reshape(-1,1)
+
+    # z-stats and p-values
+    sl_zStat = slopes / slopes_std_err
+    slopes_z_stat = [(sl_zStat[i,0],stats.norm.sf(abs(sl_zStat[i,0])) * 2) for i in range(len(slopes))]
+
+
+    return (scale, slopes,slopes_vm[1:,1:],slopes_std_err,slopes_z_stat)
+
+
+def sp_tests(regprob=None, obj_list=None):
+    """
+    Calculates tests for spatial dependence in Probit models
+
+    Parameters
+    ----------
+    regprob     : regression object from spreg
+                  output instance from a probit model
+    obj_list    : list
+                  list of regression elements from both libpysal and statsmodels' ProbitResults
+                  The list should be such as:
+                  [libpysal.weights, ProbitResults.fittedvalues, ProbitResults.resid_response, ProbitResults.resid_generalized]               
+    
+    Returns
+    -------
+    tuple with LM_Err, moran, ps as 2x1 arrays with statistic and p-value
+               LM_Err: Pinkse
+               moran : Kelejian-Prucha generalized Moran
+               ps    : Pinkse-Slade
+
+    Examples
+    --------
+    The results of this function will be automatically added to the output of the probit model if using spreg.
+    If using the Probit estimator from statsmodels, the user can call the function with the obj_list argument.
+    The argument obj_list should be a list with the following elements, in this order:
+    [libpysal.weights, ProbitResults.fittedvalues, ProbitResults.resid_response, ProbitResults.resid_generalized]
+    The function will then return and print the results of the spatial diagnostics.
+
+    >>> import libpysal
+    >>> import statsmodels.api as sm
+    >>> import geopandas as gpd
+    >>> from spreg.diagnostics_probit import sp_tests
+
+    >>> columb = libpysal.examples.load_example('Columbus')
+    >>> dfs = gpd.read_file(columb.get_path("columbus.shp"))
+    >>> w = libpysal.weights.Queen.from_dataframe(dfs)
+    >>> w.transform='r'
+
+    >>> y = (dfs["CRIME"] > 40).astype(float)
+    >>> X = dfs[["INC","HOVAL"]]
+    >>> X = sm.add_constant(X)
+
+    >>> probit_mod = sm.Probit(y, X)
+    >>> probit_res = probit_mod.fit(disp=False)
+    >>> LM_err, moran, ps = sp_tests(obj_list=[w, probit_res.fittedvalues, probit_res.resid_response, probit_res.resid_generalized])
+    PROBIT MODEL DIAGNOSTICS FOR SPATIAL DEPENDENCE
+    TEST                              DF         VALUE           PROB
+    Kelejian-Prucha (error)           1          1.721           0.0852
+    Pinkse (error)                    1          3.132           0.0768
+    Pinkse-Slade (error)              1          2.558           0.1097
+
+    """
+    if regprob:
+        w, Phi, phi, u_naive, u_gen, n = regprob.w, regprob.predy, regprob.phiy, regprob.u_naive, regprob.u_gen, regprob.n
+    elif obj_list:
+        w, fittedvalues, u_naive, u_gen = obj_list
+        Phi = norm.cdf(fittedvalues)
+        phi = norm.pdf(fittedvalues)
+        n = w.n
+
+    try:
+        w = w.sparse
+    except:
+        w = w
+        
+    # Pinkse_error:
+    Phi_prod = Phi * (1 - Phi)
+    sig2 = np.sum((phi * phi) / Phi_prod) / n
+    LM_err_num = np.dot(u_gen.T, (w @ u_gen)) ** 2
+    trWW = np.sum((w @ w).diagonal())
+    trWWWWp = trWW + np.sum((w @ w.T).diagonal())
+    LM_err = (1.0 * LM_err_num / (sig2 ** 2 * trWWWWp)).item()
+    LM_err = np.array([LM_err, stats.chisqprob(LM_err, 1)])
+    # KP_error:
+    moran = moran_KP(w, u_naive, Phi_prod)
+    # Pinkse-Slade_error:
+    u_std = u_naive / np.sqrt(Phi_prod)
+    ps_num = np.dot(u_std.T, (w @ u_std)) ** 2
+    trWpW = np.sum((w.T @ w).diagonal())
+    ps = (ps_num / (trWW + trWpW)).item()
+    # chi-square instead of bootstrap.
+    ps = np.array([ps, stats.chisqprob(ps, 1)])
+
+    if obj_list:
+        from .output import _probit_out
+        reg_simile = type('reg_simile', (object,), {})()
+        reg_simile.Pinkse_error = LM_err
+        reg_simile.KP_error = moran
+        reg_simile.PS_error = ps
+        print("PROBIT MODEL "+_probit_out(reg_simile, spat_diag=True, sptests_only=True)[1:])
+
+    return LM_err, moran, ps
+
+def moran_KP(w, u, sig2i):
+    """
+    Calculates Kelejian-Prucha Moran-flavoured tests
+
+    Parameters
+    ----------
+
+    w           : W
+                  PySAL weights instance aligned with y
+    u           : array
+                  nx1 array of naive residuals
+    sig2i       : array
+                  nx1 array of individual variance
+
+    Returns
+    -------
+    moran       : array, Kelejian-Prucha Moran's I with p-value   
+    """
+    try:
+        w = w.sparse
+    except:
+        pass
+    moran_num = np.dot(u.T, (w @ u))
+    E = SP.lil_matrix(w.shape)
+    E.setdiag(sig2i.flat)
+    E = E.asformat("csr")
+    WE = w @ E
+    moran_den = np.sqrt(np.sum((WE @ WE + (w.T @ E) @ WE).diagonal()))
+    moran = (1.0 * moran_num / moran_den).item()
+    moran = np.array([moran, stats.norm.sf(abs(moran)) * 2.0])
+    return moran
+
+
+def _test():
+    import doctest
+
+    doctest.testmod()
+
+
+if __name__ == "__main__":
+    _test()
-- 
2.43.0


From 93614be40dc2daaebf8193f76d0acbd5cc91fb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:17 +0000
Subject: [PATCH 101/105] fix: spatially lagged dependent variable by regime in
 GNS models with regime_lag_sep

---
 spreg/error_sp_het_regimes.py | 3 +++
 spreg/error_sp_hom_regimes.py | 3 +++
 spreg/error_sp_regimes.py     | 4 +++-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/spreg/error_sp_het_regimes.py b/spreg/error_sp_het_regimes.py
index 8908e87..2d37ff7 100644
--- a/spreg/error_sp_het_regimes.py
+++ b/spreg/error_sp_het_regimes.py
@@ -1764,6 +1764,9 @@ class GM_Combo_Het_Regimes(GM_Endog_Error_Het_Regimes):
             else:
                 cols2regi += [True]
                 add_lag = False
+                w_i = REGI.w_regimes(w, regimes, self.regimes_set)[0]
+                w_union = REGI.w_regimes_union(w, w_i, self.regimes_set)
+                yend2[:, -1:] = w_union.sparse @ y  # only WX is computed using the complete W
         else:
             add_lag = False
             cols2regi += [False]
diff --git a/spreg/error_sp_hom_regimes.py b/spreg/error_sp_hom_regimes.py
index 5743576..67d07c9 100644
--- a/spreg/error_sp_hom_regimes.py
+++ b/spreg/error_sp_hom_regimes.py
@@ -1763,6 +1763,9 @@ class GM_Combo_Hom_Regimes(GM_Endog_Error_Hom_Regimes):
             else:
                 add_lag = False
                 cols2regi += [True]
+                w_i = REGI.w_regimes(w, regimes, self.regimes_set)[0]
+                w_union = REGI.w_regimes_union(w, w_i, self.regimes_set)
+                yend2[:, -1:] = w_union.sparse @ y  # only WX is computed using the complete W
         else:
             add_lag = False
             cols2regi += [False]
diff --git a/spreg/error_sp_regimes.py b/spreg/error_sp_regimes.py
index e93bd0d..4ffe0c1 100644
--- a/spreg/error_sp_regimes.py
+++ b/spreg/error_sp_regimes.py
@@ -1553,7 +1553,9 @@ class GM_Combo_Regimes(GM_Endog_Error_Regimes, REGI.Regimes_Frame):
             else:
                 add_lag = False
                 cols2regi += [True]
-
+                w_i = REGI.w_regimes(w, regimes, self.regimes_set)[0]
+                w_union = REGI.w_regimes_union(w, w_i, self.regimes_set)
+                yend2[:, -1:] = w_union.sparse @ y  # only WX is computed using the complete W
         else:
             add_lag = False
             cols2regi += [False]
-- 
2.43.0


From e0cf5aba430a1bb2dc210ee0a67b4db97c42109a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:25 +0000
Subject: [PATCH 102/105] fix: slx_vars="All" names the lags of every variable,
 whatever their number

---
 spreg/user_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/user_output.py b/spreg/user_output.py
index 4b7ae57..d5a616d 100755
--- a/spreg/user_output.py
+++ b/spreg/user_output.py
@@ -178,7 +178,7 @@ def set_name_spatial_lags(names, w_lags, slx_vars="all", additional=0):
     lag_names2 : string, only returned if additional > 0
 
     """
-    if slx_vars != "all":
+    if not (isinstance(slx_vars, str) and slx_vars.lower() == "all"):
         names = list(compress(names,slx_vars))
     lag_names = ["W_" + s for s in names]
     n_i = 1
-- 
2.43.0


From f6c0d7dbcd662dedac7f2be34f5e4a392192d59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:53 +0000
Subject: [PATCH 103/105] fix: GM_Lag_Regimes checks the spatial parameter of
 each regime (hard_bound, warning) when only some coefficients vary by regime

---
 spreg/twosls_sp_regimes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index 12e2541..d1755d0 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -628,7 +628,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             )
 
             if regime_lag_sep:  # not currently available.
-                self.sp_att_reg(w_i, regi_ids, yend2[:, -1].reshape(self.n, 1))
+                self.sp_att_reg(w_i, regi_ids, yend2[:, -1].reshape(self.n, 1), hard_bound=hard_bound)
             else:
                 self.rho = self.betas[-1]
                 self.output.iat[-1, self.output.columns.get_loc('var_type')] = 'rho'
@@ -892,7 +892,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
         #   self._get_spat_diag_props(y, x, w, yend, q, w_lags, lag_q)
         output(reg=self, vm=vm, robust=robust, other_end=False, latex=latex)
 
-    def sp_att_reg(self, w_i, regi_ids, wy):
+    def sp_att_reg(self, w_i, regi_ids, wy, hard_bound=False):
         predy_e_r, e_pred_r = {}, {}
         self.predy_e = np.zeros((self.n, 1), float)
         self.e_pred = np.zeros((self.n, 1), float)
@@ -911,7 +911,9 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
                 self.predy[regi_ids[r]],
                 wy[regi_ids[r]],
                 self.rho,
+                hard_bound=hard_bound,
             )
+            set_warn(self, warn)
             counter += 1
 
     def _get_spat_diag_props(self, y, x, w, yend, q, w_lags, lag_q):
-- 
2.43.0


From f808af474c0df60b35b36f0c853f583eb3cdba1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:13 +0000
Subject: [PATCH 104/105] fix: w_regimes_union keeps the transformed weights of
 each regime instead of transforming their union again

---
 spreg/regimes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spreg/regimes.py b/spreg/regimes.py
index 403f6b3..35dece8 100755
--- a/spreg/regimes.py
+++ b/spreg/regimes.py
@@ -608,11 +608,11 @@ def w_regimes_union(w, w_regi_i, regimes_set):
     neighbors, w_values = {}, {}
     for r in regimes_set:
         neighbors.update(w_regi_i[r].neighbors)
-        w_values.update(w_regi_i[r].transformations["O"])
+        # already transformed by regime: doing it again may change their scale
+        w_values.update(w_regi_i[r].weights)
     w_regi = weights.W(
         neighbors, w_values, id_order=w.id_order, silence_warnings=True
     )
-    w_regi.transform = w.get_transform()
     return w_regi
 
 
-- 
2.43.0


From 10bb903d368d0e6406de6a2043cddccd337528d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:12 +0000
Subject: [PATCH 105/105] fix: the warning about variables constant in a regime
 lists them in the order given, not in the order of a set

---
 spreg/regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/regimes.py b/spreg/regimes.py
index 35dece8..265389a 100755
--- a/spreg/regimes.py
+++ b/spreg/regimes.py
@@ -686,7 +686,7 @@ def check_const_regi(reg, x, name_x, regi_ids):
         const_x = [keep_x[i] for i in np.nonzero(diffs == 0)[0]]
         keep_x = [element for element in keep_x if element not in const_x]
         x = np.delete(x, np.nonzero(diffs == 0), 1)
-    rem_x = list(set(name_x) - set(keep_x))
+    rem_x = [i for i in name_x if i not in keep_x]
     if len(rem_x) > 0:
         set_warn(
             reg,
-- 
2.43.0

