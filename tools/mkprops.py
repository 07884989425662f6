"""Regenerates /verif/properties.jsonl (one place to edit titles and statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=["spreg/" + f for f in files],
                          mechanism=[dict(name=n, where="spreg/" + w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = [observe]
    if hook is not None: d["anchors"]["hook_needed"] = hook
    P.append(d)

FIX = "The tests compare a few fixed data sets (columbus, natregimes, nat) with stored numbers; "

p("C01", "OLS and SLX report the exact least-squares fit and its covariances",
  "For any full-rank data the least-squares front end reports the coefficients that minimise the sum of squared residuals, the residuals and fitted values belonging to them, the requested error variance (with or without degrees-of-freedom correction), R2, log-likelihood and information criteria, and a coefficient covariance equal to the classical, White or kernel-HAC sandwich formula asked for. Adding spatially lagged regressors (one or several lags, all or a chosen subset of variables) gives exactly the fit obtained by appending those lags by hand.",
  ["inputs", "configurations"], "Every full-column-rank design, response, weights, covariance type, dof option, lag order and lag selection.",
  FIX + "no test compares the estimator with an independent solver on arbitrary data, and most combinations of lag selection, kernel and dof option are never run.",
  ["ols.py", "robust.py", "utils.py", "sputils.py"],
  [("BaseOLS", "ols.py"), ("robust_vm/hac_multi", "robust.py"), ("RegressionPropsY/VM", "utils.py"), ("flex_wx", "utils.py")],
  "attributes of the fitted OLS object")
p("C02", "Two-stage least squares reports the exact IV fit and its covariances",
  "For any identified system, the two-stage estimator's coefficients make the projected moment conditions hold exactly, and its residuals, error variance and covariance equal the classical, White, kernel-HAC or optimally weighted GMM formula requested. When the instruments are the endogenous variables themselves the result coincides with least squares, and results do not change when the instrument set is replaced by an invertible recombination of it.",
  ["inputs", "configurations"], "Every identified system of exogenous, endogenous and instrument columns, each covariance option and dof option.",
  FIX + "single endogenous variable with a single instrument; over-identified, kernel-HAC and GMM variants on arbitrary data are not compared with an independent solution.",
  ["twosls.py", "robust.py", "diagnostics_tsls.py"],
  [("BaseTSLS", "twosls.py"), ("robust_vm", "robust.py"), ("diagnostics_tsls.t_stat", "diagnostics_tsls.py")])
p("C03", "Spatial 2SLS lag/Durbin models equal IV on the documented instrument set",
  "The spatial-lag 2SLS estimator equals instrumental-variables estimation with the spatial lag of the dependent variable as endogenous regressor and the documented spatial lags of the exogenous variables (and, when asked, of the external instruments) as instruments, for any lag order and any choice of Durbin terms. Reduced-form predictions satisfy the reduced form of the estimated model, and they are withheld with a warning when the estimated spatial coefficient is out of bounds.",
  ["inputs", "configurations"], "All data, weights, instrument lag orders, Durbin selections, endogenous regressors and covariance options.",
  FIX + "they never check the instrument set itself, the Durbin selections on arbitrary variables, or the reduced form identity.",
  ["twosls_sp.py", "twosls.py", "utils.py"],
  [("BaseGM_Lag/GM_Lag", "twosls_sp.py"), ("set_endog", "utils.py"), ("sp_att", "utils.py"), ("flex_wx", "utils.py")])
p("C04", "ML lag estimates maximise the spatial lag likelihood for every method",
  "The maximum-likelihood lag (and Durbin) estimator returns coefficients that no other admissible spatial coefficient can beat in the model's likelihood, a log-likelihood equal to that likelihood at the reported coefficients, and residuals, predictions, variance and covariance belonging to that optimum. The full, sparse-factorisation and eigenvalue evaluation methods agree.",
  ["inputs", "configurations"], "All data sets and weights of spectral radius at most one (row-standardised or scaled, symmetric and asymmetric), each method, with and without Durbin terms.",
  FIX + "an optimum is a claim over the whole parameter interval, which no stored number checks, and method agreement is tested on one data set.",
  ["ml_lag.py", "utils.py"], [("BaseML_Lag", "ml_lag.py"), ("lag_c_loglik*", "ml_lag.py")])
p("C05", "ML error estimates maximise the spatial error likelihood for every method",
  "The maximum-likelihood error (and SLX-error) estimator returns coefficients that no other admissible spatial coefficient can beat in the model's likelihood, a log-likelihood equal to that likelihood at the reported coefficients, regression coefficients that are generalised least squares at the estimated spatial coefficient, and residuals and covariance belonging to them. The full, sparse-factorisation and eigenvalue evaluation methods agree.",
  ["inputs", "configurations"], "All data sets and weights of spectral radius at most one (row-standardised or scaled, symmetric and asymmetric), each method, with and without lagged regressors.",
  FIX + "an optimum is a claim over the whole parameter interval, which no stored number checks, and method agreement is tested on one data set.",
  ["ml_error.py", "utils.py"], [("BaseML_Error", "ml_error.py"), ("err_c_loglik*", "ml_error.py")])
p("C06", "GM spatial error models solve their moment equations and the filtered model",
  "The generalized-moments spatial error estimators (with or without endogenous variables and a spatial lag) report a spatial error coefficient that minimises the documented moment criterion of the first-stage residuals inside its bounds, and regression coefficients and covariance that are exactly least squares or IV on data spatially filtered with that coefficient. Reported residuals, filtered residuals, predictions and pseudo R2 are those of the reported coefficients.",
  ["inputs", "configurations"], "All data and weights, error-only, endogenous-regressor, and combined lag-and-error models, with and without Durbin terms.",
  FIX + "the moment system and the filtered second stage are not recomputed for other data or weights.",
  ["error_sp.py", "utils.py"], [("BaseGM_Error/Endog_Error/Combo", "error_sp.py"), ("_momentsGM_Error, optim_moments, get_spFilter", "utils.py")])
p("C07", "HET and HOM spatial error GMM solve their moments and covariances",
  "The heteroskedasticity-robust and the homoskedastic GMM estimators report a spatial error coefficient that minimises their efficiently weighted moment criterion, regression coefficients consistent with data filtered by the estimated coefficient, and a joint covariance matrix equal to the published sandwich expression; with a declared spatial coefficient bound, inference covers all coefficients including the error coefficient.",
  ["inputs", "configurations"], "All data and weights, homoskedastic and heteroskedastic versions, with and without endogenous variables and spatial lag, all step-1 options.",
  FIX + "the published moment and covariance expressions are never evaluated independently on other data or weights.",
  ["error_sp_het.py", "error_sp_hom.py", "utils.py"],
  [("BaseGM_*_Het", "error_sp_het.py"), ("BaseGM_*_Hom", "error_sp_hom.py"), ("optim_moments, get_Omega_*", "utils.py")])
p("C08", "Regime models equal interacted or separately estimated subset models",
  "A least-squares or 2SLS regime model with common error variance equals the model in which every regime-varying regressor is interacted with regime dummies, and with regime-specific variances it equals separate estimation on each regime's observations, with residuals, predictions and coefficients put back in the caller's observation order. Regressors declared global get one coefficient for all regimes.",
  ["inputs", "configurations"], "All data, any number and interleaving of regimes with string, integer or float labels, every constant and column regime option.",
  FIX + "they use one regime vector with sorted, equally represented labels; arbitrary interleavings, label types and option combinations are not compared with an independent interacted fit.",
  ["regimes.py", "ols_regimes.py", "twosls_regimes.py"],
  [("Regimes_Frame, regimeX_setup, x2xsp", "regimes.py"), ("OLS_Regimes", "ols_regimes.py"), ("TSLS_Regimes", "twosls_regimes.py")])
p("C09", "Spatial regime models equal the subset or interacted spatial models",
  "A spatial lag or error regime model with everything varying by regime and separate errors equals running the corresponding spatial estimator on each regime with the weights restricted to pairs inside the regime, results being returned in the caller's order. With common errors it equals the corresponding spatial estimator applied to the interacted regressors (with regime-specific spatial lags when the lag coefficient varies).",
  ["inputs", "configurations"], "All data, weights, regime layouts, estimator families (2SLS lag, GM, HET, HOM, ML) and regime options.",
  FIX + "only one regime vector on one map is used, and equality with subset estimation is checked for a few families.",
  ["regimes.py", "twosls_sp_regimes.py", "error_sp_regimes.py", "error_sp_het_regimes.py", "error_sp_hom_regimes.py", "ml_lag_regimes.py", "ml_error_regimes.py"],
  [("w_regimes, w_regimes_union, w_regime", "regimes.py"), ("GM_Lag_Regimes", "twosls_sp_regimes.py"), ("GM_Error_Regimes", "error_sp_regimes.py"), ("ML_Lag_Regimes", "ml_lag_regimes.py")])
p("C10", "Chow tests are Wald tests of coefficient equality across regimes",
  "For every regime model the reported Chow statistics, coefficient by coefficient and jointly, are the Wald statistics of equality of the regime-varying coefficients under the reported covariance, with the chi-squared p-values of the stated degrees of freedom. They do not depend on the order or naming of the regimes and vanish for coefficients that agree across regimes.",
  ["inputs", "configurations"], "Every fitted regime model, number of regimes and selection of regime-varying regressors.",
  FIX + "the stored Chow numbers cover the option combinations of two-regime fixtures only.",
  ["regimes.py"], [("Chow, wald_test, buildR1var", "regimes.py")])
p("C11", "Parallel regime estimation gives exactly the serial results",
  "Estimating regimes in worker processes gives the same estimates, residual ordering, tests and summary as estimating them serially, whatever the number of regimes and whatever order the workers finish in. No regime is lost, duplicated or attributed to another regime.",
  ["schedules", "inputs", "configurations"], "All completion orders of the per-regime workers, all models with the parallel option.",
  "Tests run the parallel option on at most one small model with whatever schedule occurs; completion orders are never perturbed and results are not compared with a serial run.",
  ["ols_regimes.py", "twosls_regimes.py", "twosls_sp_regimes.py", "error_sp_regimes.py", "error_sp_het_regimes.py", "error_sp_hom_regimes.py", "ml_lag_regimes.py", "ml_error_regimes.py"],
  [("_ols_regimes_multi and the other multi drivers with mp.Pool", "ols_regimes.py")],
  "worker start and finish events and the fitted object, serial versus parallel")
p("C12", "Fitting never alters the caller's data and has no hidden history",
  "Fitting a model leaves every argument the caller passed (arrays, data frames, weights including their transformation, name lists, dictionaries, regime vectors and option lists) exactly as it was. Repeating a fit, in any order and interleaved with any other fits on the same objects, gives bit-for-bit the same result, warnings and summary; so does repeating it in a new Python process.",
  ["histories", "inputs"], "All sequences of fits sharing the same argument objects.",
  "Every test builds fresh arguments, fits once and looks at the output only; argument state after a fit and repeated fits in shared histories are never observed.",
  ["user_output.py", "utils.py", "sur_utils.py", "sputils.py", "ml_lag.py", "ml_error.py", "sur.py", "sur_lag.py", "sur_error.py", "nslx.py", "skater_reg.py"],
  [("check_* input functions", "user_output.py"), ("set_name_*", "user_output.py"), ("sur dict handling", "sur_utils.py")],
  "argument objects before and after every call")
p("C13", "Results do not depend on the order in which observations are listed",
  "Listing the same observations in another order (with weights, regimes and all columns reordered consistently) or relabelling the weights' identifiers leaves every scalar result, coefficient, covariance and test unchanged and permutes every per-observation result in the same way.",
  ["inputs"], "All permutations of observations for all cross-sectional models, and of spatial units for panel models.",
  "A relation between two runs over all permutations; the tests run each data set in a single order.",
  ["ols.py", "twosls_sp.py", "error_sp.py", "ml_lag.py", "ml_error.py", "regimes.py", "panel.py", "probit.py"],
  [("id-order handling of weights", "user_output.py"), ("regime position lookup", "regimes.py")])
p("C14", "Rescaling data units rescales the results and nothing else",
  "Multiplying the dependent variable or a regressor by a nonzero constant, or adding a linear combination of the regressors to the dependent variable in models without a spatial lag, changes coefficients and standard errors exactly as units require and leaves spatial parameters, test statistics and p-values as they were.",
  ["inputs"], "All data sets, scale factors (several orders of magnitude, both signs) and shifts, for all estimators.",
  "A relation between two runs over all scale factors; the tests run each data set in one unit system.",
  ["ols.py", "twosls.py", "twosls_sp.py", "error_sp.py", "error_sp_het.py", "error_sp_hom.py", "ml_lag.py", "ml_error.py", "utils.py"],
  [("optim_moments and filters", "utils.py"), ("concentrated likelihoods", "ml_lag.py")])
p("C15", "Equivalent representations of the same input give the same results",
  "The same data given as arrays, one-dimensional vectors, series, data frames, lists of columns where accepted, or integer instead of floating columns, and the same weights given in any accepted form (weights object, graph, or another object with the same values and order), lead to the same results. Names taken from labelled data are the names the caller gave, and giving or omitting names changes only labels.",
  ["inputs", "configurations"], "All accepted container types of every argument, for every front end.",
  "The tests feed two-dimensional float arrays and weights objects almost exclusively.",
  ["user_output.py", "sputils.py"], [("check_y, check_constant, check_arrays, check_weights, check_endog, check_reg_list", "user_output.py")])
p("C16", "Non-spatial diagnostics equal their textbook definitions",
  "Each regression diagnostic (F, t, R2 and adjusted R2, log-likelihood, AIC, Schwarz, condition index, Jarque-Bera, Breusch-Pagan, Koenker-Bassett, White, variance inflation, pseudo-R2, Durbin-Wu-Hausman) equals its textbook definition computed from the data, with the p-value of the stated reference distribution, for every fitted model that reports it.",
  ["inputs", "configurations"], "All data sets and fitted models, including degenerate-looking designs (binary regressors, collinear squares, no constant).",
  FIX + "binary regressors, duplicates in the cross-product design and other variances are not covered.",
  ["diagnostics.py", "diagnostics_tsls.py"], [("all functions", "diagnostics.py"), ("dwh, t_stat, pr2_aspatial", "diagnostics_tsls.py")])
p("C17", "Spatial diagnostics equal their published expressions",
  "The Lagrange-multiplier tests for lag, error, Durbin and SARMA alternatives and their robust forms, Moran's I of residuals, the Anselin-Kelejian test and the common-factor test equal their published expressions evaluated directly on the data, with the p-values of the stated reference distributions, and obey the additive identities that link them.",
  ["inputs", "configurations"], "All data sets, weights matrices (symmetric or not, standardised or not) and models reporting them.",
  FIX + "asymmetric or unstandardised weights are not covered and the identities between tests are not checked.",
  ["diagnostics_sp.py"], [("LMtests, lmErr, lmLag, lmSarma, lm_wx, lm_spdurbin", "diagnostics_sp.py"), ("MoranRes", "diagnostics_sp.py"), ("AKtest, comfac_test", "diagnostics_sp.py")])
p("C18", "Reported impacts equal the derivatives of the reduced form",
  "The direct, indirect and total impacts a lag or Durbin model reports equal the averages of the matrix of derivatives of expected outcomes with respect to the regressors, computed with the method asked for (the effect of lagged regressors counting as spillover), and total is always direct plus indirect. Spatial multiplier approximations agree with the exact inverse to their stated tolerance for every admissible spatial coefficient, positive or negative.",
  ["inputs", "configurations"], "All weights, spatial coefficients in the admissible range, impact methods and Durbin selections.",
  FIX + "one positive coefficient on one map is checked; negative coefficients, bipartite maps and Durbin selections are not.",
  ["sputils.py", "utils.py", "output.py"], [("spmultiplier", "sputils.py"), ("_sp_effects, _spmultipliers", "output.py"), ("inverse_prod, power_expansion", "utils.py")])
p("C19", "Probit estimates maximise the likelihood and diagnostics follow from it",
  "The probit estimator returns the maximiser of the probit likelihood, with log-likelihood, covariance, predicted probabilities, marginal effects, goodness-of-fit and likelihood-ratio test that follow from it, whichever optimiser is selected. The spatial-error tests equal their published expressions and results flip symmetrically when the outcome is recoded.",
  ["inputs", "configurations"], "All non-separable binary outcomes, designs and weights, all optimisers and slope/scale options.",
  FIX + "one data set is used; optimality and the relation between options are not checked.",
  ["probit.py", "diagnostics_probit.py"], [("BaseProbit", "probit.py"), ("sp_tests, probit_fit", "diagnostics_probit.py")])
p("C20", "Panel pooled, fixed and random effects equal their textbook estimators",
  "Pooled, fixed-effects and random-effects panel estimators, aspatial or with GM spatial errors, equal their textbook definitions: stacked least squares, within estimation with recoverable unit effects, feasible generalised least squares with variance components from within and between variation, and spatially filtered moments-based versions. Results are those of the long-format definitions whichever of the accepted data layouts the panel came in.",
  ["inputs", "configurations"], "All balanced panels (any numbers of units and periods), weights, and options.",
  "These estimators have no test that runs without downloading data.",
  ["panel.py", "panel_utils.py", "sp_panels.py"], [("PooledOLS, PanelFE, PanelRE, GM_ErrorPooled, GM_ErrorRE", "panel.py"), ("check_panel, demean_panel", "panel_utils.py"), ("GM_KKP", "sp_panels.py")])
p("C21", "ML panel estimators sit at the optimum of their likelihood",
  "Maximum-likelihood panel lag and error estimators with fixed or random effects return parameter values that no other admissible spatial or variance parameter can beat in the model's likelihood, and the remaining coefficients, residuals and variances are those implied by these values. The current and the deprecated implementations of the same model agree.",
  ["inputs", "configurations"], "All balanced panels and symmetric or row-standardised weights.",
  "These estimators have no test that runs without downloading data.",
  ["panel.py", "panel_fe.py", "panel_re.py"], [("ML_LagFE, ML_ErrorFE, ML_LagRE, ML_ErrorRE", "panel.py"), ("BasePanel_FE_Lag...", "panel_fe.py"), ("BasePanel_RE_Lag...", "panel_re.py")])
p("C22", "Panel diagnostics equal their published matrix expressions",
  "The panel Lagrange-multiplier tests for spatial lag and error (plain and robust), the tests for random effects and spatial correlation (marginal, joint and conditional) and the spatial Hausman test equal their published matrix expressions evaluated directly on the stacked data. They do not depend on whether the panel was given in wide or long layout.",
  ["inputs", "configurations"], "All balanced panels and weights.",
  "These statistics have no test that runs without downloading data.",
  ["diagnostics_panel.py"], [("panel_LMlag, panel_LMerror, panel_rLM*", "diagnostics_panel.py"), ("pre-estimation LM tests", "diagnostics_panel.py"), ("panel_Hausman", "diagnostics_panel.py")])
p("C23", "SUR and three-stage least squares equal stacked GLS",
  "Seemingly unrelated regression and three-stage least squares equal generalised least squares (or IV) on the stacked system with the estimated cross-equation covariance, iterated to the stated convergence when asked, with log-likelihood, cross-equation tests and covariance that follow. Regime versions equal the system on interacted regressors, and a single equation or a diagonal covariance reduces to equation-by-equation results.",
  ["inputs", "configurations"], "All numbers of equations, unequal regressor lists, one or more regimes, iteration and dof options.",
  "The seemingly-unrelated estimators have no test that runs offline.",
  ["sur.py", "sur_utils.py", "diagnostics_sur.py"], [("BaseSUR, BaseThreeSLS, SUR, ThreeSLS", "sur.py"), ("sur_* helpers", "sur_utils.py"), ("sur_lrtest, sur_lmtest, sur_chow, sur_setp", "diagnostics_sur.py")])
p("C24", "Spatial SUR models solve their moments or likelihood, tests follow",
  "Spatial seemingly-unrelated estimators equal their definitions: per-equation moments and filtered GLS for the GM error model, a joint maximum over spatial coefficients and covariance for the ML error model, and stacked IV with spatially lagged instruments for the lag model. The reported spatial Lagrange-multiplier, likelihood-ratio and Wald tests equal their published expressions.",
  ["inputs", "configurations"], "All numbers of equations, weights, options of the spatial SUR family.",
  "The spatial seemingly-unrelated estimators have no test that runs offline.",
  ["sur_error.py", "sur_lag.py", "diagnostics_sur.py"], [("SURerrorGM, SURerrorML", "sur_error.py"), ("SURlagIV", "sur_lag.py"), ("surLMe, surLMlag, lam_setp, rho_setp, sur_joinrho, lamsetp", "diagnostics_sur.py")])
p("C25", "Nonlinear SLX sits at the least-squares optimum of its specification",
  "The nonlinear SLX estimator reports decay coefficients and regression coefficients that are a stationary point of the sum of squared residuals under the selected distance decay, neighbour count and bandwidth; residuals, predictions, variance, log-likelihood, information criteria and covariance are those of the reported coefficients.",
  ["inputs", "configurations"], "All coordinates, regressors, decay functions, neighbour counts, bandwidths and starting options.",
  "This estimator has no test that runs offline.",
  ["nslx.py"], [("BaseNSLX, NSLX", "nslx.py"), ("nslxobj, nlmod", "nslx.py")])
p("C26", "Synthetic data generators follow their documented process",
  "Each data-generating function returns data that satisfy exactly the structural equation of the process it names for the given errors, coefficients, weights and model variant, and rejects dimension mismatches by returning nothing rather than wrong data. Estimating the matching model on large generated samples recovers the coefficients.",
  ["inputs", "configurations"], "All inputs, coefficients, weights and process variants of every generator.",
  "The generators have no test at all.",
  ["dgp.py"], [("make_*, dgp_*", "dgp.py")])
p("C27", "Spatially constrained regression clustering keeps its trace invariants",
  "Every clustering run returns a partition in which each cluster is spatially connected and large enough to estimate, each step splits exactly one cluster in two and never increases the total score, and the reported scores equal the sum of squared residuals of separate regressions recomputed for the reported labels. Each step takes the best admissible cut of the current tree.",
  ["inputs", "histories"], "All data, weights (including islands), cluster counts and quorums; every step of the recorded cut history.",
  "This method has no test that runs offline, and step-by-step history is not observed by any test.",
  ["skater_reg.py"], [("Skater_reg.fit, score_spreg", "skater_reg.py")], "the recorded cut trace and final labels")
p("C28", "Specification searches follow their documented decision rules",
  "Each specification search returns the model its documented decision tree selects when the tree is replayed on test statistics computed independently of the search, for every significance level and option. The returned model object is the fitted model of that name, and the list of candidate models holds each candidate in the stated place.",
  ["inputs", "configurations", "histories"], "All data-generating processes, weights, significance levels and search options; every path through each decision tree.",
  "The tests visit a few paths on one or two data sets; most branches are never entered.",
  ["spsearch.py"], [("stge_classic, stge_kb, stge_pre, gets_gns, gets_sdm", "spsearch.py")], "sequence of models fitted and tests consulted during a search")
p("C29", "Everything a result object reports about one fit agrees with itself",
  "In any fitted result the coefficient table, names, standard errors, z or t statistics, p-values, covariance, predictions, residuals and printed summary describe the same numbers: predictions plus residuals give the data, standard errors are the square roots of the covariance diagonal, table rows carry the right variable's name, equation and regime, and the summary prints those values.",
  ["inputs", "configurations"], "Every model class and option combination.",
  "The tests check arrays of chosen attributes but not the table, the ordering of names, or the printed text against them.",
  ["output.py", "summary_output.py", "user_output.py", "utils.py"], [("output(), _summary_*", "output.py"), ("set_name_*", "user_output.py"), ("RegressionProps*", "utils.py")])
p("C30", "Invalid inputs are refused instead of producing estimates",
  "Inputs that cannot be estimated as asked (mismatched lengths, missing values, missing or wrong weights, kernel weights without unit diagonal for HAC, non-zero diagonals, unknown method or option names, under-identified systems, too few observations per regime or a single regime) raise an error before estimates are returned; an unusable reporting option is refused or replaced with a notice. Redundant constant columns are dropped, with a notice, leaving the same fit as without them.",
  ["inputs", "configurations"], "Every front end crossed with every class of invalid argument.",
  "Only a handful of helper calls with invalid input are tested, never the cross product with the front ends.",
  ["user_output.py", "regimes.py", "panel_utils.py"], [("check_* functions", "user_output.py"), ("check_regimes, check_cols2regi", "regimes.py"), ("check_panel", "panel_utils.py")])
p("C31", "Generic front ends and their specialised estimators give the same fit",
  "A front end that delegates by option (regimes given to a non-regime class, method or estimator selectors, presence of endogenous variables or spatial lag) returns exactly what the specialised estimator returns for the same data and options; no option the caller gave is silently dropped.",
  ["configurations", "inputs"], "All front ends, selectors and option combinations.",
  FIX + "the delegation is exercised for default options in a few cases.",
  ["ols.py", "twosls.py", "twosls_sp.py", "error_sp.py", "ml_lag.py", "ml_error.py"], [("GMM_Error", "error_sp.py"), ("regimes= dispatch in __init__", "ols.py")])
p("C32", "Endogenous regimes are a valid partition and its regime model",
  "The endogenous-regime estimators partition the map into connected regimes of at least the quorum, as many as asked or as the documented rule picks from the recorded history, and the history, the score and the list of sums of squares are those of separate regressions at each step. Coefficients, covariance, tests and tables are exactly those of the regime estimator given that partition, and every documented option is honoured.",
  ["inputs", "configurations"], "Connected maps, data, numbers of regimes (given or automatic), quorums and options, for least squares, 2SLS and spatial lag models.",
  FIX + "the endogenous classes are run on one map with default options, and neither the partition nor the score is recomputed.",
  ["ols_regimes.py", "twosls_regimes.py", "twosls_sp_regimes.py", "skater_reg.py", "utils.py"],
  [("OLS_Endog_Regimes", "ols_regimes.py"), ("TSLS_Endog_Regimes", "twosls_regimes.py"), ("GM_Lag_Endog_Regimes", "twosls_sp_regimes.py"), ("optim_k", "utils.py")],
  "clusters, score, SSR and _trace of the fitted object")

p("C33", "Reporting options never change what is estimated",
  "Asking for more output (covariance, non-spatial and spatial diagnostics, Moran, White, VIF, impacts, LaTeX, progress printing, labels) never changes any number the estimator returns without it, and removes no line of the shorter report. Options that choose the covariance estimator (robust, sig2n_k) leave coefficients, residuals and predictions as they are.",
  ["configurations", "inputs"], "Every public estimator crossed with random subsets of reporting options.",
  FIX + "an option is tested for what it adds; that it leaves everything else alone is not looked at.",
  ["diagnostics.py", "diagnostics_sp.py", "output.py", "summary_output.py", "ols.py", "sur.py", "panel_fe.py"],
  [("output(), _nonspat_top, _spat_diag_out", "output.py"), ("__init__ of every front end", "ols.py"), ("LMtests, MoranRes, AKtest", "diagnostics_sp.py")])

p("C34", "Shared matrix, weights and regime helpers equal their dense definitions",
  "The helpers that estimators share (sparse products, stacking, determinants and inverses; spatial lags, filters, instruments and the inverse filter; moment matrices; regime designs, names and restrictions; subsets of weights by regime; location-specific multipliers) return the value of their dense definition for dense and sparse operands of any shape, dtype and weights, with names in the order of the columns, in the documented container, and leave their operands alone.",
  ["inputs"], "Dense, CSR and CSC operands; any weights, transformation, identifiers, regime labels, lag orders and selections.",
  FIX + "the helpers are called by the tests with one container, one lag and the Columbus or NAT data.",
  ["sputils.py", "utils.py", "regimes.py", "user_output.py", "w_utils.py"],
  [("spdot, spmultiply, sphstack, spbroadcast, splogdet, spinv, i_multipliers", "sputils.py"), ("get_lags, get_lags_split, set_endog, set_endog_sparse, get_spFilter, inverse_prod, get_A1_*", "utils.py"), ("regimeX_setup, x2xsp, buildR1var, wald_test, w_regime*", "regimes.py"), ("flex_wx, set_name_spatial_lags", "user_output.py")])

p("C35", "hard_bound refuses exactly the spatial parameters that are out of bounds",
  "With hard_bound an estimator raises if and only if a spatial error parameter reaches 0.99 or a spatial lag parameter reaches 1 in absolute value; otherwise its result is the one without the option. Without the option an inadmissible lag parameter is announced and no reduced-form predictions are reported, and nothing is announced when all are admissible.",
  ["inputs", "configurations"], "Data with mild, strong and explosive spatial dependence, every GMM estimator with and without regimes, by its class or through GMM_Error.",
  FIX + "no test passes hard_bound, and no test has an inadmissible parameter.",
  ["utils.py", "error_sp.py", "error_sp_regimes.py", "error_sp_het.py", "error_sp_hom.py", "twosls_sp.py"],
  [("optim_moments, sp_att", "utils.py"), ("GM_Combo", "error_sp.py"), ("GM_Error_Regimes, GM_Combo_Regimes", "error_sp_regimes.py"), ("BaseGM_Error_Het", "error_sp_het.py")])

p("C36", "Estimators are centred on the truth and standard errors are the spread",
  "On repeated samples from its own model every estimator is centred on the true coefficients and its reported standard errors are the spread of its estimates, so that reported z values behave as standard normal. Tests whose null hypothesis is true have uniform p-values; tests of a clearly false null hypothesis have small ones.",
  ["inputs", "histories"], "Repeated samples from each model with moderate parameters, any map, fixed regressors; every estimator and test.",
  FIX + "the tests compare one sample with stored numbers; that an estimator is consistent or a standard error is right is beyond any stored number.",
  ["ols.py", "twosls.py", "twosls_sp.py", "error_sp.py", "error_sp_het.py", "error_sp_hom.py", "ml_lag.py", "ml_error.py", "probit.py", "panel_fe.py", "panel_re.py", "sp_panels.py", "sur.py", "sur_error.py", "sur_lag.py", "diagnostics.py", "diagnostics_sp.py", "diagnostics_sur.py"],
  [("BaseOLS", "ols.py"), ("BaseGM_Lag", "twosls_sp.py"), ("BaseGM_Error_Het", "error_sp_het.py"), ("BaseML_Lag", "ml_lag.py"), ("BaseSUR", "sur.py"), ("LMtests, MoranRes", "diagnostics_sp.py")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for d in P:
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d) + "\n")
    print(len(P), "properties")
