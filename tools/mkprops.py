"""writes properties.jsonl (run by hand after editing)"""
import json, os
P = []
def p(id, title, st, over, text, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "observe_at": observe or [], "hook_needed": None}})

p("C01", "Coverage parameter decides the subset size of every h-subset estimator",
  "For every sample size n, dimension p and admissible alpha (None, an integer between n/2 and n, or a float in [0.5, 1]), the h-subset actually used has exactly the documented size: max([alpha], [(n+p+1)/2]) for FastMCD, DetMCD and LTS regression (p the number of columns of X) and max([alpha], [n/2]+1) for UnivariateMCD, where a float means floor(alpha*n); it consists of distinct valid row numbers and is a strict majority never larger than n. CellMCD keeps at least round(alpha*n) cells in every column. Any other alpha raises ValueError; LTS and CellMCD take floats only; alpha = 1 or alpha = n means the classical mean and covariance for FastMCD and DetMCD.",
  ["inputs", "configurations"], "all n, p, alpha (None / int / float), partitions on or off",
  "The tests use one or two (n, alpha) pairs; off-by-one rounding of h only shows for particular parities of n and p, for integer alpha, and when the data are partitioned.",
  ["robpy/covariance/mcd.py", "robpy/univariate/mcd.py", "robpy/regression/lts.py", "robpy/covariance/cellmcd.py"],
  [("h from alpha, n, p", "FastMCD._get_h, DetMCD._get_h, UnivariateMCD._set_h_size, FastLTSRegression._get_h_subset_size, CellMCD.calculate_covariance")],
  ["best_subset.indices", "best_h_subset", "h_size", "CellMCD.W"])
p("C02", "The MCD subset is a fixed point of the concentration step",
  "After FastMCD or DetMCD is fitted on data in general position, the chosen subset consists of h observations with the smallest Mahalanobis distances relative to that subset's own mean and covariance, in the sense that a further concentration step does not lower the determinant by more than the tolerance, and the subset's reported location, covariance and determinant are the mean, sample covariance and determinant of exactly those observations. With enough random starts to cover all subsets of p+1 observations, the determinant FastMCD ends with is no larger than what two concentration steps reach from any of them, and the determinant DetMCD ends with is no larger than what concentration reaches from each of its six documented initial estimates.",
  ["inputs", "configurations"], "all data in general position, all alpha, with and without partitions",
  "Convergence is a statement about the whole C-step history; the tests only compare final estimates with R to low accuracy on a few datasets where stopping early happens not to matter.",
  ["robpy/covariance/mcd.py"],
  [("C-steps until convergence", "FastMCD.calculate_covariance, DetMCD.calculate_covariance, _perform_c_step")], ["best_subset"])
p("C03", "MCD estimates follow from the subset by consistency correction and reweighting",
  "The location_ and covariance_ of FastMCD and DetMCD are determined by the chosen subset: with correct_covariance the raw covariance is multiplied by median(d^2)/chi2_p(0.5) over all observations, with reweighting the result is the mean and covariance of the observations whose distance is below sqrt(chi2_p(0.975)), multiplied by 0.975/P(chi2_{p+2} <= chi2_p(0.975)) when correct_covariance is on. Switching either option off leaves out exactly that step, and alpha = 1 or alpha = n gives the classical mean and covariance.",
  ["inputs", "configurations"], "all data, all combinations of correct_covariance and reweighting, all alpha",
  "The tests exercise the default combination on one dataset with loose tolerances; a wrong factor, a wrong quantile or a wrong order of the two steps only shows for other p and other option combinations.",
  ["robpy/covariance/mcd.py"],
  [("post processing", "FastMCD.calculate_covariance, DetMCD.calculate_covariance, _correct_covariance")], ["location_", "covariance_"])
p("C04", "UnivariateMCD is the minimum-variance subset, then reweighted",
  "The raw location and raw variance of UnivariateMCD are the mean and population variance of a subset of h values whose variance is minimal among all subsets of size h, the variance multiplied by (h/n)/F_{chi2,3}(chi2_1 quantile of h/n) when consistency correction is on. The final location and variance are the mean and population variance of the values with (x-raw location)^2/raw variance below the 97.5% quantile of chi2_1, with the Croux-Haesbroeck factor d/F_{Gamma(3/2)}(chi2_1 quantile of d / 2), d the retained fraction; h = n gives the mean and population standard deviation. When h values coincide the estimate is that value with scale 0, never NaN.",
  ["inputs", "configurations"], "all univariate samples (any order, ties), all alpha, correction on or off",
  "Optimality quantifies over all C(n,h) subsets; the tests compare two numbers with R.",
  ["robpy/univariate/mcd.py"],
  [("sliding window over the sorted sample", "UnivariateMCD._get_raw_estimates"), ("reweighting", "UnivariateMCD._reweighting")],
  ["raw_location_", "raw_variance_", "location", "scale"])
p("C05", "Qn equals its order-statistic definition",
  "For every sample of size n >= 2, Qn's scale is the k-th smallest of the n(n-1)/2 pairwise absolute differences, k = h(h-1)/2 with h = [n/2]+1, multiplied by 2.219144 when consistency correction is on and by the documented small-sample factor (a table for n <= 9, n/(n+1.4) for odd and n/(n+3.8) for even n above) when finite correction is on. The location is location_func of the sample.",
  ["inputs", "configurations"], "all samples, including ties and all orderings; all four combinations of the corrections",
  "The O(n log n) search trims rows with weighted medians; its branches are reached only for particular samples, and the tests check a handful.",
  ["robpy/univariate/qn.py", "robpy/utils/median.py"],
  [("row trimming with weighted medians", "Qn._calculate"), ("weighted median", "weighted_median")], ["scale", "location"])
p("C06", "Tau, one-step M and wrapping estimators satisfy their defining formulas",
  "For every sample with positive MAD, Tau, OneStepM (with any rho functions and delta), HuberOneStepM, CellwiseOneStepM and OneStepWrapping return exactly the weighted mean and the scale of their published definitions, started from the median and MAD (from UnivariateMCD for OneStepWrapping), with their documented constants and weights. When the MAD is zero the location is finite and within the data range and the scale is 0, never NaN. The Huber and Tukey bisquare rho and psi functions and the wrapping transformation equal their piecewise definitions, are odd (psi) or even (rho), and are continuous where the definition is.",
  ["inputs", "configurations"], "all samples and all tuning constants; arguments on both sides of and exactly at every breakpoint",
  "The tests check one sample per estimator against R; breakpoints, sign handling and degenerate MAD are not reached.",
  ["robpy/univariate/tau.py", "robpy/univariate/onestep_m.py", "robpy/utils/rho.py", "robpy/preprocessing/utils.py"],
  [("weights and scale", "Tau._calculate, OneStepM._calculate, OneStepWrapping._calculate"), ("rho, psi", "TukeyBisquare, Huber"), ("wrapping", "wrapping_transformation")], ["location", "scale"])
p("C07", "Univariate estimators are location-scale equivariant and order-independent",
  "For every univariate estimator (UnivariateMCD, Qn, Tau, HuberOneStepM, CellwiseOneStepM, OneStepWrapping), fitting a*x+b instead of x (a != 0 of either sign, any b) gives location a*loc+b and scale |a|*scale up to rounding whenever the MAD is positive, and permuting the sample changes neither. With ignore_nan=True the NaNs are removed first, so estimates equal those on the remaining values.",
  ["inputs"], "all samples, all a != 0, all b, all permutations, any NaN placement",
  "The relation compares two runs; no test does, and a scale floor, an unsorted shortcut or an asymmetric tie rule breaks it only for particular units or orders.",
  ["robpy/univariate/base.py", "robpy/univariate/mcd.py", "robpy/univariate/qn.py", "robpy/univariate/tau.py", "robpy/univariate/onestep_m.py"],
  [("standardisation by median and MAD", "each _calculate"), ("sorting", "UnivariateMCD._get_raw_estimates, Qn._calculate")], ["location", "scale"])
p("C08", "Gross outliers cannot carry a robust estimator away",
  "Replacing part of a well-behaved (well-conditioned, light-tailed) sample by arbitrarily distant values leaves every robust estimate near the clean data: up to 40% for the univariate estimators, up to 25% of the rows (clustered or scattered, at any magnitude) for FastMCD, DetMCD, OGK, LTS, S and MM regression, ROBPCA and spherical PCA (its leading direction needs 10% or less), and cellwise up to 10% for CellMCD, wrapping covariance and DDC. Locations stay within a bounded distance of the clean centre, scales and covariances within a bounded factor of the clean ones, slopes near the true ones, and outlying rows get the largest robust distances.",
  ["inputs", "configurations"], "contamination fraction up to the stated share, any position, magnitude 10 to 1e6 clean standard deviations",
  "Robustness is a statement for every contamination; the tests use no contamination or one mild pattern.",
  ["robpy/univariate", "robpy/covariance", "robpy/regression", "robpy/pca"],
  [("half-sample concentration, bounded psi, reweighting", "mcd.py, lts.py, s.py, mm.py, onestep_m.py, robpca.py")], ["location_", "covariance_", "model.coef_", "components_"])
p("C09", "LTS regression is concentrated and its scale follows from the fit",
  "The raw LTS fit is the least-squares fit on its reported best h-subset, and that subset contains the h observations with the smallest squared residuals of that fit (a further C-step does not lower the h smallest squared residuals' sum by more than the tolerance), with a criterion no larger than the initial C-steps reach from any of the random elemental starts. The reported scale is the documented correction factor for (n, p, alpha) times the root mean of the h smallest squared residuals of the raw fit, and with reweighting the final model is least squares on exactly the observations whose absolute residual is at most the 98.75% normal quantile times that reported scale made consistent at the normal model (the truncated-normal factor for coverage h/n).",
  ["inputs", "configurations"], "all regression data in general position, all alpha, reweighting on or off",
  "Convergence and internal consistency range over all data; the tests compare a few coefficients with R.",
  ["robpy/regression/lts.py"],
  [("C-steps", "FastLTSRegression.fit"), ("correction factors", "get_correction_factor"), ("reweighting", "FastLTSRegression._reweight")], ["model", "best_h_subset", "scale"])
p("C10", "Robust regression is equivariant and recovers exact fits",
  "For LTS, S and MM regression, rescaling or shifting y (y -> c*y + X v + d) and rescaling or shifting each column of X transforms the fitted coefficients and predictions accordingly, for the identically seeded fit, and the reported scale is multiplied by |c|. When at least 75% of the observations lie exactly on a hyperplane (otherwise in general position, with enough random starts) the fit predicts that hyperplane whatever the others are, and predict(X) equals X coef_ + intercept_ for every X including a single row or rows with constant columns.",
  ["inputs"], "all data with a dominating exact linear part; all nonzero scalings and shifts; all prediction inputs",
  "The tests never compare a fit with its transform, never fit exact data with outliers, and predict only on the training matrix.",
  ["robpy/regression/base.py", "robpy/regression/lts.py", "robpy/regression/s.py", "robpy/regression/mm.py"],
  [("intercept handling and prediction", "RobustRegression.fit/predict, SRegression.predict, MMRegression.fit")], ["predict", "model.coef_", "model.intercept_"])
p("C11", "S- and MM-regression solve their estimating equations",
  "At the S-regression solution the reported scale solves mean(rho(r/s)) = b (by default half the maximum of the default rho, 0.1994) for its residuals r up to the convergence tolerance, is no larger than the M-scale of the least squares residuals, and the coefficients are stationary: they solve the weighted least squares equations with weights psi(r/s)/(r/s). At the MM solution the coefficients solve the weighted equations with the MM rho function and the scale of the initial estimator, that scale is the one reported, and the MM loss does not exceed the loss at the initial fit.",
  ["inputs", "configurations"], "all regression data in general position, all admissible tuning constants",
  "Stationarity is an equation at the returned point; tests compare numbers with loose tolerances on one dataset.",
  ["robpy/regression/s.py", "robpy/regression/mm.py", "robpy/utils/rho.py"],
  [("I-steps and scale iteration", "SRegression.fit"), ("IRLS", "MMRegression.fit")], ["model", "scale"])
p("C12", "DDC flags, predictions and imputations are mutually consistent",
  "After DDC.fit, predict on the training data reports the same cell flags, row flags and predictions, imputation changes exactly the flagged or missing cells (to the predicted value on the original scale, rounded to three decimals) and keeps every other cell, and labels and shape are preserved. Each step of the fit follows from the one before: robust location and scale per column, cells beyond the cutoff set aside, pairwise robust correlations and slopes, predictions as the correlation-weighted average over the other observed columns whose absolute correlation reaches min_correlation, deshrinkage, residual scales and standardised residuals; row flags compare the standardised mean chi-square level of a row with the cutoff. NaN and infinite cells are treated as missing: never flagged as outlying, always imputed with finite values, and the flag of an observed cell is determined by its standardised residual against the chi-square cutoff. Processing a row does not depend on which other rows are processed with it.",
  ["inputs", "histories"], "all data frames with missing, infinite and outlying cells; all batches",
  "The relation spans several calls and every cell; the tests check a few flagged cells of one dataset.",
  ["robpy/outliers/ddc.py"],
  [("cell and row flags", "DDC.fit, DDC.predict"), ("imputation", "DDC.impute")], ["cellwise_outliers_", "row_outliers_", "predict", "impute"])
p("C13", "CellMCD outputs describe one consistent cellwise model",
  "After CellMCD.fit, the weight matrix contains only 0 and 1, missing cells and cells more than 3 robust scales from the centre have weight 0, every column keeps at least h cells of weight 1, predictions are the conditional expectations of each cell given the row's other weight-1 cells under the reported location and covariance, conditional_stds are the matching conditional standard deviations, residuals are (data - prediction)/conditional_std divided by their robust column scale and missing exactly where the data are, and the imputed data equal the data at weight-1 cells and the prediction elsewhere. The covariance is symmetric positive definite with its smallest eigenvalue at least min_eigenvalue in standardised units. The weights, location and covariance are where the published C-steps (column-wise weights by penalised likelihood at the configured quantile, then one expectation-maximisation step) lead from the initial DDC-based estimate, and the penalised likelihood is never worse than at the start.",
  ["inputs", "configurations"], "all data with missing and outlying cells, all alpha and quantile choices",
  "The consistency spans all cells and several reported matrices; the tests compare a few entries with R.",
  ["robpy/covariance/cellmcd.py", "robpy/covariance/initial_ddcw.py", "robpy/covariance/utils/cellmcd_utils.py"],
  [("C-steps for W, mu and sigma", "CellMCD._update_W, CellMCD.calculate_covariance"), ("predictions", "CellMCD._predict")], ["W", "predictions", "residuals", "X_imputed", "covariance_"])
p("C14", "DataCleaner applies exactly its documented drop rules",
  "DataCleaner removes a column exactly when its content is non-numeric, it is discrete (at most min_unique_values distinct non-missing values), its MAD does not exceed min_abs_scale (these three decided at fit), it merely numbers the rows from 0, or its share of missing values is at least max_missing_frac_cols (decided on the frame being cleaned), and a row exactly when its share of missing values is at least max_missing_frac_rows, rows or columns first as clean_na_first says (automatic: columns first when p >= 5n), the second of the two counting only what the first left; infinities count as missing. Surviving cells, labels and their order are unchanged, the reported dropped columns and rows are exactly the removed ones, also with repeated index labels, too few rows raise ValueError, and transform gives the same answer for the same input whatever was transformed or fitted before.",
  ["inputs", "configurations", "histories"], "all data frames (mixed types, any missing pattern), all thresholds, both orders, repeated calls",
  "Each rule interacts with the others and with the order; tests check one frame per rule.",
  ["robpy/preprocessing/data_cleaner.py"],
  [("rules in sequence", "DataCleaner.fit, DataCleaner.transform")], ["transform", "dropped_columns", "cols_*", "rows_missings"])
p("C15", "Robust scaling and power transforms are monotone, invertible and stateless",
  "RobustScaler maps each column to (x-loc)/scale with its robust estimator's location and scale (or 0 and 1 when centering or scaling is off), for arrays, frames and vectors, and inverse_transform undoes it. RobustPowerTransformer (Box-Cox, Yeo-Johnson, or with 'auto' the one whose transformed data are closer to normality) standardises once, maps every value by the published formula with the fitted lambda, then standardises with the mean and standard deviation of the observations of weight 1; the fitted lambda maximises the likelihood of those observations, and the rectified transform behind the first weights continues the transform linearly beyond its changepoint. The map is strictly increasing and finite, the fit is independent of dtype, row order and earlier fits, and inverse_transform restores the data; Box-Cox on non-positive data and unknown methods raise ValueError.",
  ["inputs", "configurations", "histories"], "all columns (skewed either way, integer typed, extreme), all methods and options, repeated fits",
  "Round trips and monotonicity are statements about all values; tests check one column per method.",
  ["robpy/preprocessing/scaling.py", "robpy/preprocessing/transfo.py", "robpy/preprocessing/utils.py"],
  [("transform and inverse", "RobustScaler, RobustPowerTransformer")], ["transform", "inverse_transform", "lambda_rew"])
p("C16", "OGK, wrapping, Kendall and initial DDCW covariances equal their definitions",
  "OGK's location and covariance are those of the Maronna-Zamar construction with the given univariate location and scale functions and number of iterations, followed when requested by the mean and covariance of the observations whose distance is below sqrt(chi2_p(beta)/chi2_p(0.5)) times the median distance. WrappingCovariance's covariance and correlation are the classical ones of the column-wise wrapped data (standardised by median and MAD, rescaled back to mean = median and standard deviation = MAD), and KendallTau's correlation holds Kendall's tau-b of every pair with covariance tau*Qn_i*Qn_j. InitialDDCW's location and covariance follow from its DDC fit: columns with more than the allowed share of flagged cells keep only the quarter of most deviating observed cells flagged, flagged and missing cells are imputed, and the covariance is that of the data wrapped along their principal axes, turned into a correlation with eigenvalues of at least min_eigenvalue and rescaled, first without DDC's flagged rows and then without the cases whose standardised, clipped distance is outlying, in any units and with or without missing cells.",
  ["inputs", "configurations"], "all data, all p, iterations, options",
  "Tests compare one small matrix; pair indexing, iteration order and reweighting depend on p and options.",
  ["robpy/covariance/ogk.py", "robpy/covariance/wrapping.py", "robpy/covariance/kendall.py", "robpy/preprocessing/utils.py"],
  [("pairwise scales and eigenvectors", "OGK.calculate_covariance"), ("wrapping", "WrappingCovariance.calculate_covariance"), ("pairs", "KendallTau.calculate_covariance")], ["location_", "covariance_", "correlation_"])
p("C17", "Every fitted covariance estimator is a valid, self-consistent scatter model",
  "For every covariance estimator fitted on data in general position, covariance_ is a finite symmetric positive semi-definite p x p matrix with positive diagonal, precision_ is its (pseudo)inverse, correlations are 1 on the diagonal and within [-1, 1], n_features_in_ is p, and mahalanobis(X) and the reported robust and classical distances equal the distances computed from location_, covariance_ and the classical mean and covariance. Fitting a DataFrame gives exactly the estimates of its values, whatever its labels.",
  ["inputs", "configurations"], "all estimators, all n and p, arrays and frames with arbitrary index and columns",
  "No test checks validity of the outputs in general; a lost symmetry, a stale precision or label alignment only shows on other shapes or frames.",
  ["robpy/covariance/base.py", "robpy/covariance/mcd.py", "robpy/covariance/ogk.py", "robpy/covariance/wrapping.py", "robpy/covariance/kendall.py", "robpy/covariance/cellmcd.py"],
  [("common fit", "RobustCovariance.fit")], ["covariance_", "precision_", "location_", "mahalanobis"])
p("C18", "Covariance estimators are equivariant under permutation, shift and rescaling",
  "For every deterministic covariance estimator (DetMCD, OGK, wrapping, KendallTau, CellMCD) and for identically seeded FastMCD, permuting columns, shifting by a vector and rescaling columns by nonzero factors (CellMCD: up to its convergence tolerance and to borderline cells that hang on which of two equally complete columns is updated first) transforms location_ and covariance_ accordingly, and for the deterministic estimators permuting the rows changes nothing beyond rounding. FastMCD is moreover equivariant under nonsingular linear maps.",
  ["inputs"], "all data, all permutations, shifts, nonzero (also negative) scalings",
  "The relation compares pairs of runs; no test does.",
  ["robpy/covariance"],
  [("standardisation before and back-transformation after estimation", "DetMCD, OGK, WrappingCovariance, KendallTau, CellMCD")], ["location_", "covariance_"])
p("C19", "Fitting has no memory and instances do not interfere",
  "For every estimator and transformer, a fit depends only on the constructor parameters and the data of that call: refitting an object on new data gives the estimates of a fresh object, interleaving calls on several objects gives each the results it would have alone, read-only calls (predict, transform, properties) change no later result, and constructor parameters are the same after fit as before.",
  ["histories", "schedules"], "all sequences of construct/fit/transform/predict calls over several objects and datasets",
  "Tests use each object once; state that leaks between calls or shared defaults only shows in longer histories.",
  ["robpy/covariance", "robpy/regression", "robpy/outliers/ddc.py", "robpy/preprocessing", "robpy/pca", "robpy/univariate"],
  [("state set in fit only", "every fit method")], ["all fitted attributes, get_params"])
p("C20", "Seeded estimators are reproducible and independent of the global generator",
  "With random_seed given, FastMCD, LTS, S and MM regression, ROBPCA and stahel_donoho return identical results on every call whatever the state of numpy's global random generator, and their fits leave that global state unchanged; without a seed, repeated fits draw fresh randomness rather than a constant stream. Within one seeded call the drawn directions or subsets differ from each other, so the search does explore the requested number of candidates.",
  ["histories", "configurations"], "all seeds, all global generator states, all interleavings of seeded calls",
  "Tests fix a seed once per test and never perturb or inspect the global state.",
  ["robpy/covariance/mcd.py", "robpy/regression/lts.py", "robpy/regression/s.py", "robpy/pca/robpca.py", "robpy/utils/outlyingness.py"],
  [("per-fit Generator from random_seed", "np.random.default_rng(self.random_seed)")], ["estimates, np.random.get_state()"])
p("C21", "Caller data are never modified",
  "No public call (fit, predict, transform, inverse_transform, impute, score, plots, and the utility functions) changes the arrays or data frames passed to it: values, dtype, index, columns and flags are bit-for-bit the same afterwards, also when the call raises.",
  ["inputs", "histories"], "all public entry points, arrays (C/F order, int/float, views) and frames, with and without NaN",
  "Tests rarely look at their inputs after the call.",
  ["robpy"], [("copies before in-place operations", "every entry point")], ["the arguments after the call"])
p("C22", "Invalid or premature use is rejected, never answered",
  "Reading a result or calling predict, transform or a plot before fit raises an error naming the problem (NotFittedError, ValueError or AttributeError as documented), data with NaN given to estimators that do not support it raises ValueError, multivariate data given to univariate estimators raises ValueError, and parameter values outside the documented range raise ValueError; none of these returns a number. Estimators documented to support NaN accept it and return finite estimates.",
  ["inputs", "histories"], "all estimators, all call orders before fit, all placements of NaN, all invalid parameter values",
  "Tests check a few error paths only.",
  ["robpy/univariate/base.py", "robpy/covariance/base.py", "robpy/regression/base.py", "robpy/preprocessing", "robpy/outliers/ddc.py", "robpy/pca/base.py"],
  [("validation", "RobustScale.fit, RobustCovariance.fit, RobustRegression.fit, DDC.predict")], ["exception raised"])
p("C23", "Prediction and transformation act row by row",
  "For every fitted model, predict, transform and project, the scalers' and power transformers' inverse_transform, and mahalanobis on a set of rows give each row the same result as when it is processed alone, in any order, or together with any other rows, and results do not depend on the container (array or data frame). The data cleaner, whose rules are about whole columns of the table, is not meant.",
  ["inputs", "histories"], "all splits of a batch, single rows, permutations, repeated rows",
  "Tests apply models to the whole training matrix only.",
  ["robpy/regression", "robpy/preprocessing", "robpy/outliers/ddc.py", "robpy/pca/base.py", "robpy/covariance/base.py"],
  [("row-wise formulas", "predict/transform/project")], ["return values"])
p("C24", "Robust PCA yields an orthonormal basis and exact projections",
  "After fitting ROBPCA or spherical (Locantore) PCA, components_ (p x k) has orthonormal columns, explained_variance_ is non-negative with one entry per component (non-increasing for ROBPCA, the squared normalised MADs of the scores for spherical PCA), the reported ratio is the cumulated share the choice was made on, and n_components (or the smallest number whose cumulated share reaches k_min_var_explained) components are kept, at most the rank. transform(X) is (X-location_) components_ and project(X) is transform(X) components_^T, the centred projection. Spherical PCA is centred at the spatial median, its components are the eigenvectors of the covariance of the spatial signs, and the row order does not matter. ROBPCA follows its published stages: the max([alpha n], [(n+k+1)/2]) least outlying observations (k = 10 when chosen in fit) give a first subspace, the observations within the orthogonal-distance cutoff of it give the centre, components and variances, which FastMCD of the scores replaces when final_MCD_step is on.",
  ["inputs", "configurations"], "all data, n > p and n < p, all n_components and variance thresholds",
  "Tests only check shapes on one dataset.",
  ["robpy/pca/base.py", "robpy/pca/robpca.py", "robpy/pca/spca.py"],
  [("component selection and projection", "RobustPCA, ROBPCA.fit, PCALocantore.fit")], ["components_", "explained_variance_", "transform", "project"])
p("C25", "Adjusted boxplot statistics follow the medcouple rule",
  "For every data vector or table, adjusted_boxplot returns one box per column with the median and quartiles of that column, whiskers q1-1.5 e^{-4 MC} IQR and q3+1.5 e^{3 MC} IQR for MC >= 0 (e^{-3 MC}, e^{4 MC} otherwise) clipped to the data range, so lower whisker <= q1 <= median <= q3 <= upper whisker in ordinary use. Columns are treated independently, mirroring the data mirrors the box, and the drawn fliers are exactly the points beyond the whiskers, with the column labels.",
  ["inputs", "configurations"], "all vectors, series, frames and matrices; any skewness sign; plot on or off",
  "Tests check two samples.",
  ["robpy/univariate/adjusted_boxplot.py"],
  [("fences from the medcouple", "adjusted_boxplot")], ["returned Boxplot list", "Axes artists"])
p("C26", "Dataset loaders return complete, fresh, documented tables",
  "Every loader returns the documented number of rows and columns with documented column names and numeric content, the same on every call whatever the working directory or earlier mutation of a returned table, and as_frame / return_X_y style options change the container but not the values.",
  ["histories", "configurations"], "all loaders, all options, repeated calls with mutated results in between",
  "Tests load each dataset once.",
  ["robpy/datasets/base.py"], [("reading packaged files", "load_*")], ["returned Bunch / frame"])
p("C27", "Geometric helpers equal their mathematical definitions",
  "mahalanobis_distance equals sqrt((x-m)' S^-1 (x-m)) per row; weighted_median returns an element splitting the total weight in half; l1median returns a finite point minimising the sum of Euclidean distances even when iterates hit data points; inverse_submatrix equals the inverse of the submatrix; stahel_donoho's outlyingness is non-negative, invariant under shift and rescaling, never larger than the maximal standardised projection over all directions through pairs of points, and grows with more directions for one seed.",
  ["inputs"], "all data, weights, index sets, directions",
  "Tests check one example each or none.",
  ["robpy/utils/distance.py", "robpy/utils/median.py", "robpy/utils/general.py", "robpy/utils/outlyingness.py"],
  [("formulas", "the functions named")], ["return values"])
p("C28", "Diagnostic displays show the fitted quantities",
  "Every diagnostic (distance-distance plot, regression and PCA outlier maps, CellMCD plots, DDC cell maps) draws exactly the fitted quantities: one point per observation with the model's robust distances, residuals or orthogonal distances in order, cutoff lines at the documented chi-square or normal quantiles, and flagged points beyond them; returned data equal the drawn data. Drawing changes neither the model nor the data.",
  ["inputs", "configurations"], "all fitted models and data, all display options",
  "Tests only check that plotting does not raise.",
  ["robpy/covariance/base.py", "robpy/regression/base.py", "robpy/pca/base.py", "robpy/covariance/cellmcd.py", "robpy/outliers/ddc.py"],
  [("plot methods", "distance_distance_plot, outlier_map, plot_outlier_map, cell_MCD_plot, cellmap")], ["Axes artists, returned arrays"])

p("C29", "Estimator objects can be cloned, copied, reconfigured and scored",
  "fit returns the object itself. sklearn's clone of an estimator is unfitted and has the same parameters, set_params followed by fit equals constructing with those parameters, get_params returns what was given; deepcopy and a pickle round trip of an object, fitted or not, give an independent object with the same answers, and no later operation on one object changes what another answers. fit_transform equals fit followed by transform. The inherited answers agree with the object's own estimates: score of a regression is R squared of its predictions, score and error_norm of a covariance estimator are the Gaussian log-likelihood and the matrix distance of its location_ and covariance_, get_precision inverts covariance_, PCA inverse_transform maps scores to location_ + scores components_^T, and there is one output name per component.",
  ["histories", "configurations"], "all estimators, all interleavings of fit, read, set_params, clone, deepcopy and pickle over several objects",
  "Tests never clone, copy, pickle or reconfigure an estimator, nor score one.",
  ["robpy/covariance", "robpy/regression", "robpy/pca", "robpy/preprocessing", "robpy/univariate", "robpy/outliers/ddc.py"],
  [("parameters stored as given, state set in fit", "constructors and fit methods")], ["get_params, reads of every copy, score, error_norm, inverse_transform"])

p("C30", "Reporting never influences results",
  "What a fit computes does not depend on how much it reports: with any verbosity level (constructor or fit argument), with verbose progress on or off, and whatever handlers and levels the application gave to the loggers, the outcome, all estimates and predictions and the state of numpy's global generator are the same, and at a level above CRITICAL nothing is printed.",
  ["configurations", "inputs"], "all estimators with a verbosity or verbose option or a logger, all levels, all handler configurations, all data",
  "Tests never change the verbosity.",
  ["robpy/utils/logging.py", "robpy/covariance", "robpy/regression", "robpy/pca/robpca.py", "robpy/outliers/ddc.py", "robpy/preprocessing"],
  [("log statements and progress bars", "get_logger, self.logger, tqdm, verbose")], ["estimates, exceptions, printed output"])

p("C31", "The documented defaults hold for every caller",
  "An estimator, function or display used without some of its optional arguments behaves exactly as with the documented default values written out for them: the values can be read back, and all estimates, predictions, drawn numbers and errors are the same; arguments that are given leave the others at their defaults. This holds whatever other objects (made with or without arguments) were created, fitted, reconfigured or changed in place before, since no object shares a default estimator or rho function with another.",
  ["configurations", "histories"], "all estimators and functions with optional arguments, any one argument given, all histories of other objects, all data",
  "Tests use defaults on one object at a time and never compare them with explicit values.",
  ["robpy/covariance", "robpy/regression", "robpy/pca", "robpy/preprocessing", "robpy/univariate", "robpy/outliers", "robpy/utils", "robpy/datasets"],
  [("constructor and function signatures", "default arguments of all public callables")], ["get_params, attributes, estimates, drawn artists"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P))
