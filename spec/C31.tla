--------------------------------- MODULE C31 ---------------------------------
(* The documented defaults. Doc(cls): the optional arguments with their        *)
(* documented values and another admissible value. A history creates, changes  *)
(* and fits other objects; then an object is made with the arguments `give`    *)
(* only (0: none), and compared with one made in a fresh process with every    *)
(* argument written out. had[k]: argument k can be read back; def[k], exp[k]:  *)
(* its value in the two objects; v0, v1: everything that can be read.          *)
EXTENDS Stats, GenKit
BT == <<"True", "False">>
Doc(c) ==
  CASE c = "umcd" -> << <<"alpha", "None", "0.8">>, <<"consistency_correction", "True", "False">> >>
    [] c = "tau" -> << <<"c1", "4.5", "4.0">>, <<"c2", "3.0", "2.5">>, <<"consistency_correction", "True", "False">> >>
    [] c = "qn" -> << <<"location_func", "np.median", "np.mean">>, <<"consistency_correction", "True", "False">>, <<"finite_correction", "True", "False">> >>
    [] c = "onestep" -> << <<"min_abs_scale", "1e-12", "1e3">> >>
    [] c = "fast" -> << <<"alpha", "None", "0.8">>, <<"n_initial_subsets", "500", "7">>, <<"n_initial_c_steps", "2", "1">>, <<"n_best_subsets", "10", "1">>,
                        <<"n_partitions", "None", "2">>, <<"tolerance", "1e-8", "0.3">>, <<"correct_covariance", "True", "False">>, <<"reweighting", "True", "False">>,
                        <<"store_precision", "True", "False">>, <<"assume_centered", "False", "False">> >>
    [] c = "fastbig" -> << <<"n_partitions", "5", "3">> >>
    [] c = "fastmid" -> << <<"n_partitions", "1", "2">> >>
    [] c = "det" -> << <<"alpha", "None", "0.8">>, <<"tolerance", "1e-8", "0.3">>, <<"correct_covariance", "True", "False">>, <<"reweighting", "True", "False">> >>
    [] c = "ogk" -> << <<"store_precision", "True", "False">>, <<"assume_centered", "False", "False">>, <<"location_estimator", "np.median", "np.mean">>,
                       <<"scale_estimator", "median_abs_deviation", "np.std">>, <<"n_iterations", "2", "1">>, <<"reweighting", "False", "True">>, <<"reweighting_beta", "0.9", "0.8">> >>
    [] c = "wrap" -> << <<"b", "1.5", "1.4">>, <<"c", "4.0", "4.1">>, <<"q1", "1.540793", "1.5">>, <<"q2", "0.8622731", "0.9">>, <<"store_precision", "True", "False">>, <<"assume_centered", "False", "True">> >>
    [] c = "cell" -> << <<"alpha", "0.75", "0.6">>, <<"quantile", "0.99", "0.9">>, <<"crit", "1e-4", "0.1">>, <<"max_c_steps", "100", "1">>, <<"min_eigenvalue", "1e-4", "0.01">> >>
    [] c = "ddcw" -> << <<"alpha", "0.75", "0.6">>, <<"min_eigenvalue", "1e-4", "0.01">> >>
    [] c = "lts" -> << <<"alpha", "0.5", "0.7">>, <<"n_initial_subsets", "500", "7">>, <<"n_initial_c_steps", "2", "1">>, <<"n_best_models", "10", "1">>, <<"reweighting", "True", "False">>,
                       <<"tolerance", "1e-15", "0.3">>, <<"random_state", "42", "7">> >>
    [] c = "s" -> << <<"rho", "TukeyBisquare(c=1.547)", "TukeyBisquare(c=2.0)">>, <<"n_initial_subsets", "500", "7">>, <<"n_initial_i_steps", "2", "1">>, <<"n_best_subsets", "5", "1">>, <<"max_scale_iterations", "2", "4">>,
                     <<"b", "0.1994", "0.15">>, <<"fit_intercept", "True", "False">>, <<"relative_tolerance", "1e-7", "0.1">>, <<"scale_tolerance", "1e-10", "0.1">>, <<"random_state", "101", "7">> >>
    [] c = "mm" -> << <<"initial_estimator", "SRegression()", "SRegression(n_initial_subsets=9)">>, <<"rho", "TukeyBisquare(c=3.44)", "TukeyBisquare(c=4.6)">>, <<"max_iterations", "500", "1">>, <<"epsilon", "1e-7", "0.5">> >>
    [] c = "robpca" -> << <<"n_components", "None", "2">>, <<"k_min_var_explained", "0.8", "0.6">>, <<"alpha", "0.75", "0.5">>, <<"final_MCD_step", "True", "False">> >>
    [] c = "loc" -> << <<"n_components", "None", "2">>, <<"k_min_var_explained", "0.8", "0.6">> >>
    [] c = "scaler" -> << <<"scale_estimator", "UnivariateMCD()", "Tau()">>, <<"with_centering", "True", "False">>, <<"with_scaling", "True", "False">> >>
    [] c = "yj" -> << <<"method", "'yeojohnson'", "'auto'">>, <<"standardize", "True", "False">>, <<"lambda_range", "(-4.0, 6.0)", "(0.0, 1.5)">>, <<"quantile", "0.99", "0.8">>, <<"nsteps", "2", "1">> >>
    [] c = "ddc" -> << <<"chi2_quantile", "0.99", "0.9">>, <<"min_correlation", "0.5", "0.8">>, <<"scale_estimator", "CellwiseOneStepM()", "Qn()">> >>
    [] c = "clean" -> << <<"max_missing_frac_cols", "0.5", "0.1">>, <<"max_missing_frac_rows", "0.5", "0.1">>, <<"min_unique_values", "3", "4">>, <<"min_abs_scale", "1e-12", "1e-2">>,
                         <<"clean_na_first", "'automatic'", "'columns'">>, <<"min_n_rows", "3", "5">> >>
    [] c = "tukey" -> << <<"c", "1.56", "3.0">> >>
    [] c = "huber" -> << <<"b", "1.5", "2.5">> >>
    [] c = "wrapfn" -> << <<"b", "1.5", "1.4">>, <<"c", "4.0", "4.1">>, <<"q1", "1.540793", "1.5">>, <<"q2", "0.8622731", "0.9">>, <<"rescale", "True", "False">>,
                          <<"location_estimator", "np.median", "np.mean">>, <<"scale_estimator", "median_abs_deviation", "np.std">> >>
    [] c = "stahel" -> << <<"n_points", "2", "3">>, <<"n_dir", "250", "20">> >>
    [] c = "ltsfit" -> << <<"initial_weights", "None", "None">>, <<"verbosity", "20", "40">> >>
    [] c = "ddcfit" -> << <<"y", "None", "None">>, <<"verbose", "False", "False">> >>
    [] c = "ddcpredict" -> << <<"rowwise", "False", "True">> >>
    [] c = "ddcimpute" -> << <<"impute_outliers", "True", "False">> >>
    [] c = "scalerfit" -> << <<"ignore_nan", "False", "True">> >>
    [] c = "unifit" -> << <<"ignore_nan", "False", "True">> >>
    [] c = "ddplot" -> << <<"chi2_percentile", "0.975", "0.9">> >>
    [] c = "regplot" -> << <<"robust_scaling", "True", "False">>, <<"robust_distance", "True", "False">>, <<"vertical_outlier_threshold", "2.5", "2.0">>, <<"leverage_threshold_percentile", "0.975", "0.9">> >>
    [] c = "cellplot" -> << <<"plottype", "'indexplot'", "'residuals_vs_variable'">>, <<"annotation_quantile", "None", "0.9">> >>
    [] c = "cellmap" -> << <<"standardized_residuals", "None", "None">>, <<"annotate", "False", "True">>, <<"row_zoom", "None", "None">>, <<"col_zoom", "None", "None">> >>
    [] c = "abox" -> << <<"plot", "True", "False">> >>
    [] c = "data" -> << <<"as_frame", "False", "True">> >>
Objs == {"umcd", "tau", "qn", "onestep", "fast", "det", "ogk", "wrap", "lts", "robpca", "loc", "scaler", "yj", "clean", "tukey", "huber", "ddc", "ddcw"}
Regs == {"s", "mm", "cell"}
Funs == {"wrapfn", "stahel", "ltsfit", "ddcfit", "ddcpredict", "ddcimpute", "scalerfit", "unifit", "ddplot", "regplot", "cellmap", "abox", "data"}
Hist == {"none", "changed", "fitted", "fitchanged", "explicit"}
Give(c) == 0..Len(Doc(c))
C(cs, h, data, n) == UNION {{[cls |-> c, hist |-> k, give |-> g, data |-> d, n |-> m, p |-> 3, doc |-> Doc(c)] : k \in h, g \in Give(c), d \in data, m \in n} : c \in cs}
Cases == << Pick(Size(220, 2500), C(Objs, Hist, {"normal", "rows15", "cells", "heavy"}, {17, 40})),
            Pick(Size(10, 120), C(Regs, Hist, {"normal", "rows15"}, {40})),
            Pick(Size(2, 12), C({"fastbig"}, {"none", "fitted"}, {"normal"}, {601, 640})), Pick(Size(2, 12), C({"fastmid"}, {"none", "fitted"}, {"normal"}, {599, 600})),
            Pick(Size(80, 600), C(Funs, {"none", "fitted", "explicit"}, {"normal", "rows15", "cells"}, {17, 40})),
            Pick(Size(4, 24), C({"cellplot"}, {"none"}, {"normal", "cells"}, {40})) >>
Judge(r) ==
  LET ok == r.st = "ok" K == 1..Len(r.case.doc) IN
  << Cl("Returns", TRUE, ok),
     Cl("DocumentedValues", ok, \A k \in K : r.had[k] => r["def"][k] = r["exp"][k]),
     Cl("SameOutcome", ok, r.st0 = r.st1),
     Cl("SameAnswers", ok, r.st0 = r.st1 => (Len(r.v0) = Len(r.v1) /\ VClose(r.v0, r.v1, R("1e-10"), R("1e-12")))) >>
=============================================================================
