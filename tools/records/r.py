L, S, M, B, H = "robpy/regression/lts.py", "robpy/regression/s.py", "robpy/regression/mm.py", "robpy/regression/base.py", "robpy/utils/rho.py"
P("R01", "FastLTS returns a concentrated least trimmed squares fit, reweighted",
  "For every regression data set, coverage and search setting the reported best h-subset has h distinct rows, the raw coefficients are the least squares fit of exactly these rows, no other row has a smaller absolute residual, and the raw scale is the root mean squared residual of the subset times the small-sample factor. With reweighting, coefficients and scale are the least squares fit and root mean squared residual of the rows whose residual is within the 0.9875 normal quantile times the normal-consistent median absolute residual. Coverage 1 without reweighting is least squares. Predictions are the linear function of these coefficients.",
  ["inputs", "configurations"], "regression data (outliers, leverage points, dummies, units) x coverage, numbers of subsets, steps, best models x container",
  "Tests check a handful of predictions; optimality of the subset is a statement about every other row.",
  [L], [("C-steps and reweighting", L + ": FastLTSRegression.fit"), ("factors", L + ": get_correction_factor, get_correction_factor_reweighting")], "least squares by SVD on the reported subset, factors recomputed")
P("R02", "FastLTS finds the best fit its search can reach, and applies the right factors",
  "On small data sets, searching over all elemental starts reaches the smallest trimmed sum of squares reachable from any of them, and never reports less than the global minimum over all h-subsets. Given starting coefficients are followed by concentration steps to convergence. The small-sample factors are those of Pison, Van Aelst and Willems for every sample size, number of features and coverage, tend to 1 for large samples, and reject coverages outside [0.5, 1].",
  ["inputs", "configurations"], "data small enough to enumerate all subsets; given starting coefficients x step counts; sample size x features x coverage",
  "Tests compare one loss; a suboptimal search goes unnoticed because any reasonable fit passes.",
  [L], [("search", L + ": FastLTSRegression.fit, _get_initial_models, _apply_C_steps"), ("factors", L + ": get_correction_factor")], "exhaustive enumeration of subsets; the published formula")
P("R03", "S-regression is a fixed point minimising the M-scale of its residuals",
  "For every regression data set, loss constant, number of scale iterations and search setting, with or without intercept, the reported scale is the M-scale (with the requested iterations) of the residuals at the reported coefficients, these coefficients are the weighted least squares fit for their own Tukey weights, and no other starting point leads to a clearly smaller scale. Iterations end even when a step fits the majority exactly or the scale tolerance is coarse for the units, and have converged to the requested relative tolerance otherwise.",
  ["inputs", "configurations"], "regression data x loss constant x scale iterations x search options x intercept x container",
  "Tests check one prediction.", [S, H], [("i-steps and scale", S + ": SRegression._i_step, _get_scale, fit"), ("loss", H + ": TukeyBisquare")], "independent reweighting step and M-scale iteration; alternative starts")
P("R04", "MM-regression converges to the weighted fit for the initial scale",
  "For every regression data set, initial estimator, loss and iteration limit, the MM fit is the result of iterating weighted least squares with intercept from the initial fit, with weights psi(u)/u at the residuals over the initial scale, until the residuals no longer change relative to the scale or the limit is reached; the scale is that of the initial estimator, the objective is not larger than at the initial fit, and the number of iterations reported is the number made.",
  ["inputs", "configurations"], "regression data x initial estimator (S, S with other loss, LTS) x loss (Tukey, Huber) x limits x container",
  "Tests check one prediction; convergence and units are invisible to them.", [M, H, S], [("iterations", M + ": MMRegression.fit")], "an independent iteration from the same initial fit")
P("R05", "Regression estimates are regression, scale and affine equivariant",
  "For every regression data set and every estimator (LTS with and without reweighting, S, MM): adding a linear function of the features to the response, changing its unit or sign, or mapping the features by a nonsingular affine map changes fitted values and scale accordingly, for units from 1e-6 to 1e6; two fits with the same seed are identical whatever numpy's global generator was used for between them.",
  ["inputs", "histories"], "regression data x estimator x transformation", "Relations between fits are not tested; absolute tolerances hide at the unit tested.",
  [L, S, M], [("fits", L + ": FastLTSRegression.fit; " + S + ": SRegression.fit; " + M + ": MMRegression.fit")], "equivariance relations")
P("R06", "Robust regression recovers the majority's hyperplane under contamination",
  "With up to 30% vertical outliers or bad leverage points, however far, coefficients and scale of LTS, S and MM stay close to those of the regular observations, which keep small residuals; when the regular observations lie exactly on a hyperplane, it is returned exactly with scale zero, in any unit.",
  ["fault_sequences", "inputs"], "observations around, or exactly on, a known hyperplane x share, kind and distance of outliers x estimator", "Tests use one mildly contaminated data set.",
  [L, S, M], [("fits", L + ": FastLTSRegression.fit; " + S + ": SRegression.fit, _i_step; " + M + ": MMRegression.fit")], "the known hyperplane and outliers")
P("R07", "Predictions depend only on the model's own last fit and the given rows",
  "For every estimator, predicting or asking for the scale before fitting is an error; predictions for any new rows - one or many, constant columns, array or data frame - are the fitted linear function row by row; score is R squared. Refitting gives what a fresh estimator gives, and in any sequence of fits on several estimators, also with a shared or default initial estimator, no fit changes another model's predictions or scale.",
  ["inputs", "histories"], "estimator x container x new rows x refits; sequences of fits and predictions on three MM estimators", "Tests never fit two models or predict a single row.",
  [L, S, M, B], [("prediction", S + ": SRegression.predict; " + L + ": FastLTSRegression.predict; " + M + ": MMRegression.predict"), ("shared default", M + ": MMRegression.__init__, fit")], "a fresh estimator per fit; the linear function")
P("R08", "The regression outlier map shows the residuals and robust distances",
  "For every fitted estimator, data in any container and every choice of scaling, distance and thresholds, the outlier map's data are the residuals, the residuals over their robust (or classical) scale, the robust (or classical) distances of the features, the residual threshold and the chi-square leverage threshold, and these are the points and lines drawn.",
  ["inputs", "configurations"], "estimator x container x options", "Tests only call it.", [B], [("outlier map", B + ": RobustRegression.outlier_map")], "recomputed residuals, scales and distances; the drawn artists")
