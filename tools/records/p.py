T = "robpy/preprocessing/transfo.py"
P("P01", "RobustScaler standardises each column by its robust location and scale",
  "For every numeric array, vector or data frame - any units, ties, outliers - and every univariate scale estimator, the scaler subtracts the estimator's location and divides by its scale column by column, leaves out whichever of the two is switched off, lets missing cells pass through, inverts its own transformation to rounding, and forgets an earlier fit. Data with missing cells are refused unless ignore_nan is set, and then fitted on the observed cells. The input is never changed.",
  ["inputs", "configurations", "histories"], "n x p data of any container x 6 scale estimators x switches x missing cells x refits",
  "Tests standardise a handful of fixed arrays; the formula must hold for every column, estimator and switch.",
  ["robpy/preprocessing/scaling.py"], [("scaler", "robpy/preprocessing/scaling.py: RobustScaler")], "the estimators refitted column by column and the inverse relation")
P("P02", "Power transformations follow their formulas and are inverted exactly",
  "For every sample and every lambda - including 0, 1, 2 and values next to them - RobustPowerTransformer applies the Box-Cox or Yeo-Johnson formula to the (optionally standardised) data, the result is standardised by the reported location and scale, is increasing in the data, and inverse_transform returns the original values to the accuracy the numbers allow. Values outside the range of the transformation are moved to 0.95 of the bound before inverting, so the result is always finite.",
  ["inputs", "configurations"], "samples of 7 shapes and 13 magnitudes x both transformations x any lambda x transformed values outside the range",
  "Tests round-trip a few samples with their fitted lambda; special and extreme lambdas, and values out of range, are not reached.",
  [T], [("formulas", T + ": _transf_boxcox, _transf_yeojohnson"), ("inverses", T + ": _inv_transf_boxcox, _inv_transf_yeojohnson, _handle_bounds")], "the textbook formulas and the round trip")
P("P03", "The power parameter is the reweighted maximum likelihood estimate",
  "For every sample, quantile, number of steps and search range, lambda is the published estimate: the minimiser of the robust normality criterion of the rectified transformation, followed by the given number of reweighted maximum likelihood steps on the observations within the cutoff, in a range widened while the optimum lies at its edge. It does not depend on the units (Yeo-Johnson: nor on the origin) nor the order of the data, 'auto' picks the transformation with the smaller criterion, and outliers do not drive it away from the transformation of the regular observations. Box-Cox refuses data that are not strictly positive; unknown methods are refused.",
  ["inputs", "configurations", "fault_sequences"], "samples x methods x options x units x outlier share and distance",
  "Tests compare a few lambdas with fixed numbers; the estimate is an optimum that must be right for every sample.",
  [T], [("criterion", T + ": _robnormality, _calculate_lambda_0"), ("rectified transforms", T + ": _transf_boxcox_rectified, _transf_yeojohnson_rectified"), ("reweighting", T + ": _reweighted_max_likelihood_robust"), ("choice", T + ": fit, _get_method")],
  "an independent implementation of the published estimator and invariance relations")
P("P04", "DataCleaner drops exactly the columns and rows its rules name",
  "For every data frame - any column types, index, share of missing or infinite cells - and every threshold, the cleaner drops exactly the non-numeric columns, those with at most min_unique_values distinct values, those whose scale is too small, the row-number columns, and the rows and columns with too large a share of missing cells, in the configured order; it reports each under the right heading and changes no other cell, label or order. What it reports after a transform depends on the fitted frame and the transformed frame only, not on transforms before; too few rows and unknown options are refused, and the input is unchanged.",
  ["inputs", "configurations", "histories"], "frames mixing 19 kinds of columns, 4 kinds of index, all thresholds; sequences of transforms",
  "Tests clean a handful of frames; combinations of column kinds, thresholds and repeated transforms are not sampled.",
  ["robpy/preprocessing/data_cleaner.py"], [("cleaning", "robpy/preprocessing/data_cleaner.py: DataCleaner.fit, transform")], "a rule-by-rule reference cleaner working on plain lists")
P("P05", "Wrapping bounds outlying cells and keeps location and scale",
  "For every data matrix, pair of wrapping constants and location and scale estimators, wrapping leaves standardised cells below b unchanged, bends those between b and c by the tanh part, puts those beyond c at the location, and treats columns of zero scale as having unit scale without producing missing values; rescaled data have exactly the estimated location as mean and the scale as standard deviation.",
  ["inputs", "configurations"], "n x p data x constants x estimators x zero-scale columns", "Tests wrap one fixed matrix.",
  ["robpy/preprocessing/utils.py"], [("wrapping", "robpy/preprocessing/utils.py: wrapping_transformation")], "the wrapping function evaluated cell by cell")
