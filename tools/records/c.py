C = "robpy/covariance/"
P("C01", "Every covariance estimator honours the common estimator contract",
  "For every valid data matrix, given as array or data frame, each covariance estimator returns itself from fitting and exposes a finite location vector, a symmetric positive semi-definite covariance, its inverse as precision (not stored when so configured), a correlation matrix consistent with the covariance only when it estimates one, and squared Mahalanobis distances that follow from that location and covariance. Its distance-distance plot shows every observation at (classical, robust) distance from the fitted centre with cutoffs at the square root of the requested chi-square quantile. Accessing results before fitting raises the not-fitted (or attribute) error and missing, infinite or one-dimensional data raise ValueError.",
  ["inputs", "configurations"], "all estimators, n x p data with 1 <= p, both containers, precision storage on and off",
  "Tests check shapes on fixed data; the identities must hold for every data set and every estimator.",
  [C + "base.py"], [("fit template", C + "base.py: RobustCovariance.fit"), ("plot", C + "base.py: distance_distance_plot")],
  "recomputed inverses, distances and plotted coordinates")
P("C02", "Covariance estimators are equivariant under their transformation group",
  "Under any non-singular affine map of the data (same seed, up to the resolution of exact distance ties inside the random elemental subsets), FastMCD's location and covariance transform accordingly. DetMCD, OGK, Kendall's tau and the wrapping covariance transform accordingly under column-wise changes of location, scale, sign and order and do not depend on the order of the rows, and Kendall's correlation is unchanged by increasing transformations of the columns.",
  ["inputs", "configurations"], "all data sets, affine maps / column-wise maps / permutations, raw and reweighted estimates",
  "A relation between two runs on related inputs, which no test samples.",
  [C + "mcd.py", C + "ogk.py", C + "kendall.py", C + "wrapping.py"], [("estimators", C + "base.py: RobustCovariance.fit")],
  "the equivariance relation")
P("C03", "FastMCD returns a converged, near-optimal h-subset for every setting",
  "For every data set, subset size (default, integer, proportion; never below [(n+p+1)/2]), number of partitions, of starts and of best subsets, the raw FastMCD location and covariance are the mean and covariance of exactly the h observations closest to them in that metric (up to the configured determinant tolerance), also when the search was partitioned. On small data sets its determinant is (near-)minimal over all h-subsets, on larger ones it is not beaten by C-steps from the classical estimate and its h-subset excludes gross outliers, and a fixed seed reproduces the result exactly.",
  ["inputs", "configurations"], "n x p data including contaminated, all alpha forms, partitions, tolerance, seeds; exhaustive subsets for n <= 11",
  "Tests compare a few fixed data sets; convergence and optimality are universally quantified over data and algorithm settings.",
  [C + "mcd.py"], [("C-step", C + "mcd.py: FastMCD._perform_c_step"), ("h", C + "mcd.py: FastMCD._get_h"), ("selection of best subsets", C + "mcd.py: FastMCD.calculate_covariance"), ("partitions", C + "mcd.py: _partition_data")],
  "the C-step fixed-point condition and exhaustive enumeration of h-subsets")
P("C04", "DetMCD equals the best of its six deterministic starts",
  "For every data set and subset size, the raw DetMCD estimate is the one with smallest determinant among the C-step limits of the six initial estimates of the literature (hyperbolic tangent, ranks, normal scores, spatial signs, the half with smallest norm, OGK with Qn) on data standardised by median and Qn (tau scale from 1000 observations on). It is a C-step fixed point, contains no randomness, and does not depend on the order of the observations.",
  ["inputs", "configurations"], "n x p data including contaminated, all alpha forms, n on both sides of 1000",
  "Tests compare one data set with R; the minimum over starts depends on the data.",
  [C + "mcd.py", C + "ogk.py"], [("initial estimates", C + "mcd.py: DetMCD._get_initial_best_subsets"), ("C-steps", C + "mcd.py: DetMCD.calculate_covariance")],
  "an independent re-implementation of the six starts with C-steps")
P("C05", "MCD corrections and reweighting follow their formulas and are consistent",
  "For both MCD estimators and every data set, the consistency correction multiplies the raw covariance by the median squared distance over the chi-square median; reweighting takes mean and covariance of the observations whose squared distance is below the 0.975 chi-square quantile, times 0.975/F(chi2_{p+2}) when correcting, and each option works alone and together. A subset size of 1 (or n) gives the classical mean and covariance, inadmissible sizes raise ValueError, and on clean normal data the estimates approach the true location and scatter.",
  ["inputs", "configurations"], "n x p data, all four combinations of the two options, all admissible and inadmissible alpha",
  "Tests only exercise the default combination on fixed data.",
  [C + "mcd.py"], [("correction", C + "mcd.py: _correct_covariance"), ("reweighting", C + "mcd.py: calculate_covariance")],
  "closed-form post-processing applied to the raw fit")
P("C06", "OGK follows the orthogonalised Gnanadesikan-Kettenring construction",
  "For every data set, scale and location function and number of iterations, the OGK covariance and location equal those of the published construction: pairwise correlations from scales of sums and differences of the scaled columns, projection on their eigenvectors, repeated, and mapped back through every iteration. Reweighting replaces them by mean and covariance of the observations whose distance is below the median distance times the square root of the ratio of the requested chi-square quantile to the chi-square median.",
  ["inputs", "configurations"], "n x p data, scale functions (MAD, Qn, IQR, standard deviation), 1-3 iterations, reweighting quantiles",
  "One fixed data set is tested; iteration order and back-transformation errors only show for particular settings.",
  [C + "ogk.py"], [("iterations and back-transformation", C + "ogk.py: OGK.calculate_covariance")], "an independent re-implementation")
P("C07", "Kendall covariance is tau-b correlation times Qn scales",
  "For every data set, with or without ties, the Kendall estimator's correlation is the matrix of pairwise tau-b coefficients with unit diagonal, its covariance is that correlation times the Qn scales of both columns, and its location is the column mean.",
  ["inputs"], "n x p data with and without ties", "One example is tested.", [C + "kendall.py"], [("pairwise tau", C + "kendall.py: KendallTau.calculate_covariance")],
  "brute-force concordance counts and the brute-force Qn")
P("C08", "Wrapping covariance is the covariance of the wrapped data",
  "For every data set and tuning constants, the wrapping estimator's covariance and correlation are the classical ones of the data whose columns were standardised by median and MAD, wrapped (linear, tanh, zero), restandardised and put back on the original location and scale. Its location is the column mean, or zero when the data are declared centred.",
  ["inputs", "configurations"], "n x p data, tuning constants, centred or not", "Only shapes and one example are tested.",
  [C + "wrapping.py", "robpy/preprocessing/utils.py"], [("wrapping", "robpy/preprocessing/utils.py: wrapping_transformation"), ("covariance", C + "wrapping.py: WrappingCovariance.calculate_covariance")],
  "an independent re-implementation")
P("C09", "Robust covariance estimators resist gross contamination",
  "When up to a quarter of the rows (or one cell in each of them) of clean elliptical data are replaced by far outliers - clustered, identical, scattered, at any distance and in any units - both MCD estimators and OGK keep location and all eigenvalues of the standardised scatter within fixed bounds of the clean values, both MCD estimators flag every gross outlier and keep most regular observations, and the Kendall and wrapping covariances stay bounded and non-degenerate.",
  ["inputs", "fault_sequences"], "clean samples x contamination fraction <= 0.25 x configuration of the outliers x distance x units",
  "Robustness is a worst-case statement over contaminations; tests use one or two.",
  [C + "mcd.py", C + "ogk.py", C + "wrapping.py", C + "kendall.py"], [("trimming / bounded transformations", C)], "the known clean scatter")
P("C12", "Matrix helpers agree with direct linear algebra",
  "For every positive definite matrix, index set, data set and floor: the submatrix inverse obtained from a full inverse equals the directly computed one, raising the eigenvalues to a floor changes only the eigenvalues below it, converting to correlation divides by the standard deviations, and Mahalanobis distances equal the square root of the quadratic form for arrays and data frames. No argument is modified.",
  ["inputs"], "positive definite matrices up to 7x7, any index set and floor", "Only Mahalanobis distances have tests.",
  ["robpy/utils/general.py", "robpy/utils/distance.py", C + "utils/alter_covariance.py"],
  [("submatrix inverse", "robpy/utils/general.py: inverse_submatrix"), ("distances", "robpy/utils/distance.py: mahalanobis_distance"), ("eigenvalue floor", C + "utils/alter_covariance.py: truncated_covariance")],
  "direct numpy computations")
