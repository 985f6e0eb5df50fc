U = "robpy/univariate/"
P("U01", "Qn equals its order-statistic definition",
  "For every sample of at least two numbers, the Qn scale is the k-th smallest of all pairwise absolute differences, k = C([n/2]+1, 2), times the published small-sample factor (when finite correction is on) and times 2.219144 (when consistency correction is on). The fast algorithm terminates and agrees with that definition whatever the ties, magnitudes or outliers in the data, and the location is the supplied location function of the sample.",
  ["inputs", "configurations"], "all samples of n >= 2 finite numbers, all settings of the two corrections and the location function",
  "The tests compare a few fixed samples with R; the selection algorithm's bookkeeping (ties, rounding, parity of n) depends on the data.",
  [U + "qn.py", "robpy/utils/median.py"],
  [("O(n log n) selection of the k-th pairwise difference", U + "qn.py: Qn._calculate"), ("small-sample factors", U + "qn.py: _get_small_sample_dn"), ("weighted median pivot", "robpy/utils/median.py: weighted_median")],
  "the brute-force k-th order statistic of all pairwise differences")
P("U02", "Univariate MCD is the best contiguous half with documented corrections",
  "For every sample and admissible subset size (none, an integer between n/2 and n, or a proportion between 0.5 and 1; never below [n/2]+1), the raw univariate MCD location and variance are the mean and variance of an h-subset whose variance is smallest among all h-subsets, the variance being multiplied by the normal-consistency factor for h/n when correction is on. The final estimates are the mean and (corrected for the retained fraction) variance of the observations whose squared standardised distance to the raw estimates is below the 0.975 chi-square quantile; with h = n they are the plain mean and standard deviation, and with h coinciding observations that value and zero.",
  ["inputs", "configurations"], "all samples of n >= 2 numbers, all documented forms of alpha, both correction settings",
  "Tests fix a handful of samples and alphas; minimality over all subsets quantifies over every sample and every h.",
  [U + "mcd.py"],
  [("h from alpha", U + "mcd.py: _set_h_size"), ("scan over contiguous windows", U + "mcd.py: _get_raw_estimates"), ("reweighting", U + "mcd.py: _reweighting")],
  "an exhaustive search over subsets (n<=10) and over contiguous windows, and closed-form corrections")
P("U03", "Tau and one-step M-estimators follow their closed formulas",
  "For every sample, the tau estimator, the Huber and cellwise one-step M-estimators (and any one-step estimator built from a loss pair, consistency factor and minimum scale) and the wrapping one-step estimator return exactly the location and scale of their published formulas: weights and loss evaluated at residuals from the median (or univariate MCD) standardised by the MAD, with the stated tuning constants and consistency factor at the normal model. Degenerate samples give the documented fallback (median and zero scale for tau, unit standardisation and zero scale below the minimum scale for one-step estimators) instead of NaN.",
  ["inputs", "configurations"], "all samples of finite numbers and all tuning constants",
  "Only tau and one univariate estimator have example tests; formulas must hold for each sample including those with zero weights, ties and zero MAD.",
  [U + "tau.py", U + "onestep_m.py"],
  [("tau weights and rho", U + "tau.py: Tau._calculate"), ("one-step location and scale", U + "onestep_m.py: OneStepM._calculate"), ("tanh weights", U + "onestep_m.py: OneStepWrapping._tanh_weights")],
  "closed-form re-computations written from the papers")
P("U04", "Univariate estimators are affine equivariant and order independent",
  "For every univariate estimator, replacing the sample by a*x+b (a nonzero, any sign) and reordering it changes the location to a*location+b and the scale to |a|*scale. Nothing else about units, sign or order of the observations influences the result.",
  ["inputs"], "all samples without exact ties in the selection step, all a != 0, b, all permutations",
  "A metamorphic relation over pairs of inputs; the tests contain no such pairs.",
  [U + "qn.py", U + "mcd.py", U + "tau.py", U + "onestep_m.py"],
  [("estimators", U + "base.py: RobustScale.fit")], "the affine/permutation metamorphic relation")
P("U05", "Univariate estimators resist any contamination up to their breakdown point",
  "If at most n-h observations (h = [n/2]+1, or the chosen subset size) of a sample of distinct values are replaced by arbitrary values however large or clustered, every univariate estimator's location stays within (for the monotone Huber step: within a fixed multiple of) the range of the remaining observations, and its scale neither exceeds a fixed multiple of that range nor collapses to zero. On clean normal data the corrected scales estimate the standard deviation.",
  ["inputs", "fault_sequences"], "all clean samples, all replaced fractions up to (n-h)/n, all positions and magnitudes of the replacements",
  "Breakdown is a worst-case statement over all replacements; tests only use fixed samples.",
  [U + "qn.py", U + "mcd.py", U + "tau.py", U + "onestep_m.py"],
  [("bounded psi / trimming", U), ("fit", U + "base.py: RobustScale.fit")], "the range of the uncontaminated observations")
P("U06", "Univariate estimators validate input and never mix in old fits",
  "Fitting data with missing values is rejected with ValueError unless ignoring them is requested, in which case the result is exactly that of the sample without them; arrays that are not one-dimensional and inadmissible subset sizes are rejected with ValueError. Reading location or scale before a successful fit raises the not-fitted error, fitting returns the estimator and leaves the data unchanged, and a refitted estimator is indistinguishable from a fresh one.",
  ["inputs", "histories"], "all samples, all placements of NaN, all fit/refit sequences of two data sets, all alphas",
  "The tests check single rejections; equality with the cleaned sample and independence from earlier fits quantify over data and histories.",
  [U + "base.py", U + "mcd.py"],
  [("validation and NaN removal", U + "base.py: RobustScale.fit"), ("not-fitted guards", U + "base.py: RobustScale.scale")], "fits of the cleaned sample by a fresh estimator")
P("U07", "Adjusted boxplot statistics follow the medcouple rule",
  "For every non-constant variable, the adjusted boxplot reports its median, its linear-interpolation quartiles and whiskers at Q1-1.5*exp(-4*MC)*IQR and Q3+1.5*exp(3*MC)*IQR when the medcouple MC is non-negative, with exponents -3 and 4 when it is negative, both clipped to the data range. When drawn, exactly the observations of that variable beyond its whiskers appear as fliers at its position, and labels are the column names (or the series name, or 0,1,...).",
  ["inputs"], "arrays, series and data frames with one or more variables, ties and any skewness",
  "Tests check a fixed data set; sign-dependent fences, per-column fliers and ties need generated skewness in both directions.",
  [U + "adjusted_boxplot.py"], [("whiskers and fliers", U + "adjusted_boxplot.py: adjusted_boxplot")], "a brute-force medcouple and boxplot")
P("U08", "Loss functions match their definitions and psi is the derivative of rho",
  "For every tuning constant and argument, the Huber and Tukey bisquare losses equal their definitions (quadratic then linear; sixth-degree then constant at c^2/6), are even, non-decreasing in |x| and continuous at the tuning constant. Their psi functions are odd and equal to the derivative of the loss.",
  ["inputs", "configurations"], "all real arguments and positive tuning constants",
  "No test covers the losses directly.", ["robpy/utils/rho.py"], [("rho and psi", "robpy/utils/rho.py: TukeyBisquare, Huber")],
  "explicit formulas, numerical differentiation and monotonicity")
P("U09", "Weighted median and L1-median minimise their criteria and terminate",
  "For all values and positive weights, the weighted median is one of the values and has at most half of the total weight strictly on either side (of two such values, the larger). For every point cloud - with coinciding points, collinear points, gross outliers, any offset or unit - the L1-median computation terminates and returns a point whose sum of Euclidean distances to the observations is minimal up to the stated relative precision.",
  ["inputs"], "all finite value/weight lists and all n x p point clouds",
  "No test covers them; optimality and termination are statements about every input.",
  ["robpy/utils/median.py"], [("weighted median", "robpy/utils/median.py: weighted_median"), ("Weiszfeld/Vardi-Zhang iteration", "robpy/utils/median.py: l1median")],
  "the defining inequalities and a numerical minimiser")
