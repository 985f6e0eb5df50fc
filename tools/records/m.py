M = "robpy/covariance/cellmcd.py"
P("C10", "CellMCD iterates to its fixed point and its outputs belong together",
  "For every admissible data set, with or without missing cells, in any units, and every alpha, eigenvalue floor, step limit and convergence limit, CellMCD's flags, location and covariance are those reached by its C-steps from its initial estimate. Missing cells and cells beyond 3 standardised units are flagged, each column keeps at least round(alpha n) clean cells, and the eigenvalues on standardised data respect the floor. Predictions and conditional deviations are those of every cell given the other clean cells of its row, the imputed data combine clean cells and predictions, and the residuals are standardised per column.",
  ["inputs", "configurations", "histories"], "n x p data, n >= 5p, p >= 2, all options, any pattern of missing cells",
  "Tests compare one data set with R; each pattern of flagged cells takes another path through the conditional formulas.",
  [M, "robpy/covariance/utils/cellmcd_utils.py", "robpy/utils/general.py"], [("C-step", M + ": _C_step, _update_W, _calculate_delta"), ("predictions", M + ": _make_predictions"), ("stopping", M + ": _C_steps_until_convergence")],
  "a cell-by-cell reference of the C-steps and of the conditional expectations")
P("C11", "CellMCD resists planted cells, follows changes of units, rejects bad input",
  "On correlated data in which up to a tenth of the rows carry far cells - scattered, in one column or whole rows, next to missing cells - every planted cell is flagged and few regular ones are, location and covariance stay close to the truth and flagged cells are imputed near their true values. Rescaling or reflecting columns and reordering rows or columns changes the results only accordingly. A proportion outside [0.5, 1], an eigenvalue floor below 1e-6, a column with zero MAD, too many missing or marginally outlying cells and fewer than five rows per column raise ValueError, results are not available before fitting, and fitting does not alter the settings.",
  ["inputs", "configurations", "fault_sequences"], "clean data x planted and missing cells; column-wise maps and permutations; invalid settings",
  "Worst-case over placements of bad cells, and relations between runs.",
  [M], [("data checks", M + ": _check_data"), ("C-steps", M + ": _C_steps_until_convergence")], "the known clean cells and truth, equivariance relations, required exceptions")
P("C13", "The initial CellMCD estimate follows the DDCW construction",
  "For every data set (correlated, nearly collinear, unrelated columns, missing cells) and every proportion and eigenvalue floor, the initial estimate is the wrapped covariance of the DDC-imputed data in its principal axes: at most a share 1 - alpha of each column counts as flagged, rowwise outliers and then cases far from the first estimate are set aside, the correlation's eigenvalues are raised to the floor and the DDC scales are put back. The location is DDC's.",
  ["inputs", "configurations"], "n x p data incl. missing and nearly collinear columns, alpha, eigenvalue floor",
  "Not tested directly at all.",
  ["robpy/covariance/initial_ddcw.py", "robpy/covariance/utils/alter_covariance.py"], [("two-stage estimate", "robpy/covariance/initial_ddcw.py: InitialDDCW.calculate_covariance")],
  "an independent re-implementation")
P("C14", "CellMCD diagnostic plots show the fitted quantities and annotate the outliers",
  "For every fitted CellMCD, plot type and choice of variables, the plot shows every case at the coordinates of the requested quantities (index, residuals, data, predictions, second variable), draws the cutoff lines (and, for two variables, the tolerance ellipse) of the fitted quantile, and annotates exactly the cases outside the thresholds of the annotation quantile, at their own position and with their own name. A bivariate plot without second variable raises ValueError.",
  ["inputs", "configurations"], "data x five plot types x variables x quantiles x annotation", "Tests only check that plots are created.",
  [M, "robpy/covariance/utils/cellmcd_visualization_utils.py"], [("plots", M + ": cell_MCD_plot"), ("annotation and thresholds", "robpy/covariance/utils/cellmcd_visualization_utils.py")],
  "coordinates, thresholds and ellipses recomputed from the fitted quantities")
