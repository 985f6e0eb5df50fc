O = "robpy/outliers/ddc.py"
P("D01", "DDC computes the detecting-deviating-cells algorithm exactly",
  "For every numeric data frame - with missing or infinite cells, correlated or unrelated columns, any units - and every quantile, minimal correlation and scale estimator, fitting DDC yields the column locations and scales, robust pairwise correlations, slopes (only for sufficiently correlated pairs), deshrunk predictions from the other unflagged cells of the row, standardised residuals, and cellwise and rowwise flags of the published algorithm. Infinite cells count as missing, pairs of columns without enough common rows as uncorrelated, and the input frame is left unchanged.",
  ["inputs", "configurations"], "n x p frames with p >= 2 and more than three distinct values per column, missing/infinite cells, all options",
  "Tests compare a few flags on fixed frames; the values depend on every pair of columns and every pattern of missing cells.",
  [O], [("correlation and slopes", O + ": _robust_correlation, _get_slopes"), ("prediction", O + ": _get_predicted_values"), ("flags", O + ": _cellwise_outliers, _rowwise_outliers")],
  "a cell-by-cell reference implementation")
P("D02", "DDC predicts and imputes new rows from the fitted state only",
  "For every fitted detector and every new frame with the same number of numeric columns, predicted residuals, cell flags and row flags follow from the fitted statistics row by row, and agree with the fit on the training data. Imputation replaces exactly the missing (or infinite) cells and, unless told otherwise, the flagged cells by the predictions rounded to three decimals, keeps every other cell, the index and the columns, leaves nothing missing, and changes neither its input nor the fitted state. Unfitted use, a different number of columns, non-numeric columns and columns with at most three distinct values raise ValueError.",
  ["inputs", "histories"], "fitted detector x any new rows incl. missing, infinite and outlying cells, invalid uses",
  "Tests impute one frame; new data, row subsets and missing patterns are unbounded.",
  [O], [("prediction", O + ": predict"), ("imputation", O + ": impute")], "a cell-by-cell reference implementation and before/after comparison of frames and state")
P("D03", "DDC finds deviating cells whatever the units, signs and order",
  "Changing the units, origin or sign of any column, or the order of rows or columns, changes the flags, residuals and predicted cells of DDC only accordingly. On strongly correlated data every planted deviating cell - far away, or inside its column's range but against the row's pattern - is flagged, few regular cells are, and planted and missing cells are imputed close to their true values.",
  ["inputs", "fault_sequences"], "data x column-wise affine maps and permutations; clean factor data x planted cells, missing cells, deviating rows",
  "Relations between runs and robustness against any placement of deviating cells are not sampled by tests.",
  [O], [("algorithm", O + ": DDC.fit"), ("imputation", O + ": DDC.impute")], "equivariance relations and the known clean cells")
P("D04", "The cell map displays the requested residuals",
  "For every fitted detector, row and column zoom (slice or labels), annotation setting and own residuals, the cell map shows exactly the selected standardised residuals in place, with the column names, a symmetric colour range at the requested clip - the default colours leave ordinary cells neutral and tell high from low -, the requested colour map and size, blanks for missing cells, and, if asked, the original values of the same cells as annotations.",
  ["inputs", "configurations"], "data x zooms x annotation x colours and limits x own residuals", "The plot test only checks that something is drawn.",
  [O], [("cell map", O + ": cellmap")], "the recomputed selection of residuals and data")
