ALL = ["robpy/univariate/base.py", "robpy/covariance/base.py", "robpy/regression/base.py", "robpy/pca/base.py", "robpy/preprocessing/scaling.py", "robpy/outliers/ddc.py"]
P("G01", "No estimator or function changes the caller's data or depends on its container",
  "For every estimator (univariate, covariance, cellwise, PCA, preprocessing, DDC, regression) and data-transforming function: fitting and every query leave the caller's arrays and frames bit for bit as they were, work on read-only data, and give the same results for C or Fortran order, strided views, integers and frames with mixed types or any labels as for a plain float array. Asking twice gives the same answer; overwriting what a query returned, or the training data after the fit, does not change later answers.",
  ["inputs", "histories"], "estimator x settings x container x data; then outputs and training data are overwritten and queries repeated", "Tests pass float C-order arrays once and never look at them again.",
  ALL + ["robpy/covariance/cellmcd.py", "robpy/preprocessing/utils.py"], [("fit and queries", "robpy/*/*.py: fit, transform, predict, impute"), ("conversion", "robpy/regression/base.py: _convert_input_to_array; robpy/covariance/base.py: RobustCovariance.fit")], "byte snapshots; the results for plain float copies")
P("G02", "After any history an estimator answers like a fresh one fitted to its last data",
  "In any sequence of fits and refits (on data of other sizes), queries, clones, deep copies, pickles, changed settings, refused fits, fits of other instances of the same class and uses of numpy's global random generator, every estimator's results equal those of a new estimator with its settings fitted once to its last data; a copy is unaffected by refitting the original.",
  ["histories"], "operation sequences on up to three estimators of any class and settings", "Tests fit each estimator once in a fresh state.",
  ALL, [("state set by fit", "robpy/*/*.py: fit"), ("shared default objects", "robpy/preprocessing/scaling.py, robpy/outliers/ddc.py, robpy/regression/mm.py: __init__")], "a model: settings and last data per estimator, evaluated with a fresh instance")
P("G03", "Unfitted use and unsupported data or settings raise an error",
  "Asking an unfitted estimator - new or cloned from a fitted one - for its scale, location, covariance, predictions, plots or dropped columns is an error; so is fitting with coverage outside [0.5, 1], missing or infinite cells where they are not supported, data of the wrong dimension, text or nearly constant columns in DDC, or querying rows of another width. Where missing values may be ignored explicitly, the result is that for the data without them. No such input makes an estimator loop.",
  ["inputs", "configurations", "fault_sequences"], "estimator x fault x position", "Tests check two or three of these.",
  ALL + ["robpy/pca/robpca.py", "robpy/regression/lts.py", "robpy/utils/median.py"], [("validation", "robpy/univariate/base.py: RobustScale.fit; robpy/covariance/base.py: RobustCovariance.fit; robpy/outliers/ddc.py: DDC._check_data_conditions"), ("not fitted", "robpy/*/base.py")], "the documented exceptions")
P("G04", "Estimators keep scikit-learn's parameter protocol and work in its tools",
  "Constructor settings are what get_params reports; fitting does not change them; a clone has the same settings and gives the same results; an estimator configured by set_params, also after a fit with other settings, behaves like one constructed that way. In pipelines, cross-validation and grid search the scalers and regressions give what fitting and applying the parts by hand gives.",
  ["configurations", "inputs"], "estimator x settings given to the constructor or later; pipelines, folds and grids", "Tests never clone, pipe or cross-validate.",
  ALL, [("constructors", "robpy/*/*.py: __init__"), ("fit and transform", "robpy/preprocessing/scaling.py: RobustScaler.fit")], "the same computation by hand")
P("G05", "Bundled data sets load exactly as stored, whatever was done to earlier loads",
  "Every loader returns the file's cells in the documented columns and shape, as array or frame as asked, with feature names, categorical features, description and file name, and published reference values; overwriting what one load returned does not change the next. The reader selects any columns in the order asked from any file.",
  ["inputs", "histories"], "sequences of loads and overwrites; generated files and column selections", "Tests check shapes only.",
  ["robpy/datasets/base.py"], [("loaders", "robpy/datasets/base.py: load_*"), ("reader", "robpy/datasets/base.py: _load_data_and_descr")], "the files read independently, published values")
P("G06", "Reports and plots never change or prevent a result",
  "For every estimator that reports on its progress, fitting at any level of verbosity - silent, informative, debugging, on data of any width - succeeds and gives exactly the results of a silent fit. Every plot can be drawn in any size, is drawn once and in the size asked for, and leaves all results of the estimator exactly as they were.",
  ["configurations", "inputs", "histories"], "estimator x settings x verbosity; plot x size x settings", "Tests never turn reports on and look at one plot each.",
  ["robpy/utils/logging.py", "robpy/outliers/ddc.py", "robpy/covariance/mcd.py", "robpy/covariance/cellmcd.py", "robpy/regression/lts.py", "robpy/regression/s.py", "robpy/pca/base.py"],
  [("reports", "robpy/outliers/ddc.py: DDC._robust_correlation; robpy/utils/logging.py: get_logger; robpy/regression/lts.py: FastLTSRegression.fit"), ("plots", "robpy/*/base.py; robpy/outliers/ddc.py: DDC.cellmap; robpy/covariance/cellmcd.py: cell_MCD_plot")], "the results of a silent fit; figure count and size")
