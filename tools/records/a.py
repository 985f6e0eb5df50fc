R, S, B, O = "robpy/pca/robpca.py", "robpy/pca/spca.py", "robpy/pca/base.py", "robpy/utils/outlyingness.py"
P("A01", "Robust PCA models are orthonormal projections with consistent scores",
  "For every data matrix - longer or wider than it is, with ties, outliers, any unit and offset - ROBPCA and PCALocantore report n_components orthonormal axes, as many explained variances and their cumulative shares; scores and projections of any rows are the coordinates and the projection of the centred rows on these axes; the number of components, if not given, is the smallest explaining the requested share. The outlier map shows exactly the score distances, the orthogonal distances (Pythagoras) and the two cutoffs. Neither fitting nor transforming changes the data.",
  ["inputs", "configurations"], "n x p data (p up to n+18) near a subspace x estimator, components, share, coverage, MCD step x new rows x container",
  "Tests check shapes on one random matrix.",
  [B, R, S], [("scores and outlier map", B + ": RobustPCA"), ("fits", R + ": ROBPCA.fit; " + S + ": PCALocantore.fit")], "the defining relations recomputed from the fitted axes")
P("A02", "ROBPCA computes the published estimator",
  "For every data matrix, number of components (given or chosen by explained variance), coverage, seed and setting of the final step, ROBPCA takes the h rows of least Stahel-Donoho outlyingness, chooses the dimension and explained variances from their covariance, sets aside the rows beyond the orthogonal distance cutoff, refits the subspace on the others, and, if asked, takes centre and axes from the MCD of the scores - in the original coordinates.",
  ["inputs", "configurations"], "data near a subspace x all options x outliers", "Tests check shapes only; every stage depends on data-dependent selections.",
  [R], [("algorithm", R + ": ROBPCA.fit"), ("cutoff", B + ": get_od_cutoff")], "an independent implementation of the stages without the preliminary SVD")
P("A03", "Robust PCA follows shifts, rotations and units, and a seed fixes it",
  "For every data matrix, shifting, rotating or rescaling the data, or permuting columns, moves the centre, subspace and explained variances of ROBPCA and PCALocantore accordingly; the order of the rows is irrelevant to PCALocantore; two ROBPCA fits with the same seed are identical whatever was drawn from numpy's global generator between them, and leave that generator alone.",
  ["inputs", "histories"], "data x transformations x repeated fits", "Relations between two fits are not tested at all.",
  [R, S, O], [("fits", R + ": ROBPCA.fit; " + S + ": PCALocantore.fit"), ("seeding", O + ": stahel_donoho")], "equivariance relations between fits")
P("A04", "Robust PCA recovers the regular subspace under contamination",
  "When up to 20% of the rows (PCALocantore: 10%) are outlying - orthogonal outliers, bad or good leverage points, near or far - the estimated subspace stays close to that of the regular rows, ROBPCA chooses its dimension from the regular variation, and its outlier map puts every orthogonal outlier beyond the cutoff while leaving the large majority of regular rows within.",
  ["fault_sequences", "inputs"], "regular data near a known subspace x share, kind and distance of planted outlying rows", "No test contaminates PCA data.",
  [R, S, O], [("selection of rows", R + ": ROBPCA.fit"), ("outlyingness", O + ": stahel_donoho"), ("spatial signs", S + ": PCALocantore.fit")], "the known subspace and outlying rows")
P("A05", "Spherical PCA diagonalises the spatial sign covariance",
  "For every data matrix PCALocantore centres at the L1-median, its axes are the eigenvectors of the covariance of the spatial signs in decreasing order, the explained variances are the squared normal-consistent MADs of the scores, and the number of components not given is the smallest reaching the requested share.",
  ["inputs", "configurations"], "data near a subspace x components given or chosen", "One test checks shapes only.",
  [S, "robpy/utils/median.py"], [("spherical PCA", S + ": PCALocantore.fit")], "an independent L1-median (Newton) and eigendecomposition")
P("A06", "Stahel-Donoho outlyingness is the worst robust z-score over its directions",
  "For every data matrix, number of points per direction, number of directions and seed, the outlyingness of a row is the maximum over the drawn directions of its absolute deviation from the median over the MAD; with enough directions it equals the maximum over all pairs of rows, or over all hyperplanes through p rows. It is never missing - not with coinciding rows, ties or directions without spread -, does not depend on shift, rotation or unit, and is fixed by the seed.",
  ["inputs", "configurations"], "small data sets where all directions can be enumerated; data with ties and coinciding rows x options", "Tests check the shape of one result.",
  [O], [("outlyingness", O + ": stahel_donoho"), ("directions", O + ": _get_random_direction")], "exhaustive enumeration of the directions")
