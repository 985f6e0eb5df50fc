"""DDC: detecting deviating cells."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.stats import chi2

from vp import gen
from vp.core import law
from vp.refs import RefDDC, cw, hub

from robpy.outliers import DDC
from robpy.univariate import CellwiseOneStepM, HuberOneStepM

FD = st.fixed_dictionaries
BOOL = st.booleans()
KINDS = ["factor", "factor", "factor", "factor", "corr", "normal", "t3", "grid"]
DATA = gen.mat_case(15, 45, 2, 6, kinds=KINDS, outs=(0.0, 0.1, 0.2), units=(0, 0, 1))
OPTS = FD({"q": st.sampled_from([0.99, 0.99, 0.95, 0.9]), "mc": st.sampled_from([0.5, 0.5, 0.2, 0.8]),
           "est": st.sampled_from(["default", "default", "huber"])})


def make(o):
    kw = {}
    if o["q"] != 0.99:
        kw["chi2_quantile"] = o["q"]
    if o["mc"] != 0.5:
        kw["min_correlation"] = o["mc"]
    if o["est"] == "huber":
        kw["scale_estimator"] = HuberOneStepM()
    return DDC(**kw), RefDDC(o["q"], o["mc"], hub if o["est"] == "huber" else cw)


def frame(X, seed, ints=False, tidy=False):
    n, p = X.shape
    df = pd.DataFrame(X, columns=[f"v{j}" for j in range(p)] if tidy else gen.names(p), index=[f"r{(7 * i) % n}_{i}" for i in range(n)])
    if ints and np.all(np.isfinite(X)) and np.all(X == np.round(X)):
        df = df.astype(int)
    return df


def data(c):
    X = gen.mat(c["m"])
    return gen.with_nans(X, c["nan"], c["m"]["seed"] + 1)


def usable(cx, X, ref):
    if any(len(np.unique(x[np.isfinite(x)])) <= 4 for x in X.T):
        cx.skip("too few distinct values")
    with np.errstate(all="ignore"):
        try:
            ref.fit(X)
        except (IndexError, ZeroDivisionError, np.linalg.LinAlgError):
            cx.skip("degenerate")
    ok = np.all(np.array(ref.sc) > 1e-9) and np.all(ref.rs > 1e-9) and np.isfinite(ref.R).all() and np.isfinite(ref.defl).all() and ref.ts > 1e-9
    if not ok:
        cx.skip("zero scale")
    Z, U = ref.std(np.where(np.isfinite(X), X, np.nan))
    if np.nanmin(np.abs(U)) < 1e-9:
        cx.skip("a cell exactly at its column location")  # ratios to it depend on rounding
    if np.nanmin(np.abs(np.abs(Z) - ref.cut)) < 1e-9:
        cx.skip("a cell exactly at the cutoff")


def flags_agree(cx, got, val, cut, what):
    """flags may only differ where the value sits on the cutoff up to rounding."""
    got = np.asarray(got)
    cx.check(got.shape == val.shape, f"{what}: shape {got.shape}, expected {val.shape}")
    with np.errstate(invalid="ignore"):
        want = val > cut
    bad = (got != want) & ~(np.abs(val - cut) < 1e-6)
    cx.check(not bad.any(), f"{what}: {int(bad.sum())} flags differ, first at {np.argwhere(bad)[:3].tolist()} (value {val[bad][:3]}, cutoff {cut})")


def same_frame(cx, df, like, what):
    cx.check(isinstance(df, pd.DataFrame) and list(df.columns) == list(like.columns) and list(df.index) == list(like.index),
             f"{what}: not a data frame with the index and columns of its input")


# ---------------------------------------------------------------------------------------------
# D01
@law("D01", FD({"m": DATA, "nan": st.sampled_from([0.0, 0.0, 0.05, 0.1]), "o": OPTS, "inf": BOOL,
                "apart": st.sampled_from([None, None, None, 0, 1, 2, 3, 5])}), quick=800,
     rule="data (correlated, uncorrelated, contaminated, missing or infinite cells, two columns with hardly any row in common, any units) x quantile, minimal correlation and scale estimator")
def ddc_reference(c, cx):
    X = data(c)
    if c["inf"] and c["nan"]:
        i = np.argwhere(np.isnan(X))
        for k, (a, b) in enumerate(i[: len(i) // 2]):
            X[a, b] = np.inf if k % 2 else -np.inf
    if c["apart"] is not None:  # two columns that are observed together in a few rows only
        h = (len(X) - c["apart"]) // 2
        if h + c["apart"] < 12:
            cx.skip("too few rows")
        X[:h, 0] = np.nan
        X[h + c["apart"]:, 1] = np.nan
        cx.label(f"{c['apart']} rows in common")
    est, ref = make(c["o"])
    usable(cx, X, ref)
    df = frame(X, 0, ints=True)
    keep = df.copy(deep=True)
    got = est.fit(df)
    cx.ran = True
    cx.check(got is est, "fit does not return the detector")
    cx.check(df.equals(keep), "fit changed its input")
    cx.label(c["m"]["kind"], "nan" if c["nan"] else "complete", f"q={c['o']['q']}", f"mc={c['o']['mc']}", c["o"]["est"])
    n, p = X.shape
    mag = np.nanmax(np.abs(np.where(np.isfinite(X), X, np.nan)), axis=0)
    cx.close((np.asarray(est.location_) - ref.loc) / ref.sc, np.zeros(p), atol=1e-8 * np.max(1 + mag / ref.sc), what="locations (in scale units)")
    cx.close(np.asarray(est.scale_) / ref.sc, np.ones(p), 1e-8, what="scales (relative)")
    if np.min(np.abs(np.abs(ref.R[np.triu_indices(p, 1)]) - c["o"]["mc"])) < 1e-9:
        cx.skip("correlation at the limit")
    tol = 1e-7 * np.max(1 + mag / ref.sc)
    cx.close(est.robust_correlation_, ref.R, tol, what="robust correlations")
    cx.close(est.slopes_, ref.S, tol, atol=tol, what="slopes")
    cx.close(est.deshrinkage_, ref.defl, tol, atol=tol, what="deshrinkage factors")
    cx.close(est.predictions_, ref.pred, tol, atol=tol, what="standardised predictions")
    cx.close(est.raw_predictions_ * np.asarray(est.deshrinkage_), est.predictions_, 1e-9, atol=1e-12, what="raw predictions x deshrinkage")
    cx.close((np.asarray(est.rescaled_predictions_) - ref.loc) / ref.sc, ref.pred, tol, atol=tol, what="rescaled predictions")
    cx.close(est.standardized_residuals_, ref.stdres, tol, atol=tol, what="standardised residuals")
    flags_agree(cx, est.cellwise_outliers_, np.abs(ref.stdres), ref.cut, "cellwise outliers")
    t = ref.t(ref.stdres)
    flags_agree(cx, est.row_outliers_, (t - ref.tl) / ref.ts, ref.cut, "row outliers")
    if np.any(np.isfinite(ref.S)):
        cx.label("connected columns")
    else:
        cx.label("no connected columns")


@law("D01", FD({"n": st.integers(24, 80), "seed": gen.SEED, "k": st.integers(-6, 6), "neg": BOOL, "other": st.integers(1, 2), "dev": st.integers(0, 3), "far": st.sampled_from([3.0, 8.0, 1e3]), "e": st.sampled_from([0, 0, -7, 6])}), quick=200,
     rule="two columns that are exact multiples of each other, next to unrelated columns, with a few deviating cells")
def ddc_multiples(c, cx):
    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    z = rng.standard_normal(n) * 10.0 ** c["e"]
    f = (-1 if c["neg"] else 1) * 2.0 ** c["k"]
    X = np.column_stack([z, f * z] + [rng.standard_normal(n) for _ in range(c["other"])])
    ref = RefDDC()
    usable_scales = [cw(x)[1] for x in X.T]
    rows = rng.permutation(n)[: c["dev"]]
    X[rows, 1] += abs(f) * usable_scales[0] * c["far"] * rng.choice([-1, 1], len(rows))
    with np.errstate(all="ignore"):
        ref.fit(X)
        est = DDC().fit(pd.DataFrame(X, columns=gen.names(X.shape[1])))
    R = ref.R
    if np.any(np.abs(R[:2, 2:]) > 0.4) or abs(R[0, 1]) < 0.6:
        cx.skip("the unrelated columns happen to be correlated")
    cx.ran = True
    cx.label(f"{len(rows)} deviating cells", f"{c['other']} other columns")
    cx.close(est.robust_correlation_[0, 1], R[0, 1], 1e-8, what="robust correlation of two proportional columns")
    sg = np.sign(f) * abs(f) * usable_scales[0] / ref.sc[1] if len(rows) == 0 else ref.S[0, 1]
    cx.close(est.slopes_[0, 1], sg, 1e-8, what="slope between two proportional columns")
    cx.close(est.slopes_[1, 0], ref.S[1, 0], 1e-8, what="slope between two proportional columns")
    Z, U = ref.std(X)
    reg = np.ones(n, bool)
    reg[rows] = False
    ok = reg & ~np.isnan(U).any(axis=1)
    if len(rows) == 0:
        cx.close(est.predictions_[ok][:, :2], Z[ok][:, :2], 1e-6, atol=1e-6, what="predictions of proportional columns")


# ---------------------------------------------------------------------------------------------
# D02
@law("D02", FD({"m": DATA, "nan": st.sampled_from([0.0, 0.05, 0.1]), "o": OPTS, "new": gen.SEED,
                "n2": st.one_of(st.integers(1, 12), st.integers(13, 60)), "index": st.sampled_from(["labels", "labels", "repeated", "default", "dates"]),
                "how": st.sampled_from(["same", "rows", "fresh", "fresh"])}), quick=480,
     rule="fitted detector x new rows (training rows, a subset, fresh rows with outlying, missing and infinite cells)")
def ddc_predict_impute(c, cx):
    X = data(c)
    est, ref = make(c["o"])
    usable(cx, X, ref)
    n, p = X.shape
    df = frame(X, 0)
    est.fit(df)
    cx.ran = True
    rng = np.random.default_rng(c["new"])
    if c["how"] == "same":
        Y = df.copy()
    elif c["how"] == "rows":
        Y = df.iloc[np.sort(rng.permutation(n)[: c["n2"]])].copy()
    else:
        V = np.where(np.isfinite(X), X, np.nanmedian(X, axis=0))[rng.integers(0, n, c["n2"])]
        V = V + rng.standard_normal(V.shape) * ref.sc * 0.5
        k = rng.random(V.shape)
        V = np.where(k < 0.1, V + 20 * ref.sc, V)
        V = np.where((k > 0.9) & (np.arange(p) > 0), np.nan, V)
        V = np.where((k > 0.95) & (np.arange(p) > 0), np.inf, V)
        V = np.where((k > 0.975) & (np.arange(p) > 0), -np.inf, V)
        Y = pd.DataFrame(V, columns=df.columns, index=np.arange(100, 100 + len(V)))
    if c["index"] == "repeated":
        Y.index = [f"s{i // 3}" for i in range(len(Y))]
    elif c["index"] == "default":
        Y.index = pd.RangeIndex(len(Y))
    elif c["index"] == "dates":
        Y.index = pd.date_range("2020-01-01", periods=len(Y))[::-1]
    cx.label(c["how"], "nan" if c["nan"] else "complete", f"{c['index']} index")
    keep = Y.copy(deep=True)
    flag, sr, rows, pred, t = ref.predict(Y.to_numpy())
    big = np.nanmax(np.abs(np.where(np.isfinite(Y), Y, np.nan)), axis=0)
    tol = 1e-7 * np.nanmax(1 + np.maximum(big, np.nanmax(np.abs(X), axis=0)) / ref.sc)
    state = {k: np.array(v, copy=True) for k, v in vars(est).items() if isinstance(v, np.ndarray)}
    gf, gs = est.predict(Y)
    cx.close(gs, sr, tol, atol=tol, what="standardised residuals of new data")
    flags_agree(cx, gf, np.abs(sr), ref.cut, "cellwise outliers of new data")
    gr = est.predict(Y, rowwise=True)
    flags_agree(cx, gr, (t - ref.tl) / ref.ts, ref.cut, "row outliers of new data")
    for io in (True, False):
        imp = est.impute(Y, impute_outliers=io)
        same_frame(cx, imp, Y, "impute")
        A = imp.to_numpy(float)
        y = Y.to_numpy(float)
        miss = ~np.isfinite(y)
        rep = miss | (np.asarray(gf) if io else False)
        cx.check(np.array_equal(A[~rep], y[~rep]), "impute changed a cell that is neither missing nor flagged")
        cx.close((A - pred)[rep] / 1.0, np.zeros(int(rep.sum())), atol=5.01e-4 + 1e-7 * np.max(np.abs(pred)) if rep.any() else 0,
                 what=f"imputed cells minus predictions (impute_outliers={io})")
        cx.check(np.all(np.isfinite(A)), "impute left a cell missing")
    a = est.impute(Y)
    b = est.impute(Y, impute_outliers=True)
    cx.check(a.equals(b), "outliers are not imputed by default")
    # every row is judged on its own
    i = int(rng.integers(0, len(Y)))
    f1, s1 = est.predict(Y.iloc[[i]])
    cx.close(s1[0], sr[i], tol, atol=tol, what="residuals of a single row")
    f1 = np.asarray(est.predict(Y.iloc[[i]], rowwise=True))
    flags_agree(cx, f1, ((t - ref.tl) / ref.ts)[[i]], ref.cut, "row flag of a single row")
    cx.check(np.array_equal(est.predict(df, rowwise=True), est.row_outliers_), "row outliers of the training data changed after predictions for other data")
    cx.check(Y.equals(keep), "predict or impute changed its input")
    for k, v in state.items():
        cx.check(np.array_equal(v, getattr(est, k), equal_nan=v.dtype.kind == "f"), f"predict or impute changed the fitted {k}")
    if c["how"] == "same":
        cx.close(gs, est.standardized_residuals_, 1e-12, atol=1e-12, what="predict on the training data vs fit")
        cx.check(np.array_equal(gr, est.row_outliers_), "row outliers of the training data differ between fit and predict")


@law("D02", FD({"m": gen.mat_case(15, 30, 2, 5, kinds=["factor"], outs=(0.0,)), "bad": st.sampled_from(["unfitted", "columns_more", "columns_less", "text", "few", "bool"])}),
     quick=64, rule="invalid use: unfitted, wrong number of columns, non-numeric or near-constant columns")
def ddc_rejects(c, cx):
    X = gen.mat(c["m"])
    df = frame(X, 0, tidy=True)
    n, p = X.shape
    b = c["bad"]
    cx.label(b)
    if b == "unfitted":
        for name, f in [("predict", lambda: DDC().predict(df)), ("predict rowwise", lambda: DDC().predict(df, rowwise=True)),
                        ("impute", lambda: DDC().impute(df)), ("cellmap", lambda: DDC().cellmap(df))]:
            cx.raises(ValueError, f, f"{name} before fit")
        return
    if b == "text":
        bad = df.copy()
        bad["v0"] = [f"a{i}" for i in range(n)]
        cx.raises(ValueError, lambda: DDC().fit(bad), "fit with a text column")
        est = DDC().fit(df)
        cx.raises(ValueError, lambda: est.predict(bad), "predict with a text column")
        return
    if b == "bool":
        bad = df.copy()
        bad["v0"] = np.arange(n) % 2 == 0
        cx.raises(ValueError, lambda: DDC().fit(bad), "fit with a boolean column")
        return
    if b == "few":
        for k in (1, 2, 3):
            bad = df.copy()
            bad["v1"] = np.arange(n) % k + 0.5
            cx.raises(ValueError, lambda: DDC().fit(bad), f"fit with a column of {k} distinct values")
        return
    est = DDC().fit(df)
    bad = df.assign(extra=1.0) if b == "columns_more" else df.iloc[:, : p - 1]
    cx.raises(ValueError, lambda: est.predict(bad), "predict with another number of columns")
    cx.raises(ValueError, lambda: est.predict(bad, rowwise=True), "predict(rowwise) with another number of columns")
    cx.raises(ValueError, lambda: est.impute(bad), "impute with another number of columns")


# ---------------------------------------------------------------------------------------------
# D03
@law("D03", FD({"m": gen.mat_case(18, 45, 2, 6, kinds=["factor", "factor", "corr", "t3"], outs=(0.0, 0.1, 0.2)), "nan": st.sampled_from([0.0, 0.08]),
                "o": OPTS, "t": gen.SEED, "what": st.sampled_from(["affine", "rows", "columns", "all"])}), quick=400,
     rule="data x column-wise affine change of units (incl. reflections), row order, column order")
def ddc_equivariance(c, cx):
    X = data(c)
    n, p = X.shape
    est, ref = make(c["o"])
    usable(cx, X, ref)
    if np.min(np.abs(np.abs(ref.R[np.triu_indices(p, 1)]) - c["o"]["mc"])) < 1e-6 or min(ref.margin) < 1e-5:
        cx.skip("borderline")
    rng = np.random.default_rng(c["t"])
    w = c["what"]
    a, b = np.ones(p), np.zeros(p)
    rp, cp = np.arange(n), np.arange(p)
    if w in ("affine", "all"):
        a = rng.choice([-1, 1], p) * 10.0 ** rng.uniform(-6, 6, p)
        b = rng.uniform(-3, 3, p) * np.abs(a)
    if w in ("rows", "all"):
        rp = rng.permutation(n)
    if w in ("columns", "all"):
        cp = rng.permutation(p)
    Y = (X * a + b)[rp][:, cp]
    e1 = make(c["o"])[0].fit(frame(X, 0))
    e2 = make(c["o"])[0].fit(frame(Y, 0))
    cx.ran = True
    cx.label(w)
    sgn = np.sign(a)
    cx.close(e2.robust_correlation_, (e1.robust_correlation_ * np.outer(sgn, sgn))[cp][:, cp], 1e-6, what="correlations after the change")
    cx.close(e2.standardized_residuals_, (e1.standardized_residuals_ * sgn)[rp][:, cp], 1e-6, atol=1e-6, what="standardised residuals after the change")
    cx.check(np.array_equal(e2.cellwise_outliers_, e1.cellwise_outliers_[rp][:, cp]), "cellwise outliers depend on units or order")
    cx.check(np.array_equal(np.asarray(e2.row_outliers_), np.asarray(e1.row_outliers_)[rp]), "row outliers depend on units or order")
    r1 = (np.asarray(e1.rescaled_predictions_) * a + b)[rp][:, cp]
    cx.close((np.asarray(e2.rescaled_predictions_) - r1) / np.abs(a[cp]) / ref.sc[cp], np.zeros_like(r1), atol=1e-6, what="predicted cells after the change")


@law("D03", FD({"n": st.integers(60, 160), "p": st.integers(4, 7), "seed": gen.SEED, "frac": st.sampled_from([0.01, 0.03, 0.06]),
                "far": st.sampled_from([8.0, 15.0, 1e3, 1e6]), "unit": st.sampled_from([1.0, 50.0]), "nan": BOOL,
                "hidden": BOOL, "badrows": BOOL}), quick=240,
     rule="clean one-factor data x planted deviating cells (marginal or only visible through the other columns), missing cells, deviating rows")
def ddc_finds_planted(c, cx):
    rng = np.random.default_rng(c["seed"])
    n, p = c["n"], c["p"]
    load = rng.choice([-1.0, 1.0], p)
    f = np.clip(rng.standard_normal(n), -1.8, 1.8)  # rows beyond the marginal cutoff have no usable neighbour cells
    X = f[:, None] * load + 0.2 * rng.standard_normal((n, p))
    truth = X.copy()
    m = max(1, int(c["frac"] * n * p))
    cells = np.zeros((n, p), bool)
    rows = rng.permutation(n)[: min(m, n // 4)]
    for i in rows:
        j = int(rng.integers(0, p))
        cells[i, j] = True
        if c["hidden"] and abs(f[i]) > 0.9:
            X[i, j] = -X[i, j]  # inside the marginal range, against the structure
        else:
            X[i, j] += rng.choice([-1, 1]) * c["far"]
    if c["nan"]:
        for i in rng.permutation(n)[: n // 10]:
            j = int(rng.integers(0, p))
            if not cells[i].any():
                X[i, j] = np.nan
    bad = np.zeros(n, bool)
    if c["badrows"]:
        free = [i for i in rng.permutation(n) if not cells[i].any() and not np.isnan(X[i]).any()][: max(1, n // 30)]
        for i in free:
            X[i] = rng.choice([-1, 1], p) * rng.uniform(8, 20, p)
            bad[i] = True
    u = c["unit"]
    df = frame(X * u, 0)
    est = DDC().fit(df)
    cx.ran = True
    cx.label("hidden" if c["hidden"] else "marginal", f"far={c['far']:g}")
    fl = np.asarray(est.cellwise_outliers_)
    missed = cells & ~fl
    cx.check(not missed.any(), lambda: f"planted cells not flagged: {np.argwhere(missed)[:3].tolist()} values {X[missed][:3]} residuals {np.asarray(est.standardized_residuals_)[missed][:3]}")
    reg = ~cells & ~bad[:, None] & ~np.isnan(X)
    rate = fl[reg].mean()
    cx.check(rate < 0.12, f"{rate:.1%} of the regular cells are flagged")
    imp = est.impute(df).to_numpy() / u
    err = np.abs(imp - truth)[(cells | np.isnan(X)) & ~bad[:, None]]
    cx.check(np.max(err) < 1.5, f"an imputed cell is {np.max(err):.3g} away from its true value (noise 0.2)")
    if bad.any():
        cx.label("bad rows")
        cx.check(fl[bad].mean() > 0.9, f"only {fl[bad].mean():.0%} of the cells of far rows flagged")
        if p >= 6:
            cx.check(np.asarray(est.row_outliers_)[bad].any(), "no row of deviating cells is flagged as a row outlier")


# ---------------------------------------------------------------------------------------------
# D04 cell map
@law("D04", FD({"m": gen.mat_case(15, 30, 2, 5, kinds=["factor", "corr"], outs=(0.0, 0.2)), "annot": BOOL,
                "rz": st.sampled_from([None, "tuple", "index"]), "cz": st.sampled_from([None, "tuple", "index"]),
                "k": st.integers(0, 5), "given": BOOL, "vmax": st.sampled_from([None, 4.0, 6.0, 3.0, 2.5, 2.0, 1.0]),
                "nan": st.sampled_from([0.0, 0.0, 0.08]), "cmap": st.sampled_from([None, None, None, "viridis", "object"]), "size": BOOL}), quick=160,
     rule="data (also with missing cells) x row and column zoom (slice or labels) x annotation x own residuals x colour map, its range and the figure size")
def ddc_cellmap(c, cx):
    import matplotlib as mpl

    X = data(c)
    n, p = X.shape
    df = frame(X, 0)
    est = DDC().fit(df)
    cx.ran = True
    keep = df.copy()
    Y, res = df, np.asarray(est.standardized_residuals_)
    kw = {}
    if c["given"]:
        Y = (df * 1.1).iloc[: n - 2]
        res = est.predict(Y)[1]
        kw["standardized_residuals"] = res
    R = pd.DataFrame(res, index=Y.index, columns=Y.columns)
    A = Y
    r0, r1 = c["k"], c["k"] + 6
    c0, c1 = min(c["k"], p - 1), p
    if c["rz"] == "tuple":
        kw["row_zoom"] = (r0, r1)
        R, A = R.iloc[r0:r1], A.iloc[r0:r1]
    elif c["rz"] == "index":
        lab = Y.index[[r1, r0, r0 + 2]]
        kw["row_zoom"] = lab
        R, A = R.loc[lab], A.loc[lab]
    if c["cz"] == "tuple":
        kw["col_zoom"] = (c0, c1)
        R, A = R.iloc[:, c0:c1], A.iloc[:, c0:c1]
    elif c["cz"] == "index":
        lab = Y.columns[[p - 1, 0]]
        kw["col_zoom"] = lab
        R, A = R.loc[:, lab], A.loc[:, lab]
    if c["vmax"]:
        kw["vmax_clip"] = c["vmax"]
    if c["size"]:
        kw["figsize"] = (5, 4)
    if c["cmap"]:
        kw["cmap"] = c["cmap"] if c["cmap"] != "object" else mpl.colormaps["coolwarm"]
    ax = est.cellmap(Y, annotate=c["annot"], fmt=".3f", **kw)
    cx.check(tuple(ax.figure.get_size_inches()) == ((5, 4) if c["size"] else (7, 10)), "size of the figure")
    cx.label(f"rows {c['rz']}", f"cols {c['cz']}", "annotated" if c["annot"] else "plain")
    mesh = ax.collections[0]
    got = np.ma.filled(np.ma.asarray(mesh.get_array()).astype(float), np.nan).reshape(R.shape)
    cx.close(got, R.to_numpy(), 1e-9, atol=1e-12, what="residuals shown in the cell map")
    v = c["vmax"] or np.sqrt(chi2.ppf(0.999, 1))
    cx.close([mesh.norm.vmin, mesh.norm.vmax], [-v, v], 1e-9, what="colour range")
    cx.check([t.get_text() for t in ax.get_xticklabels()] == list(R.columns), "column labels of the cell map")
    cx.check(list(map(str, mesh.norm(np.array([0.0])))) == ["0.5"], "a residual of zero is not in the middle of the colour range")
    if c["cmap"]:
        want = mpl.colormaps["viridis" if c["cmap"] == "viridis" else "coolwarm"]
        cx.check(np.allclose(mesh.cmap(np.linspace(0, 1, 9)), want(np.linspace(0, 1, 9))), "another colour map than the one asked for")
    else:  # hue by sign, no hue for ordinary cells, darkest colour beyond the limits
        col = lambda r: np.array(mesh.cmap(mesh.norm(r))[:3])  # noqa: E731
        for r in (v, 1.01 * v, 50 * v):
            cx.check(np.array_equal(col(r), col(v)) and col(r)[0] > col(r)[2] + 0.2, f"colour of a residual {r:.3g} with limit {v:.3g}")
            cx.check(np.array_equal(col(-r), col(-v)) and col(-r)[2] > col(-r)[0] + 0.2, f"colour of a residual {-r:.3g} with limit {v:.3g}")
        for r in (-0.97, -0.5, 0.3, 0.97):
            cx.check(np.allclose(col(r * min(2.5, v)), col(0.0), atol=0.02), f"a residual {r * min(2.5, v):.3g} is coloured")
    cx.check(np.array_equal(np.isnan(res), np.isnan(np.asarray(Y, float))), "residuals missing elsewhere than the data")
    cx.check(df.equals(keep), "cellmap changed the data")
    if c["annot"]:
        txt = [t.get_text() for t in ax.texts]
        cx.check(txt == [f"{x:.3f}" for x in A.to_numpy().ravel() if not np.isnan(x)], f"annotations {txt[:4]} are not the data")
    else:
        cx.check(len(ax.texts) == 0, "annotated although not asked for")
