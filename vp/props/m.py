"""The cellwise MCD: iterations, outputs, initial estimate, plots, robustness."""
import logging

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.stats import chi2
from sklearn.exceptions import NotFittedError

from vp import gen, refs
from vp.core import law

from robpy.covariance.cellmcd import CellMCD
from robpy.covariance.initial_ddcw import InitialDDCW

FD = st.fixed_dictionaries
BOOL = st.booleans()
KINDS = ["factor", "factor", "corr", "normal", "t3"]
DATA = gen.mat_case(25, 70, 2, 5, kinds=KINDS, outs=(0.0, 0.1, 0.2), units=(0, 0, 1))
OPT = FD({"alpha": st.sampled_from([0.75, 0.75, 0.5, 0.6, 0.8]), "me": st.sampled_from([1e-4, 1e-4, 1e-2, 0.1]),
          "steps": st.sampled_from([100, 100, 1, 3]), "crit": st.sampled_from([1e-4, 1e-4, 1e-2, 1e-8])})


def make(o, **kw):
    d = {"alpha": o["alpha"], "min_eigenvalue": o["me"], "max_c_steps": o["steps"], "crit": o["crit"]}
    d = {k: v for k, v in d.items() if v != dict(alpha=0.75, min_eigenvalue=1e-4, max_c_steps=100, crit=1e-4)[k]}
    return CellMCD(verbosity=logging.CRITICAL, **d, **kw)


def data(c):
    X = gen.mat(c["m"])
    return gen.with_nans(X, c["nan"], c["m"]["seed"] + 1)


def col_scale(X):
    return np.array([refs.onestep_wrapping(x[~np.isnan(x)]) for x in X.T]).T


def alpha_eff(a, n):
    return max(a, (n // 2 + 1) / n)


def domain(cx, X, o, q=0.99):
    """Inputs CellMCD accepts: enough rows, scales > 0, not too many marginal outliers or NaN."""
    n, p = X.shape
    if n < 5 * p:
        cx.skip("n < 5p")
    loc, sc = col_scale(X)
    if np.min(sc) <= 0:
        cx.skip("zero scale")
    Z = (X - loc) / sc
    a = alpha_eff(o["alpha"], n)
    cut = np.sqrt(chi2.ppf(q, 1))
    with np.errstate(invalid="ignore"):
        bad = np.sum(np.isnan(Z) | (np.abs(Z) > cut), axis=0) / n
    if np.max(bad) > 1 - a - 1e-9:
        cx.skip("too many marginal outliers or missing cells")
    return loc, sc, Z, a


def labels(cx, c, X):
    cx.label(c["m"]["kind"], "nan" if np.isnan(X).any() else "complete", f"out={c['m']['out']}:{c['m']['otype']}")


# ---------------------------------------------------------------------------------------------
# C10 the outputs belong together
@law("C10", FD({"m": DATA, "nan": st.sampled_from([0.0, 0.0, 0.05, 0.1]), "o": OPT, "frame": BOOL}), quick=480,
     rule="data (correlated or not, contaminated, missing cells, any units) x alpha, eigenvalue floor, number of steps, convergence limit")
def cellmcd_outputs(c, cx):
    X = data(c)
    n, p = X.shape
    loc0, sc, Z, a = domain(cx, X, c["o"])
    labels(cx, c, X)
    est = make(c["o"])
    keep = X.copy()
    got = est.fit(pd.DataFrame(X, columns=gen.names(p)) if c["frame"] else X)
    cx.ran = True
    cx.check(got is est, "fit does not return the estimator")
    cx.check(np.array_equal(X, keep, equal_nan=True), "fit changed its input")
    mu = cx.arr(est.location_, (p,), "location")
    S = cx.arr(est.covariance_, (p, p), "covariance")
    W = cx.arr(est.W, (n, p), "W")
    cx.check(np.all((W == 0) | (W == 1)), "W is not a matrix of zeros and ones")
    cx.close(est.covariance, S, 0, what="covariance property")
    cx.close(S.T, S, 1e-10, what="symmetry")
    R = S / np.outer(sc, sc)
    ev = np.linalg.eigvalsh((R + R.T) / 2)
    cx.check(ev[0] >= c["o"]["me"] * (1 - 1e-6), f"smallest eigenvalue on standardised data {ev[0]}, floor {c['o']['me']}")
    cx.check(not np.any(W[np.isnan(X)] == 1), "a missing cell is not flagged")
    far = np.abs(Z) > 3 + 1e-9
    cx.check(not np.any(W[far] == 1), "a cell with standardised value beyond 3 is not flagged")
    h = round(a * n)
    cx.check(np.all(W.sum(axis=0) >= h), f"clean cells per column {W.sum(axis=0)}, at least {h} required")
    # conditional expectation and deviation of every cell given the other clean cells of its row
    pred, sd = np.empty((n, p)), np.empty((n, p))
    for i in range(n):
        for j in range(p):
            O = [k for k in range(p) if k != j and W[i, k] == 1]
            pred[i, j], v = refs.cond(mu, S, X[i], O, j)
            sd[i, j] = np.sqrt(v)
    tol = 1e-7 * np.max(1 + np.abs(loc0) / sc) / max(ev[0], 1e-4)
    cx.close((np.asarray(est.predictions) - pred) / sc, np.zeros((n, p)), atol=tol, what="predictions minus conditional expectations (in scale units)")
    cx.close(est.conditional_stds / sd, np.ones((n, p)), 1e-9 / max(ev[0], 1e-6) + 1e-7, what="conditional standard deviations (relative)")
    P = np.asarray(est.predictions)
    cx.check(np.array_equal(est.X_imputed, np.where(W == 1, X, P)), "imputed data are not the clean cells plus the predictions of the flagged ones")
    r = (X - P) / est.conditional_stds
    rs = np.array([refs.onestep_wrapping(x[~np.isnan(x)])[1] for x in r.T])
    cx.close(est.residuals, r / rs, 1e-6, what="standardised residuals")
    D = X - mu
    ok = ~np.isnan(X).any(axis=1)
    d2 = np.full(n, np.nan)
    d2[ok] = np.sum(np.linalg.solve(S, D[ok].T).T * D[ok], axis=1)
    cond = ev[-1] / max(ev[0], 1e-12)
    if c["m"]["units"] == 0 and hasattr(est, "_robust_distances"):
        cx.close(np.asarray(est._robust_distances) ** 2, d2, 1e-9 * cond + 1e-7, what="robust distances")


@law("C10", FD({"m": DATA, "nan": st.sampled_from([0.0, 0.0, 0.05, 0.1]), "o": OPT}), quick=240,
     rule="as above; non-trivial when at least one C-step is accepted and at least one cell is flagged")
def cellmcd_iterations(c, cx):
    X = data(c)
    n, p = X.shape
    loc0, sc, Z, a = domain(cx, X, c["o"])
    init = InitialDDCW(alpha=a, min_eigenvalue=c["o"]["me"], verbosity=logging.CRITICAL).fit(Z.copy())
    cx.ran = True
    with np.errstate(invalid="ignore"):
        Y = np.where(np.abs(Z) > 3, np.nan, Z)
    if np.nanmin(np.abs(np.abs(Z) - 3)) < 1e-9:
        cx.skip("cell at 3")
    q_margin = 1e-8
    mu, S, W, info = refs.cell_iterations(Y, np.array(init.location_), init.covariance_, round(a * n), c["o"]["crit"], c["o"]["steps"], c["o"]["me"])
    if info["margin"] < q_margin or info.get("gap", 1) < 1e-9:
        cx.skip("a decision within rounding")
    est = make(c["o"]).fit(X)
    labels(cx, c, X)
    cx.label(f"stopped:{info['stopped']}", f"steps={min(info['steps'], 6)}")
    if info["steps"] == 0 or not np.any(W == 0):
        cx.mark_trivial()
    diff = np.argwhere(np.asarray(est.W) != W)
    cx.check(len(diff) == 0, lambda: f"W differs from the reference in {len(diff)} cells, first {diff[:3].tolist()} (steps {info['steps']}, {info['stopped']})")
    tol = 1e-6 * np.max(1 + np.abs(loc0) / sc)
    cx.close((np.asarray(est.location_) - loc0) / sc, mu, tol, atol=tol, what="location on standardised data")
    cx.close(est.covariance_ / np.outer(sc, sc), S, tol, what="covariance on standardised data")


# ---------------------------------------------------------------------------------------------
# C13 initial estimate
@law("C13", FD({"m": gen.mat_case(25, 80, 2, 5, kinds=KINDS + ["near"], outs=(0.0, 0.1, 0.2, 0.25), units=(0,)), "nan": st.sampled_from([0.0, 0.0, 0.05, 0.1]),
                "alpha": st.sampled_from([0.75, 0.5, 0.6, 0.9]), "me": st.sampled_from([1e-4, 1e-2, 0.1]), "std": BOOL}), quick=400,
     rule="data with correlated, nearly collinear or unrelated columns, outlying and missing cells x alpha x eigenvalue floor")
def ddcw_reference(c, cx):
    m = dict(c["m"])
    if m["kind"] == "near":
        m["kind"] = "normal"
        X = gen.mat(m)
        rng = np.random.default_rng(m["seed"] + 5)
        X[:, 1] = X[:, 0] * rng.choice([-1, 1]) + rng.choice([1e-3, 1e-2, 0.05]) * X[:, 1]
    else:
        X = gen.mat(m)
    X = gen.with_nans(X, c["nan"], m["seed"] + 1)
    n, p = X.shape
    loc0, sc = col_scale(X)
    if np.min(sc) <= 0:
        cx.skip("zero scale")
    if c["std"]:
        X = (X - loc0) / sc
    try:
        loc, S, info = refs.ref_ddcw(X, alpha_eff(c["alpha"], n), c["me"])
    except (np.linalg.LinAlgError, IndexError, ValueError, ZeroDivisionError):
        cx.skip("degenerate for the reference")
    if not np.all(np.isfinite(S)) or info["margin"] < 1e-7:
        cx.skip("a decision within rounding")
    keep = X.copy()
    est = InitialDDCW(alpha=c["alpha"], min_eigenvalue=c["me"], verbosity=logging.CRITICAL)
    got = est.fit(X)
    cx.ran = True
    cx.label(c["m"]["kind"], "nan" if c["nan"] else "complete", "capped" if info["capped"] else "not capped", f"cases dropped {min(info['dropped'], 3)}")
    cx.check(got is est and np.array_equal(X, keep, equal_nan=True), "fit changed its input or does not return the estimator")
    cx.close((np.asarray(est.location_) - loc) / sc, np.zeros(p), atol=1e-7, what="location")
    s = np.sqrt(np.diag(S))
    cx.close(est.covariance_ / np.outer(s, s), S / np.outer(s, s), 2e-6, what="covariance (correlation scale)")
    cx.close(np.diag(est.covariance_), np.diag(S), 2e-6, what="variances")
    cx.close(est.precision_ @ est.covariance_, np.eye(p), 1e-6, what="precision times covariance")


# ---------------------------------------------------------------------------------------------
# C11 robustness and equivariance, domain
@law("C11", FD({"m": gen.mat_case(30, 70, 2, 5, kinds=KINDS, outs=(0.0, 0.1, 0.2), units=(0,)), "nan": st.sampled_from([0.0, 0.08]),
                "o": OPT, "t": gen.SEED, "what": st.sampled_from(["affine", "rows", "columns", "affine"])}), quick=240,
     rule="data x positive or negative column-wise affine change of units, row order, column order")
def cellmcd_equivariance(c, cx):
    X = data(c)
    n, p = X.shape
    loc0, sc, Z, a = domain(cx, X, c["o"])
    # only where no decision of the algorithm is on the edge, and no two columns tie in the update order
    init = InitialDDCW(alpha=a, min_eigenvalue=c["o"]["me"], verbosity=logging.CRITICAL).fit(Z.copy())
    cx.ran = True
    with np.errstate(invalid="ignore"):
        Y = np.where(np.abs(Z) > 3, np.nan, Z)
    rng = np.random.default_rng(c["t"])
    w = c["what"]
    A, b, rp, cp = np.ones(p), np.zeros(p), np.arange(n), np.arange(p)
    if w == "affine":
        # powers of two keep the standardised data, and with them every rounding to three decimals, exact
        A = 2.0 ** rng.integers(-12, 13, p) * rng.choice([-1, 1], p)
    elif w == "rows":
        rp = rng.permutation(n)
    else:
        counts = np.sum(~np.isnan(Y), axis=0)
        if len(np.unique(counts)) < p:
            cp = np.arange(p)  # ties are updated in column order
            w = "none"
        else:
            cp = rng.permutation(p)
    e1 = make(c["o"]).fit(X)
    e2 = make(c["o"]).fit((X * A + b)[rp][:, cp])
    mu, S, W, info = refs.cell_iterations(Y, np.array(init.location_), init.covariance_, round(a * n), c["o"]["crit"], c["o"]["steps"], c["o"]["me"])
    if info["margin"] < 1e-7 or info.get("gap", 1) < 1e-9:
        cx.skip("a decision within rounding")
    if w == "columns" and any(len(np.unique(V.sum(0))) < p for V in info["Ws"]):
        w = "none"
    if w == "none":
        cx.mark_trivial()
        cx.label("column tie")
        return
    cx.label(w)
    cx.close(e2.W, np.asarray(e1.W)[rp][:, cp], 0, what=f"W after the change ({w})")
    cx.close((np.asarray(e2.location_) - (np.asarray(e1.location_) * A + b)[cp]) / (np.abs(A) * sc)[cp], np.zeros(p), atol=1e-6, what=f"location after the change ({w})")
    cx.close(e2.covariance_ / np.outer((A * sc)[cp], (A * sc)[cp]), (e1.covariance_ / np.outer(sc, sc))[cp][:, cp], 1e-6, what=f"covariance after the change ({w})")
    cx.close(e2.residuals, (np.asarray(e1.residuals) * np.sign(A))[rp][:, cp], 1e-5, what=f"residuals after the change ({w})")


@law("C11", FD({"n": st.integers(80, 200), "p": st.integers(3, 6), "seed": gen.SEED, "frac": st.sampled_from([0.02, 0.05, 0.1]),
                "far": st.sampled_from([10.0, 100.0, 1e6]), "unit": st.sampled_from([1.0, 1e-3, 1e3]), "nan": st.sampled_from([0.0, 0.05]),
                "where": st.sampled_from(["any", "one", "block"])}), quick=160,
     rule="clean correlated normal data x planted cells anywhere, in one column, or in whole rows, at any distance, x missing cells")
def cellmcd_planted(c, cx):
    rng = np.random.default_rng(c["seed"])
    n, p = c["n"], c["p"]
    rho = 0.8
    R = np.full((p, p), rho) + (1 - rho) * np.eye(p)
    sg = rng.choice([-1.0, 1.0], p)
    R = R * np.outer(sg, sg)
    X = rng.standard_normal((n, p)) @ np.linalg.cholesky(R).T
    truth = X.copy()
    cells = np.zeros((n, p), bool)
    if c["where"] == "one":
        cells[rng.permutation(n)[: max(1, int(c["frac"] * n))], 0] = True
    elif c["where"] == "block":
        cells[rng.permutation(n)[: max(1, int(c["frac"] * n))]] = True
    else:
        for i in rng.permutation(n)[: max(1, int(c["frac"] * n))]:
            cells[i, rng.integers(0, p)] = True
    X[cells] = (rng.choice([-1, 1], int(cells.sum())) * c["far"] * rng.uniform(1, 1.2, int(cells.sum())))
    if c["nan"]:
        miss = (rng.random((n, p)) < c["nan"]) & ~cells
        miss[miss.all(axis=1), 0] = False
        X[miss] = np.nan
    o = {"alpha": 0.75, "me": 1e-4, "steps": 100, "crit": 1e-4}
    domain(cx, X, o)
    u = c["unit"]
    est = CellMCD(verbosity=logging.CRITICAL).fit(X * u)
    cx.ran = True
    cx.label(c["where"], f"far={c['far']:g}", "nan" if c["nan"] else "complete")
    W = np.asarray(est.W)
    cx.check(not np.any(W[cells] == 1), f"{int(np.sum(W[cells] == 1))} of {int(cells.sum())} planted cells not flagged")
    res = np.asarray(est.residuals)
    cx.check(np.all(np.abs(res[cells]) > np.sqrt(chi2.ppf(0.99, 1))), "a planted cell has a small standardised residual")
    reg = ~cells & ~np.isnan(X)
    rate = np.mean(W[reg] == 0)
    cx.check(rate < 0.15, f"{rate:.1%} of the regular cells flagged")
    S = est.covariance_ / u**2
    L = np.linalg.cholesky(R)
    ev = np.linalg.eigvalsh(np.linalg.solve(L, np.linalg.solve(L, S).T))
    cx.check(0.1 < ev[0] and ev[-1] < 5, f"eigenvalues of the estimated relative to the true covariance: {ev}")
    mu = np.linalg.solve(L, est.location_ / u)
    cx.check(np.linalg.norm(mu) < 1.2, f"location off by {np.linalg.norm(mu):.3g} (whitened units)")
    if c["where"] != "block":
        sel = (cells | np.isnan(X)) & (W.sum(axis=1, keepdims=True) >= 2)  # cells with at least two clean neighbours
        err = np.abs(est.X_imputed / u - truth)[sel]
        cx.check(len(err) == 0 or (np.max(err) < 4.5 and np.median(err) < 2.2),
                 lambda: f"imputed cells are off by {np.median(err):.3g} (median) up to {np.max(err):.3g}, conditional deviation about 0.55")


@law("C11", FD({"m": gen.mat_case(30, 60, 2, 4, kinds=["normal", "factor"], outs=(0.0,), units=(0,)), "bad": st.sampled_from(
    ["alpha_low", "alpha_high", "eig", "mad", "outliers", "nans", "few", "unfitted", "alpha_kept", "both", "small_alpha"])}),
     quick=160, rule="invalid settings and data, refits with a different number of rows")
def cellmcd_rejects(c, cx):
    X = gen.mat(c["m"])
    n, p = X.shape
    b = c["bad"]
    cx.label(b)
    rng = np.random.default_rng(c["m"]["seed"] + 3)
    q = dict(verbosity=logging.CRITICAL)
    if b == "alpha_low":
        for a in (0.0, 0.3, 0.4999, -1):
            cx.raises(ValueError, lambda: CellMCD(alpha=a, **q).fit(X), f"fit with alpha={a}")
            cx.raises(ValueError, lambda: InitialDDCW(alpha=a, **q).fit(X), f"initial estimate with alpha={a}")
    elif b == "alpha_high":
        for a in (1.0001, 2, 30):
            cx.raises(ValueError, lambda: CellMCD(alpha=a, **q).fit(X), f"fit with alpha={a}")
            cx.raises(ValueError, lambda: InitialDDCW(alpha=a, **q).fit(X), f"initial estimate with alpha={a}")
    elif b == "eig":
        for e in (0, 1e-7, -1, 9.9e-7):
            cx.raises(ValueError, lambda: CellMCD(min_eigenvalue=e), f"min_eigenvalue={e}")
        CellMCD(min_eigenvalue=1e-6)
    elif b == "mad":
        Y = X.copy()
        Y[: n // 2 + 2, 1] = 3.0
        cx.raises(ValueError, lambda: CellMCD(**q).fit(Y), "fit with a column whose MAD is zero")
    elif b in ("outliers", "nans", "both"):
        k = int(0.25 * n) + 2
        rows = rng.permutation(n)
        Y = X.copy()
        if b == "outliers":
            Y[rows[:k], 0] = 1e3 + np.arange(k)
        elif b == "nans":
            Y[rows[:k], 0] = np.nan
        else:
            Y[rows[: k // 2], 0] = np.nan
            Y[rows[k // 2: k], 0] = 1e3 + np.arange(k - k // 2)
        cx.raises(ValueError, lambda: CellMCD(**q).fit(Y), f"fit with more than 25% {b} in a column")
        if b != "outliers":
            # allowed when fewer clean cells are asked for
            o = {"alpha": 0.5}
            domain(cx, Y, o)
            est = CellMCD(alpha=0.5, **q).fit(Y)
            cx.check(np.all(np.isfinite(est.covariance_)), "covariance not finite")
    elif b == "few":
        p2 = n // 5 + 1
        Y = rng.standard_normal((n, p2))
        cx.raises(ValueError, lambda: CellMCD(alpha=0.5, **q).fit(Y), f"fit with n={n}, p={p2}")
    elif b == "unfitted":
        cx.raises(NotFittedError, lambda: CellMCD().covariance, "covariance before fit")
        cx.raises(NotFittedError, lambda: CellMCD().cell_MCD_plot(0), "cell_MCD_plot before fit")
    elif b == "small_alpha":
        domain(cx, X, {"alpha": 0.5})
        est = CellMCD(alpha=0.5, **q).fit(X)
        cx.check(np.all(np.asarray(est.W).sum(0) >= n // 2 + 1), f"fewer than [n/2]+1 clean cells in a column: {est.W.sum(0)}")
    else:
        domain(cx, X, {"alpha": 0.5})
        est = CellMCD(alpha=0.5, **q)
        est.fit(X)
        cx.check(est.get_params()["alpha"] == 0.5 and est.alpha == 0.5, f"fit changed alpha to {est.alpha}")


# ---------------------------------------------------------------------------------------------
# C14 plots
PT = ["indexplot", "residuals_vs_variable", "residuals_vs_predictions", "variable_vs_predictions", "bivariate"]


@law("C14", FD({"m": gen.mat_case(30, 60, 2, 4, kinds=["factor", "normal"], outs=(0.1, 0.2), units=(0, 1)), "nan": st.sampled_from([0.0, 0.06]),
                "type": st.sampled_from(PT), "q": st.sampled_from([0.99, 0.99, 0.95]), "names": BOOL, "aq": st.sampled_from([None, None, 0.999, 0.9]), "v": st.integers(0, 3), "v2": st.integers(1, 3)}), quick=240,
     rule="data x plot type x variables x flagging quantile x annotation quantile")
def cellmcd_plots(c, cx):
    X = data(c)
    n, p = X.shape
    q = c["q"]
    domain(cx, X, {"alpha": 0.6}, q)
    est = CellMCD(quantile=q, alpha=0.6, verbosity=logging.CRITICAL).fit(X)
    cx.ran = True
    v = c["v"] % p
    v2 = (v + c["v2"]) % p
    if v2 == v:
        v2 = (v + 1) % p
    t = c["type"]
    names = [f"case{i}" for i in range(n)]
    kw = dict(plottype=t) if t != "indexplot" else {}
    if t == "bivariate":
        cx.raises(ValueError, lambda: est.cell_MCD_plot(v, plottype=t), "bivariate plot without second variable")
        kw.update(second_variable=v2, second_variable_name="zz")
    if c["names"]:
        kw["row_names"] = names
    if c["aq"] is not None:
        kw["annotation_quantile"] = c["aq"]
    cx.label(t, f"q={q}", "annotated" if c["names"] else "plain", f"aq={c['aq']}")
    fig = est.cell_MCD_plot(v, variable_name="xx", **kw)
    ax = fig.axes[0]
    R, P = np.asarray(est.residuals), np.asarray(est.predictions)
    cut = np.sqrt(chi2.ppf(q, 1))
    acut = cut if c["aq"] is None else np.sqrt(chi2.ppf(c["aq"], 1))

    def thr(x, k):
        lo, s = refs.onestep_wrapping(x[~np.isnan(x)])
        return lo - k * s, lo + k * s

    x, y = {"indexplot": (np.arange(n) * 1.0, R[:, v]), "residuals_vs_variable": (X[:, v], R[:, v]),
            "residuals_vs_predictions": (P[:, v], R[:, v]), "variable_vs_predictions": (P[:, v], X[:, v]),
            "bivariate": (X[:, v], X[:, v2])}[t]
    off = np.ma.filled(np.ma.asarray(ax.collections[0].get_offsets(), dtype=float), np.nan)
    seen = np.column_stack([x, y])
    masked = np.isnan(seen).any(axis=1)
    cx.check(off.shape == (n, 2), f"{t}: {off.shape} points for {n} cases")
    cx.close(off[~masked], seen[~masked], 1e-9, what=f"{t}: plotted points")
    hl = lambda k: (-k, k) if t in PT[:3] else thr(y, k)  # noqa: E731
    vl = lambda k: None if t == "indexplot" else thr(x, k)  # noqa: E731
    hs = sorted(float(ln.get_ydata()[0]) for ln in ax.lines if len(ln.get_ydata()) == 2 and list(ln.get_xdata()) == [0, 1] and ln.get_ydata()[0] == ln.get_ydata()[1])
    vs = sorted(float(ln.get_xdata()[0]) for ln in ax.lines if len(ln.get_xdata()) == 2 and list(ln.get_ydata()) == [0, 1] and ln.get_xdata()[0] == ln.get_xdata()[1])
    cx.close(hs, hl(cut), 1e-7, what=f"{t}: horizontal cutoff lines")
    if t == "indexplot":
        cx.check(vs == [], f"index plot with vertical lines {vs}")
    else:
        cx.close(vs, vl(cut), 1e-7, what=f"{t}: vertical cutoff lines")
    cx.check("xx" in ax.get_xlabel() or t == "indexplot", f"{t}: x label {ax.get_xlabel()!r}")
    cx.check(("zz" if t == "bivariate" else "xx") in ax.get_ylabel(), f"{t}: y label {ax.get_ylabel()!r}")
    if t == "bivariate":
        S2 = est.covariance_[np.ix_([v, v2], [v, v2])]
        mu = np.asarray(est.location_)[[v, v2]]
        curve = [np.column_stack([ln.get_xdata(), ln.get_ydata()]) for ln in ax.lines if len(ln.get_xdata()) > 20]
        cx.check(len(curve) == 1, f"{len(curve)} ellipses drawn")
        e = curve[0] - mu
        d2 = np.sum(np.linalg.solve(S2, e.T).T * e, axis=1)
        cx.close(d2, np.full(len(d2), chi2.ppf(q, 2)), 1e-6, what="squared distance of the tolerance ellipse")
        ang = np.unwrap(np.arctan2(e[:, 1] / np.sqrt(S2[1, 1]), e[:, 0] / np.sqrt(S2[0, 0])))
        cx.check(abs(abs(ang[-1] - ang[0]) - 2 * np.pi) < 1e-6, "the ellipse is not closed")
        D = seen - mu
        with np.errstate(invalid="ignore"):
            val = np.sqrt(np.sum(np.linalg.solve(S2, D.T).T * D, axis=1)) - np.sqrt(chi2.ppf(c["aq"] or q, 2))
        want = np.where(val > 0)[0]
        edge = set(np.where(np.abs(val) < 1e-6)[0])
    else:
        lo, hi = hl(acut)
        with np.errstate(invalid="ignore"):
            out = (y < lo) | (y > hi)
            near = (np.abs(y - lo) < 1e-7 * (hi - lo)) | (np.abs(y - hi) < 1e-7 * (hi - lo))
            if t != "indexplot":
                l2, h2 = vl(acut)
                out |= (x < l2) | (x > h2)
                near |= (np.abs(x - l2) < 1e-7 * (h2 - l2)) | (np.abs(x - h2) < 1e-7 * (h2 - l2))
        want, edge = np.where(out)[0], set(np.where(near)[0])
    texts = {t_.get_text(): t_.get_position() for t_ in ax.texts}
    if not c["names"]:
        cx.check(len(texts) == 0, "annotated without row names")
        return
    got = {int(k[4:]) for k in texts}
    cx.check(len(ax.texts) == len(texts), "a case is annotated twice")
    cx.check((got ^ set(want.tolist())) <= edge, f"{t}: annotated {sorted(got)}, outside the thresholds {sorted(want.tolist())}")
    for i in got:
        if not masked[i]:
            cx.close(texts[f"case{i}"], seen[i], 1e-9, what=f"{t}: position of the annotation of case {i}")
