"""Covariance estimators (casewise): common contract, MCD, OGK, Kendall, wrapping, helpers."""
import itertools
import logging
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy import stats
from scipy.stats import chi2
from sklearn.exceptions import NotFittedError

from vp import gen
from vp.core import law
from vp.props.u import DN, ref_qn, ref_mad, bisq_w

from robpy.covariance import OGK, DetMCD, FastMCD, KendallTau, WrappingCovariance
from robpy.covariance.utils.alter_covariance import covariance_to_correlation, truncated_covariance
from robpy.utils.distance import mahalanobis_distance
from robpy.utils.general import inverse_submatrix
from robpy.univariate import Qn, Tau

FD = st.fixed_dictionaries
BOOL = st.booleans()


def md2(X, loc, cov):
    d = X - loc
    return np.sum(np.linalg.solve(np.atleast_2d(cov), d.T).T * d, axis=1)


def fast(seed=7, n_initial_subsets=60, **kw):
    return FastMCD(random_seed=seed, n_initial_subsets=n_initial_subsets, verbosity=logging.ERROR, **kw)


def det(**kw):
    return DetMCD(verbosity=logging.ERROR, **kw)


def med_scale(x, axis=0):
    return np.median(np.abs(x - np.median(x, axis=axis, keepdims=True)), axis=axis)


MAKE = {
    "fastmcd": lambda **k: fast(**k), "detmcd": lambda **k: det(),
    "ogk": lambda **k: OGK(**k), "ogk_rw": lambda **k: OGK(reweighting=True, **k),
    "kendall": lambda **k: KendallTau(), "wrapping": lambda **k: WrappingCovariance(**k),
}
CNAME = st.sampled_from(sorted(MAKE))


# ---------------------------------------------------------------------------------------------
# C01 common contract
@law("C01", FD({"m": gen.mat_case(20, 60, 1, 4, units=(0, 2, 1, 3)), "est": CNAME, "frame": st.sampled_from(["no", "float", "mixed"]), "store": st.sampled_from([None, True, False]), "pct": st.sampled_from([0.975, 0.9, 0.99])}),
     quick=640, rule="estimator x data x container")
def covariance_contract(c, cx):
    import matplotlib.pyplot as plt

    X = gen.mat(c["m"])
    n, p = X.shape
    name = c["est"]
    if p == 1 and name.startswith("ogk"):
        pass
    kw = {}
    if c["store"] is not None and name not in ("kendall", "detmcd"):
        kw["store_precision"] = c["store"]
    if c["frame"] == "mixed":  # whole numbers in an integer column
        j = c["m"]["seed"] % p
        X[:, j] = np.round(X[:, j] / ref_mad(X[:, j]) * 20)
    arg = X if c["frame"] == "no" else pd.DataFrame(X, columns=gen.names(p))
    if c["frame"] == "mixed":
        arg = arg.astype({arg.columns[j]: "int64"})
    est = MAKE[name](**kw)
    cx.raises(NotFittedError, lambda: est.covariance, f"{name}.covariance before fit")
    cx.raises(NotFittedError, lambda: est.distance_distance_plot(), f"{name}.distance_distance_plot before fit")
    cx.raises(AttributeError, lambda: est.correlation, f"{name}.correlation before fit")
    before = X.copy()
    got = est.fit(arg)
    cx.check(got is est, f"{name}.fit does not return the estimator")
    cx.check(np.array_equal(before, X), f"{name}.fit changed its input")
    cov = cx.arr(est.covariance_, (p, p), f"{name} covariance")
    loc = cx.arr(est.location_, (p,), f"{name} location")
    cx.label(name, f"p={p}", "array" if c["frame"] == "no" else c["frame"])
    sd = np.sqrt(np.diag(cov))
    ss = np.outer(sd, sd)
    cx.close(est.covariance, cov, 0, what="covariance property")
    cx.close(cov.T, cov, 1e-10, what=f"{name} covariance symmetry")
    ev = np.linalg.eigvalsh((cov + cov.T) / 2)
    cond = ev[-1] / max(ev[0], 1e-300)
    cx.label("ill-conditioned" if cond > 1e4 else "well-conditioned")
    cx.check(ev[0] >= -1e-9 * ev[-1] and ev[-1] > 0, f"{name}: covariance is not positive semi-definite, eigenvalues {ev}")
    if cond < 1e10:
        prec = np.linalg.inv(cov / ss)
        cx.close(est.get_precision() * ss, prec, 1e-13 * cond + 1e-9, what=f"{name} precision is the inverse of the covariance")
        stored = getattr(est, "precision_", None)
        if kw.get("store_precision") is False:
            cx.check(stored is None, f"{name}: precision stored although store_precision=False")
        else:
            cx.close(stored * ss, prec, 1e-13 * cond + 1e-9, what=f"{name} stored precision")
        cx.close(est.mahalanobis(X), md2(X, loc, cov), 1e-12 * cond + 1e-8, what=f"{name}.mahalanobis")
    cx.check(est.n_features_in_ == p, f"n_features_in_ = {est.n_features_in_}")
    if name in ("kendall", "wrapping"):
        cor = cx.arr(est.correlation, (p, p), "correlation")
        s = np.sqrt(np.diag(cov))
        cx.close(cor, cov / np.outer(s, s), 1e-8, what=f"{name} correlation belongs to the covariance")
    else:
        cx.raises(AttributeError, lambda: est.correlation, f"{name}.correlation (not estimated)")
    # distance-distance plot: classical distances on x, robust ones on y, cutoffs at the chi2 quantile
    if cond < 1e8:
        fig = est.distance_distance_plot(chi2_percentile=c["pct"])
        ax = fig.axes[0]
        off = np.asarray(ax.collections[0].get_offsets(), float)
        cl = np.cov(X, rowvar=False).reshape(p, p)
        want_y = np.sqrt(md2(X, loc, cov))
        if name in ("kendall",):
            pass
        # classical distances are measured from the estimator's own centre
        want_x = np.sqrt(md2(X, loc, cl))
        cx.check(off.shape == (n, 2), f"distance-distance plot shows {off.shape} points for {n} observations")
        cx.close(off[:, 1], want_y, 1e-6, what=f"{name} robust distances in the plot")
        cx.close(off[:, 0], want_x, 1e-6, what=f"{name} classical distances in the plot")
        cut = np.sqrt(chi2.ppf(c["pct"], p))
        hs = [ln.get_ydata()[0] for ln in ax.lines if len(set(np.ravel(ln.get_ydata()))) == 1 and np.ravel(ln.get_ydata())[0] != 0]
        vs = [ln.get_xdata()[0] for ln in ax.lines if len(set(np.ravel(ln.get_xdata()))) == 1 and np.ravel(ln.get_xdata())[0] != 0]
        cx.check(any(abs(h - cut) < 1e-9 for h in hs) and any(abs(v - cut) < 1e-9 for v in vs), f"cutoff lines {hs} {vs}, expected {cut}")
        plt.close(fig)
    # container does not matter
    other = MAKE[name](**kw).fit(pd.DataFrame(X) if c["frame"] == "no" else X)
    cx.close(other.covariance_ / ss, cov / ss, 1e-10, what=f"{name}: covariance of array and data frame")
    cx.close(other.location_, loc, 1e-12, what=f"{name}: location of array and data frame")
    bad = X.copy()
    bad[n // 2, 0] = np.nan
    cx.raises(ValueError, lambda: MAKE[name](**kw).fit(bad), f"{name}.fit with missing values")
    bad[n // 2, 0] = np.inf
    cx.raises(ValueError, lambda: MAKE[name](**kw).fit(bad), f"{name}.fit with infinite values")
    cx.raises(ValueError, lambda: MAKE[name](**kw).fit(X[:, 0]), f"{name}.fit with a vector")


# ---------------------------------------------------------------------------------------------
# C02 equivariance
def qn_scale(X, axis=0):
    X = np.asarray(X)
    return Qn().fit(X).scale if X.ndim == 1 else np.array([Qn().fit(col).scale for col in X.T])


@law("C02", FD({"m": gen.mat_case(20, 80, 1, 5, outs=(0, 0.1, 0.25)), "est": st.sampled_from(["fastmcd", "fastmcd", "detmcd", "ogk", "ogk_rw", "kendall", "wrapping"]),
                "a": gen.SEED, "raw": BOOL, "big": BOOL}), quick=640,
     rule="estimator x data x transformation of its equivariance class (affine for FastMCD, column-wise affine incl. reflections and column/row order otherwise)")
def covariance_equivariance(c, cx):
    X = gen.mat(c["m"])
    n, p = X.shape
    rng = np.random.default_rng(c["a"])
    name = c["est"]
    if name == "fastmcd":
        kw = dict(tolerance=0.0)
        if c["raw"]:
            kw.update(correct_covariance=False, reweighting=False)
        mk = lambda: fast(**kw)  # noqa: E731
        # powers of two leave the arithmetic exact; any other map may resolve the exact distance ties
        # inside an elemental subset (p+1 points are equidistant from their mean) differently
        exact = rng.random() < 0.4
        A = np.eye(p) * rng.choice([-1.0, 1.0]) * 2.0 ** rng.integers(-8, 9) if exact else gen.mixing(rng, p) * 10.0 ** rng.uniform(-1, 1)
        rows = np.arange(n)
    else:
        if name == "detmcd":
            mk = lambda: det(tolerance=0.0, **(dict(correct_covariance=False, reweighting=False) if c["raw"] else {}))  # noqa: E731
        else:
            mk = MAKE[name]
        s = rng.choice([-1, 1], p) * 10.0 ** rng.uniform(-6, 4, p)
        A = np.diag(s)[:, rng.permutation(p)]
        rows = rng.permutation(n)
    b = rng.uniform(-10, 10, p) * np.abs(A).sum(0) * (10 if c["big"] else 1)
    if name == "fastmcd" and exact:
        b = np.zeros(p)
    Y = X[rows] @ A + b
    if name == "fastmcd" and not exact:
        kr = dict(tolerance=0.0, correct_covariance=False, reweighting=False)
        q = np.linalg.det(np.atleast_2d(fast(**kr).fit(Y).covariance_)) / np.linalg.det(A) ** 2 / np.linalg.det(np.atleast_2d(fast(**kr).fit(X).covariance_))
        cx.check(1 / 1.7 < q < 1.7, f"fastmcd: standardised determinant changes by a factor {q} under an affine map")
        if abs(q - 1) > 1e-7:
            cx.label("ties resolved differently")
            return
    e1, e2 = mk().fit(X), mk().fit(Y)
    want = A.T @ e1.covariance_ @ A
    d = np.sqrt(np.diag(want))
    cx.label(name, "raw" if c["raw"] else "full", f"p={p}")
    cx.check(np.all(d > 0), f"{name}: zero variance {d}")
    cx.close(cx.arr(e2.covariance_, (p, p)) / np.outer(d, d), want / np.outer(d, d), 1e-6, what=f"{name}: covariance of transformed data (standardised)")
    cx.close((np.asarray(e2.location_) - b) / d, (A.T @ e1.location_) / d, 0, 1e-5, what=f"{name}: location of transformed data (standardised)")
    if name == "kendall":  # correlation only depends on the ranks
        Z = np.arctan(X - np.median(X, axis=0)) * 3 + 1
        cx.close(KendallTau().fit(Z).correlation, e1.correlation, 1e-9, what="kendall correlation after increasing transformations")


# ---------------------------------------------------------------------------------------------
# MCD
def mcd_h(alpha, n, p):
    lo = (n + p + 1) // 2
    if alpha is None:
        return lo
    if isinstance(alpha, float) or alpha == 1:
        return max(int(alpha * n), lo)
    return max(alpha, lo)


MALPHA = st.one_of(st.none(), st.floats(0.5, 0.99).map(lambda v: ["f", v]), st.sampled_from([["f", 0.5], ["f", 0.75]]),
                   st.floats(0, 1).map(lambda v: ["i", v]))


def malpha(a, n):
    if a is None or a[0] == "f":
        return a and a[1]
    return int(math.ceil(n / 2) + int(a[1] * (n - 1 - math.ceil(n / 2))))


def csteps(X, mu, S, h, maxit=200):
    d0 = np.inf
    for _ in range(maxit):
        idx = np.argsort(md2(X, mu, S))[:h]
        mu, S = X[idx].mean(0), np.cov(X[idx], rowvar=False).reshape(X.shape[1], -1)
        d = np.linalg.det(S)
        if not d < d0:
            break
        d0 = d
    return d0, mu, S


def judge_subset(cx, X, loc, cov, h, tol, what):
    """(loc, cov) are mean and covariance of the h observations closest to them (a C-step fixed point)."""
    p = X.shape[1]
    d = md2(X, loc, cov)
    idx = np.argsort(d)[:h]
    m, S = X[idx].mean(0), np.cov(X[idx], rowvar=False).reshape(p, p)
    s = np.sqrt(np.diag(cov))
    if tol == 0:
        if gen.gap(d, h) < 1e-7:
            return "tie"
        cx.close((loc - m) / s, np.zeros(p), 0, 1e-6, f"{what}: location minus mean of its h={h} closest observations (standardised)")
        cx.close(S / np.outer(s, s), cov / np.outer(s, s), 1e-6, what=f"{what}: covariance of its h={h} closest observations (standardised)")
    else:
        a, b = np.linalg.det(cov), np.linalg.det(S)
        cx.check(b >= a - tol - 1e-9 * abs(a), f"{what}: a further C-step still lowers the determinant from {a} to {b} (tolerance {tol})")
    # the trace identity holds for the mean and covariance of any h points: checks the size h
    return "ok"


def fixed_or_close(est_tol):
    return 0 if est_tol == 0 else est_tol


@law("C03", FD({"n": st.integers(20, 60), "p": st.integers(2, 4), "seed": gen.SEED, "share": st.sampled_from([0.2, 0.3, 0.45]), "otype": st.sampled_from(["wide", "cluster", "sheet"]), "steps": st.sampled_from([0, 0, 1, 2]), "nb": st.sampled_from([120, 120, 10]), "rs": st.integers(0, 10**6), "alpha": st.sampled_from([None, 0.6, 0.75])}), quick=800,
     rule="data with several local minima x number of initial steps and of candidates followed to convergence; judged when at least a quarter of 60 random starts lead to the smallest determinant")
def fastmcd_best_candidate(c, cx):
    rng = np.random.default_rng(c["seed"])
    n, p = c["n"], c["p"]
    X = rng.standard_normal((n, p))
    m = int(c["share"] * n)
    if c["otype"] == "wide":
        X[:m] *= 3
    elif c["otype"] == "cluster":
        X[:m] = X[:m] * 0.7 + 3
    else:
        X[:m, 0] *= 6
    h = mcd_h(c["alpha"], n, p)
    ends = []
    for _ in range(60):
        k = rng.permutation(n)[: p + 1]
        ends.append(csteps(X, X[k].mean(0), np.cov(X[k], rowvar=False), h)[0])
    ends = np.sort(ends)
    if not np.mean(ends < ends[0] * 1.0005) >= 0.25:
        cx.skip("the smallest determinant is reached from too few starts")
    kw = dict(seed=c["rs"], alpha=c["alpha"], n_initial_subsets=120, n_initial_c_steps=c["steps"], n_partitions=1, tolerance=0.0, correct_covariance=False, reweighting=False)
    d = np.linalg.det(fast(n_best_subsets=c["nb"], **kw).fit(X).covariance_)
    cx.ran = True
    cx.label("several local minima" if ends[-1] > ends[0] * 1.001 else "one local minimum", f"{c['steps']} initial steps", c["otype"])
    if ends[-1] <= ends[0] * 1.001:
        cx.mark_trivial()
    if c["nb"] == 120:
        cx.check(d <= ends[0] * 1.001, f"determinant {d:.8g}; a quarter of the random starts lead to {ends[0]:.8g}")
    else:
        one = np.linalg.det(fast(n_best_subsets=1, **kw).fit(X).covariance_)
        cx.check(d <= one * (1 + 1e-9), f"determinant {d:.8g} from {c['nb']} candidates, {one:.8g} from the first of them")


@law("C03", FD({"m": gen.mat_case(15, 100, 1, 5, outs=(0, 0.1, 0.25, 0.4)), "alpha": MALPHA, "seed": st.one_of(st.just(0), st.integers(0, 1000)),
                "parts": st.sampled_from([None, None, 1, 2]), "nis": st.sampled_from([20, 60]), "tol": st.sampled_from([0.0, 0.0, None]),
                "nbest": st.sampled_from([None, 1, 3])}), quick=480,
     rule="raw FastMCD estimates over data, subset size, partitions and algorithm settings")
def fastmcd_is_fixed_point(c, cx):
    cx.vary_entropy()
    X = gen.mat(c["m"])
    n, p = X.shape
    alpha = malpha(c["alpha"], n)
    h = mcd_h(alpha, n, p)
    if c["parts"] == 2 and n // 2 < 4 * p + 4:
        cx.skip("partitions too small")
    kw = {} if c["tol"] is None else {"tolerance": c["tol"]}
    if c["nbest"]:
        kw["n_best_subsets"] = c["nbest"]
    mk = lambda: fast(seed=c["seed"], alpha=alpha, n_initial_subsets=c["nis"], n_partitions=c["parts"], correct_covariance=False, reweighting=False, **kw)  # noqa: E731
    est = mk().fit(X)
    loc, cov = cx.arr(est.location_, (p,), "location"), cx.arr(est.covariance_, (p, p), "covariance")
    tol = 1e-8 if c["tol"] is None else c["tol"]
    cx.label(f"h/n={h / n:.1f}", judge_subset(cx, X, loc, cov, h, tol, "raw FastMCD"), f"parts={c['parts']}")
    again = mk().fit(X)
    cx.close(again.covariance_, cov, 0, what="FastMCD covariance with the same seed")
    cx.close(again.location_, loc, 0, what="FastMCD location with the same seed")
    # never worse than what ordinary C-steps reach from the classical estimates on this data by a wide margin
    d0, _, _ = csteps(X, X.mean(0), np.cov(X, rowvar=False).reshape(p, p), h)
    dd = np.linalg.det(cov)
    # (a few dozen random starts need not find the best subset in more dimensions or in small partitions)
    if c["nis"] >= 60 and not c["nbest"] and c["parts"] != 2 and p <= 3:
        cx.check(dd <= d0 * 2 + 1e-7, f"FastMCD determinant {dd}, but C-steps from the classical estimate reach {d0}")


@law("C03", FD({"seed": gen.SEED, "n": st.integers(20, 60), "p": st.integers(1, 3), "grid": st.sampled_from([0.0, 0.3, 0.45]), "nis": st.sampled_from([1, 5, 20]), "rs": st.one_of(st.just(0), st.integers(0, 1000))}),
     quick=320, rule="data with many coinciding rows, where random starts have to be enlarged: the seed alone fixes the result")
def fastmcd_seed(c, cx):
    cx.vary_entropy()
    rng = np.random.default_rng(c["seed"])
    n, p = c["n"], c["p"]
    X = rng.standard_normal((n, p)) @ gen.mixing(rng, p).T
    m = int(c["grid"] * n)
    if m:
        X[rng.permutation(n)[:m]] = rng.integers(0, 2, (m, p))
    out = []
    for k in (1, 2, 3):
        np.random.seed(k)
        before = np.random.get_state()[2]
        e = fast(seed=c["rs"], n_initial_subsets=c["nis"], n_best_subsets=min(3, c["nis"]), tolerance=0.0, alpha=0.75).fit(X)
        out.append(e)
        cx.check(np.random.get_state()[2] == before, "FastMCD with a seed draws from numpy's global generator")
    cx.label("ties" if m else "continuous", f"{c['nis']} starts")
    for e in out[1:]:
        cx.close(e.covariance_, out[0].covariance_, 0, what="FastMCD covariance with the same seed, other global state")
        cx.close(e.location_, out[0].location_, 0, what="FastMCD location with the same seed, other global state")


@law("C03", FD({"seed": gen.SEED, "n": st.integers(7, 11), "p": st.integers(1, 3), "alpha": MALPHA, "kind": st.sampled_from(["normal", "corr", "t3"]), "out": st.sampled_from([0, 0.2, 0.3])}),
     quick=320, rule="n<=11: determinant compared with the minimum over all h-subsets")
def fastmcd_small_exhaustive(c, cx):
    X = gen.mat(dict(c, otype="spread"))
    n, p = X.shape
    alpha = malpha(c["alpha"], n)
    h = mcd_h(alpha, n, p)
    if h >= n or n < 2 * p + 3:
        cx.skip("h = n or too few observations")
    est = FastMCD(alpha=alpha, random_seed=1, n_initial_subsets=300, tolerance=0.0, correct_covariance=False, reweighting=False, verbosity=logging.ERROR).fit(X)
    best = min(np.linalg.det(np.cov(X[list(s)], rowvar=False).reshape(p, p)) for s in itertools.combinations(range(n), h))
    got = np.linalg.det(cx.arr(est.covariance_, (p, p)))
    ds = [np.linalg.det(np.cov(X[list(s)], rowvar=False).reshape(p, p)) for s in itertools.combinations(range(n), h)]
    cx.label("optimal" if got <= best * (1 + 1e-9) else "suboptimal")
    cx.check(got >= best * (1 - 1e-7), f"determinant {got} below the minimum {best} over all {h}-subsets of {n} points: not an h-subset")
    cx.check(got <= best * 1.6 and np.mean(np.array(ds) < got * (1 - 1e-9)) < 0.03,
             f"determinant {got}, optimum over all {h}-subsets is {best}, {np.mean(np.array(ds) < got * (1 - 1e-9)):.3f} of all subsets are better")


@law("C03", FD({"seed": gen.SEED, "n": st.integers(601, 900), "p": st.integers(1, 4), "alpha": MALPHA, "kind": st.sampled_from(["normal", "corr"]),
                "out": st.sampled_from([0, 0.1, 0.2]), "otype": st.sampled_from(["cluster", "spread"]), "parts": st.sampled_from([None, 3, 1])}), quick=64, rule="large n: partitioned search")
def fastmcd_partitions(c, cx):
    X = gen.mat(c)
    n, p = X.shape
    alpha = malpha(c["alpha"], n)
    h = mcd_h(alpha, n, p)
    kw = dict(alpha=alpha, n_partitions=c["parts"], tolerance=0.0)
    raw = fast(seed=3, n_initial_subsets=400, correct_covariance=False, reweighting=False, **kw).fit(X)
    loc, cov = cx.arr(raw.location_, (p,)), cx.arr(raw.covariance_, (p, p))
    cx.label(judge_subset(cx, X, loc, cov, h, 0.0, "raw FastMCD (partitioned)"), f"parts={c['parts']}")
    m = int(c["out"] * n)
    if h <= n - m:
        rng = np.random.default_rng(c["seed"])
        gen.clean(c, rng)
        bad = np.zeros(n, bool)
        if m:
            bad[rng.permutation(n)[:m]] = True
        d = md2(X, loc, cov)
        sel = np.argsort(d)[:h]
        if m:
            cx.check(not bad[sel].any(), f"{bad[sel].sum()} of {m} gross outliers inside the h-subset (h={h}, n={n})")


# C04 ------------------------------------------------------------------------------------------
def ref_tau(x):
    med, s0 = np.median(x), ref_mad(x)
    w = bisq_w((x - med) / s0, 4.5)
    loc = np.sum(w * x) / np.sum(w)
    q = stats.norm.ppf(0.75)
    b = 3.0 * q
    e = (2 * stats.norm.cdf(b) - 1) - 2 * b * stats.norm.pdf(b) + 2 * b * b * stats.norm.sf(b)
    return s0 * np.sqrt(np.mean(np.minimum(((x - loc) / s0) ** 2, 9.0)) / e)


def ref_ogk(X, scale, loc, iters):
    """scale/loc: functions of a vector. None when nearly equal eigenvalues leave the axes undefined."""
    n, p = X.shape
    Z, T = X.copy(), np.eye(p)
    for _ in range(iters):
        s = np.array([scale(z) for z in Z.T])
        Y = Z / s
        U = np.eye(p)
        for i in range(p):
            for j in range(i):
                a, b = scale(Y[:, i] + Y[:, j]) ** 2, scale(Y[:, i] - Y[:, j]) ** 2
                U[i, j] = U[j, i] = (a - b) / (a + b)
        w, E = np.linalg.eigh(U)
        if p > 1 and np.min(np.diff(w)) < 1e-4:
            return None
        Z = Y @ E
        T = T @ np.diag(s) @ E
    cov = T @ np.diag([scale(z) ** 2 for z in Z.T]) @ T.T
    mu = T @ np.array([loc(z) for z in Z.T])
    return mu, cov


def qn1(x):
    return ref_qn(x, True, True)


def ref_detmcd(X, h):
    n, p = X.shape
    sc = qn1 if n < 1000 else ref_tau
    Z = (X - np.median(X, 0)) / np.array([sc(x) for x in X.T])
    R = stats.rankdata(Z, axis=0)
    nrm = np.linalg.norm(Z, axis=1)
    K = Z / np.where(nrm == 0, 1, nrm)[:, None]
    half = np.argsort(nrm)[: math.ceil(n / 2)]
    og = ref_ogk(Z, qn1, np.median, 2)
    if og is None:
        return None
    S = [np.corrcoef(np.tanh(Z), rowvar=False), np.corrcoef(R, rowvar=False),
         np.corrcoef(stats.norm.ppf((R - 1 / 3) / (n + 1 / 3)), rowvar=False), K.T @ K / n,
         np.cov(Z[half], rowvar=False), og[1]]
    out = []
    for s in S:
        w, E = np.linalg.eigh(np.atleast_2d(s))
        if p > 1 and np.min(np.diff(w)) < 1e-6 * w[-1]:
            return None
        L = np.array([qn1(b) for b in (Z @ E).T])
        cov = E @ np.diag(L**2) @ E.T
        root, iroot = E @ np.diag(L) @ E.T, E @ np.diag(1 / L) @ E.T
        mu = root @ np.median(Z @ iroot, axis=0)
        idx = np.argsort(md2(Z, mu, cov))[: math.ceil(n / 2)]
        out.append(csteps(X, X[idx].mean(0), np.cov(X[idx], rowvar=False).reshape(p, p), h))
    return sorted(out, key=lambda t: t[0])


@law("C04", FD({"m": gen.mat_case(20, 90, 1, 5, outs=(0, 0.1, 0.25, 0.4)), "alpha": MALPHA, "tol": st.sampled_from([0.0, 0.0, None]), "round": st.sampled_from([None, None, 4, 10])}), quick=480,
     rule="raw DetMCD against a re-implementation of its six starts and C-steps")
def detmcd_reference(c, cx):
    X = gen.mat(c["m"])
    n, p = X.shape
    if c["round"]:  # tied values within columns
        med = np.median(X, axis=0)  # uneven steps: no two different rows are equally far from a centre
        X = np.round((X - med) * c["round"]) / c["round"]
        X = np.sign(X) * np.log1p(np.abs(X)) + 0.1234 * np.sqrt(np.abs(X)) * np.arange(1, p + 1) ** 0.5
        if min(Qn().fit(x).scale for x in X.T) == 0:
            cx.skip("a column without scale")
        cx.label("ties")
    n, p = X.shape
    alpha = malpha(c["alpha"], n)
    h = mcd_h(alpha, n, p)
    kw = {} if c["tol"] is None else {"tolerance": c["tol"]}
    est = det(alpha=alpha, correct_covariance=False, reweighting=False, **kw).fit(X)
    loc, cov = cx.arr(est.location_, (p,), "location"), cx.arr(est.covariance_, (p, p), "covariance")
    tol = 1e-8 if c["tol"] is None else c["tol"]
    cx.label(judge_subset(cx, X, loc, cov, h, tol, "raw DetMCD"), f"p={p}", f"h/n={h / n:.1f}")
    ref = ref_detmcd(X, h)
    if c["round"]:
        for k in range(3):
            r2 = ref_detmcd(X[np.random.default_rng(k).permutation(n)], h)
            if ref is None or r2 is None or not np.allclose([r[0] for r in r2], [r[0] for r in ref], rtol=1e-9):
                cx.label("equal distances")
                return
    if ref is None:
        cx.label("no reference (equal eigenvalues)")
    elif tol == 0:
        got = np.linalg.det(cov)
        cx.label("starts disagree" if ref[-1][0] > ref[0][0] * (1 + 1e-9) else "starts agree")
        cx.check(got <= ref[0][0] * (1 + 1e-6), f"DetMCD determinant {got}, its six starts reach {[round(r[0], 8) for r in ref]}")
        cx.check(any(abs(got - r[0]) <= 1e-6 * r[0] for r in ref), f"DetMCD determinant {got} is reached from none of its six starts {[r[0] for r in ref]}")
    perm = np.random.default_rng(n).permutation(n)
    e2 = det(alpha=alpha, correct_covariance=False, reweighting=False, **kw).fit(X[perm])
    cx.close(e2.covariance_, cov, 1e-7, what="DetMCD covariance of reordered rows")
    e3 = det(alpha=alpha, correct_covariance=False, reweighting=False, **kw).fit(X)
    cx.close(e3.covariance_, cov, 0, what="DetMCD covariance of a second run")


@law("C04", FD({"seed": gen.SEED, "n": st.integers(995, 1010), "p": st.integers(2, 4), "kind": st.sampled_from(["corr", "t3"]), "out": st.sampled_from([0, 0.2]), "otype": st.sampled_from(["cluster", "spread"])}),
     quick=24, rule="both sides of the n=1000 switch of the standardisation")
def detmcd_large(c, cx):
    X = gen.mat(c)
    n, p = X.shape
    h = mcd_h(None, n, p)
    est = det(tolerance=0.0, correct_covariance=False, reweighting=False).fit(X)
    loc, cov = cx.arr(est.location_, (p,)), cx.arr(est.covariance_, (p, p))
    cx.label(judge_subset(cx, X, loc, cov, h, 0.0, "raw DetMCD"))
    ref = ref_detmcd(X, h)
    got = np.linalg.det(cov)
    if ref is not None:
        cx.check(got <= ref[0][0] * (1 + 1e-6), f"DetMCD determinant {got}, its six starts reach {[r[0] for r in ref]}")


# C05 ------------------------------------------------------------------------------------------
@law("C05", FD({"m": gen.mat_case(20, 100, 1, 5, outs=(0, 0.1, 0.25)), "alpha": MALPHA, "est": st.sampled_from(["fast", "det"])}), quick=480,
     rule="the four combinations of correction and reweighting on the same data")
def mcd_corrections(c, cx):
    X = gen.mat(c["m"])
    n, p = X.shape
    alpha = malpha(c["alpha"], n)
    mk = (lambda **k: fast(alpha=alpha, tolerance=0.0, **k).fit(X)) if c["est"] == "fast" else (lambda **k: det(alpha=alpha, tolerance=0.0, **k).fit(X))
    raw = mk(correct_covariance=False, reweighting=False)
    cor = mk(correct_covariance=True, reweighting=False)
    full = mk() if c["alpha"] is None else mk(correct_covariance=True, reweighting=True)
    rwo = mk(correct_covariance=False, reweighting=True)
    cov = cx.arr(raw.covariance_, (p, p))
    d = md2(X, raw.location_, cov)
    f = np.median(d) / chi2.ppf(0.5, p)
    cx.label(c["est"], f"p={p}")
    cx.close(cor.location_, raw.location_, 1e-9, 1e-12, "location does not change with the consistency correction")
    cx.close(cor.covariance_, f * cov, 1e-7, what="corrected raw covariance = raw * median squared distance / chi2 median")
    cut = chi2.ppf(0.975, p)
    for e, s, corr in ((full, f, True), (rwo, 1.0, False)):
        dd = d / s
        if np.min(np.abs(dd - cut)) < 1e-7 * cut:
            cx.skip("distance on the reweighting cutoff")
        keep = dd < cut
        if keep.sum() < 2 * p + 2:
            continue
        want = np.cov(X[keep], rowvar=False).reshape(p, p)
        if corr:
            want = want * 0.975 / chi2.cdf(cut, p + 2)
        cx.label("rejects" if not keep.all() else "keeps all")
        cx.close(e.location_, X[keep].mean(0), 1e-8, 1e-10, f"reweighted location (correction {corr})")
        cx.close(e.covariance_, want, 1e-8, what=f"reweighted covariance (correction {corr})")


@law("C05", FD({"seed": gen.SEED, "n": st.integers(1200, 2000), "p": st.integers(1, 4), "est": st.sampled_from(["fast", "det"]), "alpha": st.sampled_from([None, 0.5, 0.75, 0.9]), "rw": BOOL}), quick=24,
     rule="large clean normal samples: consistency")
def mcd_consistency(c, cx):
    rng = np.random.default_rng(c["seed"])
    X = rng.standard_normal((c["n"], c["p"]))
    A = gen.mixing(rng, c["p"])
    e = (fast if c["est"] == "fast" else det)(alpha=c["alpha"], reweighting=c["rw"]).fit(X @ A.T)
    Ai = np.linalg.inv(A)
    S = Ai @ cx.arr(e.covariance_, (c["p"],) * 2) @ Ai.T
    ev = np.linalg.eigvalsh(S)
    cx.label(c["est"], f"alpha={c['alpha']}", f"rw={c['rw']}")
    lo, hi = (0.8, 1.25) if c["rw"] else (0.6, 1.6)
    cx.check(lo < ev[0] and ev[-1] < hi, f"eigenvalues {ev} of the standardised estimate on {c['n']} clean normal observations")
    cx.check(np.linalg.norm(Ai @ e.location_) < 0.3 * np.sqrt(c["p"]), f"location {Ai @ e.location_}")


@law("C05", FD({"m": gen.mat_case(12, 40, 1, 4), "a": st.sampled_from(["one", "onef", "n"]), "est": st.sampled_from(["fast", "det"])}), quick=96, rule="alpha = 1 or n: classical estimates")
def mcd_alpha_one(c, cx):
    X = gen.mat(c["m"])
    n, p = X.shape
    a = {"one": 1, "onef": 1.0, "n": n}[c["a"]]
    e = (fast if c["est"] == "fast" else det)(alpha=a).fit(X)
    cx.close(e.location_, X.mean(0), 1e-10, 1e-12, "location with h=n")
    cx.close(e.covariance_, np.cov(X, rowvar=False).reshape(p, p), 1e-10, what="covariance with h=n")


@law("C05", FD({"n": st.integers(12, 40), "p": st.integers(1, 3), "seed": gen.SEED, "est": st.sampled_from(["fast", "det"]),
                "a": st.one_of(st.floats(0.01, 0.499), st.floats(1.001, 9), st.integers(2, 5), st.integers(41, 90), st.integers(-3, 0))}), quick=160, rule="inadmissible alpha")
def mcd_alpha_validation(c, cx):
    X = np.random.default_rng(c["seed"]).standard_normal((c["n"], c["p"]))
    cx.raises(ValueError, lambda: (fast if c["est"] == "fast" else det)(alpha=c["a"]).fit(X), f"{c['est']}MCD(alpha={c['a']!r}) with n={c['n']}")


# ---------------------------------------------------------------------------------------------
# C06 OGK
SC = {
    "mad": (None, ref_mad), "qn": (qn_scale, qn1),
    "std": (lambda x, axis=0: np.std(x, axis=axis), lambda x: float(np.std(x))),
    "iqr": (lambda x, axis=0: stats.iqr(x, axis=axis), lambda x: float(stats.iqr(x))),
}
LC = {"median": (None, np.median), "mean": (np.mean, np.mean)}


@law("C06", FD({"m": gen.mat_case(20, 90, 1, 5, units=(0, 3)), "sc": st.sampled_from(sorted(SC)), "lc": st.sampled_from(sorted(LC)), "it": st.sampled_from([None, 1, 2, 3]),
                "rw": BOOL, "beta": st.sampled_from([None, 0.9, 0.5, 0.975])}), quick=960, rule="data x scale/location functions x iterations x reweighting quantile")
def ogk_reference(c, cx):
    X = gen.mat(c["m"])
    n, p = X.shape
    kw = {}
    if SC[c["sc"]][0] is not None:
        kw["scale_estimator"] = SC[c["sc"]][0]
    if LC[c["lc"]][0] is not None:
        kw["location_estimator"] = LC[c["lc"]][0]
    if c["it"]:
        kw["n_iterations"] = c["it"]
    if c["rw"]:
        kw["reweighting"] = True
    if c["beta"]:
        kw["reweighting_beta"] = c["beta"]
    est = OGK(**kw).fit(X)
    ref = ref_ogk(X, SC[c["sc"]][1], LC[c["lc"]][1], c["it"] or 2)
    if ref is None:
        cx.skip("equal eigenvalues")
    mu, cov = ref
    if c["rw"]:
        d = np.sqrt(md2(X, mu, cov))
        cut = np.sqrt(chi2.ppf(c["beta"] or 0.9, p) / chi2.ppf(0.5, p)) * np.median(d)
        if np.min(np.abs(d - cut)) < 1e-7 * cut and not (c["beta"] == 0.5):
            cx.skip("distance on the cutoff")
        if c["beta"] == 0.5 and n % 2:
            cx.skip("median distance on the cutoff")
        keep = d < cut
        if keep.sum() < 3:
            cx.skip("too few left")
        mu, cov = X[keep].mean(0), np.cov(X[keep], rowvar=False).reshape(p, p)
    s = np.sqrt(np.diag(cov))
    cx.label(c["sc"], f"rw={c['rw']}", f"it={c['it']}")
    cx.close(est.covariance_ / np.outer(s, s), cov / np.outer(s, s), 1e-6, what="OGK covariance (standardised)")
    cx.close((est.location_ - mu) / s, np.zeros(p), 0, 1e-6, what="OGK location error (standardised)")


# C07 Kendall ----------------------------------------------------------------------------------
def ref_taub(x, y):
    a, b = np.sign(x[:, None] - x[None]), np.sign(y[:, None] - y[None])
    return float((a * b).sum() / np.sqrt((a**2).sum() * (b**2).sum()))


@law("C07", gen.mat_case(10, 60, 1, 5, kinds=["normal", "corr", "t3", "grid", "skew"], units=(0, 1)), quick=960, rule="data with and without ties")
def kendall_reference(c, cx):
    X = gen.mat(c)
    n, p = X.shape
    if any(np.ptp(x) == 0 for x in X.T) or any(ref_qn(x, True, True) <= 0 for x in X.T):
        cx.skip("zero scale")
    s = np.array([qn1(x) for x in X.T])
    R = np.array([[1.0 if i == j else ref_taub(X[:, i], X[:, j]) for j in range(p)] for i in range(p)])
    if np.linalg.cond(R) > 1e6:
        cx.skip("singular correlation matrix")
    est = KendallTau().fit(X)
    cx.label(c["kind"], f"p={p}")
    cx.close(est.correlation, R, 1e-10, what="Kendall correlation")
    cx.close(est.covariance_ / np.outer(s, s), R, 1e-9, what="Kendall covariance divided by Qn scales")
    cx.close(est.location_, X.mean(0), 1e-10, 1e-12, "Kendall location")


# C08 wrapping ---------------------------------------------------------------------------------
def ref_wrap(X, b=1.5, c=4.0, q1=1.540793, q2=0.8622731, loc=np.median, sc=ref_mad, rescale=True):
    out = np.empty_like(X)
    for j, x in enumerate(X.T):
        m, s = loc(x), sc(x)
        z = (x - m) / (s if s != 0 else 1.0)
        a = np.abs(z)
        w = np.where(a < b, z, np.where(a <= c, np.sign(z) * q1 * np.tanh(q2 * (c - a)), 0.0))
        if rescale:
            sd = w.std()
            w = (w - w.mean()) / (sd if sd != 0 else 1.0)
        out[:, j] = m + s * w
    return out


@law("C08", FD({"m": gen.mat_case(8, 80, 1, 5, units=(0, 1)), "par": st.sampled_from([None, None, [1.0, 3.0, 1.2, 1.1], [2.0, 5.0, 1.5, 0.9]]), "centered": BOOL}), quick=960, rule="data x tuning parameters")
def wrapping_reference(c, cx):
    X = gen.mat(c["m"])
    n, p = X.shape
    kw = dict(zip(("b", "c", "q1", "q2"), c["par"])) if c["par"] else {}
    b, cc = (c["par"] or [1.5, 4.0])[:2]
    z = np.abs((X - np.median(X, 0)) / np.array([ref_mad(x) for x in X.T]))
    if np.any(np.abs(z - b) < 1e-9) or np.any(np.abs(z - cc) < 1e-9):
        cx.skip("on a corner")
    est = WrappingCovariance(assume_centered=c["centered"], **kw).fit(X)
    W = ref_wrap(X, **kw)
    want = np.cov(W, rowvar=False).reshape(p, p)
    s = np.sqrt(np.diag(want))
    cx.label("default" if not kw else "custom")
    cx.close(est.covariance_ / np.outer(s, s), want / np.outer(s, s), 1e-8, what="wrapping covariance (standardised)")
    cx.close(est.correlation, want / np.outer(s, s), 1e-8, what="wrapping correlation")
    cx.close(est.location_, np.zeros(p) if c["centered"] else X.mean(0), 1e-10, 1e-12, "wrapping location")


# ---------------------------------------------------------------------------------------------
# C09 robustness
@law("C09", FD({"seed": gen.SEED, "n": st.one_of(st.integers(80, 200), st.integers(80, 200), st.integers(80, 200), st.integers(900, 1200)), "p": st.integers(2, 4), "frac": st.sampled_from([0.05, 0.15, 0.25]), "est": st.sampled_from(["fast", "det", "ogk", "ogk_rw", "wrapping", "kendall"]),
                "how": st.sampled_from(["cluster", "point", "spread", "cells"]), "far": st.sampled_from([50.0, 1e3, 1e6]), "units": st.sampled_from([0, 1])}), quick=640,
     rule="clean elliptical data with up to a quarter gross outliers")
def covariance_robustness(c, cx):
    rng = np.random.default_rng(c["seed"])
    n, p = c["n"], c["p"]
    A = gen.mixing(rng, p)
    X = rng.standard_normal((n, p)) @ A.T
    m = int(c["frac"] * n)
    bad = rng.permutation(n)[:m]
    v = rng.standard_normal(p)
    v /= np.linalg.norm(v)
    Y = X.copy()
    if c["how"] == "cluster":
        Y[bad] = c["far"] * v + 0.5 * rng.standard_normal((m, p))
    elif c["how"] == "point":
        Y[bad] = c["far"] * v + 1e-3 * rng.standard_normal((m, p))
    elif c["how"] == "spread":
        Y[bad] = c["far"] * (1 + rng.random((m, p))) * rng.choice([-1, 1], (m, p))
    else:
        Y[bad, rng.integers(0, p, m)] = c["far"]
    D = 10.0 ** rng.integers(-3, 4, p) if c["units"] else np.ones(p)
    name = c["est"]
    mk = {"fast": lambda: fast(n_initial_subsets=150, tolerance=0.0), "det": lambda: det(tolerance=0.0), "ogk": OGK, "ogk_rw": lambda: OGK(reweighting=True),
          "wrapping": WrappingCovariance, "kendall": KendallTau}[name]
    e = mk().fit(Y * D)
    Ai = np.linalg.inv(A)
    S = Ai @ (cx.arr(e.covariance_, (p, p)) / np.outer(D, D)) @ Ai.T
    ev = np.linalg.eigvalsh(S)
    cx.label(name, c["how"], f"{c['frac']}")
    if name in ("fast", "det"):
        lo, hi = 0.04, 4.0
    elif name == "ogk_rw":
        lo, hi = 0.05, 8.0
    elif name == "ogk":
        lo, hi = 0.02, 8.0
    else:
        lo, hi = 1e-3, 60.0
    cx.check(ev[0] > lo and ev[-1] < hi, f"{name}: eigenvalues {ev} of the standardised covariance with {m}/{n} outliers ({c['how']}, distance {c['far']})")
    if name in ("fast", "det", "ogk", "ogk_rw"):
        mu = Ai @ (e.location_ / D)
        cx.check(np.linalg.norm(mu) < 1.2 * np.sqrt(p), f"{name}: location off by {np.linalg.norm(mu):.3g} standard deviations with {m}/{n} outliers")
    if name in ("fast", "det"):
        d = md2(Y * D, e.location_, e.covariance_)
        good = np.setdiff1d(np.arange(n), bad)
        cx.check(np.all(d[bad] > chi2.ppf(0.975, p)), f"{name}: {np.sum(d[bad] <= chi2.ppf(0.975, p))} of {m} gross outliers are not flagged")
        cx.check(np.mean(d[good] > chi2.ppf(0.999, p)) < 0.4, f"{name}: {np.mean(d[good] > chi2.ppf(0.999, p)):.2f} of the regular observations are flagged")


# ---------------------------------------------------------------------------------------------
# C12 helpers
@law("C12", FD({"p": st.integers(1, 7), "seed": gen.SEED, "k": st.integers(1, 7), "floor": st.floats(1e-6, 2.0), "e": st.integers(-8, 6), "n": st.integers(1, 12), "frame": BOOL, "order": BOOL}), quick=2400,
     rule="random positive definite matrices, index sets and data")
def linear_algebra_helpers(c, cx):
    rng = np.random.default_rng(c["seed"])
    p = c["p"]
    B = rng.standard_normal((p, p + 2)) * 10.0 ** c["e"]
    A = B @ B.T + 0.05 * 10.0 ** (2 * c["e"]) * np.eye(p)
    Ai = np.linalg.inv(A)
    cond = np.linalg.cond(A)
    idx = rng.permutation(p)[: min(c["k"], p)]  # rows and columns come back in the order asked for
    if c["order"]:
        idx = np.sort(idx)
    A0, Ai0 = A.copy(), Ai.copy()
    cx.label(f"{len(idx)} of {p}", "sorted" if np.all(np.diff(idx) > 0) else "any order")
    cx.close(inverse_submatrix(A, Ai, idx), np.linalg.inv(A[np.ix_(idx, idx)]), 1e-12 * cond + 1e-9, what=f"inverse of the submatrix {idx} of a {p}x{p} matrix")
    T = cx.arr(truncated_covariance(A, c["floor"] * 10.0 ** (2 * c["e"])), (p, p), "truncated covariance")
    w, V = np.linalg.eigh(A)
    fl = c["floor"] * 10.0 ** (2 * c["e"])
    cx.close(T, V @ np.diag(np.maximum(w, fl)) @ V.T, 1e-9, what=f"covariance with eigenvalues {w} raised to {fl}")
    s = np.sqrt(np.diag(A))
    cx.close(covariance_to_correlation(A), A / np.outer(s, s), 1e-12, what="covariance to correlation")
    g = 10.0 ** rng.uniform(-6, 6, p)  # columns in very different units
    cx.close(covariance_to_correlation(A * np.outer(g, g)), A / np.outer(s, s), 1e-11, what="covariance to correlation, mixed units")
    X = rng.standard_normal((c["n"], p)) * 10.0 ** c["e"]
    loc = rng.standard_normal(p) * 10.0 ** c["e"]
    want = np.sqrt(md2(X, loc, A))
    arg = pd.DataFrame(X) if c["frame"] else X
    cx.close(mahalanobis_distance(arg, loc, A), want, 1e-12 * cond + 1e-9, what="Mahalanobis distances")
    cx.close(mahalanobis_distance(arg, loc.reshape(1, -1), A), want, 1e-12 * cond + 1e-9, what="Mahalanobis distances, location as a row")
    cx.check(np.array_equal(A, A0) and np.array_equal(Ai, Ai0), "arguments changed")
