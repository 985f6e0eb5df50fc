"""Robust regression."""
from itertools import combinations

import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.stats import chi2, norm
from sklearn.exceptions import NotFittedError

from vp import gen
from vp.core import law
from vp.props.u import ref_mad

from robpy.covariance import FastMCD
from robpy.regression.lts import FastLTSRegression, get_correction_factor, get_correction_factor_reweighting
from robpy.regression.mm import MMRegression
from robpy.regression.s import SRegression
from robpy.utils.rho import Huber, TukeyBisquare

FD = st.fixed_dictionaries
BOOL = st.booleans()
QUIET = 50


def reg_case(min_n=14, max_n=60, max_p=4, outs=(0.0, 0.1, 0.25), **extra):
    d = {"n": st.integers(min_n, max_n), "p": st.integers(1, max_p), "seed": gen.SEED, "out": st.sampled_from(list(outs)), "otype": st.sampled_from(["vertical", "leverage", "spread"]),
         "noise": st.sampled_from([0.1, 1.0]), "tail": st.sampled_from(["normal", "t3", "skew"]), "e": st.integers(-3, 3), "xu": st.sampled_from([False, False, True]), "dummy": st.sampled_from([False, False, True]),
         "grid": st.sampled_from([False, False, False, True]), "off": st.just(0.0)}
    d.update(extra)
    return FD(d)


def reg_data(c):
    """X (n x p), y, true (intercept, slopes), outlier mask."""
    rng = np.random.default_rng(c["seed"])
    n, p = c["n"], c["p"]
    X = rng.standard_normal((n, p)) @ gen.mixing(rng, p).T
    if c["dummy"] and p > 1:
        X[:, -1] = rng.random(n) < 0.4
    b = rng.uniform(-3, 3, p)
    e = rng.standard_t(3, n) if c["tail"] == "t3" else rng.exponential(1, n) - 1 if c["tail"] == "skew" else rng.standard_normal(n)
    y = 1.5 + X @ b + c["noise"] * e
    bad = np.zeros(n, bool)
    m = int(c["out"] * n)
    if m:
        bad[rng.permutation(n)[:m]] = True
        if c["otype"] == "vertical":
            y[bad] += 25 + rng.standard_normal(m)
        elif c["otype"] == "leverage":
            X[bad, 0] += 15
            y[bad] = 1.5 + rng.standard_normal(m)
        else:
            y[bad] += rng.choice([-1, 1], m) * rng.uniform(10, 60, m)
    if c["grid"] and not (c["dummy"] and p > 1) and c["noise"] == 1.0:
        y = np.round(2 * y) / 2  # tied responses, many of them zero
    if c["xu"]:
        u = 10.0 ** rng.integers(-2, 3, p)
        X, b = X * u, b / u
    y, b0 = y + c["off"], 1.5 + c["off"]
    a = 10.0 ** c["e"]
    return X, y * a, np.r_[b0, b] * a, bad


def design(X):
    return np.column_stack([np.ones(len(X)), X])


def ls(X, y, w=None):
    """Least squares with intercept on column-scaled data: (intercept, slopes)."""
    D = design(X)
    s = np.max(np.abs(D), axis=0)
    s[s == 0] = 1
    r = np.ones(len(X)) if w is None else np.sqrt(w)
    return np.linalg.lstsq(D / s * r[:, None], y * r, rcond=None)[0] / s


def resid(X, y, b):
    return y - design(X) @ b


def beta(m, X):
    """(intercept, slopes) of a fitted model, read off its predictions."""
    p = X.shape[1]
    f0 = float(np.ravel(m.predict(np.zeros((1, p))))[0])
    f = np.ravel(m.predict(np.eye(p) if p > 1 else np.array([[1.0]])))
    return np.r_[f0, f - f0]


def coef(m):
    return np.r_[np.ravel(m.model.intercept_), np.ravel(m.model.coef_)]


def lts_h(n, p, alpha):
    return max(int(n * alpha), int((n + p + 1) / 2))


def containers(c, X, y):
    k = c.get("box", "array")
    if k == "frame":
        idx = np.arange(len(y))[::-1] + 7
        return pd.DataFrame(X, columns=gen.names(X.shape[1]), index=idx), pd.Series(y, index=idx)
    if k == "fortran":
        return np.asfortranarray(X), y
    if k == "flat" and X.shape[1] == 1:
        return X[:, 0].copy(), y
    return X, y


BOX = st.sampled_from(["array", "array", "frame", "fortran", "flat"])


# ---------------------------------------------------------------------------------------------
# R01 / R02 least trimmed squares
def f_corr(p, n, alpha, rew):
    """Small-sample factors of Pison, Van Aelst and Willems (2002) as in robustbase::ltsReg."""
    if rew:
        e0, e8 = (1.11098143415027, 1.5182890270453), (-0.66046776772861, 0.88939595831888)
        e1, e9 = (1.58609654199605, 1.46340162526468), (0.391653958727332, 1.03167487483316)
        q5, q8 = [(-0.773365715932083, 2.02013996406346), (-0.337571678986723, 2.02037467454833)], [(-0.474174840843602, 1.39681715704956), (-0.276640353112907, 1.42543242287677)]
    else:
        e0, e8 = (0.262024211897096, 0.604756680630497), (-0.351584646688712, 1.01646567502486)
        e1, e9 = (0.630869217886906, 0.650789250442946), (0.565065391014791, 1.03044199012509)
        q5, q8 = [(-0.746945886714663, 0.56264937192689), (-0.535478048924724, 0.543323462033445)], [(-0.458580153984614, 1.12236071104403), (-0.267178168108996, 1.1022478781154)]

    def two(q):
        # two equations log(-a_q / p^b_q) = u - v log(q p^2), q = 3, 5
        (a3, b3), (a5, b5) = q
        l3, l5 = np.log(-a3) - b3 * np.log(p), np.log(-a5) - b5 * np.log(p)
        x3, x5 = np.log(3 * p**2), np.log(5 * p**2)
        v = (l3 - l5) / (x5 - x3)
        return l3 + v * x3, v

    if p == 0:
        g5, g8 = e0, e8
    elif p == 1:
        g5, g8 = e1, e9
    else:
        g5, g8 = two(q5), two(q8)
    f5, f8 = 1 - np.exp(g5[0]) / n ** g5[1], 1 - np.exp(g8[0]) / n ** g8[1]
    f = f5 + (f8 - f5) * (alpha - 0.5) / 0.375 if alpha <= 0.875 else f8 + (1 - f8) * (alpha - 0.875) / 0.125
    return 1 / (np.sqrt(f) if p == 0 else f)


LOPT = {"alpha": st.sampled_from([0.5, 0.5, 0.6, 0.75, 0.9, 1.0]), "ns": st.sampled_from([20, 60, 200]), "nc": st.sampled_from([2, 2, 1, 4]), "nb": st.sampled_from([10, 10, 1, 3]), "rs": st.integers(0, 10**6)}


def lts(c, **kw):
    d = dict(alpha=c["alpha"], n_initial_subsets=c["ns"], n_initial_c_steps=c["nc"], n_best_models=c["nb"], random_state=c["rs"])
    defaults = dict(alpha=0.5, n_initial_subsets=500, n_initial_c_steps=2, n_best_models=10, random_state=42)
    return FastLTSRegression(**{k: v for k, v in d.items() if v != defaults[k]}, **kw)


@law("R01", reg_case(box=BOX, col=BOOL, **LOPT), quick=640, rule="regression data (outliers, leverage points, dummies, any units) x coverage and search options x container")
def lts_structure(c, cx):
    X, y, _, _ = reg_data(c)
    n, p = X.shape
    A, b = containers(c, X, y)
    if c["col"] and c["box"] == "array":
        b = y.reshape(-1, 1)
    kA, kb = (A.copy(), b.copy())
    raw = lts(c, reweighting=False)
    got = raw.fit(A, b, verbosity=QUIET)
    cx.ran = True
    cx.label(c["box"], f"alpha={c['alpha']}", "outliers" if c["out"] else "clean")
    cx.check(got is raw, "fit does not return the estimator")
    cx.check(np.array_equal(np.asarray(kA), np.asarray(A)) and np.array_equal(np.asarray(kb), np.asarray(b)), "fit changed its input")
    h = lts_h(n, p, c["alpha"])
    H = np.asarray(raw.best_h_subset)
    cx.check(len(H) == h and len(set(H.tolist())) == h, f"best h-subset has {len(set(H.tolist()))} distinct rows, h is {h}")
    fit_ = ls(X[H], y[H])
    B = coef(raw)
    sx = np.r_[1.0, np.max(np.abs(X), axis=0)]
    unit = np.max(np.abs(fit_ * sx)) + ref_mad(y)
    cond = np.linalg.cond(design(X[H]) / sx)
    if cond > 1e5:
        cx.skip("h-subset nearly singular")
    cx.check(np.max(np.abs((B - fit_) * sx)) <= 1e-9 * cond * unit, f"coefficients {B} are not the least squares fit {fit_} of the best h-subset")
    r = resid(X, y, B)
    a = np.abs(r)
    inn, out = np.max(a[H]), np.min(np.delete(a, H)) if h < n else np.inf
    cx.check(inn <= out + 1e-9 * unit, f"not a fixed point: row with residual {inn:.6g} is in the h-subset, {out:.6g} is not")
    loss = np.mean(r[H] ** 2)
    cx.close(raw.scale, f_corr(p, n, c["alpha"], False) * np.sqrt(loss), 1e-7, atol=1e-9 * unit, what="scale (corrected root mean squared residual of the h-subset)")
    f = raw.predict(A)
    cx.close(f, (y - r).reshape(-1, 1), 1e-9, atol=1e-9 * unit, what="predictions")
    # the reweighted fit starts from this one
    rew = lts(c).fit(A, b, verbosity=QUIET)
    cx.check(np.array_equal(np.sort(rew.best_h_subset), np.sort(H)), "reweighting changes the best h-subset")
    s = np.median(a) / norm.ppf(0.75)
    cut = norm.ppf(0.9875) * s
    if np.min(np.abs(a - cut)) < 1e-9 * unit:
        cx.skip("a residual at the cutoff")
    M = a <= cut
    cx.label("rows set aside" if not M.all() else "all rows kept")
    fw = ls(X[M], y[M])
    condm = np.linalg.cond(design(X[M]) / sx)
    if condm > 1e5:
        cx.skip("reweighted rows nearly singular")
    cx.check(np.max(np.abs((coef(rew) - fw) * sx)) <= 1e-9 * condm * unit, f"reweighted coefficients {coef(rew)}, expected {fw}")
    cx.close(rew.scale, f_corr(p, n, c["alpha"], True) * np.sqrt(np.mean(resid(X, y, fw)[M] ** 2)), 1e-7, atol=1e-9 * unit, what="reweighted scale")
    if c["alpha"] == 1.0:
        cx.check(np.max(np.abs((B - ls(X, y)) * sx)) <= 1e-8 * unit * cond, "alpha=1 is not least squares")


def csteps(X, y, H, h, atleast=0):
    """C-steps from h-subset H until the loss stops decreasing."""
    last = np.inf
    k = 0
    while True:
        b = ls(X[H], y[H])
        loss = np.mean(resid(X, y, b)[H] ** 2)
        k += 1
        if k > atleast and loss >= last * (1 - 1e-12):
            return b, H, loss
        last = loss
        H = np.argsort(np.abs(resid(X, y, b)), kind="stable")[:h]


@law("R02", FD({"n": st.integers(7, 10), "p": st.integers(1, 2), "seed": gen.SEED, "alpha": st.sampled_from([0.5, 0.6, 0.75, 0.9]), "out": st.sampled_from([0, 1, 2, 3]), "noise": st.sampled_from([0.2, 1.0]), "e": st.integers(-3, 3), "rs": st.integers(0, 10**6)}), quick=96,
     rule="few observations, so that all h-subsets and all starting subsets can be enumerated")
def lts_exhaustive(c, cx):
    rng = np.random.default_rng(c["seed"])
    n, p = c["n"], c["p"]
    X = rng.standard_normal((n, p))
    y = (X @ rng.uniform(-2, 2, p) + 1 + c["noise"] * rng.standard_normal(n))
    y[: c["out"]] += 8 + rng.standard_normal(c["out"])
    y = y * 10.0 ** c["e"]
    h = lts_h(n, p, c["alpha"])
    glob = min(np.mean(resid(X, y, ls(X[list(H)], y[list(H)]))[list(H)] ** 2) for H in combinations(range(n), h))
    starts = []
    for E in combinations(range(n), p + 1):
        b = ls(X[list(E)], y[list(E)])
        H = np.argsort(np.abs(resid(X, y, b)), kind="stable")[:h]
        starts.append(csteps(X, y, H, h, 3)[2])
    best = min(starts)
    k = FastLTSRegression(alpha=c["alpha"], n_initial_subsets=1000, n_best_models=1000, reweighting=False, random_state=c["rs"]).fit(X, y, verbosity=QUIET)
    cx.ran = True
    H = np.asarray(k.best_h_subset)
    loss = np.mean(resid(X, y, coef(k))[H] ** 2)
    cx.label(f"p={p}", "global optimum reached" if best <= glob * (1 + 1e-9) else "local optimum")
    cx.check(loss >= glob * (1 - 1e-7) - 1e-20, "loss below the global minimum: it is not a mean over h squared residuals")
    cx.check(loss <= best * (1 + 1e-6), f"mean squared residual {loss:.8g} of the h-subset, but {best:.8g} is reached from one of the starting subsets (global minimum {glob:.8g})")
    d = FastLTSRegression(alpha=c["alpha"], reweighting=False, random_state=c["rs"]).fit(X, y, verbosity=QUIET)
    Hd = np.asarray(d.best_h_subset)
    ld = np.mean(resid(X, y, coef(d))[Hd] ** 2)
    cx.check(ld <= np.median(starts) * (1 + 1e-6), f"default search: loss {ld:.6g} is worse than half of the starting subsets")


@law("R02", reg_case(min_n=14, max_n=50, nc=st.sampled_from([0, 1, 2, 5]), alpha=st.sampled_from([0.5, 0.75, 0.9]), rew=BOOL, grid=st.just(False), wkind=st.sampled_from(["true", "zero", "random"])), quick=400, rule="regression data x given starting coefficients x number of initial steps")
def lts_given_start(c, cx):
    X, y, b0, _ = reg_data(c)
    n, p = X.shape
    h = lts_h(n, p, c["alpha"])
    rng = np.random.default_rng(c["seed"] + 1)
    w = {"true": b0, "zero": np.zeros(p + 1), "random": b0 * rng.uniform(-2, 2, p + 1)}[c["wkind"]]
    H = np.argsort(np.abs(resid(X, y, w)), kind="stable")[:h]
    if c["nc"] == 0:
        cx.mark_trivial()
    b, Hs, loss = csteps(X, y, H, h, max(c["nc"], 1))
    w0 = w.copy()
    e = FastLTSRegression(alpha=c["alpha"], n_initial_subsets=3, n_initial_c_steps=max(c["nc"], 1), n_best_models=2, reweighting=False).fit(X, y, initial_weights=w, verbosity=QUIET)
    cx.ran = True
    cx.label(c["wkind"])
    cx.check(np.array_equal(w, w0), "fit changed the starting coefficients")
    sx = np.r_[1.0, np.max(np.abs(X), axis=0)]
    unit = np.max(np.abs(b * sx)) + ref_mad(y)
    r = np.sort(np.abs(resid(X, y, b)))
    if h < n and r[h] - r[h - 1] < 1e-9 * unit:
        cx.skip("tie")
    cx.check(np.max(np.abs((coef(e) - b) * sx)) <= 1e-7 * unit, f"C-steps from the given coefficients lead to {coef(e)}, expected {b}")


@law("R02", FD({"n": st.integers(8, 3000), "p": st.integers(0, 40), "alpha": st.one_of(st.sampled_from([0.5, 0.875, 1.0, 0.75, 0.8750001]), st.floats(0.5, 1)), "rew": BOOL}), quick=1600, rule="sample size x number of features (0: intercept only) x coverage")
def lts_correction_factors(c, cx):
    f = get_correction_factor_reweighting if c["rew"] else get_correction_factor
    n, p, a = max(c["n"], 3 * c["p"]), c["p"], c["alpha"]
    got = cx.arr(f(p=p, n=n, alpha=a), (), "correction factor", finite=False)
    cx.label("p=0" if p == 0 else "p=1" if p == 1 else "p>1", "reweighted" if c["rew"] else "raw")
    with np.errstate(all="ignore"):
        want = f_corr(p, n, a, c["rew"])
    cx.close(got, want, 1e-9, what=f"correction factor for n={n}, p={p}, alpha={a}")
    if n > 4 * p and n > 20:
        cx.close(f(p=p, n=10**9, alpha=a), 1.0, 0.01, what="correction factor for very large n")
    for bad in (0.4999, 1.0001, 75):
        cx.raises(ValueError, lambda: f(p=p, n=n, alpha=bad), f"alpha={bad}")


# ---------------------------------------------------------------------------------------------
# R03 S-regression
SOPT = {"c": st.sampled_from([1.547, 1.547, 2.5, 4.0]), "it": st.sampled_from([2, 2, 1, 60]), "ns": st.sampled_from([40, 120]), "nb": st.sampled_from([5, 5, 1]), "icpt": st.sampled_from([True, True, False]), "rs": st.integers(0, 10**6),
        "rt": st.sampled_from([1e-7, 1e-7, 1e-7, 1e-3, 1e-11]), "st": st.sampled_from([1e-10, 1e-10, 1e-10, 1e-4, 1e-3, 1e-14])}


def half_b(c):
    return c**2 / 12


def s_est(c, **kw):
    d = {}
    if c["c"] != 1.547:
        d.update(rho=TukeyBisquare(c=c["c"]), b=half_b(c["c"]))
    for k, v, dv in [("max_scale_iterations", c["it"], 2), ("n_best_subsets", c["nb"], 5), ("fit_intercept", c["icpt"], True), ("random_state", c["rs"], 101),
                     ("relative_tolerance", c["rt"], 1e-7), ("scale_tolerance", c["st"], 1e-10)]:
        if v != dv:
            d[k] = v
    return SRegression(n_initial_subsets=c["ns"], **d, **kw)


def brho(u, c):
    t = np.minimum((u / c) ** 2, 1)
    return c**2 / 6 * (1 - (1 - t) ** 3)


def bweight(u, c):
    return np.where(np.abs(u) <= c, (1 - (u / c) ** 2) ** 2, 0.0)


def mscale(r, c, b, it, tol=1e-10):
    s = np.median(np.abs(r)) / 0.6745
    for _ in range(it):
        new = s * np.sqrt(np.mean(brho(r / s, c)) / b)
        if abs(s - new) < tol:
            break
        s = new
    return new


def wls(D, y, w):
    s = np.max(np.abs(D), axis=0)
    s[s == 0] = 1
    r = np.sqrt(w)
    return np.linalg.lstsq(D / s * r[:, None], y * r, rcond=None)[0] / s


def istep(D, y, b, c, bb, it, tol=1e-10):
    r = y - D @ b
    s = mscale(r, c, bb, it, tol)
    return wls(D, y, bweight(r / s, c)), s


@law("R03", reg_case(min_n=18, max_n=60, max_p=3, box=BOX, **SOPT), quick=320, rule="regression data x loss constant x scale iterations x search options x intercept; scale and fit judged at the reported solution and against other starting points")
def s_fixed_point(c, cx):
    X, y, _, _ = reg_data(c)
    n, p = X.shape
    if not c["icpt"]:
        y = y - np.mean(y)
    A, b_ = containers(c, X, y)
    kA, kb = A.copy(), b_.copy()
    e = s_est(c)
    got = e.fit(A, b_)
    cx.ran = True
    cx.label(c["box"], f"c={c['c']}", f"{c['it']} scale iterations", "intercept" if c["icpt"] else "no intercept")
    cx.check(got is e, "fit does not return the estimator")
    cx.check(np.array_equal(np.asarray(kA), np.asarray(A)) and np.array_equal(np.asarray(kb), np.asarray(b_)), "fit changed its input")
    D = design(X) if c["icpt"] else X
    par = cx.arr(e.model.params, (D.shape[1],), "coefficients")
    bb = 0.1995 if c["c"] == 1.547 else half_b(c["c"])
    s = float(e.scale)
    unit = np.max(np.abs(par * np.max(np.abs(D), axis=0))) + ref_mad(y)
    new, sn = istep(D, y, par, c["c"], bb, c["it"], c["st"])
    cond = np.linalg.cond(D / np.max(np.abs(D), axis=0) * np.sqrt(bweight((y - D @ par) / sn, c["c"]))[:, None])
    if cond > 1e4:
        cx.skip("weighted design nearly singular")
    cx.check(s > 0, f"scale {s}")
    if np.linalg.norm(new - par) > 30 * c["rt"] * np.linalg.norm(par) + 1e-9 * unit:
        b1 = new  # the median of the residuals need not let a single scale iteration settle
        for _ in range(300):
            b0, b1 = b1, istep(D, y, b1, c["c"], bb, c["it"], c["st"])[0]
        if np.linalg.norm(b1 - b0) > c["rt"] * np.linalg.norm(b1):
            cx.skip("the iterations do not settle on this data")
    loose = c["rt"] > 1e-7 or c["st"] > 1e-10
    cx.label("loose tolerances" if loose else "tight tolerances" if c["rt"] < 1e-7 else "default tolerances")
    cx.close(s, sn, 1e-4 if c["rt"] <= 1e-7 else 0.1, 10 * c["st"], what="scale (M-scale of the residuals)")
    d = np.max(np.abs((new - par) * np.max(np.abs(D), axis=0)))
    if c["st"] <= 1e-10:
        lim = 30 * c["rt"] * np.linalg.norm(par)
        cx.check(np.linalg.norm(new - par) <= lim + 1e-9 * unit, f"reweighting moves the coefficients by {np.linalg.norm(new - par):.3g}, relative tolerance {c['rt']:g} (norm {np.linalg.norm(par):.3g})")
    cx.check(loose or d <= 1e-5 * unit + 1e-4 * s, f"not a fixed point of the reweighting step: coefficients move by {d:.3g} (scale {s:.3g})")
    if c["it"] == 60 and not loose:
        cx.close(np.mean(brho((y - D @ par) / s, c["c"])), bb, 1e-3, what="mean loss at the M-scale")
    cx.close(np.ravel(e.predict(A)), D @ par, 1e-9, atol=1e-10 * unit, what="predictions")
    # other starting points do not lead to a clearly smaller scale
    rng = np.random.default_rng(c["rs"])
    starts = [wls(D, y, np.ones(n)), wls(D, y, (np.abs(y - np.median(y)) < 3 * ref_mad(y)).astype(float) + 1e-9)]
    for _ in range(25):
        k = rng.permutation(n)[: D.shape[1] + 1]
        starts.append(np.linalg.lstsq(D[k], y[k], rcond=None)[0])
    best = np.inf
    for b in starts:
        for _ in range(4):
            b, _ = istep(D, y, b, c["c"], bb, c["it"])
        s1 = mscale(y - D @ b, c["c"], bb, c["it"])
        if np.isfinite(s1) and s1 < best:
            best, bbest = s1, b
    for _ in range(60):
        bbest, s1 = istep(D, y, bbest, c["c"], bb, c["it"])
    if loose or c["it"] < 60 or c["nb"] == 1 or c["ns"] < 120 or n < 30 or c["tail"] == "skew" or c["out"] > 0.1:
        return  # a short scale iteration is not the minimised objective; few starts may miss the minimum
    cx.label("search compared")
    cx.check(s <= s1 * 1.1, f"scale {s:.6g}, another start gives {s1:.6g}")


@law("R03", FD({"n": st.integers(16, 32), "p": st.integers(1, 2), "seed": gen.SEED, "share": st.sampled_from([0.2, 0.3, 0.4]), "ist": st.sampled_from([0, 1, 2]), "nb": st.sampled_from([50, 50, 15]), "sl": st.sampled_from([3.0, 6.0, -6.0]), "rs": st.integers(0, 10**6)}), quick=64,
     rule="responses with several local minima x number of initial steps and of candidates followed to convergence; judged when at least a third of 36 random starts lead to the smallest scale")
def s_best_candidate(c, cx):
    rng = np.random.default_rng(c["seed"])
    n, p = c["n"], c["p"]
    X = rng.standard_normal((n, p))
    y = X.sum(axis=1) + rng.standard_normal(n)
    m = int(c["share"] * n)
    y[:m] += c["sl"] * X[:m, 0]
    D = design(X)
    ends = []
    for _ in range(36):
        k = rng.permutation(n)[: p + 2]
        b = np.linalg.lstsq(D[k], y[k], rcond=None)[0]
        for _ in range(400):
            old = b
            b, s1 = istep(D, y, b, 1.547, 0.1995, 60, 1e-7)
            if np.linalg.norm(b - old) < 1e-6:
                break
        ends.append(s1)
    ends = np.sort(ends)
    if not np.all(np.isfinite(ends)) or np.mean(ends < ends[0] * 1.0005) < 1 / 3:
        cx.skip("the smallest scale is reached from too few starts")
    e = SRegression(n_initial_subsets=50, n_best_subsets=c["nb"], n_initial_i_steps=c["ist"], max_scale_iterations=60, random_state=c["rs"]).fit(X, y)
    cx.ran = True
    cx.label("several local minima" if ends[-1] > ends[0] * 1.001 else "one local minimum", f"{c['ist']} initial steps")
    if ends[-1] <= ends[0] * 1.001:
        cx.mark_trivial()
    if c["nb"] == 50:
        cx.check(e.scale <= ends[0] * 1.001, f"scale {e.scale:.8g}; a third of the random starts lead to {ends[0]:.8g}")
    else:
        one = SRegression(n_initial_subsets=50, n_best_subsets=1, n_initial_i_steps=c["ist"], max_scale_iterations=60, random_state=c["rs"]).fit(X, y)
        cx.check(e.scale <= one.scale * 1.0001, f"scale {e.scale:.8g} from {c['nb']} candidates, {one.scale:.8g} from the first of them")


@law("R03", FD({"n": st.integers(18, 60), "p": st.integers(1, 2), "seed": gen.SEED, "e": st.sampled_from([0, -4, -6, -8]), "rel": st.sampled_from([1e-2, 3e-2, 1e-3]), "it": st.sampled_from([2, 60, 60]), "c": st.sampled_from([1.547, 1.547, 2.5, 4.0]), "rs": st.integers(0, 10**6)}), quick=400,
     rule="heavy-tailed responses x units x scale tolerances that are coarse for these units (the iterations then need not settle)")
def s_coarse_tolerance(c, cx):
    rng = np.random.default_rng(c["seed"])
    X = rng.standard_normal((c["n"], c["p"]))
    y = 10.0 ** c["e"] * (X @ rng.uniform(-2, 2, c["p"]) + rng.standard_t(2, c["n"]))
    d = dict(n_initial_subsets=25, max_scale_iterations=c["it"], scale_tolerance=c["rel"] * 10.0 ** c["e"], random_state=c["rs"])
    bb = 0.1995
    if c["c"] != 1.547:
        bb = half_b(c["c"])
        d.update(rho=TukeyBisquare(c=c["c"]), b=bb)
    e = SRegression(**d).fit(X, y)
    cx.ran = True
    par = cx.arr(e.model.params, (c["p"] + 1,), "coefficients")
    r = y - design(X) @ par
    want = mscale(r, c["c"], bb, 200, 0)
    cx.check(0 < e.scale < np.inf, f"scale {e.scale}")
    if c["it"] == 60:
        cx.close(e.scale / want, 1.0, 0.5, what="scale relative to the M-scale of the residuals")
    cx.label(f"units 1e{c['e']}", f"{c['it']} scale iterations")


# ---------------------------------------------------------------------------------------------
# R04 MM-regression
@law("R04", reg_case(min_n=18, max_n=60, max_p=3, box=BOX, init=st.sampled_from(["s", "s", "lts", "s2"]), c=st.sampled_from([3.44, 3.44, 2.0, 4.685, "huber"]), mi=st.sampled_from([500, 500, 1, 3]), off=st.sampled_from([0.0, 0.0, 1e3, 1e6, 1e7]), rs=st.integers(0, 10**6)), quick=320,
     rule="regression data x initial estimator x loss x iteration limit x container")
def mm_fixed_point(c, cx):
    X, y, _, _ = reg_data(c)
    n, p = X.shape
    mk = {"s": lambda: SRegression(n_initial_subsets=40, random_state=c["rs"]), "s2": lambda: SRegression(n_initial_subsets=25, rho=TukeyBisquare(c=2.5), b=half_b(2.5), random_state=c["rs"]),
          "lts": lambda: _QuietLTS(n_initial_subsets=30, random_state=c["rs"])}[c["init"]]
    kw = {}
    if c["c"] != 3.44:
        kw["rho"] = Huber(b=1.345) if c["c"] == "huber" else TukeyBisquare(c=c["c"])
    if c["mi"] != 500:
        kw["max_iterations"] = c["mi"]
    A, b_ = containers(c, X, y)
    kA, kb = A.copy(), b_.copy()
    e = MMRegression(mk(), **kw)
    got = e.fit(A, b_)
    cx.ran = True
    cx.label(c["init"], f"loss {c['c']}", f"limit {c['mi']}", f"offset {c['off']:g}")
    cx.check(got is e, "fit does not return the estimator")
    cx.check(np.array_equal(np.asarray(kA), np.asarray(A)) and np.array_equal(np.asarray(kb), np.asarray(b_)), "fit changed its input")
    ini = mk().fit(kA, kb)  # same container, so that the same rounding
    s = float(ini.scale)
    cx.close(e.scale, s, 1e-9, atol=1e-13 * np.max(np.abs(y)), what="scale is that of the initial estimator")

    def w(u):
        return np.where(np.abs(u) <= 1.345, 1.0, 1.345 / np.maximum(np.abs(u), 1e-300)) if c["c"] == "huber" else bweight(u, c["c"])

    def rho(u):
        a = np.abs(u)
        return np.where(a <= 1.345, a**2 / 2, 1.345 * a - 1.345**2 / 2) if c["c"] == "huber" else brho(u, c["c"])

    b = beta(ini, X)
    start = float(np.sum(rho(resid(X, y, b) / s)))
    for k in range(c["mi"]):
        r = resid(X, y, b)
        wt = w(r / s)
        if np.sum(wt > 1e-6) < p + 3:
            cx.skip("hardly any weight left")
        b = wls(design(X), y, wt)
        if np.max(np.abs(resid(X, y, b) - r)) < 1e-7 * s:
            break
    got_b = coef(e) if hasattr(e.model, "coef_") else None
    cx.check(got_b is not None, "no linear model after the iterations")
    tol = 1e-6 if c["mi"] < 10 else 2e-4
    dr = np.max(np.abs(design(X) @ (got_b - b)))
    cx.check(dr <= tol * s + 1e-9 * np.max(np.abs(y)), f"fit differs from the reweighted fits started at the initial estimator by {dr / s:.3g} scales")
    coarse = 1e-12 * np.max(np.abs(y)) > 1e-7 * s  # rounding decides when the changes have become small
    cx.check(1 <= e.n_iter <= c["mi"] and (coarse or abs(e.n_iter - (k + 1)) <= 1 + 0.05 * k), f"{e.n_iter} iterations reported, {k + 1} needed")
    cx.check(np.sum(rho(resid(X, y, got_b) / s)) <= start * (1 + 1e-9) + 1e-9, "objective larger than at the initial fit")
    cx.close(np.ravel(e.predict(A)), design(X) @ got_b, 1e-9, atol=1e-10 * np.max(np.abs(y)), what="predictions")


class _QuietLTS(FastLTSRegression):
    def fit(self, X, y, **kw):
        return super().fit(X, y, verbosity=QUIET)


# ---------------------------------------------------------------------------------------------
# R05 equivariance
EST = {"lts": lambda rs: _QuietLTS(n_initial_subsets=60, random_state=rs), "ltsraw": lambda rs: _QuietLTS(n_initial_subsets=60, random_state=rs, reweighting=False, alpha=0.75),
       "s": lambda rs: SRegression(n_initial_subsets=50, random_state=rs), "mm": lambda rs: MMRegression(SRegression(n_initial_subsets=50, random_state=rs))}


@law("R05", reg_case(min_n=18, max_n=60, max_p=3, est=st.sampled_from(sorted(EST)), tr=st.sampled_from(["regression", "scale", "flip", "affine", "seed"]), k=st.integers(-6, 6), t=gen.SEED, rs=st.one_of(st.just(0), st.integers(0, 10**6))), quick=480,
     rule="regression data x estimator x adding a linear function, change of units or sign of y, nonsingular affine map of X, refit with the same seed")
def regression_equivariance(c, cx):
    cx.vary_entropy()
    # starting subsets that determine no hyperplane (one level of a dummy) have no equivariant fit
    X, y, _, _ = reg_data(dict(c, e=0, dummy=c["dummy"] and c["tr"] not in ("regression", "affine")))
    n, p = X.shape
    rng = np.random.default_rng(c["t"])
    e1 = EST[c["est"]](c["rs"]).fit(X, y)
    tr = c["tr"]
    A, sh, a, g = np.eye(p), np.zeros(p), 1.0, np.zeros(p + 1)
    if tr == "regression":
        g = rng.uniform(-20, 20, p + 1) / np.r_[1, np.max(np.abs(X), axis=0)]
    elif tr == "scale":
        a = 10.0 ** c["k"]
    elif tr == "flip":
        a = -1.0
    elif tr == "affine":
        A = gen.mixing(rng, p) * 10.0 ** rng.integers(-2, 3, p)[:, None]
        sh = rng.uniform(-3, 3, p) * np.max(np.abs(X @ A.T), axis=0)
    Y = a * y + design(X) @ g
    X2 = X @ A.T + sh
    if tr == "seed":
        np.random.seed(c["t"] % 2**32)
    e2 = EST[c["est"]](c["rs"]).fit(X2, Y)
    cx.ran = True
    cx.label(c["est"], tr)
    s1, s2 = float(e1.scale), float(e2.scale)
    f1, f2 = np.ravel(e1.predict(X)), np.ravel(e2.predict(X2))
    if tr == "seed":
        cx.check(s1 == s2 and np.array_equal(f1, f2), "two fits with the same seed differ")
        return
    d = np.max(np.abs(f2 - (a * f1 + design(X) @ g))) / (abs(a) * s1)
    cx.check(abs(s2 / (abs(a) * s1) - 1) < 1e-3, f"scale {s1:.8g} becomes {s2:.8g}, expected {abs(a) * s1:.8g}")
    cx.check(d < 1e-2, f"fitted values are off by {d:.3g} scales after the transformation")


# ---------------------------------------------------------------------------------------------
# R06 robustness
@law("R06", FD({"n": st.integers(40, 90), "p": st.integers(1, 4), "seed": gen.SEED, "out": st.sampled_from([0.0, 0.1, 0.2, 0.3]), "otype": st.sampled_from(["vertical", "lev", "far", "plane"]), "est": st.sampled_from(["lts", "s", "mm", "ltsraw"]), "exact": BOOL, "where": st.sampled_from(["any", "any", "first", "last"]), "starts": st.sampled_from([250, 250, 80]), "e": st.integers(-3, 3), "rs": st.integers(0, 999)}), quick=320,
     rule="regular observations around (or exactly on) a known hyperplane x share, kind and distance of outliers")
def regression_robust(c, cx):
    rng = np.random.default_rng(c["seed"])
    n, p = c["n"], c["p"]
    X = rng.standard_normal((n, p))
    b = rng.uniform(-2, 2, p + 1)
    sig = 0.0 if c["exact"] else 0.2
    y = design(X) @ b + sig * rng.standard_normal(n)
    m = int(c["out"] * n)
    if c["est"] == "ltsraw":
        m = min(m, int(0.2 * n))
    bad = np.zeros(n, bool)
    # outliers anywhere, in the first or the last rows
    where = rng.permutation(n) if c["where"] == "any" else np.arange(n) if c["where"] == "first" else np.arange(n)[::-1]
    bad[where[:m]] = True
    if c["otype"] == "vertical":
        y[bad] += 20 + rng.standard_normal(m)
    elif c["otype"] == "lev":
        X[bad] = 10 + rng.standard_normal((m, p))
        y[bad] = design(X[bad]) @ b - 40 + rng.standard_normal(m)
    elif c["otype"] == "far":
        y[bad] += rng.choice([-1, 1], m) * 10.0 ** rng.uniform(2, 7, m)
    else:
        X[bad] += 6
        y[bad] = design(X[bad]) @ rng.uniform(-2, 2, p + 1) + 30 + 0.2 * rng.standard_normal(m)
    u = 10.0 ** c["e"]
    e = {"lts": _QuietLTS(n_initial_subsets=c["starts"], random_state=c["rs"]), "ltsraw": _QuietLTS(n_initial_subsets=c["starts"], random_state=c["rs"], alpha=0.75, reweighting=False),
         "s": SRegression(n_initial_subsets=c["starts"], random_state=c["rs"]), "mm": MMRegression(SRegression(n_initial_subsets=c["starts"], random_state=c["rs"]))}[c["est"]].fit(X, y * u)
    cx.ran = True
    cx.label(c["est"], "exact fit" if c["exact"] else "noise", c["otype"] if m else "clean")
    got = beta(e, X) / u
    d = np.max(np.abs(got - b))
    if c["exact"]:
        cx.check(d < 1e-6, f"coefficients {got}, although {n - m} of {n} observations lie exactly on {b}")
        cx.check(float(e.scale) < 1e-6 * u, f"scale {e.scale} of an exact fit")
    else:
        cx.check(d < {"s": 0.6, "lts": 0.5, "ltsraw": 0.5, "mm": 0.4}[c["est"]], f"coefficients {got} are {d:.3g} away from {b}")
        lo, hi = {"ltsraw": (0.2, 2.0), "lts": (0.15, 2.5)}.get(c["est"], (0.4, 2.5))
        cx.check(lo * sig < float(e.scale) / u < hi * sig, f"scale {float(e.scale) / u:.3g}, regular noise has {sig}")
        r = np.abs(y - design(X) @ got)
        cx.check(m == 0 or c["otype"] == "plane" or np.min(r[bad]) > np.median(r[~bad]) * 5, "an outlier has a small residual")


# ---------------------------------------------------------------------------------------------
# R07 prediction contract and histories
@law("R07", reg_case(min_n=16, max_n=40, max_p=3, est=st.sampled_from(sorted(EST)), box=BOX, new=st.one_of(st.integers(1, 5), st.sampled_from([30, 2000])), rs=st.integers(0, 999), t=gen.SEED), quick=320, rule="estimator x container x number of new rows x refit on other data (other number of features)")
def prediction_contract(c, cx):
    X, y, _, _ = reg_data(c)
    n, p = X.shape
    e = EST[c["est"]](c["rs"])
    cx.raises(NotFittedError, lambda: e.predict(X), "predict before fit")
    cx.raises(NotFittedError, lambda: e.scale, "scale before fit")
    A, b_ = containers(c, X, y)
    e.fit(A, b_)
    cx.ran = True
    cx.label(c["est"], c["box"], f"{c['new']} new rows")
    ref = EST[c["est"]](c["rs"]).fit(X, y)
    B = beta(ref, X)
    unit = np.max(np.abs(y))
    rng = np.random.default_rng(c["t"])
    N = X[rng.integers(0, n, c["new"])] * rng.uniform(-3, 3, (c["new"], p))
    if c["t"] % 3 == 0:
        N[:] = N[0]  # constant columns in the new rows
    shape = (c["new"], 1) if c["est"].startswith("lts") else (c["new"],)
    for M in (N, containers(c, N, np.zeros(c["new"]))[0]):
        if isinstance(M, np.ndarray) and M.ndim == 1 and p > 1:
            continue
        got = cx.arr(e.predict(M), shape, "predictions")
        cx.close(np.ravel(got), design(N) @ B, 1e-8, atol=1e-8 * unit, what="predictions for new rows")
    for i in range(min(c["new"], 5)):
        cx.close(np.ravel(e.predict(N[i : i + 1])), design(N[i : i + 1]) @ B, 1e-8, atol=1e-8 * unit, what="prediction for a single row")
    f = design(X) @ B
    cx.close(e.score(A, b_), 1 - np.sum((y - f) ** 2) / np.sum((y - y.mean()) ** 2), 1e-7, atol=1e-9, what="score (R squared)")
    # fit something else, then the first data again
    q = 1 + (p % 3)
    Z = rng.standard_normal((25, q))
    v = Z @ np.arange(1, q + 1) + 0.1 * rng.standard_normal(25)
    e.fit(Z, v)
    g = EST[c["est"]](c["rs"]).fit(Z, v)
    cx.close(np.ravel(e.predict(Z)), np.ravel(g.predict(Z)), 1e-12, what="predictions of a refitted estimator and of a fresh one")
    cx.check(float(e.scale) == float(g.scale), "scale of a refitted estimator differs from that of a fresh one")
    cx.close(np.ravel(ref.predict(X)), f, 1e-12, atol=1e-12 * unit, what="predictions of one estimator after fitting others")


@law("R07", FD({"est": st.sampled_from(sorted(EST)), "n": st.integers(24, 40), "p": st.integers(1, 2), "const": st.sampled_from([1.0, 2.0, -0.5, 0.0, 1e3]), "at": st.integers(0, 2), "rs": st.integers(0, 999), "seed": gen.SEED}), quick=160,
     rule="features among which a column is constant (a user's own intercept) x its position; next to the model's own intercept")
def constant_feature(c, cx):
    rng = np.random.default_rng(c["seed"])
    n, p = c["n"], c["p"]
    Z = rng.standard_normal((n, p))
    y = 3 + Z.sum(axis=1) + 0.2 * rng.standard_normal(n)
    at = min(c["at"], p)
    put = lambda A: np.insert(A, at, c["const"], axis=1)
    e = EST[c["est"]](c["rs"]).fit(put(Z), y)
    cx.ran = True
    cx.label(c["est"], f"constant {c['const']}")
    N = rng.standard_normal((5, p)) * 2
    got = np.ravel(cx.arr(e.predict(put(N)), (5, 1) if c["est"].startswith("lts") else (5,), "predictions"))
    cx.close(np.concatenate([np.ravel(e.predict(put(N[i : i + 1]))) for i in range(5)]), got, 1e-8, atol=1e-8, what="predictions row by row")
    f = np.ravel(e.predict(put(Z)))
    B = np.linalg.lstsq(design(Z), f, rcond=None)[0]
    cx.close(design(Z) @ B, f, 1e-7, atol=1e-7, what="fitted values (linear in the features)")
    cx.close(design(N) @ B, got, 1e-6, atol=1e-6, what="predictions for new rows")
    cx.check(np.median(np.abs(y - f)) < 0.6, f"median residual {np.median(np.abs(y - f)):.3g}, the noise has 0.2")
    cx.check(0.01 < float(e.scale) < 1, f"scale {e.scale}, the noise has 0.2")


@law("R07", FD({"k": st.sampled_from(["lts", "lts", "s", "mm"]), "a": st.integers(1, 3), "s": st.integers(0, 99), "n": st.integers(18, 30), "p": st.integers(1, 3), "seed": gen.SEED, "m": st.integers(1, 3)}), quick=480,
     rule="estimators with very few random starts, on responses with several local optima, refitted on other data with the same features")
def few_starts_refitted(c, cx):
    rng = np.random.default_rng(c["seed"])
    n, p, a = c["n"], c["p"], c["a"]
    mk = {"lts": lambda: _QuietLTS(n_initial_subsets=a, n_best_models=1, random_state=c["s"]), "s": lambda: SRegression(n_initial_subsets=a, n_best_subsets=1, random_state=c["s"]),
          "mm": lambda: MMRegression(SRegression(n_initial_subsets=a, n_best_subsets=1, random_state=c["s"]))}[c["k"]]

    def hard(n):
        X = rng.standard_normal((n, p))
        y = rng.standard_normal(n)
        y[: n // 3] += 5 * X[: n // 3, 0]
        return X, y

    e = mk()
    for k in range(c["m"]):
        e.fit(*hard(n + 4 * (k % 2)))
    X, y = hard(n)
    e.fit(X, y)
    f = mk().fit(X, y)
    cx.ran = True
    cx.label(c["k"], f"{a} starts")
    cx.close(np.ravel(e.predict(X)), np.ravel(f.predict(X)), 1e-10, atol=1e-10, what="predictions of a refitted estimator and of a fresh one")
    cx.close(e.scale, f.scale, 1e-10, what="scale of a refitted estimator and of a fresh one")


@law("R07", FD({"ops": st.lists(st.tuples(st.integers(0, 2), st.sampled_from(["fit", "predict", "scale"]), st.integers(0, 3)).map(list), min_size=3, max_size=9), "shared": BOOL, "seed": gen.SEED, "zero": BOOL}), quick=120, shards=8,
     rule="sequences of fits and predictions on three MM-estimators, with default or one shared initial estimator")
def mm_histories(c, cx):
    rng = np.random.default_rng(c["seed"])
    data = []
    for k in range(4):
        X = rng.standard_normal((24, 1 + k % 2))
        y = X @ np.ones(X.shape[1]) * (k + 1) + rng.standard_normal(24)
        if c["zero"] and k >= 2:
            y = np.zeros(24)
            y[:6] = np.arange(3, 9) * (k - 1)
        data.append((X, y))
    mk = lambda: SRegression(n_initial_subsets=20)
    one = mk()
    ms = [MMRegression(one) if c["shared"] else MMRegression(mk()) for _ in range(3)]
    last = [None] * 3
    for i, op, k in c["ops"]:
        if op == "fit":
            ms[i].fit(*data[k])
            last[i] = k
        for j in range(3) if op != "fit" else [i]:
            if last[j] is None:
                continue
            X, y = data[last[j]]
            f = MMRegression(mk()).fit(X, y)
            if op == "scale":
                cx.check(float(ms[j].scale) == float(f.scale), "scale depends on fits of other estimators")
            else:
                cx.close(np.ravel(ms[j].predict(X)), np.ravel(f.predict(X)), 1e-12, atol=1e-12, what="predictions depend on fits of other estimators")
    cx.ran = True
    if sum(x is not None for x in last) < 2:
        cx.mark_trivial()
    cx.label("shared" if c["shared"] else "own", "exact fits" if c["zero"] else "noise")


# ---------------------------------------------------------------------------------------------
# R08 outlier map
@law("R08", reg_case(min_n=20, max_n=60, max_p=8, box=BOX, est=st.sampled_from(["lts", "s", "mm"]), rscale=BOOL, rdist=BOOL, vt=st.sampled_from([None, 2.0, 3.5]), lp=st.sampled_from([None, 0.9, 0.999]), ret=BOOL), quick=240, rule="estimator x container x robust or classical scaling and distances x thresholds")
def outlier_map_data(c, cx):
    X, y, _, _ = reg_data(dict(c, dummy=False))
    n, p = X.shape
    A, b_ = containers(c, X, y)
    e = EST[c["est"]](5).fit(X, y)
    kw = {}
    if not c["rscale"]:
        kw["robust_scaling"] = False
    if not c["rdist"]:
        kw["robust_distance"] = False
    if c["vt"]:
        kw["vertical_outlier_threshold"] = c["vt"]
    if c["lp"]:
        kw["leverage_threshold_percentile"] = c["lp"]
    plt.close("all")
    out = e.outlier_map(A, b_, return_data=True, **kw)
    cx.ran = True
    cx.label(c["box"], c["est"], f"scaling {'robust' if c['rscale'] else 'classical'}", f"distance {'robust' if c['rdist'] else 'classical'}")
    r, sr, d, vt, lt = out
    want = y - np.ravel(e.predict(X))
    mag = np.max(np.abs(y))
    cx.close(np.ravel(r), want, 1e-9, atol=1e-12 * mag, what="residuals")
    s = ref_mad(want) / norm.ppf(0.75) if c["rscale"] else np.std(want)
    cx.close(sr, want / s, 1e-7, what="standardised residuals")
    if c["rdist"]:
        m = FastMCD().fit(X)
        loc, cov = m.location_, m.covariance_
    else:
        loc, cov = X.mean(axis=0), np.atleast_2d(np.cov(X, rowvar=False))
    z = X - loc
    dist = np.sqrt(np.sum(np.linalg.solve(cov, z.T).T * z, axis=1))
    cx.close(d, dist, 1e-6, what="distances of the features")
    cx.check(vt == (c["vt"] or 2.5), f"residual threshold {vt}")
    cx.close(lt, np.sqrt(chi2.ppf(c["lp"] or 0.975, p)), 1e-10, what="leverage threshold")
    ax = plt.gcf().axes[0]
    off = np.asarray(ax.collections[0].get_offsets())
    cx.close(off, np.column_stack([dist, want / s]), 1e-6, atol=1e-9, what="plotted points")
    hor = sorted(l.get_ydata()[0] for l in ax.lines if l.get_ydata()[0] == l.get_ydata()[-1] and l.get_xdata()[0] != l.get_xdata()[-1])
    cx.close(hor, [-vt, vt], 1e-12, what="horizontal lines")
    plt.close("all")
    if not c["rdist"]:
        cx.check(e.outlier_map(A, b_, **kw) is None, "outlier_map returns data although it was not asked to")
