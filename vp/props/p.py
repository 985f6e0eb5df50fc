"""Preprocessing: scaler, power transformation, data cleaner, wrapping."""
import logging

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.optimize import minimize_scalar
from scipy.stats import chi2, norm
from sklearn.base import clone
from sklearn.exceptions import NotFittedError

from vp import gen, refs
from vp.core import law
from vp.props.u import bisq_w, huber_w, onestep_ref, ref_mad

from robpy.preprocessing import DataCleaner, RobustPowerTransformer, RobustScaler
from robpy.preprocessing.utils import wrapping_transformation
from robpy.univariate import CellwiseOneStepM, HuberOneStepM, OneStepWrapping, Qn, Tau, UnivariateMCD

FD = st.fixed_dictionaries
BOOL = st.booleans()

# ---------------------------------------------------------------------------------------------
# P01 scaler
EST = {"mcd": UnivariateMCD, "qn": Qn, "tau": Tau, "huber": HuberOneStepM, "cell": CellwiseOneStepM, "wrap": OneStepWrapping}


@law("P01", FD({"m": gen.mat_case(8, 60, 1, 5, kinds=gen.MKINDS + ["grid"], outs=(0, 0.1, 0.3), units=(0, 1, 2)), "est": st.sampled_from([None] + sorted(EST)),
                "center": BOOL, "scale": BOOL, "frame": st.sampled_from(["array", "frame", "vector", "fortran"]), "nan": st.sampled_from([0.0, 0.0, 0.1]), "new": gen.SEED, "unit": st.sampled_from([0, 0, 0, -7, -12, 9])}), quick=1200,
     rule="data (any units, ties, outliers, missing cells) x scale estimator x centring and scaling switches x container")
def scaler_contract(c, cx):
    X = gen.with_nans(gen.mat(c["m"]), c["nan"], c["m"]["seed"] + 1)
    X[:, ::2] *= 10.0 ** c["unit"]
    if c["frame"] == "vector":
        X = X[:, :1]
    n, p = X.shape
    has_nan = bool(np.isnan(X).any())
    make = EST[c["est"] or "mcd"]
    kw = {} if c["est"] is None else {"scale_estimator": make()}
    if not c["center"]:
        kw["with_centering"] = False
    if not c["scale"]:
        kw["with_scaling"] = False
    sc = RobustScaler(**kw)
    wrap = {"array": lambda A: A, "fortran": np.asfortranarray, "vector": lambda A: A[:, 0].copy(),
            "frame": lambda A: pd.DataFrame(A, columns=gen.names(p), index=np.arange(len(A))[::-1] + 5)}[c["frame"]]
    if np.any([len(np.unique(x[~np.isnan(x)])) < 2 for x in X.T]):
        cx.skip("constant column")
    L, S = np.zeros(p), np.ones(p)
    for j in range(p):
        e = make().fit(X[~np.isnan(X[:, j]), j])
        if c["center"]:
            L[j] = e.location
        if c["scale"]:
            S[j] = e.scale
    if not (np.all(np.isfinite(L)) and np.all(np.isfinite(S)) and np.all(S > 0)):
        cx.skip("zero scale")
    keep = X.copy()
    arg = wrap(X)
    if has_nan:
        cx.raises(ValueError, lambda: RobustScaler(**kw).fit(arg), "fit with missing values and ignore_nan=False")
        got = sc.fit(arg, ignore_nan=True)
    else:
        got = sc.fit(arg)
    cx.ran = True
    cx.label(c["est"] or "default", c["frame"], f"center={c['center']}", f"scale={c['scale']}", "nan" if has_nan else "complete")
    cx.check(got is sc, "fit does not return the scaler")
    cx.close(sc.locations_, L, 1e-12, what="locations")
    cx.close(sc.scales_, S, 1e-12, what="scales")
    rng = np.random.default_rng(c["new"])
    for A in (X, np.where(rng.random((7, p)) < 0.1, np.nan, L + S * rng.standard_cauchy((7, p)))):
        T = sc.transform(wrap(A))
        cx.close(T, (A - L) / S, 1e-12, what="transformed data")
        B = sc.inverse_transform(np.asarray(T, float))
        off = np.abs(B - A) - 1e-13 * (np.abs(A) + np.nanmax(np.abs(A), axis=0) + np.abs(L))
        cx.check(not np.any(off > 0), "inverse_transform does not give the data back")
        cx.close(sc.inverse_transform(wrap(A)), A * S + L, 1e-12, what="inverse transform")
    cx.check(np.array_equal(X, keep, equal_nan=True), "the scaler changed its input")
    if not has_nan:
        cx.close(RobustScaler(**kw).fit_transform(wrap(X)), (X - L) / S, 1e-12, what="fit_transform")
    # a second fit forgets the first
    Y = X * 3.0 - 1.0
    sc.fit(wrap(Y), ignore_nan=True)
    fresh = RobustScaler(**({} if c["est"] is None else dict(kw, scale_estimator=make())) if c["est"] else kw).fit(wrap(Y), ignore_nan=True)
    cx.close(sc.scales_, fresh.scales_, 1e-12, what="scales after refitting")
    cx.close(sc.locations_, fresh.locations_, 1e-12, what="locations after refitting")
    # rows in single precision or integers are transformed like the same numbers in double precision
    if c["unit"] == 0:
        for A in (X.astype(np.float32), np.round(np.where(np.isnan(X), 0, X)).astype(int)):
            cx.close(sc.transform(wrap(A)), (A.astype(float) - fresh.locations_) / fresh.scales_, 1e-12, atol=1e-12, what=f"transformed {A.dtype} rows")
    # switches changed between two fits to data of the same width
    sc.set_params(with_centering=not c["center"], with_scaling=not c["scale"]).fit(wrap(X), ignore_nan=True)
    e = [make().fit(X[~np.isnan(X[:, j]), j]) for j in range(p)]
    cx.close(sc.locations_, np.zeros(p) if c["center"] else [x.location for x in e], 1e-12, what="locations after switching centring")
    cx.close(sc.scales_, np.ones(p) if c["scale"] else [x.scale for x in e], 1e-12, what="scales after switching scaling")


# ---------------------------------------------------------------------------------------------
# Box-Cox and Yeo-Johnson from their definitions
def bc(x, lam):
    return np.log(x) if lam == 0 else (x**lam - 1) / lam


def bc_inv(y, lam):
    return np.exp(y) if lam == 0 else (y * lam + 1) ** (1 / lam)


def yj(x, lam):
    x = np.asarray(x, float)
    pos = np.where(x >= 0, x, 0.0)
    neg = np.where(x < 0, -x, 0.0)
    a = np.log1p(pos) if lam == 0 else ((1 + pos) ** lam - 1) / lam
    b = -np.log1p(neg) if lam == 2 else -((1 + neg) ** (2 - lam) - 1) / (2 - lam)
    return np.where(x >= 0, a, b)


def yj_inv(y, lam):
    y = np.asarray(y, float)
    pos, neg = np.where(y >= 0, y, 0.0), np.where(y < 0, y, 0.0)
    a = np.expm1(pos) if lam == 0 else (lam * pos + 1) ** (1 / lam) - 1
    b = 1 - np.exp(-neg) if lam == 2 else 1 - (1 + (lam - 2) * neg) ** (1 / (2 - lam))
    return np.where(y >= 0, a, b)


def bc_d(x, lam):
    return x ** (lam - 1)


def yj_d(x, lam):
    return np.where(x >= 0, (1 + np.abs(x)) ** (lam - 1), (1 + np.abs(x)) ** (1 - lam))


LAMS = st.one_of(st.sampled_from([0.0, 1.0, 2.0, -1.0, 0.5, 3.0, -2.5, 5.0, 1e-3, 2.001, 1.999]), st.floats(-4, 6).map(lambda v: round(v, 4)))


def sample(c, positive):
    x = gen.vec(c)
    if positive:
        s = np.median(np.abs(x)) or 1.0
        x = np.abs(x) + 1e-2 * s
    return x


TCASE = FD({"x": gen.vec_case(12, 120, small=False), "method": st.sampled_from(["boxcox", "yeojohnson", "yeojohnson", "auto"]), "std": BOOL, "lam": st.one_of(st.none(), LAMS), "new": gen.SEED})


def std_domain(cx, x, method, std):
    """Data whose raw scale is usable: standardised, or already of moderate size."""
    if len(np.unique(x)) < 8 or ref_mad(x) == 0:
        cx.skip("ties: zero MAD")
    if not std and (np.median(np.abs(x)) > 30 or ref_mad(x) < 0.05):
        cx.skip("unstandardised data far from unit scale")


@law("P02", TCASE, quick=1600, rule="sample (7 shapes, 13 magnitudes) x method x standardisation x fitted or prescribed lambda (incl. 0, 1, 2)")
def power_formula_and_inverse(c, cx):
    positive = c["method"] == "boxcox" or (c["method"] == "auto" and c["new"] % 2 == 0)
    x = sample(c["x"], positive)
    if not c["std"]:
        x = x / 10.0 ** c["x"]["e"]
    std_domain(cx, x, c["method"], c["std"])
    est = RobustPowerTransformer(method=c["method"], standardize=c["std"])
    keep = x.copy()
    got = est.fit(x)
    cx.ran = True
    cx.check(got is est, "fit does not return the transformer")
    cx.check(np.array_equal(x, keep), "fit changed its input")
    if c["lam"] is not None:
        est.lambda_rew = c["lam"]
    lam = float(est.lambda_rew)
    if abs(lam) > 12:
        cx.skip("extreme lambda")
    meth = c["method"]
    if meth == "auto":
        if np.min(x) <= 0:
            meth = "yeojohnson"
        else:
            # which one was chosen shows in the transform itself
            yb = est.transform(x)
            lo, sc = (np.median(x), ref_mad(x) / norm.ppf(0.75)) if c["std"] else (0.0, 1.0)
            cand = bc(x / (np.median(x) if c["std"] else 1.0), lam)
            if c["std"]:
                cand = (cand - est.location_post) / est.scale_post
            meth = "boxcox" if np.allclose(yb, cand, rtol=1e-7, atol=1e-7) else "yeojohnson"
    cx.label(meth, "auto" if c["method"] == "auto" else "fixed", "standardised" if c["std"] else "raw", "prescribed" if c["lam"] is not None else "fitted")
    f, finv, d = (bc, bc_inv, bc_d) if meth == "boxcox" else (yj, yj_inv, yj_d)
    if c["std"]:
        if meth == "boxcox":
            lo, sc = 0.0, np.median(x)
        else:
            lo, sc = np.median(x), ref_mad(x) / norm.ppf(0.75)
        lp, sp = float(est.location_post), float(est.scale_post)
        cx.check(np.isfinite(lp) and np.isfinite(sp) and sp > 0, f"location {lp} and scale {sp} after the transformation")
    else:
        lo, sc, lp, sp = 0.0, 1.0, 0.0, 1.0
    rng = np.random.default_rng(c["new"])
    fresh = x[rng.integers(0, len(x), 15)] * rng.uniform(0.5, 2, 15)
    for A in (x, fresh):
        z = (A - lo) / sc
        want = (f(z, lam) - lp) / sp
        a_keep = A.copy()
        y = cx.arr(est.transform(A), A.shape, "transformed data")
        cx.check(np.array_equal(A, a_keep), "transform changed its input")
        cx.check(np.all(np.abs(y - want) <= 1e-9 * (np.abs(want) + (np.abs(lp) + 1) / sp + 1)), lambda: f"transform differs from its formula ({meth}, lambda {lam}) by {np.max(np.abs(y - want)):.3g}")
        # strictly increasing
        o = np.argsort(A)
        gap = np.diff(A[o])
        dy = np.diff(y[o])
        cx.check(np.all(dy >= -1e-12 * (1 + np.abs(y[o][1:]))), "transform is not increasing")
        # inverse
        back = cx.arr(est.inverse_transform(y), A.shape, "inverse transform", finite=False)
        lamx = max(abs(lam), abs(2 - lam) if meth == "yeojohnson" else 0)
        size = np.abs(f(z, lam)) + abs(lp) + 1 / max(min(abs(lam) or 1, abs(lam - 2) or 1), 1e-12) + 1
        tol = sc * 1e-13 * size * (1 + lamx) / np.maximum(d(z, lam), 1e-300) + 1e-12 * (np.abs(A) + abs(lo) + sc)
        bad = ~(np.abs(back - A) <= tol)
        cx.check(not bad.any(), lambda: f"inverse of the transform is off at {A[bad][:2]}: {back[bad][:2]} ({meth}, lambda {lam})")


@law("P02", FD({"x": gen.vec_case(12, 60, small=False), "method": st.sampled_from(["boxcox", "yeojohnson"]), "std": BOOL, "lam": LAMS, "k": st.floats(1.01, 50)}), quick=640,
     rule="transformed values beyond the range of the transformation x lambda")
def power_inverse_outside_range(c, cx):
    x = sample(c["x"], c["method"] == "boxcox")
    if not c["std"]:
        x = x / 10.0 ** c["x"]["e"]
    std_domain(cx, x, c["method"], c["std"])
    est = RobustPowerTransformer(method=c["method"], standardize=c["std"]).fit(x)
    cx.ran = True
    lam = est.lambda_rew = c["lam"]
    lo = hi = None
    if c["method"] == "boxcox":
        if lam > 0:
            lo = -1 / lam
        elif lam < 0:
            hi = -1 / lam
    else:
        if lam > 2:
            lo = -1 / (lam - 2)
        elif lam < 0:
            hi = -1 / lam
    lp, sp = (float(est.location_post), float(est.scale_post)) if c["std"] else (0.0, 1.0)
    b = lo if lo is not None else hi
    if b is not None and abs(b) > 20:
        cx.skip("bound so far out that its inverse overflows")
    if b is None:
        cx.mark_trivial()
        y = np.array([-3.0, 0.0, 2.0])
        cx.check(np.all(np.isfinite(est.inverse_transform(y))), "inverse is not finite although every value is in range")
        return
    cx.label(c["method"], "lower bound" if lo is not None else "upper bound")
    inner = np.array([0.0, 0.5 * b, 0.96 * b, 0.99 * b])
    raw = np.concatenate([inner, [b * c["k"], b * (c["k"] + 10)]])
    y = (raw - lp) / sp
    got = cx.arr(est.inverse_transform(y), (6,), "inverse of values outside the range")
    f = bc_inv if c["method"] == "boxcox" else yj_inv
    want = f(np.concatenate([inner, [0.95 * b, 0.95 * b]]), lam)
    if c["std"]:
        s0 = np.median(x) if c["method"] == "boxcox" else ref_mad(x) / norm.ppf(0.75)
        l0 = 0.0 if c["method"] == "boxcox" else np.median(x)
        want = want * s0 + l0
    cx.close(got, want, 1e-6 * (1 + abs(lp) / sp / 10), what=f"inverse with values outside the range moved to 0.95 of the bound (lambda {lam})")


# ---------------------------------------------------------------------------------------------
# P03 the fitted lambda
def _q13(x):
    n = len(x)
    return x[int(np.ceil(n / 4.0) - 1)], x[int(n - np.ceil(n / 4.0))]


def rect(x, lam, kind):
    """rectified transform: linear beyond the changepoint, continuing value and slope."""
    if lam == 1.0:
        return x - 1.0 if kind == "boxcox" else x
    f, finv, d = (bc, bc_inv, bc_d) if kind == "boxcox" else (yj, yj_inv, yj_d)
    q1, q3 = _q13(x)
    t = 1.5 * float(f(q3 if lam < 1 else q1, lam))
    if lam < 0:
        t = min(t, -1 / lam - 1e-5)
    elif kind == "boxcox" and lam > 0:
        t = max(t, -1 / lam + 1e-5)
    elif kind == "yeojohnson" and lam > 2:
        t = max(t, 1 / (2 - lam) + 1e-5)
    cp = float(finv(t, lam))
    cp = min(max(cp, x[0]), x[-1])
    y = f(x, lam)
    line = float(f(cp, lam)) + (x - cp) * float(d(cp, lam))
    far = x < cp if lam > 1 else x > cp
    if kind == "yeojohnson":  # only beyond the changepoint on its own side of zero
        far = far & ((x < 0) if lam > 1 else (x >= 0))
    return np.where(far, line, y)


def huberls(x):
    l, s, _ = onestep_ref(x, huber_w(1.5), 1.5, 0.7784655, 1e-12)
    return l, s


def normality(y):
    y = np.sort(y[~np.isnan(y)])
    n = len(y)
    l, s = huberls(y)
    r = (y - l) / (s if s != 0 else 1.0) - norm.ppf((np.arange(1, n + 1) - 1 / 3) / (n + 1 / 3))
    u = np.minimum((r / 0.5) ** 2, 1)
    return np.sum(1 - (1 - u) ** 3)


def ml(x, kind, rng_):
    n = len(x)
    f = bc if kind == "boxcox" else yj
    jac = np.sum(np.log(x)) if kind == "boxcox" else np.sum(np.sign(x) * np.log(1 + np.abs(x)))
    return minimize_scalar(lambda l: n / 2 * np.log(np.var(f(x, l))) - (l - 1) * jac, bounds=rng_, method="bounded").x


def ref_power(x, kind, std, rng_, q, nsteps):
    x = np.sort(x)
    info = dict(margin=np.inf, widened=0)
    if std:
        lo, sc = (0.0, np.median(x)) if kind == "boxcox" else (np.median(x), ref_mad(x) / norm.ppf(0.75))
        x = (x - lo) / sc
    cut = np.sqrt(chi2.ppf(q, 1))
    R = np.array(rng_, float)
    f = bc if kind == "boxcox" else yj
    for _ in range(12):
        l0 = minimize_scalar(lambda l: normality(rect(x, l, kind)), bounds=R, method="bounded").x
        y = rect(x, l0, kind)
        a, s = huberls(y)
        z = (y - a) / s
        for _ in range(nsteps):
            w = np.abs(z) <= cut
            info["margin"] = min(info["margin"], np.min(np.abs(np.abs(z) - cut)))
            lam = ml(x[w], kind, R)
            y = f(x, lam)
            z = (y - y.mean()) / y.std()
        dist = np.abs(lam - R)
        info["margin"] = min(info["margin"], abs(dist.min() - 0.05 * (R[1] - R[0])))
        info["raw"] = l0
        if dist.min() > 0.05 * (R[1] - R[0]):
            break
        info["widened"] += 1
        out = np.array([-1, 1]) * (R - 1)  # an edge at or beyond 1 moves by the width of the range
        R = R + np.array([-1, 1]) * np.where(out > 0, out, R[1] - R[0]) * (dist == dist.min())
    return lam, y[w].mean(), y[w].std(), f, x, info


@law("P03", FD({"x": gen.vec_case(15, 150, small=False, kinds=["normal", "lognormal", "uniform", "exp", "mixture", "cauchy"]), "method": st.sampled_from(["boxcox", "yeojohnson"]), "std": st.sampled_from([True, True, False]),
                "q": st.sampled_from([0.99, 0.99, 0.9, 0.999]), "nsteps": st.sampled_from([2, 2, 1, 4]), "range": st.sampled_from([None, None, [-1.0, 3.0], [0.0, 2.0], [-8.0, 10.0], [0.0, 1.0], [1.0, 3.0], [2.0, 4.0], [-3.0, -1.0]]), "series": BOOL}), quick=480,
     rule="sample x method x standardisation x quantile x number of reweighting steps x search range (widened when the optimum is near its edge)")
def power_lambda_reference(c, cx):
    x = sample(c["x"], c["method"] == "boxcox")
    if not c["std"]:
        x = x / 10.0 ** c["x"]["e"]
    std_domain(cx, x, c["method"], c["std"])
    if c["method"] == "yeojohnson" and not c["std"] and not _q13(np.sort(x))[0] <= 0 <= _q13(np.sort(x))[1]:
        cx.skip("the rectified transform needs quartiles around zero")
    rng_ = c["range"] or [-4.0, 6.0]
    try:
        lam, mu, sd, f, z, info = ref_power(x, c["method"], c["std"], rng_, c["q"], c["nsteps"])
    except (ValueError, IndexError, FloatingPointError):
        cx.skip("degenerate for the reference")
    if not np.isfinite(lam) or abs(lam) > 15 or sd <= 0 or info["widened"] > 5:
        cx.skip("extreme lambda")
    kw = {k: v for k, v in dict(method=c["method"], standardize=c["std"], quantile=c["q"], nsteps=c["nsteps"]).items()
          if v != dict(method="yeojohnson", standardize=True, quantile=0.99, nsteps=2)[k]}
    if c["range"]:
        kw["lambda_range"] = tuple(c["range"])
    est = RobustPowerTransformer(**kw)
    arg = pd.Series(x, index=np.random.default_rng(1).permutation(len(x))) if c["series"] else x
    est.fit(arg)
    cx.ran = True
    if info["margin"] < 2e-4:
        cx.skip("a weight or the range within the accuracy of the search")
    cx.label(c["method"], "std" if c["std"] else "raw", f"widened {min(info['widened'], 2)}", "series" if c["series"] else "array")
    cx.check(abs(est.lambda_rew - lam) <= 2e-3 * (1 + abs(lam)), f"lambda {est.lambda_rew}, reference {lam} (start {info['raw']})")
    if c["std"]:
        dsd = max(sd, 1e-12)
        cx.check(abs(est.location_post - mu) <= 2e-2 * (dsd + abs(mu)) and abs(est.scale_post / dsd - 1) < 2e-2,
                 f"location and scale of the transformed data {est.location_post}, {est.scale_post}, reference {mu}, {sd}")


@law("P03", FD({"x": gen.vec_case(15, 120, small=False, kinds=["normal", "lognormal", "uniform", "exp", "mixture"]), "a": st.integers(-20, 20), "b": st.sampled_from([0.0, 3.0, -7.0]),
                "method": st.sampled_from(["boxcox", "yeojohnson", "auto"]), "perm": BOOL}), quick=320,
     rule="sample x change of units (and of origin for Yeo-Johnson) x order of the observations x method")
def power_equivariance(c, cx):
    m = c["method"]
    x = sample(c["x"], m != "yeojohnson")
    std_domain(cx, x, m, True)
    a = 2.0 ** c["a"]  # exact, so that no search step changes
    y = x * a + (c["b"] * a * (np.max(np.abs(x))) if m == "yeojohnson" else 0.0)
    if m == "yeojohnson":
        # shifting rounds the data; start from the values that survive it
        x = (y - c["b"] * a * np.max(np.abs(x))) / a if c["b"] == 0 else x
    if c["perm"]:
        rp = np.random.default_rng(c["x"]["seed"]).permutation(len(x))
    else:
        rp = np.arange(len(x))
    e1 = RobustPowerTransformer(method=m).fit(x)
    e2 = RobustPowerTransformer(method=m).fit(y[rp])
    cx.ran = True
    cx.label(m, "shifted" if c["b"] and m == "yeojohnson" else "scaled", "permuted" if c["perm"] else "same order")
    if abs(e1.lambda_rew) > 12:
        cx.skip("extreme lambda")
    try:
        margins = [ref_power(x, k, True, [-4.0, 6.0], 0.99, 2)[5]["margin"] for k in (["boxcox", "yeojohnson"] if m == "auto" else [m])]
    except ValueError:
        cx.skip("degenerate for the reference")
    if min(margins) < (1e-3 if m == "yeojohnson" and c["b"] else 1e-7):
        cx.skip("a weight within the accuracy of the search")
    tol = 2e-2 if m == "yeojohnson" and c["b"] else 1e-6
    cx.check(abs(e1.lambda_rew - e2.lambda_rew) <= tol * (1 + abs(e1.lambda_rew)), f"lambda depends on units or order: {e1.lambda_rew} and {e2.lambda_rew}")
    t1, t2 = np.asarray(e1.transform(x)), np.asarray(e2.transform(y[rp]))
    if tol < 1e-3:
        cx.close(t2, t1[rp], 1e-6, atol=1e-6, what="transformed data after a change of units or order")


def ref_auto(x):
    """criterion of both transforms on the standardised data."""
    out = {}
    for k in ("boxcox", "yeojohnson"):
        lam, _, _, f, z, info = ref_power(x, k, True, [-4.0, 6.0], 0.99, 2)
        out[k] = (normality(f(z, lam)), lam, info["margin"])
    return out


@law("P03", FD({"x": gen.vec_case(20, 150, small=False, kinds=["normal", "lognormal", "exp", "uniform"]), "neg": BOOL, "bad": st.sampled_from(["none", "none", "zero", "method", "new", "refit"])}), quick=320,
     rule="positive and non-positive samples x method 'auto' x invalid method or data for Box-Cox x refits")
def power_auto_and_errors(c, cx):
    x = sample(c["x"], True)
    std_domain(cx, x, "auto", True)
    b = c["bad"]
    cx.label(b, "non-positive" if c["neg"] else "positive")
    z = x - np.median(x)
    if b == "zero":
        for bad in (z, np.where(np.arange(len(x)) == 0, 0.0, x)):
            cx.raises(ValueError, lambda: RobustPowerTransformer(method="boxcox").fit(bad), "Box-Cox fit of data that are not strictly positive")
        est = RobustPowerTransformer(method="boxcox").fit(x)
        cx.raises(ValueError, lambda: est.transform(z), "Box-Cox transform of data that are not strictly positive")
        return
    if b == "method":
        for mth in ("box-cox", "YeoJohnson", "none"):
            cx.raises(ValueError, lambda: RobustPowerTransformer(method=mth).fit(x), f"method {mth!r}")
        return
    est = RobustPowerTransformer(method="auto")
    if b == "refit":  # what was fitted before leaves no trace
        est.fit(z)
        est.fit(np.exp(-x / np.median(x)))
        cx.check(est.get_params()["method"] == "auto" and clone(est).method == "auto", f"fitting changed the method to {est.method!r}")
    if c["neg"]:
        est.fit(z)
        cx.ran = True
        ref = RobustPowerTransformer(method="yeojohnson").fit(z)
        cx.close(est.lambda_rew, ref.lambda_rew, 1e-9, atol=1e-9, what="lambda of 'auto' on non-positive data (Yeo-Johnson)")
        cx.close(est.transform(z), ref.transform(z), 1e-9, what="'auto' on non-positive data is Yeo-Johnson")
        return
    try:
        r = ref_auto(x)
    except ValueError:
        cx.skip("degenerate for the reference")
    if min(v[2] for v in r.values()) < 2e-4 or abs(r["boxcox"][0] - r["yeojohnson"][0]) < 1e-2 * (r["boxcox"][0] + 0.1):
        cx.skip("both transforms equally good")
    est.fit(x)
    cx.ran = True
    best = min(r, key=lambda k: r[k][0])
    cx.label(f"auto -> {best}")
    want = RobustPowerTransformer(method=best).fit(x)
    cx.close(est.lambda_rew, want.lambda_rew, 1e-9, atol=1e-9, what=f"lambda of 'auto' (criteria {r['boxcox'][0]:.4g} Box-Cox, {r['yeojohnson'][0]:.4g} Yeo-Johnson)")
    cx.close(est.transform(x), want.transform(x), 1e-9, what="transform of 'auto'")
    cx.close(est.inverse_transform(est.transform(x)), x, 1e-6, what="round trip of 'auto'")


@law("P03", FD({"n": st.integers(120, 300), "seed": gen.SEED, "kind": st.sampled_from(["lognormal", "sqrt", "normal", "power"]), "out": st.sampled_from([0.0, 0.05, 0.1]), "far": st.sampled_from([20.0, 1e3, 1e6]), "method": st.sampled_from(["boxcox", "yeojohnson"])}), quick=160,
     rule="samples whose exact normalising transformation is known x share and distance of outliers")
def power_robust(c, cx):
    rng = np.random.default_rng(c["seed"])
    z = rng.standard_normal(c["n"])
    if c["method"] == "boxcox":
        lam = {"lognormal": 0.0, "sqrt": 0.5, "normal": 1.0, "power": -0.5}[c["kind"]]
        x = bc_inv(0.25 * z, lam)
    else:
        lam = {"lognormal": 0.0, "sqrt": 0.5, "normal": 1.0, "power": 1.5}[c["kind"]]
        x = yj_inv(np.clip(0.6745 * z, -3, 3), lam)
    m = int(c["out"] * c["n"])
    bad = np.zeros(c["n"], bool)
    bad[rng.permutation(c["n"])[:m]] = True
    x[bad] = np.max(x) * 3 + c["far"] * (1 + rng.random(m))
    est = RobustPowerTransformer(method=c["method"]).fit(x)
    cx.ran = True
    cx.label(c["method"], c["kind"], f"out={c['out']}")
    t = np.asarray(est.transform(x))
    r = np.abs(t[~bad])
    cx.check(abs(est.lambda_rew - lam) < (2.2 if c["method"] == "boxcox" else 1.9) + (1.0 if c["out"] == 0.1 else 0), f"lambda {est.lambda_rew}, true {lam}")
    from scipy.stats import skew

    k = t[~bad]
    cx.check(m or abs(skew(k)) < 1.6, f"skewness {skew(k):.3g} of the regular observations after the transformation")
    cx.check(abs(np.median(k)) < 0.5 and (0.5 if c["out"] < 0.1 else 0.25) < np.std(k) < 1.8, f"regular observations transformed to median {np.median(k):.3g}, deviation {np.std(k):.3g}")
    if m:
        cx.check(np.min(t[bad]) > np.quantile(k, 0.99), "an outlier is transformed into the bulk")
        if c["method"] == "yeojohnson" or lam >= 0:
            cx.check(np.min(t[bad]) > 1.2, f"an outlier is transformed to {np.min(t[bad]):.3g}")


# ---------------------------------------------------------------------------------------------
# P04 data cleaner
COL = st.sampled_from(["num", "num", "num", "int", "text", "mixed", "rownum", "rownum_f", "disc", "const", "spike", "nan", "half", "inf", "cat", "bool", "numtext", "tiny", "allnan", "date"])
CLEAN = FD({"cols": st.lists(COL, min_size=1, max_size=9), "n": st.integers(1, 40), "seed": gen.SEED,
            "mc": st.sampled_from([0.5, 0.5, 0.2, 0.8, 1.0]), "mr": st.sampled_from([0.5, 0.5, 0.2, 0.8, 1.0]), "uniq": st.sampled_from([3, 3, 2, 5, 0]), "scale": st.sampled_from([1e-12, 1e-12, 0.3]),
            "first": st.sampled_from(["automatic", "automatic", "rows", "columns"]), "min": st.sampled_from([3, 3, 1, 10]),
            "wide": st.sampled_from([None, None, None, -1, 0, 1]), "index": st.sampled_from(["range", "text", "dup", "multi"]), "second": st.one_of(st.none(), gen.SEED), "rowmiss": st.sampled_from([0.0, 0.1, 0.3])})


def clean_frame(cols, n, seed, rowmiss=0.0, index="range"):
    rng = np.random.default_rng(seed)
    d = {}
    for k, c in enumerate(cols):
        x = rng.standard_normal(n).round(3)
        if c == "int":
            v = rng.integers(-50, 50, n)
        elif c == "text":
            v = np.array([f"s{i}" for i in rng.integers(0, 9, n)], dtype=object)
        elif c == "mixed":
            v = x.astype(object)
            v[rng.integers(0, n)] = "?"
        elif c == "rownum":
            v = np.arange(n)
        elif c == "rownum_f":
            v = np.arange(n).astype(float)
        elif c == "disc":
            v = rng.integers(0, 4, n).astype(float)
        elif c == "const":
            v = np.full(n, 2.5)
        elif c == "spike":
            v = np.where(rng.random(n) < 0.6, 1.0, x)
        elif c == "nan":
            v = np.where(rng.random(n) < 0.15, np.nan, x)
        elif c == "half":
            v = x.copy()
            v[rng.permutation(n)[: (n + 1) // 2]] = np.nan
        elif c == "inf":
            v = np.where(rng.random(n) < 0.3, rng.choice([np.inf, -np.inf], n), x)
        elif c == "cat":
            v = pd.Categorical([f"c{i}" for i in rng.integers(0, 6, n)])
        elif c == "bool":
            v = rng.random(n) < 0.5
        elif c == "numtext":
            v = np.array([f"{i}.5" for i in rng.integers(0, 30, n)], dtype=object)
        elif c == "tiny":
            v = x * 1e-14
        elif c == "allnan":
            v = np.full(n, np.nan)
        elif c == "date":
            v = pd.date_range("2020-01-01", periods=n)
        else:
            v = x
        d[f"{c}{k}"] = v
    df = pd.DataFrame(d)
    if rowmiss and n > 2:
        for i in np.where(rng.random(n) < rowmiss)[0]:
            for col in df.columns:
                if df[col].dtype.kind == "f" and rng.random() < 0.8:
                    df.loc[i, col] = np.nan
    if index == "text":
        df.index = [f"r{i}" for i in range(n)]
    elif index == "dup":
        df.index = [i // 2 for i in range(n)]
    elif index == "multi":
        df.index = pd.MultiIndex.from_arrays([np.arange(n) // 3, np.arange(n)])
    return df


def isnum(v):
    if v is None or (isinstance(v, float) and np.isnan(v)) or v is pd.NaT:
        return True
    if isinstance(v, (bool, np.bool_, int, float, np.integer, np.floating)):
        return True
    try:
        float(v)
        return True
    except (TypeError, ValueError):
        return False


def miss(v):
    return v is None or v is pd.NaT or (isinstance(v, (float, np.floating)) and not np.isfinite(v))


def ref_clean_fit(df, uniq, scale):
    non, disc, bad = [], [], []
    for col in df.columns:
        vals = list(df[col])
        present = [v for v in vals if not (v is None or v is pd.NaT or (isinstance(v, (float, np.floating)) and np.isnan(v)))]
        if not all(isnum(v) for v in present):
            non.append(col)
        if len(set(present)) <= uniq:
            disc.append(col)
        if col in non or col in disc:
            continue
        a = np.array([float(v) for v in present])
        a = a[np.isfinite(a)]
        if len(a) and np.median(np.abs(a - np.median(a))) <= scale:
            bad.append(col)
    return non, disc, bad


def ref_clean_transform(df, fit, mc, mr, first):
    non, disc, bad = fit
    n, p = df.shape
    rownum = [col for col in df.columns if all((not isinstance(v, str)) and not miss(v) and v == i for i, v in enumerate(df[col]))]
    if first == "automatic":
        first = "columns" if p >= 5 * n else "rows"
    cols = [col for col in df.columns if col not in non + disc + bad]
    M = np.array([[miss(v) for v in df[col]] for col in cols]).reshape(len(cols), n).T
    rows = np.zeros(n, bool)
    dropc = []
    for what in (["rows", "columns"] if first == "rows" else ["columns", "rows"]):
        if what == "rows":
            live = [k for k, col in enumerate(cols) if col not in dropc]
            if live:
                rows = M[:, live].mean(axis=1) >= mr
        else:
            sub = M[~rows]
            if len(sub):
                dropc = [col for k, col in enumerate(cols) if sub[:, k].mean() >= mc]
    out = [col for col in df.columns if col not in non + disc + bad + rownum + dropc]
    return rownum, dropc, rows, out


@law("P04", CLEAN, quick=1600, rule="frames mixing 19 kinds of columns x thresholds x order of the missing-value passes x index kinds x a second frame with the same columns; non-trivial when something is dropped")
def cleaner_reference(c, cx):
    cols, n = c["cols"], c["n"]
    if c["wide"] is not None:  # about five times as many columns as rows
        n = 1 + n % 8
        want = max(1, 5 * n + c["wide"])
        cols = (cols * want)[:want]
    df = clean_frame(cols, n, c["seed"], c["rowmiss"], c["index"])
    if c["wide"] is not None:
        rng = np.random.default_rng(c["seed"] + 7)
        for col in df.columns:
            if df[col].dtype.kind == "f":
                df[col] = df[col].where(rng.random(n) > rng.choice([0.1, 0.4, 0.6]))
    keep = df.copy(deep=True)
    kw = {k: v for k, v in dict(max_missing_frac_cols=c["mc"], max_missing_frac_rows=c["mr"], min_unique_values=c["uniq"], min_abs_scale=c["scale"], clean_na_first=c["first"], min_n_rows=c["min"]).items()
          if v != dict(max_missing_frac_cols=0.5, max_missing_frac_rows=0.5, min_unique_values=3, min_abs_scale=1e-12, clean_na_first="automatic", min_n_rows=3)[k]}
    est = DataCleaner(**kw)
    cx.raises(NotFittedError, lambda: est.dropped_columns, "dropped_columns before fit")
    cx.raises(NotFittedError, lambda: est.dropped_rows, "dropped_rows before transform")
    fit = ref_clean_fit(df, c["uniq"], c["scale"])
    got = est.fit(df)
    cx.ran = True
    cx.check(got is est, "fit does not return the cleaner")
    if n < c["min"]:
        cx.label("too few rows")
        cx.raises(ValueError, lambda: est.transform(df), f"transform of {n} rows with min_n_rows={c['min']}")
        return
    frames = [df]
    if c["second"] is not None:  # the same columns, other values; then the first frame again
        frames += [clean_frame(cols, n + 3, c["second"], 0.2, "text"), df]
    for D in frames:
        rownum, dropc, rows, out = ref_clean_transform(D, fit, c["mc"], c["mr"], c["first"])
        R = est.transform(D)
        cx.check(isinstance(R, pd.DataFrame), "transform does not return a data frame")
        dc = est.dropped_columns
        for name, want in [("non_numeric_cols", fit[0]), ("cols_discrete", fit[1]), ("cols_bad_scale", fit[2]), ("cols_rownumbers", rownum), ("cols_missings", dropc)]:
            cx.check(list(dc[name]) == want, f"{name}: {list(dc[name])}, expected {want}")
        cx.check(list(est.dropped_rows["rows_missings"]) == D.index[rows].tolist(), f"dropped rows {est.dropped_rows['rows_missings']}, expected {D.index[rows].tolist()}")
        cx.check(list(R.columns) == out, f"remaining columns {list(R.columns)}, expected {out}")
        cx.check(R.index.tolist() == D.index[~rows].tolist(), f"remaining rows {R.index.tolist()[:5]}..., expected {D.index[~rows].tolist()[:5]}...")
        for col in out:
            a, b = list(R[col]), [v for v, r in zip(D[col], rows) if not r]
            same = all((miss(u) and miss(v) and not (isinstance(u, float) and np.isinf(u))) or (not miss(v) and u == v) for u, v in zip(a, b))
            cx.check(same, f"values of column {col} changed")
        gone = bool(rows.any()) or len(out) < D.shape[1]
        for nm, l in [("rows", rows.any()), ("rownum", rownum), ("missing cols", dropc), ("non-numeric", fit[0]), ("discrete", fit[1]), ("scale", fit[2])]:
            if l:
                cx.label("drops " + nm)
    if not gone:
        cx.mark_trivial()
    cx.check(df.equals(keep), "the cleaner changed its input")
    if c["first"] == "automatic":
        cx.raises(ValueError, lambda: DataCleaner(clean_na_first="cols").fit(df).transform(df), "clean_na_first='cols'")


# ---------------------------------------------------------------------------------------------
# P05 wrapping
@law("P05", FD({"m": gen.mat_case(5, 60, 1, 5, kinds=gen.MKINDS + ["grid"], outs=(0, 0.1, 0.3, 0.4), units=(0, 1, 2)), "bc": st.sampled_from([None, None, [1.0, 3.0], [1.5, 2.0], [2.0, 6.0]]), "rescale": BOOL, "est": st.sampled_from([None, "mean", "given"]), "zero": BOOL, "unit": st.sampled_from([0, 0, 0, -6, -14, 8])}), quick=1000,
     rule="data x wrapping constants x rescaling x location and scale estimators x columns of zero scale")
def wrapping_reference(c, cx):
    X = gen.mat(c["m"])
    n, p = X.shape
    X[:, ::2] *= 10.0 ** c["unit"]
    if c["zero"]:
        X[:, 0] = 3.25
    kw = {}
    b, cc, q1, q2 = 1.5, 4.0, 1.540793, 0.8622731
    if c["bc"]:
        b, cc = c["bc"]
        kw.update(b=b, c=cc)
        if b != 1.5:
            q1, q2 = 1.3, 0.7
            kw.update(q1=q1, q2=q2)
    if not c["rescale"]:
        kw["rescale"] = False
    if c["est"] is None:
        loc = np.median(X, axis=0)
        sc = np.median(np.abs(X - loc), axis=0)
    elif c["est"] == "mean":
        loc, sc = X.mean(axis=0), X.std(axis=0)
        kw.update(location_estimator=np.mean, scale_estimator=np.std)
    else:
        loc, sc = X[0] * 1.0, np.abs(X[1]) + 0.1 * np.max(np.abs(X), axis=0) + (np.max(np.abs(X), axis=0) == 0)
        if c["zero"]:
            sc[0] = 0.0
        kw.update(location_estimator=lambda A, axis=0: loc, scale_estimator=lambda A, axis=0: sc)
    if c["est"] == "mean" and c["zero"]:
        sc[0] = 0.0
    keep = X.copy()
    out = cx.arr(wrapping_transformation(X, **kw), (n, p), "wrapped data")
    cx.label("rescaled" if c["rescale"] else "raw", c["est"] or "median/mad", "zero scale" if np.any(sc == 0) else "regular")
    cx.check(np.array_equal(X, keep), "wrapping changed its input")
    s1 = np.where(sc == 0, 1.0, sc)
    z = (X - loc) / s1
    a = np.abs(z)
    if np.min(np.abs(a - b)) < 1e-9 or np.min(np.abs(a - cc)) < 1e-9:
        cx.skip("a value on a corner")
    w = np.array([[v if abs(v) < b else (np.sign(v) * q1 * np.tanh(q2 * (cc - abs(v))) if abs(v) <= cc else 0.0) for v in r] for r in z])
    if c["rescale"]:
        sd = np.std(w, axis=0)
        if np.any((sd < 1e-9) & (sc > 0)):
            cx.skip("wrapped column is constant")
        want = loc + sc * (w - w.mean(axis=0)) / np.where(sd == 0, 1.0, sd)
        reg = sc > 0
        cx.close(out.mean(axis=0)[reg] / sc[reg], loc[reg] / sc[reg], 1e-9, atol=1e-9, what="mean of rescaled wrapped data is the location")
        cx.close(out.std(axis=0)[reg] / sc[reg], np.ones(reg.sum()), 1e-6, what="deviation of rescaled wrapped data is the scale")
    else:
        want = loc + sc * w
        cx.check(np.all(np.abs(out - loc) <= sc * (max(b, q1) + 1e-9) + 1e-9 * np.abs(loc)), "wrapped data exceed the bound")
        far = (a > cc) & (sc > 0)
        cx.close(out[far], np.broadcast_to(loc, out.shape)[far], 1e-12, what="cells beyond the upper cutoff are put at the location")
        inner = (a < b) & (sc > 0)
        cx.close(out[inner], X[inner], 1e-9, what="cells within the lower cutoff are unchanged")
    cx.close((out - loc) / s1, (want - loc) / s1, 1e-7, atol=1e-9 * np.max(1 + np.abs(loc) / s1), what="wrapped data")
