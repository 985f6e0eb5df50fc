"""Univariate estimators, boxplot, loss functions, medians."""
import itertools
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy import optimize, stats
from sklearn.exceptions import NotFittedError

from vp import gen
from vp.core import law

from robpy.univariate import (
    CellwiseOneStepM, HuberOneStepM, OneStepM, OneStepWrapping, Qn, Tau, UnivariateMCD,
    adjusted_boxplot,
)
from robpy.utils.median import l1median, weighted_median
from robpy.utils.rho import Huber, TukeyBisquare

FD = st.fixed_dictionaries
BOOL = st.booleans()


def ref_mad(x):
    return float(np.median(np.abs(x - np.median(x))))


# ---------------------------------------------------------------------------------------------
# U01 Qn
DN = {2: 0.399, 3: 0.994, 4: 0.512, 5: 0.844, 6: 0.611, 7: 0.857, 8: 0.669, 9: 0.872}


def ref_qn(x, consistency, finite):
    n = len(x)
    d = np.abs(x[:, None] - x[None, :])[np.triu_indices(n, 1)]
    h = n // 2 + 1
    q = np.sort(d)[h * (h - 1) // 2 - 1]
    if finite:
        q *= DN[n] if n <= 9 else (n / (n + 1.4) if n % 2 else n / (n + 3.8))
    if consistency:
        q *= 2.219144
    return q


LOCS = {
    "median": np.median, "mean": np.mean, "min": np.min,
    "trim": lambda x: stats.trim_mean(x, 0.2),
}


def judge_qn(c, cx):
    x = gen.vec(c["x"])
    kw = {}
    if c["loc"] is not None:
        kw["location_func"] = LOCS[c["loc"]]
    if c["cc"] is not None:
        kw["consistency_correction"] = c["cc"]
    if c["fc"] is not None:
        kw["finite_correction"] = c["fc"]
    est = Qn(**kw).fit(x)
    want = ref_qn(x, c["cc"] is not False, c["fc"] is not False)
    spread = np.ptp(x)
    cx.label("zero" if want == 0 else "positive", "n<=9" if len(x) <= 9 else ("odd" if len(x) % 2 else "even"),
             "ties" if len(np.unique(x)) < len(x) else "distinct")
    cx.close(est.scale, want, rtol=1e-9, atol=1e-13 * (spread + np.max(np.abs(x))), what="Qn scale")
    cx.close(est.location, LOCS[c["loc"] or "median"](x), rtol=1e-12, what="Qn location")


_qn_opts = {
    "loc": st.sampled_from([None, None, "median", "mean", "min", "trim"]),
    "cc": st.sampled_from([None, True, False]),
    "fc": st.sampled_from([None, True, False]),
}


@law("U01", FD({"x": gen.vec_case(2, 60), **_qn_opts}), quick=1600,
     rule="sample of n>=2 values with drawn ties, scale, skewness, outliers and correction flags")
def qn_matches_definition(c, cx):
    judge_qn(c, cx)


@law("U01", FD({"n": st.integers(2, 20), "kind": st.sampled_from(gen.VKINDS[:4]), "seed": gen.SEED, "e": st.integers(-6, 6)}), quick=800,
     rule="every sample size up to 20 evenly, continuous data: the small-sample factors")
def qn_small_sample_factors(c, cx):
    x = gen.vec(c)
    est = Qn().fit(x)
    cx.label(f"n={c['n']}")
    cx.close(est.scale, ref_qn(x, True, True), rtol=1e-9, what="Qn scale")
    raw = Qn(finite_correction=False).fit(x).scale
    cx.close(est.scale / raw, ref_qn(x, True, True) / ref_qn(x, True, False), rtol=1e-9, what="small-sample factor")


@law("U01", FD({"x": gen.vec_case(61, 600, small=False), **_qn_opts}), quick=240,
     rule="larger samples, where the selection algorithm has to iterate")
def qn_matches_definition_large(c, cx):
    judge_qn(c, cx)


# ---------------------------------------------------------------------------------------------
# U02 univariate MCD
def umcd_h(alpha, n):
    if alpha is None:
        return n // 2 + 1
    if alpha == 1 or isinstance(alpha, float):
        return max(int(alpha * n), n // 2 + 1)
    return max(alpha, n // 2 + 1)


def draw_alpha(a, n):
    if a is None:
        return None
    if a[0] == "f":
        return a[1]
    return int(math.ceil(n / 2) + round(a[1] * (n - math.ceil(n / 2))))


ALPHA = st.one_of(
    st.none(),
    st.floats(0.5, 1.0).map(lambda v: ["f", v]),
    st.sampled_from([["f", 0.5], ["f", 1.0], ["f", 0.75], ["f", 0.9]]),
    st.floats(0, 1).map(lambda v: ["i", v]),
)


def windows(x, h):
    s = np.sort(x)
    s = s - s[len(s) // 2]
    return np.array([(np.mean((s[i:i + h] - s[i:i + h].mean()) ** 2), s[i:i + h].mean()) for i in
                     range(len(s) - h + 1)]), np.sort(x)[len(x) // 2]


def cfac_raw(h, n):
    q = stats.chi2.ppf(h / n, 1)
    return (h / n) / stats.chi2.cdf(q, 3)


def judge_umcd(x, alpha, cc, cx, exhaustive=False):
    n = len(x)
    kw = {} if cc is None else {"consistency_correction": cc}
    est = UnivariateMCD(alpha=alpha, **kw).fit(x)
    cc = cc is not False
    h = umcd_h(alpha, n)
    mag = np.max(np.abs(x)) if n else 0.0
    eps = 1e-11 * mag  # rounding of centred quantities
    cx.check(est.h_size == h, f"h_size {est.h_size}, expected {h} for alpha={alpha!r}, n={n}")
    if h == n:
        cx.label("h=n")
        cx.close(est.location, x.mean(), 1e-10, 1e-13 * mag, "location (h=n)")
        cx.close(est.scale, x.std(), 1e-9, eps, "scale (h=n)")
        return
    w, off = windows(x, h)
    vmin = w[:, 0].min()
    if exhaustive:
        best = min(np.var(x[list(s)]) for s in itertools.combinations(range(n), h))
        if abs(best - vmin) > 1e-9 * max(best, vmin) + eps**2:
            raise AssertionError("oracle: contiguous windows do not contain the optimum")
    f = cfac_raw(h, n) if cc else 1.0
    raw_s = float(cx.arr(est.raw_scale_, (), "raw scale"))
    raw_l = float(cx.arr(est.raw_location_, (), "raw location"))
    cx.close(raw_s, np.sqrt(vmin * f), 1e-8, eps, "raw scale: smallest standard deviation of h observations")
    cx.close(est.raw_variance_, raw_s**2, 1e-8, eps**2, "raw variance")
    near = w[:, 0] <= vmin * (1 + 1e-7) + eps**2
    cands = w[near, 1] + off
    cx.check(np.min(np.abs(cands - raw_l)) <= 1e-9 * mag + 1e-9 * np.sqrt(vmin),
             f"raw location {raw_l} is not the mean of the h={h} observations with smallest variance {cands}")
    loc, sc = float(cx.arr(est.location, (), "location")), float(cx.arr(est.scale, (), "scale"))
    cx.close(est.variance_, sc**2, 1e-8, eps**2, "variance")
    if vmin <= eps**2:
        cx.label("degenerate")
        cx.check(abs(loc - raw_l) <= 1e-9 * mag and sc <= 1e-5 * mag + eps,
                 f"h coinciding observations: location {loc}, scale {sc}")
        return
    r = np.abs(x - raw_l) / raw_s
    cut = np.sqrt(stats.chi2.ppf(0.975, 1))
    if np.any(np.abs(r - cut) < 1e-8 * (1 + mag / raw_s * 1e-3)):
        cx.skip("observation on the reweighting cutoff")
    keep = r < cut
    cx.label("all kept" if keep.all() else "some rejected", "tie" if near.sum() > 1 else "unique")
    m = x[keep].mean()
    v = np.mean((x[keep] - m) ** 2)
    if cc:
        d = keep.mean()
        v *= 1.0 if d == 1 else d / stats.chi2.cdf(stats.chi2.ppf(d, 1), 3)
    cx.close(loc, m, 1e-9, 1e-12 * mag + 1e-9 * raw_s, "reweighted location")
    cx.close(sc, np.sqrt(v), 1e-8, eps, "reweighted scale")


@law("U02", FD({"x": gen.vec_case(2, 80), "alpha": ALPHA, "cc": st.sampled_from([None, True, False])}), quick=2400,
     rule="sample with ties/outliers, every admissible form of alpha, both correction settings")
def umcd_is_best_window(c, cx):
    x = gen.vec(c["x"])
    judge_umcd(x, draw_alpha(c["alpha"], len(x)), c["cc"], cx)


@law("U02", FD({"x": gen._small(3, 10).filter(lambda d: len(d["v"]) <= 10), "alpha": ALPHA, "cc": st.sampled_from([None, False])}), quick=400,
     rule="n<=10: optimum over ALL h-subsets, not only contiguous ones")
def umcd_exhaustive(c, cx):
    x = gen.vec(c["x"])
    judge_umcd(x, draw_alpha(c["alpha"], len(x)), c["cc"], cx, exhaustive=True)


# ---------------------------------------------------------------------------------------------
# U03 closed forms
def bisq_w(r, c):
    return np.where(np.abs(r) <= c, (1 - (r / c) ** 2) ** 2, 0.0)


@law("U03", FD({"x": gen.vec_case(2, 100), "c1": st.sampled_from([None, 4.5, 2.0, 6.0, 3.3]),
                "c2": st.sampled_from([None, 3.0, 1.5, 2.0, 4.0]), "cc": st.sampled_from([None, True, False])}),
     quick=1200, rule="sample x tuning constants x consistency flag")
def tau_closed_form(c, cx):
    x = gen.vec(c["x"])
    kw = {k: v for k, v in (("c1", c["c1"]), ("c2", c["c2"]), ("consistency_correction", c["cc"])) if v is not None}
    est = Tau(**kw).fit(x)
    c1, c2 = c["c1"] or 4.5, c["c2"] or 3.0
    med, s0, mag = np.median(x), ref_mad(x), np.max(np.abs(x))
    if s0 <= 1e-9 * mag:
        cx.label("MAD=0")
        if s0 == 0:
            cx.close(est.location, med, 1e-12, what="location when half the data coincide")
            cx.close(est.scale, 0.0, what="scale when half the data coincide")
        return
    w = bisq_w((x - med) / s0, c1)
    loc = med + np.sum(w * (x - med)) / np.sum(w)
    rho = np.minimum(((x - loc) / s0) ** 2, c2**2)
    s = s0 * np.sqrt(np.mean(rho))
    if c["cc"] is not False:
        q = stats.norm.ppf(0.75)
        e = stats.norm.expect(lambda z: np.minimum((z / q) ** 2, c2**2) , lb=-c2 * q, ub=c2 * q) + c2**2 * 2 * stats.norm.sf(c2 * q)
        # at the normal model the MAD tends to q and the uncorrected scale to sqrt(E min(Z^2, (c2 q)^2))
        s = s / np.sqrt(e * q**2)
    cx.label("zero weights" if np.any(w == 0) else "all positive")
    cx.close(est.location, loc, 1e-9, 1e-11 * mag, "Tau location")
    cx.close(est.scale, s, 1e-7, 1e-11 * mag, "Tau scale")


def psi_h(r, b):
    return np.clip(r, -b, b)


def onestep_ref(x, wfun, b, delta, min_abs):
    med = np.median(x)
    mad = ref_mad(x) / stats.norm.ppf(0.75)
    r = (x - med) / (mad if mad >= min_abs else 1.0)
    w = wfun(r)
    loc = med + np.sum(w * (x - med)) / np.sum(w)
    s = 0.0 if mad < min_abs else mad * np.sqrt(np.mean(psi_h((x - med) / mad, b) ** 2) / delta)
    return loc, s, mad


def huber_w(b):
    return lambda r: np.where(np.abs(r) <= b, 1.0, b / np.maximum(np.abs(r), 1e-300))


ONESTEP = st.one_of(
    st.just({"est": "huber"}), st.just({"est": "cellwise"}),
    FD({"est": st.just("custom"), "loc": st.sampled_from(["huber", "bisq"]), "lc": st.sampled_from([1.0, 1.5, 2.5, 4.0]),
        "b": st.sampled_from([1.0, 1.5, 2.5]), "delta": st.sampled_from([0.5, 0.7784655, 0.845, 1.0]),
        "mas": st.sampled_from([None, 1e-12, 0.1])}),
)


@law("U03", FD({"x": gen.vec_case(2, 100), "e": ONESTEP}), quick=1600,
     rule="sample x one-step estimator (predefined or custom loss/delta/minimum scale)")
def onestep_closed_form(c, cx):
    x, e = gen.vec(c["x"]), c["e"]
    mag = np.max(np.abs(x))
    if e["est"] == "huber":
        est, args = HuberOneStepM(), (huber_w(1.5), 1.5, 0.7784655, 1e-12)
    elif e["est"] == "cellwise":
        est, args = CellwiseOneStepM(), (lambda r: bisq_w(r, 3.0), 2.5, 0.845, 1e-12)
    else:
        rho = Huber(b=e["lc"]) if e["loc"] == "huber" else TukeyBisquare(c=e["lc"])
        kw = {} if e["mas"] is None else {"min_abs_scale": e["mas"]}
        est = OneStepM(rho, Huber(b=e["b"]), e["delta"], **kw)
        wf = huber_w(e["lc"]) if e["loc"] == "huber" else (lambda r: bisq_w(r, e["lc"]))
        args = (wf, e["b"], e["delta"], e["mas"] or 1e-12)
    loc, s, mad = onestep_ref(x, *args)
    if 0 < mad and (abs(mad - args[3]) < 1e-6 * args[3] or mad < 1e-9 * mag):
        cx.skip("MAD at the minimum scale or at rounding level")
    cx.label(e["est"], "MAD below minimum" if mad < args[3] else "regular")
    est.fit(x)
    cx.close(est.location, loc, 1e-8, 1e-11 * mag + 1e-9 * mad, "one-step location")
    cx.close(est.scale, s, 1e-9, 1e-12 * mag, "one-step scale")


@law("U03", FD({"x": gen.vec_case(3, 100)}), quick=800, rule="wrapping one-step M-estimator")
def onestep_wrapping_closed_form(c, cx):
    x = gen.vec(c["x"])
    n, mag = len(x), np.max(np.abs(x))
    h = n // 2 + 1
    w, off = windows(x, h)
    near = w[:, 0] <= w[:, 0].min() * (1 + 1e-7) + (1e-11 * mag) ** 2
    if near.sum() > 1 and h < n:
        cx.skip("several optimal half-samples")
    ini = UnivariateMCD().fit(x)
    if not ini.scale > 1e-9 * mag:
        cx.skip("zero initial scale")
    r = np.abs(x - ini.location) / ini.scale
    if np.any(np.abs(r - 1.5) < 1e-7):
        cx.skip("residual at the corner of the weight function")
    A, B, k = 0.7532528, 0.8430849, 4.1517212
    with np.errstate(all="ignore"):
        wt = np.where(r < 1.5, 1.0, np.where(
            r > 4, 0.0, np.sqrt(A * (k - 1)) * np.tanh(0.5 * np.sqrt((k - 1) * B**2 / A) * (4 - r)) / np.maximum(r, 1e-9)))
    loc = ini.location + np.sum(wt * (x - ini.location)) / wt.sum()
    est = OneStepWrapping().fit(x)
    cx.label("downweighted" if np.any((wt > 0) & (wt < 1)) else "plain", "rejected" if np.any(wt == 0) else "none rejected")
    cx.close(est.location, loc, 1e-8, 1e-11 * mag + 1e-8 * ini.scale, "wrapping location")
    cx.close(est.scale, ini.scale, 1e-12, what="wrapping scale")


# ---------------------------------------------------------------------------------------------
EST = {
    "qn": Qn, "mcd": UnivariateMCD, "mcd75": lambda: UnivariateMCD(0.75), "mcdraw": lambda: UnivariateMCD(consistency_correction=False),
    "tau": Tau, "tau_nc": lambda: Tau(consistency_correction=False), "huber": HuberOneStepM,
    "cellwise": CellwiseOneStepM, "wrapping": OneStepWrapping,
}
ENAME = st.sampled_from(sorted(EST))


def fragile(name, x):
    """True when a legitimate tie makes the estimator's choice depend on rounding."""
    n = len(x)
    mag = np.max(np.abs(x))
    if ref_mad(x) <= 1e-6 * mag:
        return True
    if name in ("mcd", "mcd75", "mcdraw", "wrapping"):
        h = umcd_h(0.75 if name == "mcd75" else None, n)
        if h == n:
            return False
        w, _ = windows(x, h)
        v = np.sort(w[:, 0])
        if v[0] <= (1e-6 * mag) ** 2 or (len(v) > 1 and v[1] <= v[0] * (1 + 1e-6)):
            return True
        e = EST[name]() if name != "wrapping" else UnivariateMCD()
        e.fit(x)
        r = np.abs(x - e.raw_location_) / e.raw_scale_
        r2 = np.abs(x - e.location) / e.scale
        if np.any(np.abs(r - 2.241403) < 1e-4) or np.any(np.abs(r2 - 1.5) < 1e-4):
            return True
    return False


@law("U04", FD({"x": gen.vec_case(4, 80), "est": ENAME, "a": st.sampled_from([-1.0, 2.0, -0.37, 1e4, 1e-4, -250.0, 3.3]),
                "b": st.sampled_from([0.0, 0.0, 1.0, -17.5, 1000.0]), "perm": gen.SEED}), quick=2400,
     rule="estimator x sample x affine map x reordering, exact ties excluded")
def univariate_equivariance(c, cx):
    x, name = gen.vec(c["x"]), c["est"]
    if fragile(name, x):
        cx.skip("tie")
    sd = ref_mad(x)
    a = c["a"]
    b = c["b"] * abs(a) * sd  # shift in units of the data
    y = (a * x + b)[np.random.default_rng(c["perm"]).permutation(len(x))]
    if np.max(np.abs(y)) > 1e7 * abs(a) * sd:
        cx.skip("shift swamps the spread")
    e1, e2 = EST[name]().fit(x), EST[name]().fit(y)
    tol = 1e-7 * abs(a) * sd + 1e-11 * np.max(np.abs(y))
    cx.label(name, "reflection" if a < 0 else "scaling")
    cx.close(e2.scale, abs(a) * e1.scale, 1e-8, tol, f"{name} scale of {a}*x+{b}")
    cx.close(e2.location, a * e1.location + b, 1e-9, tol, f"{name} location of {a}*x+{b}")


@law("U05", FD({"n": st.integers(10, 120), "seed": gen.SEED, "est": ENAME, "frac": st.floats(0.0, 1.0),
                "how": st.sampled_from(["cluster", "two", "spread", "point"]), "far": st.sampled_from([1e2, 1e3, 1e6, 1e10]),
                "e": st.integers(-4, 4), "sign": st.sampled_from([1, -1])}), quick=2400,
     rule="clean sample with up to the breakdown number of observations replaced; trivial when none is")
def univariate_breakdown(c, cx):
    rng = np.random.default_rng(c["seed"])
    n, name = c["n"], c["est"]
    x = rng.standard_normal(n)
    h = umcd_h(0.75 if name == "mcd75" else None, n)
    m = int(round(c["frac"] * (n - h)))
    if m == 0:
        cx.mark_trivial()
    clean = x[m:].copy()
    far = c["far"]
    out = {
        "cluster": far + rng.standard_normal(m), "point": np.full(m, far),
        "two": far * rng.choice([-1.0, 1.0], m), "spread": far * (1 + rng.random(m) * 9) * rng.choice([-1, 1], m),
    }[c["how"]]
    x[:m] = c["sign"] * out
    u = 10.0 ** c["e"]
    x, clean = x * u, clean * u
    est = EST[name]().fit(rng.permutation(x))
    lo, hi, rg = clean.min(), clean.max(), np.ptp(clean)
    loc, s = float(cx.arr(est.location, (), "location")), float(cx.arr(est.scale, (), "scale"))
    cx.label(name, c["how"], f"{m / n:.1f}")
    slack = 1e-9 * np.max(np.abs(x)) * 1e-6
    if name in ("huber",):  # monotone psi: bounded, not redescending
        cx.check(lo - 2 * rg <= loc <= hi + 2 * rg, f"{name}: location {loc} left the clean range [{lo}, {hi}]")
    else:
        cx.check(lo - slack <= loc <= hi + slack, f"{name}: location {loc} left the clean range [{lo}, {hi}] with {m}/{n} outliers")
    cx.check(s <= 3 * rg, f"{name}: scale {s} exploded (clean range {rg}, {m}/{n} outliers)")
    gaps = np.diff(np.sort(clean))
    cx.check(s >= 0.05 * gaps[gaps > 0].min(), f"{name}: scale {s} imploded with {m}/{n} outliers")
    if m == 0 and n >= 60:
        cx.check(0.5 * u < s < 2.0 * u or name in ("mcdraw", "tau_nc"), f"{name}: scale {s} far from sigma={u} on clean normal data")


@law("U05", FD({"n": st.integers(8, 60), "seed": gen.SEED, "est": st.sampled_from(["qn", "tau", "tau_nc", "mcd", "mcd75", "mcdraw"]), "v": st.sampled_from([0.0, 1.0, -7.25, 1e6]), "extra": st.integers(0, 20),
                "far": st.sampled_from([0.5, 10.0, 1e6]), "side": st.sampled_from([1.0, -1.0, 0.0])}), quick=400,
     rule="a majority of equal observations, the others near or far on one side or both")
def univariate_coinciding_majority(c, cx):
    rng = np.random.default_rng(c["seed"])
    n, name = c["n"], c["est"]
    h = umcd_h(0.75 if name == "mcd75" else None, n)
    m = max(0, n - h - c["extra"])
    o = c["v"] + c["far"] * rng.uniform(1, 2, m) * (c["side"] or rng.choice([-1.0, 1.0], m))
    x = rng.permutation(np.r_[np.full(n - m, c["v"]), o])
    with np.errstate(all="raise"):
        est = EST[name]().fit(x)
    cx.ran = True
    cx.label(name, f"{m} others")
    if m == 0:
        cx.mark_trivial()
    cx.check(est.scale == 0, f"{name}: scale {est.scale} of a sample with {n - m}/{n} equal observations")
    cx.check(est.location == c["v"], f"{name}: location {est.location}, majority at {c['v']}")


@law("U05", FD({"seed": gen.SEED, "n": st.integers(2000, 4000), "est": ENAME, "mu": st.integers(-5, 5), "e": st.integers(-3, 3)}), quick=48,
     rule="large clean normal samples: every corrected scale estimates the standard deviation")
def univariate_consistency(c, cx):
    rng = np.random.default_rng(c["seed"])
    u = 10.0 ** c["e"]
    name = c["est"]
    x = u * (c["mu"] + rng.standard_normal(c["n"]))
    est = EST[name]().fit(x)
    cx.label(name)
    cx.check(abs(est.location / u - c["mu"]) < 0.25, f"{name}: location {est.location / u} of N({c['mu']},1)")
    if name not in ("mcdraw", "tau_nc"):
        cx.check(0.85 < est.scale / u < 1.15, f"{name}: scale {est.scale / u} of a standard normal sample of {c['n']}")


# ---------------------------------------------------------------------------------------------
# U06 contract
@law("U06", FD({"x": gen.vec_case(4, 40), "y": gen.vec_case(4, 40), "est": ENAME, "nan": st.lists(st.integers(0, 60), max_size=6)}), quick=1200,
     rule="NaN placement x estimator; trivial without NaN")
def univariate_nan_and_refit(c, cx):
    x, y, name = gen.vec(c["x"]), gen.vec(c["y"]), c["est"]
    mk = EST[name]
    cx.raises(NotFittedError, lambda: mk().scale, f"{name}.scale before fit")
    cx.raises(NotFittedError, lambda: mk().location, f"{name}.location before fit")
    fresh = mk().fit(x)
    z = x
    for i in c["nan"]:
        z = np.insert(z, i % (len(z) + 1), np.nan)
    if c["nan"]:
        cx.raises(ValueError, lambda: mk().fit(z), f"{name}.fit with missing values")
        try:
            bad = mk()
            bad.fit(z)
        except ValueError:
            cx.raises(NotFittedError, lambda: bad.scale, f"{name}.scale after a rejected fit")
    else:
        cx.mark_trivial()
    before = z.copy()
    e = mk()
    got = e.fit(z, ignore_nan=True)
    cx.check(got is e, f"{name}.fit does not return the estimator")
    cx.check(np.array_equal(before, z, equal_nan=True), f"{name}.fit changed its input")
    cx.close(e.scale, fresh.scale, 1e-12, what=f"{name} scale ignoring NaN")
    cx.close(e.location, fresh.location, 1e-12, what=f"{name} location ignoring NaN")
    e.fit(y)
    e.fit(x)
    cx.close(e.scale, fresh.scale, 1e-12, what=f"{name} scale after refitting")
    cx.close(e.location, fresh.location, 1e-12, what=f"{name} location after refitting")
    # the same array, overwritten with other values since the last fit
    w = y.copy()
    e.fit(w)
    w[:] = (y - y[0]) * 2 + y[::-1]
    want = mk().fit(w.copy())
    e.fit(w)
    cx.close(e.scale, want.scale, 1e-12, what=f"{name} scale after refitting the same array with new values")
    cx.close(e.location, want.location, 1e-12, what=f"{name} location after refitting the same array with new values")
    for bad in (x.reshape(-1, 1), x[: len(x) // 2 * 2].reshape(2, -1), np.array(1.0)):
        cx.raises(ValueError, lambda: mk().fit(bad), f"{name}.fit with a {bad.ndim}-dimensional array")


@law("U06", FD({"n": st.integers(4, 40), "seed": gen.SEED,
                "a": st.one_of(st.floats(0, 0.499), st.floats(1.0001, 60), st.integers(-3, 0), st.integers(2, 100))}), quick=600,
     rule="alpha outside the documented ranges must be rejected; trivial when it happens to be admissible")
def umcd_alpha_validation(c, cx):
    n, a = c["n"], c["a"]
    x = np.random.default_rng(c["seed"]).standard_normal(n)
    ok = (isinstance(a, int) and n / 2 <= a <= n) or a == 1 or (isinstance(a, float) and 0.5 <= a <= 1)
    if ok:
        cx.mark_trivial()
        judge_umcd(x, a, None, cx)
    else:
        cx.raises(ValueError, lambda: UnivariateMCD(alpha=a).fit(x), f"UnivariateMCD(alpha={a!r}).fit of {n} observations")


# ---------------------------------------------------------------------------------------------
# U07 adjusted boxplot
def ref_medcouple(x):
    x = np.sort(x)[::-1]
    med = np.median(x)
    up, lo = x[x >= med], x[x <= med]
    k = int(np.sum(x == med))
    vals = []
    p = len(up)
    for i, a in enumerate(up):
        for j, b in enumerate(lo):
            if a == b:  # both equal the median: Brys et al. (2004) sign convention on the tied block
                ii, jj = i - (p - k), j
                vals.append(np.sign(k - 1 - ii - jj))
            else:
                vals.append(((a - med) - (med - b)) / (a - b))
    return float(np.median(vals))


def quart(x, q):
    s = np.sort(x)
    t = q * (len(s) - 1)
    i = int(np.floor(t))
    return s[i] + (t - i) * (s[min(i + 1, len(s) - 1)] - s[i])


def ref_box(x):
    mc = ref_medcouple(x)
    q1, q3 = quart(x, 0.25), quart(x, 0.75)
    iqr = q3 - q1
    lo = q1 - 1.5 * math.exp((-4 if mc >= 0 else -3) * mc) * iqr
    hi = q3 + 1.5 * math.exp((3 if mc >= 0 else 4) * mc) * iqr
    return dict(median=np.median(x), q1=q1, q3=q3, lower_whisker=max(x.min(), lo), upper_whisker=min(x.max(), hi)), mc, (lo, hi)


@law("U07", FD({"cols": st.lists(gen.vec_case(4, 40), min_size=1, max_size=3), "form": st.sampled_from(["array", "1d", "frame", "series"]), "plot": BOOL,
                "opt": st.sampled_from([None, None, "own figure", "no fliers", "positions"])}), quick=1200,
     rule="1-3 variables; checked against a brute-force medcouple; boxes, whiskers and fliers read from the drawn axes; drawing options passed on")
def adjusted_boxplot_rule(c, cx):
    import matplotlib.pyplot as plt

    cols = [gen.vec(k) for k in c["cols"]]
    n = min(map(len, cols))
    X = np.column_stack([k[:n] for k in cols])
    if c["form"] in ("1d", "series"):
        X = X[:, :1]
    mags = np.max(np.abs(X), axis=0)
    arg = {"array": X, "1d": X[:, 0], "frame": pd.DataFrame(X, columns=gen.names(X.shape[1])),
           "series": pd.Series(X[:, 0], name="s")}[c["form"]]
    for j in range(X.shape[1]):
        if np.ptp(X[:, j]) <= 1e-9 * mags[j] + 1e-300:
            cx.skip("constant variable")
    keep = arg.copy()
    pos = list(range(1, X.shape[1] + 1))
    if c["plot"] and c["opt"] == "own figure":
        plt.close("all")
        out = adjusted_boxplot(arg, figsize=(4, 3))
        cx.check(len(plt.get_fignums()) == 1 and tuple(plt.gcf().get_size_inches()) == (4, 3), "no new figure of the given size")
        ax = plt.gca()
    elif c["plot"]:
        fig, ax = plt.subplots()
        kw = {}
        if c["opt"] == "no fliers":
            kw["showfliers"] = False
        if c["opt"] == "positions":
            pos = [3 * j for j in pos]
            kw["positions"] = pos
        out = adjusted_boxplot(arg, plot=True, ax=ax, **kw)
    else:
        out = adjusted_boxplot(arg, plot=False)
    cx.check(len(out) == X.shape[1], f"{len(out)} boxplots for {X.shape[1]} variables")
    expect = []
    for j, b in enumerate(out):
        want, mc, fence = ref_box(X[:, j])
        tol = 1e-9 * (mags[j] + np.ptp(X[:, j]))
        if abs(mc) < 1e-12:
            mc = 0.0
        cx.label("mc<0" if mc < 0 else "mc>=0", "ties" if len(np.unique(X[:, j])) < n else "distinct")
        for k, v in want.items():
            cx.close(getattr(b, k), v, 1e-9, tol, f"{k} of variable {j} (medcouple {mc:.4f})")
        lo, hi = want["lower_whisker"], want["upper_whisker"]
        near = np.minimum(np.abs(X[:, j] - fence[0]), np.abs(X[:, j] - fence[1])) < tol
        if near.any():  # inside or outside, depending on rounding
            expect = None
        if expect is not None:
            expect += [(j + 1, v) for v in X[:, j] if v < lo - tol or v > hi + tol]
    cx.check(arg.equals(keep) if hasattr(arg, "equals") else np.array_equal(arg, keep), "the data were changed")
    if c["plot"]:  # the five numbers of each box appear among the drawn lines
        for j, b in enumerate(out):
            w = 3 if c["opt"] == "positions" else 1
            ys = np.concatenate([np.ravel(ln.get_ydata()) for ln in ax.lines if ln.get_linestyle() not in ("None", "none", " ", "") and abs(np.mean(ln.get_xdata()) - pos[j]) < 0.4 * w])
            for k in ("median", "q1", "q3", "upper_whisker", "lower_whisker"):
                cx.check(np.any(ys == getattr(b, k)), f"{k} of variable {j} is not drawn")
    if c["plot"] and expect is not None:
        expect = [] if c["opt"] == "no fliers" else [(pos[a - 1], v) for a, v in expect]
        got = []
        for ln in ax.lines:
            if ln.get_linestyle() in ("None", "none", " ", ""):
                got += list(zip(map(float, ln.get_xdata()), map(float, ln.get_ydata())))
        cx.label("fliers" if expect else "no fliers")
        cx.check(sorted((int(round(a)), b) for a, b in got) == sorted(expect),
                 f"fliers drawn {sorted(got)[:6]}, expected {sorted(expect)[:6]}")
        labels = [t.get_text() for t in ax.get_xticklabels()]
        names = {"frame": gen.names(X.shape[1]), "series": ["s"]}.get(c["form"], [str(i) for i in range(X.shape[1])])
        cx.check(labels == names, f"axis labels {labels}, expected {names}")


# ---------------------------------------------------------------------------------------------
# U08 loss functions
XS = st.lists(st.floats(-8, 8), min_size=1, max_size=20)


@law("U08", FD({"x": XS, "c": st.floats(0.3, 6.0), "f": st.sampled_from(["huber", "bisq"]), "default": BOOL}), quick=2400,
     rule="points on both sides of the tuning constant")
def rho_psi_shape(c, cx):
    k = c["c"]
    if c["default"]:
        f, k = (Huber(), 1.5) if c["f"] == "huber" else (TukeyBisquare(), 1.56)
    else:
        f = Huber(b=k) if c["f"] == "huber" else TukeyBisquare(c=k)
    x = np.array([0.0, k, -k, k * (1 + 1e-9), -k * (1 - 1e-9), 1e8, -1e8] + c["x"])
    a = np.abs(x)
    if c["f"] == "huber":
        rho = np.where(a <= k, a**2 / 2, k * a - k**2 / 2)
        psi = np.sign(x) * np.minimum(a, k)
    else:
        u = np.minimum(a / k, 1.0)
        rho = k**2 / 6 * (1 - (1 - u**2) ** 3)
        psi = np.where(u < 1, x * (1 - u**2) ** 2, 0.0)
    cx.label(c["f"], "inside" if np.any(np.abs(np.array(c["x"])) < k) else "outside")
    got_r, got_p = cx.arr(f.rho(x), x.shape, "rho"), cx.arr(f.psi(x), x.shape, "psi")
    for i in range(len(x)):
        cx.close(got_r[i], rho[i], 1e-9, 1e-10 * k**2, f"{c['f']}.rho({x[i]}) with constant {k}")
        cx.close(got_p[i], psi[i], 1e-7, 1e-9 * k, f"{c['f']}.psi({x[i]}) with constant {k}")
    # psi is the derivative of rho, rho even and non-decreasing in |x|, psi odd
    t = np.array(c["x"])
    hh = 1e-5
    ok = np.abs(np.abs(t) - k) > 1e-3
    num = (np.asarray(f.rho(t + hh)) - np.asarray(f.rho(t - hh))) / (2 * hh)
    cx.check(np.all(np.abs(num - np.asarray(f.psi(t)))[ok] < 1e-5 * (1 + k)), f"{c['f']}: psi is not the derivative of rho at {t}")
    cx.close(f.rho(-x), got_r, 1e-12, what="rho(-x)")
    cx.close(f.psi(-x), -got_p, 1e-12, what="psi(-x)")
    s = np.sort(a)
    cx.check(np.all(np.diff(np.asarray(f.rho(s))) >= -1e-10 * k**2), "rho decreases")


# ---------------------------------------------------------------------------------------------
# U09 weighted median, L1-median
@law("U09", FD({"xw": st.lists(st.tuples(st.integers(-6, 6), st.integers(1, 9)).map(list), min_size=1, max_size=40),
                "real": BOOL, "seed": gen.SEED}), quick=2400,
     rule="values with ties and positive weights")
def weighted_median_definition(c, cx):
    x = np.array([a for a, _ in c["xw"]], dtype=float)
    w = np.array([b for _, b in c["xw"]])
    if c["real"]:
        rng = np.random.default_rng(c["seed"])
        x = x + rng.random(len(x))
        w = w * rng.random(len(w)) + 0.01
    W = w.sum()
    x0, w0 = x.copy(), w.copy()
    m = weighted_median(x, w)
    cx.arr(m, (), "weighted median")
    cx.check(np.array_equal(x, x0) and np.array_equal(w, w0), "weighted_median changed its arguments")
    cx.check(m in x0, f"weighted median {m} is not one of the values")
    if not c["real"]:  # integer weights: an exact split in two halves takes the upper of the two middle values
        v = np.unique(x)
        up = v[np.argmax(np.cumsum([w[x == a].sum() for a in v]) * 2 > W)]
        cx.label("even split" if np.any(np.cumsum([w[x == a].sum() for a in v]) * 2 == W) else "uneven")
        cx.check(m == up, f"weighted median {m}, expected the upper middle value {up}")
    cx.check(2 * w[x < m].sum() <= W * (1 + 1e-12) and 2 * w[x > m].sum() <= W * (1 + 1e-12),
             f"weighted median {m}: weight below {w[x < m].sum()}, above {w[x > m].sum()}, total {W}")
    cx.label("n>5" if len(x) > 5 else "short")


def l1_obj(X, m):
    return float(np.sum(np.linalg.norm(X - m, axis=1)))


@law("U09", gen.mat_case(4, 60, 1, 5, kinds=["normal", "corr", "t3", "grid", "skew"], outs=(0.0, 0.2, 0.4), units=(0, 2),
                         extra={"dup": st.sampled_from([0, 0, 1, 3]), "e": st.integers(-5, 5)}), quick=800,
     rule="point clouds, some with coinciding points, gross outliers, large offsets, any unit")
def l1_median_minimises(c, cx):
    X = gen.mat(c)
    if c["dup"]:
        X[: c["dup"]] = X[c["dup"]]
    X = X * 10.0 ** c["e"]
    m = cx.arr(l1median(X), (X.shape[1],), "l1median")
    cen = np.median(X, axis=0)
    Z = X - cen
    # reference: the best of the observations and a smoothed-objective minimiser started from the best
    cands = [l1_obj(X, r) for r in X]
    best = min(cands)
    s = np.median(np.abs(Z).sum(1)) or 1.0

    def f(v):
        d = Z / s - v
        r = np.sqrt((d**2).sum(1) + 1e-14)
        return r.sum(), -(d / r[:, None]).sum(0)

    o = optimize.minimize(f, Z[int(np.argmin(cands))] / s + 1e-3, jac=True, method="BFGS", options={"gtol": 1e-9})
    best = min(best, l1_obj(X, cen + s * o.x))
    got = l1_obj(X, m)
    cx.label("p=1" if X.shape[1] == 1 else "p>1", c["kind"])
    cx.check(got <= best * (1 + 1e-6) + 1e-9 * s,
             f"l1median objective {got:.10g}, but {best:.10g} is attainable")
