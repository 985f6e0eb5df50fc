"""Robust PCA."""
from itertools import combinations

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy import optimize
from scipy.stats import chi2, norm

from vp import gen
from vp.core import law
from vp.props.u import ref_mad

from robpy.covariance import FastMCD
from robpy.pca import ROBPCA, PCALocantore
from robpy.pca.base import get_od_cutoff
from robpy.univariate import UnivariateMCD
from robpy.utils.outlyingness import stahel_donoho

FD = st.fixed_dictionaries
BOOL = st.booleans()


def pca_case(min_n=25, max_n=90, max_p=8, outs=(0.0, 0.1, 0.2), **extra):
    d = {"n": st.integers(min_n, max_n), "p": st.integers(2, max_p), "rank": st.integers(1, 4), "noise": st.sampled_from([0.05, 0.3, 1.0]), "seed": gen.SEED, "out": st.sampled_from(list(outs)),
         "otype": st.sampled_from(["orth", "bad", "good", "cells"]), "off": st.sampled_from([0.0, 1.0, 100.0]), "e": st.integers(-4, 4), "wide": st.sampled_from([False, False, False, True]),
         "tail": st.sampled_from(["normal", "t5", "grid"])}
    d.update(extra)
    return FD(d)


def pca_data(c):
    """n x p data near a rank-dimensional affine subspace. Returns X, basis (p x r), outlier mask."""
    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    p = c["p"] + (n + 10 if c["wide"] else 0)
    r = min(c["rank"], p - 1)
    Q, _ = np.linalg.qr(rng.standard_normal((p, p)))
    sd = 4.0 * 0.7 ** np.arange(r)
    Z = rng.standard_t(5, (n, r)) if c["tail"] == "t5" else rng.standard_normal((n, r))
    X = (Z * sd) @ Q[:, :r].T + c["noise"] * rng.standard_normal((n, p))
    bad = np.zeros(n, bool)
    m = int(c["out"] * n)
    if m:
        rows = rng.permutation(n)[:m]
        bad[rows] = True
        if c["otype"] == "orth":
            X[rows] += 30 * Q[:, r]
        elif c["otype"] == "bad":
            X[rows] = 40 * Q[:, r] + 40 * Q[:, 0] + 0.5 * rng.standard_normal((m, p))
        elif c["otype"] == "good":
            X[rows] += np.outer(60 * rng.choice([-1, 1], m), Q[:, 0])
        else:
            X[rows, rng.integers(0, p, m)] += 40
    X = X + c["off"] * rng.standard_normal(p)
    if c["tail"] == "grid":
        X = np.round(2 * X) / 2
    return X * 10.0 ** c["e"], Q[:, :r], bad


def projector(C):
    return C @ C.T


def angle(A, B):
    """sine of the largest principal angle between the spans (same dimension)."""
    s = np.linalg.svd(A.T @ B, compute_uv=False)
    return float(np.sqrt(max(0.0, 1 - s.min() ** 2)))


def relgap(w, k):
    """gap between the k-th and (k+1)-th largest eigenvalue, relative to the largest."""
    w = np.sort(w)[::-1]
    if k >= len(w):
        return np.inf
    return (w[k - 1] - w[k]) / max(w[0], 1e-300)


# ---------------------------------------------------------------------------------------------
# A01 structure
CONF = {"est": st.sampled_from(["rob", "rob", "loc"]), "k": st.sampled_from([None, None, 1, 2, 3, 4]), "kmin": st.sampled_from([0.8, 0.8, 0.5, 0.95, 0.999]), "alpha": st.sampled_from([0.75, 0.75, 0.5, 0.9, 1.0]),
        "final": st.sampled_from([True, True, False]), "rs": st.one_of(st.just(0), st.integers(0, 999), st.integers(0, 2**31))}


def make(c, k):
    if c["est"] == "loc":
        return PCALocantore(n_components=k, k_min_var_explained=c["kmin"]) if c["kmin"] != 0.8 else PCALocantore(n_components=k)
    kw = {}
    for key, v, d in [("k_min_var_explained", c["kmin"], 0.8), ("alpha", c["alpha"], 0.75), ("final_MCD_step", c["final"], True)]:
        if v != d:
            kw[key] = v
    return ROBPCA(n_components=k, random_seed=c["rs"], **kw)


@law("A01", pca_case(**CONF, frame=BOOL, batch=st.sampled_from([1, 40, 400, 3000])), quick=800,
     rule="data near a subspace (also wider than long, ties, outliers, any unit and offset) x estimator and options")
def pca_structure(c, cx):
    X, B, _ = pca_data(c)
    n, p = X.shape
    k = None if c["k"] is None else min(c["k"], min(n, p) - 1)
    if c["tail"] == "grid" and np.linalg.matrix_rank(X - np.median(X, axis=0)) < min(n, p):
        cx.skip("rounded data of lower rank")
    keep = X.copy()
    e = make(c, k)
    try:
        got = e.fit(X)
    except (np.linalg.LinAlgError, ValueError):
        if c["tail"] == "grid" and c["est"] == "rob" and c["final"]:
            cx.skip("final MCD: a majority lies on a hyperplane")
        if c["est"] == "rob" and c["final"] and (k or min(n, p)) > n / 4 and c["e"] < -1:
            cx.skip("final MCD in a dimension where the determinants vanish")
        raise
    cx.ran = True
    cx.label(c["est"], "wide" if c["wide"] else "tall", "k given" if k else "k chosen", "final MCD" if c["final"] and c["est"] == "rob" else "no MCD")
    cx.check(got is e, "fit does not return the estimator")
    cx.check(np.array_equal(X, keep), "fit changed its input")
    C = cx.arr(e.components_, what="components")
    cx.check(C.ndim == 2 and C.shape[0] == p and 1 <= C.shape[1] <= min(n, p), f"components of shape {C.shape}")
    kk = C.shape[1]
    cx.check(e.n_components == kk, f"n_components {e.n_components}, but {kk} components")
    if k:
        cx.check(kk == k or (kk < k and c["tail"] == "grid" and c["est"] == "rob"), f"{kk} components, {k} requested")
    L = cx.arr(e.location_, (p,), "location")
    cx.close(C.T @ C, np.eye(kk), 1e-8, what="components' inner products (orthonormal)")
    ev = cx.arr(e.explained_variance_, (kk,), "explained variance")
    ratio = cx.arr(e.explained_variance_ratio if c["est"] == "rob" else e.explained_variance_ratio_, (kk,), "explained variance ratio")
    cx.check(np.all(ev >= 0), "negative explained variance")
    if c["est"] == "rob":
        cx.check(np.all(np.diff(ev) <= 1e-9 * ev[0]), "explained variances are not in decreasing order")
    cx.check(np.all(np.diff(ratio) >= -1e-9) and np.all(ratio <= 1 + 1e-9) and np.all(ratio >= 0), f"cumulative explained variance ratios {ratio}")
    cx.close(ratio / ratio[0], np.cumsum(ev) / ev[0], 1e-7, what="ratios are the cumulative explained variances over the total")
    if k is None:
        cx.check(ratio[-1] >= c["kmin"] * (1 - 1e-9) or c["tail"] == "grid" or kk > n / 5, f"{kk} components explain {ratio[-1]:.4g} < {c['kmin']}")
        cx.check(kk == 1 or ratio[-2] < c["kmin"] * (1 + 1e-9), f"already {kk - 1} components explain {ratio[max(kk - 2, 0)]:.4g} >= {c['kmin']}")
    # scores and projections, also of new rows
    rng = np.random.default_rng(c["seed"] + 1)
    size = np.max(np.abs(X - L))
    for Y in (X, L + size * rng.standard_normal((6, p)), L + size * rng.standard_normal((c["batch"], p))):
        y0 = Y.copy()
        arg = pd.DataFrame(Y) if c["frame"] else Y
        T = cx.arr(e.transform(arg), (len(Y), kk), "scores")
        cx.close(T, (Y - L) @ C, 1e-9, atol=1e-12 * size, what="scores")
        Pj = cx.arr(e.project(arg), (len(Y), p), "projection")
        cx.close(Pj, (Y - L) @ C @ C.T, 1e-9, atol=1e-12 * size, what="projection of the centred data")
        sd, od, sc, oc = e.plot_outlier_map(arg, return_distances=True)
        cx.close(sd, np.sqrt(np.sum(((Y - L) @ C) ** 2 / ev, axis=1)), 1e-7, what="score distances")
        od = cx.arr(od, (len(Y),), "orthogonal distances")
        tot = np.sum((Y - L) ** 2, axis=1)
        cx.check(np.all(np.abs(od**2 + np.sum(T**2, axis=1) - tot) <= 1e-8 * (tot + size**2)), "orthogonal distance, scores and distance to the centre break Pythagoras")
        cx.close(sc, np.sqrt(chi2.ppf(0.975, kk)), 1e-10, what="score distance cutoff")
        if len(Y) == n and kk < min(n - 1, p):
            m = UnivariateMCD().fit(od ** (2 / 3))
            cx.close(oc, (m.location + m.scale * norm.ppf(0.975)) ** 1.5, 1e-7, what="orthogonal distance cutoff")
        cx.check(np.array_equal(Y, y0), "transform changed its input")
    cx.check(e.plot_outlier_map(X) is None, "plot_outlier_map returns something although no distances were asked for")


# ---------------------------------------------------------------------------------------------
# A02 ROBPCA against a reference
def signs(k):
    rng = np.random.default_rng(0)
    return [np.ones(k), -np.ones(k)] + [rng.choice([-1.0, 1.0], k) for _ in range(3)]


def ref_robpca(X, k, kmin, alpha, final, rs):
    """ROBPCA of Hubert et al. (2005) without the preliminary SVD. robpy's own Stahel-Donoho (A06),
    univariate MCD (U02) and FastMCD (C03) are used as building blocks."""
    n, p = X.shape
    mu = X.mean(axis=0)
    _, s, Vt = np.linalg.svd(X - mu, full_matrices=False)
    V = Vt.T
    Z = (X - mu) @ V
    out = stahel_donoho(Z, random_seed=rs)
    h = max(int(alpha * n), int((n + (k if k is not None else 10) + 1) / 2))
    order = np.argsort(out, kind="stable")
    info = dict(gap=gen.gap(out, h), eig=np.inf, h=h, stable=True)
    H = order[:h]
    S = np.cov(Z[H], rowvar=False)
    w, E = np.linalg.eigh(S)
    w, E = w[::-1], E[:, ::-1]
    share = np.cumsum(w) / w.sum()
    if k is None:
        k = 1
        while share[k - 1] < kmin:
            k += 1
        info["gap"] = min(info["gap"], np.min(np.abs(share - kmin)))
    info["eig"] = min(info["eig"], relgap(w, k))
    d = Z - Z[H].mean(axis=0)
    od = np.linalg.norm(d - d @ E[:, :k] @ E[:, :k].T, axis=1)
    cut = get_od_cutoff(od)
    info["gap"] = min(info["gap"], np.min(np.abs(od - cut)) / max(cut, 1e-300))
    good = od <= cut
    info["good"] = good
    loc = Z[good].mean(axis=0)
    w2, E2 = np.linalg.eigh(np.cov(Z[good], rowvar=False))
    w2, E2 = w2[::-1], E2[:, ::-1]
    info["eig"] = min(info["eig"], relgap(w2, k))
    C = E2[:, :k]
    info["axes"] = w2[:k]
    if final and k > n / 4:
        info["stable"] = False  # few rows per dimension: many nearly singular local optima, more than the signs tried
    elif final and k > 1:
        # the axes' signs are arbitrary, and with them which of several local optima a seed leads to
        fits = [(sg, FastMCD(random_seed=rs).fit((Z - loc) @ C * sg)) for sg in signs(k)]
        sg, m = fits[0]
        info["stable"] = all(np.allclose(f.location_ * g, m.location_ * sg, rtol=0, atol=1e-7 * np.sqrt(w[0])) for g, f in fits)
        loc = loc + C @ m.location_
        w3, E3 = np.linalg.eigh(m.covariance)
        C = C @ E3[:, ::-1]
        info["axes"] = w3[::-1]
    return mu + V @ loc, V @ C, w[:k], share[:k], info


@law("A02", pca_case(outs=(0.0, 0.1, 0.2, 0.3), **CONF), quick=800, rule="data near a subspace x number of components (given or chosen) x coverage x final MCD step x seed; skipped when a decision is within rounding")
def robpca_reference(c, cx):
    cx.vary_entropy()
    # (rounded data has ties between directions)
    c = dict(c, est="rob", tail="normal" if c["tail"] == "grid" else c["tail"])
    X, _, _ = pca_data(c)
    n, p = X.shape
    k = None if c["k"] is None else min(c["k"], min(n, p) - 1)
    loc, C, ev, ratio, info = ref_robpca(X, k, c["kmin"], c["alpha"], c["final"], c["rs"])
    if info["gap"] < 1e-7 or info["eig"] < 1e-6 or not info["stable"]:
        cx.skip("a decision within rounding")
    kk = C.shape[1]
    if kk >= min(n - 1, p):
        cx.skip("full dimension: orthogonal distances are rounding errors")
    e = make(c, k).fit(X)
    cx.ran = True
    cx.label("wide" if c["wide"] else "tall", "k given" if k else "k chosen", f"alpha={c['alpha']}", "final MCD" if c["final"] and kk > 1 else "no MCD", "rows set aside" if not info["good"].all() else "all rows kept",
             "h raised" if info["h"] > int(c["alpha"] * n) else "h from alpha")
    size = np.max(np.abs(X - np.median(X, axis=0)))
    cx.check(np.asarray(e.components_).shape == C.shape, f"{np.asarray(e.components_).shape[1]} components, reference {kk}")
    cx.close(e.explained_variance_, ev, 1e-6, what="explained variance (eigenvalues of the h-subset covariance)")
    cx.close(e.explained_variance_ratio, ratio, 1e-6, what="cumulative explained variance ratio")
    cx.check(np.max(np.abs(projector(e.components_) - projector(C))) < 1e-6 / min(1, info["eig"]) ** 0.5 * 10, lambda: f"subspace differs from the reference (sine {angle(e.components_, C):.3g})")
    cx.check(np.max(np.abs(e.location_ - loc)) <= 1e-6 * size, lambda: f"location differs from the reference by {np.max(np.abs(e.location_ - loc)) / size:.3g} of the data's size")
    a = info["axes"]
    for j in range(kk):
        g = min([abs(a[j] - a[i]) for i in range(kk) if i != j] or [a[0]]) / a[0]
        if g > 1e-3:
            cx.check(abs(abs(e.components_[:, j] @ C[:, j]) - 1) < 1e-6, f"component {j + 1} differs from the reference axis")


# ---------------------------------------------------------------------------------------------
# A03 equivariance and seeds
@law("A03", pca_case(**CONF, tr=st.sampled_from(["shift", "rotate", "scale", "rows", "seed", "columns"]), t=gen.SEED), quick=480,
     rule="data x estimator x shift, rotation, unit change, permutation of columns or rows, repeated fit with the same seed")
def pca_equivariance(c, cx):
    cx.vary_entropy()
    c = dict(c, tail="normal" if c["tail"] == "grid" else c["tail"])  # rounded data has ties between directions
    X, _, _ = pca_data(c)
    n, p = X.shape
    k = None if c["k"] is None else min(c["k"], min(n, p) - 1)
    rng = np.random.default_rng(c["t"])
    size = np.max(np.abs(X - np.median(X, axis=0)))
    tr = c["tr"]
    if c["est"] == "rob":
        _, Cr, _, _, info = ref_robpca(X, k, c["kmin"], c["alpha"], c["final"], c["rs"])
        if c["final"] and Cr.shape[1] > n / 8:
            cx.skip("too few rows for the final MCD in this dimension")
        if info["gap"] < 1e-6 or info["eig"] < 1e-5 or not info["stable"] or Cr.shape[1] >= min(n - 1, p):
            cx.skip("a decision within rounding")
        if tr == "rows":
            tr = "seed"  # random directions depend on the order of the rows
    A, b, rows = np.eye(p), np.zeros(p), np.arange(n)
    if tr == "shift":
        b = size * rng.standard_normal(p)
    elif tr == "rotate":
        A = np.linalg.qr(rng.standard_normal((p, p)))[0]
    elif tr == "scale":
        A = np.eye(p) * 10.0 ** (rng.integers(-3, 4) if c["est"] == "rob" else rng.integers(-10, 11))
    elif tr == "columns":
        A = np.eye(p)[rng.permutation(p)]
    elif tr == "rows":
        rows = rng.permutation(n)
    f = abs(np.linalg.svd(A, compute_uv=False)[0])
    e1, e2 = make(c, k).fit(X), None
    state = np.random.get_state()[1].copy()
    Y = (X @ A.T + b)[rows]
    e2 = make(c, k)
    if tr == "seed":
        np.random.seed(c["t"] % 2**32)
        np.random.random(3)
        state = np.random.get_state()[1].copy()
    e2.fit(Y)
    cx.ran = True
    cx.label(c["est"], tr)
    cx.check(np.array_equal(np.random.get_state()[1], state), "the fit used numpy's global random state")
    if tr == "seed":
        for a in ("components_", "location_", "explained_variance_"):
            cx.check(np.array_equal(getattr(e1, a), getattr(e2, a)), f"{a} differs between two fits with the same seed")
        return
    if c["est"] == "loc" and e1.n_components != e2.n_components:
        r = np.cumsum(e1.explained_variance_)
        cx.check(min(np.abs(np.asarray(e1.explained_variance_ratio_) - c["kmin"]).min(), np.abs(np.asarray(e2.explained_variance_ratio_) - c["kmin"]).min()) < 1e-5, "number of components changes with the coordinates")
        return
    tol = 1e-5 if c["est"] == "rob" else 1e-4
    cx.close(e2.location_, A @ e1.location_ + b, 0, atol=tol * size * f, what="location")
    if c["est"] == "loc":
        Z = X - e1.location_
        U = Z / np.linalg.norm(Z, axis=1)[:, None]
        if relgap(np.linalg.eigvalsh(U.T @ U / n), e1.n_components) < 1e-3:
            cx.skip("eigenvalues too close")
    R = A / f
    cx.close(projector(e2.components_), R @ projector(e1.components_) @ R.T, 0, atol=100 * tol, what="subspace")
    if c["est"] == "rob":
        cx.close(e2.explained_variance_, f**2 * np.asarray(e1.explained_variance_), 1e-5, what="explained variance")


# ---------------------------------------------------------------------------------------------
# A04 robustness
@law("A04", FD({"n": st.integers(60, 120), "p": st.integers(4, 10), "rank": st.integers(1, 3), "seed": gen.SEED, "out": st.sampled_from([0.05, 0.1, 0.2]), "otype": st.sampled_from(["orth", "bad", "good", "far"]),
                "est": st.sampled_from(["rob", "rob", "loc"]), "final": BOOL, "auto": BOOL, "rs": st.integers(0, 99)}), quick=320,
     rule="regular rows near a known subspace x share, kind and distance of outlying rows")
def pca_robust(c, cx):
    rng = np.random.default_rng(c["seed"])
    n, p, r = c["n"], c["p"], c["rank"]
    Q, _ = np.linalg.qr(rng.standard_normal((p, p)))
    sd = 5.0 * 0.8 ** np.arange(r)
    Z = rng.standard_normal((n, r)) * sd
    X = Z @ Q[:, :r].T + 0.1 * rng.standard_normal((n, p))
    m = int((min(c["out"], 0.1) if c["est"] == "loc" else c["out"]) * n)
    bad = np.zeros(n, bool)
    bad[rng.permutation(n)[:m]] = True
    if c["otype"] == "orth":
        X[bad] += 20 * Q[:, r]
    elif c["otype"] == "bad":
        X[bad] += 40 * Q[:, r] + 30 * Q[:, 0]
    elif c["otype"] == "far":
        X[bad] += 1e5 * Q[:, r]
    else:
        X[bad] += np.outer(100 * rng.choice([-1, 1], m), Q[:, 0])
    auto = c["auto"] and c["est"] == "rob"
    if c["est"] == "rob":
        e = ROBPCA(n_components=None if auto else r, final_MCD_step=c["final"], random_seed=c["rs"], k_min_var_explained=0.98 if auto else 0.8).fit(X)
    else:
        e = PCALocantore(n_components=r).fit(X)
    cx.ran = True
    cx.label(c["est"], c["otype"], f"rank {r}", "k chosen" if auto else "k given")
    cx.check(e.n_components == r, f"{e.n_components} components chosen, the regular rows have {r}")
    a = angle(np.asarray(e.components_), Q[:, :r])
    cx.check(a < (0.15 if c["est"] == "rob" else 0.35), f"estimated subspace is {a:.3g} (sine) away from that of the regular rows")
    res = np.linalg.norm((np.eye(p) - Q[:, :r] @ Q[:, :r].T) @ e.location_)
    if c["est"] == "rob":
        centred = c["otype"] != "good" or (c["final"] and r > 1)  # otherwise good leverage points do count for the centre
        cx.check(res < 0.5, f"centre is {res:.3g} away from the subspace of the regular rows")
        cx.check(not centred or np.linalg.norm(e.location_) < 6, f"centre is {np.linalg.norm(e.location_):.3g} away from that of the regular rows")
        sdist, od, sc, oc = e.plot_outlier_map(X, return_distances=True)
        if c["otype"] == "good":
            cx.check(not centred or np.mean(sdist[bad] > sc) > 0.99, "a good leverage point is not beyond the score distance cutoff")
        else:
            cx.check(np.all(od[bad] > oc), "an orthogonal outlier is not beyond the orthogonal distance cutoff")
        cx.check(np.mean(od[~bad] > oc) < 0.35, f"{np.mean(od[~bad] > oc):.2f} of the regular rows beyond the orthogonal distance cutoff")


# ---------------------------------------------------------------------------------------------
# A05 spherical PCA
def ref_l1(X):
    m = np.median(X, axis=0)
    s = np.median(np.linalg.norm(X - m, axis=1))
    Z = (X - m) / s

    def f(v):
        r = np.sqrt(((Z - v) ** 2).sum(1) + 1e-18)
        return r.sum(), -((Z - v) / r[:, None]).sum(0)

    v = optimize.minimize(f, np.zeros(X.shape[1]), jac=True, method="BFGS", options={"gtol": 1e-10}).x
    for _ in range(20):  # Newton polish
        D = Z - v
        r = np.linalg.norm(D, axis=1)
        if np.min(r) < 1e-6:
            return None
        g = -(D / r[:, None]).sum(0)
        Hm = np.sum(1 / r) * np.eye(len(v)) - (D / r[:, None] ** 3).T @ D
        step = np.linalg.solve(Hm, g)
        v = v - step
        if np.linalg.norm(step) < 1e-13:
            return m + s * v
    return None


@law("A05", pca_case(max_p=14, outs=(0.0, 0.1, 0.3), k=st.sampled_from([None, 1, 2, 3]), kmin=st.sampled_from([0.8, 0.5, 0.9, 0.99])), quick=640, rule="data near a subspace x number of components given or chosen by explained variance")
def spherical_reference(c, cx):
    c = dict(c, wide=False)
    X, _, _ = pca_data(c)
    n, p = X.shape
    k = None if c["k"] is None else min(c["k"], p)
    loc = ref_l1(X)
    if loc is None:
        cx.skip("L1-median at or next to an observation")
    D = X - loc
    U = D / np.linalg.norm(D, axis=1)[:, None]
    w, E = np.linalg.eigh(U.T @ U / n)
    w, E = w[::-1], E[:, ::-1]
    if np.min(np.linalg.norm(D, axis=1)) < 1e-3 * np.median(np.linalg.norm(D, axis=1)):
        cx.skip("an observation next to the L1-median")
    gaps = -np.diff(w)
    if p > 1 and np.min(gaps) < 3e-3:
        cx.skip("eigenvalues too close")
    ev = np.array([ref_mad(t) / norm.ppf(0.75) for t in (D @ E).T]) ** 2
    share = np.cumsum(ev) / ev.sum()
    e = PCALocantore(n_components=k, k_min_var_explained=c["kmin"]).fit(X)
    cx.ran = True
    cx.label("k given" if k else "k chosen")
    if k is None:
        if np.min(np.abs(share - c["kmin"])) < 1e-3:
            cx.skip("explained share at the threshold")
        k = int(np.sum(share < c["kmin"])) + 1
    size = np.median(np.linalg.norm(D, axis=1))
    C = cx.arr(e.components_, (p, k), "components")
    cx.check(np.max(np.abs(e.location_ - loc)) < 3e-4 * size, lambda: f"location is {np.max(np.abs(e.location_ - loc)) / size:.3g} spreads away from the L1-median")
    tol = 1e-5 / np.min(gaps) if p > 1 else 1e-5
    for j in range(k):
        cx.check(abs(abs(C[:, j] @ E[:, j]) - 1) < tol, f"component {j + 1} is not the eigenvector of the spatial sign covariance (cosine {abs(C[:, j] @ E[:, j])})")
    cx.close(e.explained_variance_, ev[:k], 1e-2, what="explained variance (squared MAD of the scores)")
    cx.close(e.explained_variance_ratio_, share[:k], 1e-2, what="cumulative explained share")


# ---------------------------------------------------------------------------------------------
# A06 Stahel-Donoho outlyingness
def ref_sd(X, dirs):
    out = np.zeros(len(X))
    for d in dirs:
        t = X @ d
        dev = np.abs(t - np.median(t))
        s = np.median(dev)
        if s > 1e-12 * np.max(np.abs(X)):
            out = np.maximum(out, dev / s)
        else:
            return None
    return out


@law("A06", FD({"n": st.integers(4, 9), "p": st.integers(1, 4), "seed": gen.SEED, "kind": st.sampled_from(["pairs", "hyper"]), "heavy": BOOL, "e": st.integers(-5, 5), "off": st.sampled_from([0.0, 100.0]), "rs": st.integers(0, 999)}), quick=480,
     rule="few points, so that the random directions exhaust all pairs or all hyperplanes through p points")
def stahel_donoho_exhaustive(c, cx):
    rng = np.random.default_rng(c["seed"])
    n, p = c["n"], c["p"]
    X = rng.standard_t(1.5, (n, p)) if c["heavy"] else rng.standard_normal((n, p))
    X = (X + c["off"] * rng.standard_normal(p)) * 10.0 ** c["e"]
    hyper = c["kind"] == "hyper" and p >= 3
    if hyper:
        dirs = [np.linalg.svd(X[list(s)][1:] - X[s[0]])[2][-1] for s in combinations(range(n), p)]
        got = stahel_donoho(X, n_points=p, n_dir=max(1500, 40 * len(dirs)), random_seed=c["rs"])
    else:
        dirs = [X[i] - X[j] for i, j in combinations(range(n), 2)]
        dirs = [d / np.linalg.norm(d) for d in dirs]
        got = stahel_donoho(X, n_dir=1500, random_seed=c["rs"])
    want = ref_sd(X, dirs)
    if want is None:
        cx.skip("a direction without spread")
    cx.label("hyperplanes" if hyper else "pairs", "p=1" if p == 1 else "p>1")
    got = cx.arr(got, (n,), "outlyingness")
    # projections of p points on the normal of their hyperplane coincide: with p > n/2 nothing spreads
    cx.close(got, want, 1e-6, what="outlyingness over all directions")


@law("A06", FD({"m": gen.mat_case(10, 60, 1, 6, kinds=gen.MKINDS + ["grid"], outs=(0, 0.1, 0.3)), "np": st.sampled_from([2, 2, 3, 5]), "nd": st.sampled_from([250, 250, 20, 1]), "dup": st.sampled_from([0, 0, 2, 4]), "rs": st.one_of(st.none(), st.just(0), st.integers(0, 999)), "tr": st.sampled_from(["shift", "scale", "rotate"])}), quick=800,
     rule="data x points per direction x number of directions x coinciding rows x seed x change of coordinates")
def stahel_donoho_properties(c, cx):
    X = gen.mat(c["m"])
    n, p = X.shape
    if c["dup"]:
        X[: c["dup"]] = X[c["dup"]]
    npt = min(c["np"], n)
    kw = dict(random_seed=c["rs"])
    if npt != 2:
        kw["n_points"] = npt
    if c["nd"] != 250:
        kw["n_dir"] = c["nd"]
    if c["rs"] is not None:
        cx.vary_entropy()
    keep = X.copy()
    a = cx.arr(stahel_donoho(X, **kw), (n,), "outlyingness", finite=False)
    cx.label(f"{npt} points", f"{c['nd']} directions", "p=1" if p == 1 else "p>1")
    cx.check(np.array_equal(X, keep), "stahel_donoho changed its input")
    cx.check(not np.any(np.isnan(a)) and np.all(a >= 0), f"outlyingness {a[~(a >= 0)][:3]}")
    cx.check(npt != 2 or np.isfinite(a[np.argsort(a)[: n // 2]]).all(), "more than half of the rows are infinitely outlying")
    if c["rs"] is not None:
        cx.check(np.array_equal(a, stahel_donoho(X, **kw)), "outlyingness differs between two calls with the same seed")
    if p == 1:
        s = np.median(np.abs(X[:, 0] - np.median(X)))
        if s > 0 and c["nd"] >= 250:
            cx.close(a, np.abs(X[:, 0] - np.median(X)) / s, 1e-9, what="outlyingness of one column")
    if c["m"]["kind"] == "grid" or c["dup"] or c["rs"] is None or (npt != 2 and npt != p):
        return
    if npt == p and p > 2 and p >= n / 2:
        return
    rng = np.random.default_rng(c["rs"])
    if c["tr"] == "shift":
        Y = X + 10 * rng.standard_normal(p)
    elif c["tr"] == "scale":
        Y = X * 2.0 ** rng.integers(-20, 20)
    else:
        Y = X @ np.linalg.qr(rng.standard_normal((p, p)))[0]
    b = stahel_donoho(Y, **kw)
    cx.close(b, a, 1e-5, what=f"outlyingness after a change of coordinates ({c['tr']})")


@law("A06", FD({"n": st.integers(3, 160), "p": st.integers(2, 4), "seed": gen.SEED, "np": st.sampled_from([2, 2, 3]), "start": st.integers(0, 10**6)}), quick=160,
     rule="data of any size x 40 single directions from consecutive seeds; non-trivial when the directions differ")
def stahel_donoho_single_directions(c, cx):
    """One direction at a time: it goes through two different rows (or is normal to a plane through
    distinct rows), so half of the rows are within one MAD, and one row is at the MAD."""
    rng = np.random.default_rng(c["seed"])
    n, p = c["n"], c["p"]
    X = rng.standard_normal((n, p)) * 10.0 ** rng.integers(-4, 5) + rng.standard_normal(p)
    npt = p if c["np"] == 3 and p >= 3 and n >= 2 * p + 2 else 2
    got = []
    for s in range(40):
        a = cx.arr(stahel_donoho(X, n_points=npt, n_dir=1, random_seed=c["start"] + s), (n,), "outlyingness", finite=False)
        if n < 6:
            cx.check(np.any(a > 0), f"seed {c['start'] + s}: the direction drawn is zero")
            continue
        cx.close(np.median(a), 1.0, 1e-6, what=f"median outlyingness along a single direction (seed {c['start'] + s})")
        got.append(tuple(np.round(a, 9)))
    cx.ran = True
    cx.label(f"{npt} points")
    if n >= 20:
        cx.check(len(set(got)) >= 30, f"only {len(set(got))} of 40 seeds give different directions")
