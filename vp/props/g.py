"""Guarantees shared by all estimators: inputs, histories, parameters, pipelines, data sets."""
import copy
import csv
import inspect
import pickle

import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from sklearn.base import BaseEstimator, clone
from sklearn.exceptions import NotFittedError
from sklearn.model_selection import GridSearchCV, cross_val_predict
from sklearn.pipeline import make_pipeline
from statsmodels.tools.sm_exceptions import MissingDataError

from vp import gen
from vp.core import Skip, law

import robpy.datasets as RD
import robpy.datasets.base as RDB
from robpy.covariance import CellMCD, DetMCD, FastMCD, KendallTau, OGK, WrappingCovariance
from robpy.covariance.initial_ddcw import InitialDDCW
from robpy.outliers import DDC
from robpy.pca import PCALocantore, ROBPCA
from robpy.preprocessing import DataCleaner, RobustPowerTransformer, RobustScaler
from robpy.preprocessing.utils import wrapping_transformation
from robpy.regression import FastLTSRegression, MMRegression, SRegression
from robpy.univariate import CellwiseOneStepM, HuberOneStepM, OneStepWrapping, Qn, Tau, UnivariateMCD, adjusted_boxplot
from robpy.utils.median import l1median
from robpy.utils.outlyingness import stahel_donoho

FD = st.fixed_dictionaries
BOOL = st.booleans()


# -- registry: name -> (kind, choices of settings, factory, queries) ------------------------------
def q_uni(e, X, y):
    return {"location": e.location, "scale": e.scale}


def q_cov(e, X, y):
    d = {"location_": e.location_, "covariance_": e.covariance_, "covariance": e.covariance}
    if getattr(e, "precision_", None) is not None:
        d["precision"] = e.get_precision()
    if not np.isnan(np.asarray(X, dtype=float)).any():
        d["mahalanobis"] = e.mahalanobis(X)
    return d


def q_cell(e, X, y):
    return {"location_": e.location_, "covariance_": e.covariance_, "imputed": e.X_imputed, "residuals": e.residuals, "predictions": e.predictions}


def q_ddcw(e, X, y):
    return {"location_": e.location_, "covariance_": e.covariance_}


def q_pca(e, X, y):
    sd, od, a, b = e.plot_outlier_map(X, return_distances=True)
    plt.close("all")
    return {"project": e.project(X), "explained_variance_": e.explained_variance_, "location_": e.location_, "sd": sd, "od": od, "cut": [a, b], "scores": np.abs(e.transform(X))}


def q_tr(e, X, y):
    t = e.transform(X)
    return {"transform": t, "inverse": e.inverse_transform(t)}


def q_ddc(e, X, y):
    c, r = e.predict(X)
    return {"cells": c, "residuals": r, "rows": e.predict(X, rowwise=True), "impute": e.impute(X), "cell0": e.cellwise_outliers_, "res0": e.standardized_residuals_, "pred0": e.rescaled_predictions_}


def q_clean(e, X, y):
    return {"transform": e.transform(X)}


def q_reg(e, X, y):
    return {"predict": e.predict(X), "scale": e.scale, "score": e.score(X, y)}


class QuietLTS(FastLTSRegression):
    def fit(self, X, y, verbosity=50):
        return super().fit(X, y, verbosity=verbosity)


AL = [0.5, 0.75, 0.9]
# mostly small samples, now and then a hundred rows and more
N = st.one_of(*[st.integers(20, 40)] * 9, st.integers(100, 130))
REG = {
    "Qn": ("vec", {"finite_correction": [True, False], "consistency_correction": [True, False]}, lambda **k: Qn(**k), q_uni),
    "UnivariateMCD": ("vec", {"alpha": [None, 0.6, 0.9], "consistency_correction": [True, False]}, lambda **k: UnivariateMCD(**k), q_uni),
    "Tau": ("vec", {"c1": [4.5, 3.0], "c2": [3.0, 4.0]}, lambda **k: Tau(**k), q_uni),
    "HuberOneStepM": ("vec", {}, lambda **k: HuberOneStepM(**k), q_uni),
    "CellwiseOneStepM": ("vec", {}, lambda **k: CellwiseOneStepM(**k), q_uni),
    "OneStepWrapping": ("vec", {}, lambda **k: OneStepWrapping(**k), q_uni),
    "FastMCD": ("mat", {"alpha": AL, "n_initial_subsets": [30, 50], "reweighting": [True, False], "correct_covariance": [True, False], "random_seed": [1, 2], "n_best_subsets": [10, 3, 60], "n_initial_c_steps": [2, 1], "n_partitions": [None, 1, 2], "store_precision": [True, False]}, lambda **k: FastMCD(**k), q_cov),
    "DetMCD": ("mat", {"alpha": AL, "tolerance": [1e-8, 1e-12], "reweighting": [True, False], "correct_covariance": [True, False]}, lambda **k: DetMCD(**k), q_cov),
    "OGK": ("mat", {"n_iterations": [1, 2], "reweighting": [True, False], "reweighting_beta": [0.9, 0.8], "store_precision": [True, False]}, lambda **k: OGK(**k), q_cov),
    "KendallTau": ("mat", {}, lambda **k: KendallTau(**k), q_cov),
    "WrappingCovariance": ("mat", {"b": [1.5, 1.2], "c": [4.0, 3.5], "assume_centered": [False, True], "store_precision": [True, False]}, lambda **k: WrappingCovariance(**k), q_cov),
    "CellMCD": ("mat", {"alpha": [0.75, 0.6], "quantile": [0.99, 0.95], "max_c_steps": [100, 3], "crit": [1e-4, 1e-8], "min_eigenvalue": [1e-4, 0.1]}, lambda **k: CellMCD(**k), q_cell),
    "InitialDDCW": ("mat", {"alpha": [0.75, 0.6], "min_eigenvalue": [1e-4, 0.1]}, lambda **k: InitialDDCW(**k), q_ddcw),
    "ROBPCA": ("pca", {"n_components": [1, 2], "alpha": [0.75, 0.6], "final_MCD_step": [True, False], "random_seed": [1, 2], "k_min_var_explained": [0.8, 1.0, 0.3]}, lambda **k: ROBPCA(**k), q_pca),
    "PCALocantore": ("pca", {"n_components": [1, 2], "k_min_var_explained": [0.8, 1.0, 0.3]}, lambda **k: PCALocantore(**k), q_pca),
    "RobustScaler": ("mat", {"with_centering": [True, False], "with_scaling": [True, False], "scale_estimator": [None, "Qn"]}, lambda scale_estimator=None, **k: RobustScaler(**({"scale_estimator": Qn()} if scale_estimator else {}), **k), q_tr),
    "RobustPowerTransformer": ("vec", {"method": ["yeojohnson", "auto"], "quantile": [0.99, 0.95], "nsteps": [2, 1], "standardize": [True, False], "lambda_range": [(-4.0, 6.0), (0.0, 1.0)]}, lambda **k: RobustPowerTransformer(**k), q_tr),
    "DDC": ("frame", {"chi2_quantile": [0.99, 0.9], "min_correlation": [0.5, 0.3]}, lambda **k: DDC(**k), q_ddc),
    "DataCleaner": ("messy", {"max_missing_frac_cols": [0.5, 0.2], "max_missing_frac_rows": [0.5, 0.2], "min_unique_values": [3, 5], "min_abs_scale": [1e-12, 0.5], "min_n_rows": [3, 5], "clean_na_first": ["automatic", "columns", "rows"]}, lambda **k: DataCleaner(**k), q_clean),
    "FastLTSRegression": ("reg", {"alpha": AL, "n_initial_subsets": [20, 40], "reweighting": [True, False], "random_state": [1, 2], "n_best_models": [10, 50, 1], "n_initial_c_steps": [2, 0], "tolerance": [1e-15, 1e-10]}, lambda **k: QuietLTS(**k), q_reg),
    "SRegression": ("reg", {"n_initial_subsets": [20, 30], "random_state": [1, 2], "max_scale_iterations": [2, 10], "n_best_subsets": [5, 50, 1], "n_initial_i_steps": [2, 0], "fit_intercept": [True, False]}, lambda **k: SRegression(**k), q_reg),
    "MMRegression": ("reg", {"max_iterations": [500, 2], "epsilon": [1e-7, 1e-4], "initial_estimator": ["s", "lts"]}, lambda initial_estimator="s", **k: MMRegression(SRegression(n_initial_subsets=20) if initial_estimator == "s" else QuietLTS(n_initial_subsets=20), **k), q_reg),
}
NAMES = sorted(REG)
DKIND = {n: REG[n][0] for n in NAMES}


def make(name, opt):
    """The estimator of that name whose settings are picked by the digits of opt (0: the first of each)."""
    _, par, f, _ = REG[name]
    kw = {}
    for k in sorted(par):
        v = par[k]
        kw[k] = v[opt % len(v)]
        opt //= len(v)
    return f(**kw)


def settings_of(name, opt):
    kw = {}
    for k in sorted(REG[name][1]):
        v = REG[name][1][k]
        kw[k] = v[opt % len(v)]
        opt //= len(v)
    return kw


def _some_infinite(rng, X):
    """turns some of the missing cells, the first column's excepted, into infinite ones"""
    inf = np.isnan(X) & (rng.random(X.shape) < 0.4)
    inf[:, 0] = False
    X[inf] = rng.choice([-np.inf, np.inf], inf.sum())


def data(kind, seed, n, p, integer=False):
    """(X, y) for an estimator of that kind; y is None unless it is a regression."""
    rng = np.random.default_rng(seed)
    p = max(p, 3 if kind == "pca" else 2)
    X = rng.standard_normal((n, p)) @ gen.mixing(rng, p).T + rng.uniform(-3, 3, p)
    m = n // 10
    X[rng.permutation(n)[:m]] += 12
    if integer:
        X = np.round(100 * X)
    y = None
    if kind == "vec":
        X = X[:, 0]
    elif kind == "reg":
        y = X @ np.arange(1, p + 1) + (20 if integer else 1) * rng.standard_normal(n)
        y[:m] += 30
        if integer:
            y = np.round(y)
    elif kind == "messy":
        X[rng.random((n, p)) < 0.15] = np.nan
        _some_infinite(rng, X)
        X = pd.DataFrame(X, columns=gen.names(p), index=[f"r{i}" for i in range(n)])
        if rng.random() < 0.5:
            X["const"] = 1.0
        if rng.random() < 0.5:
            X["txt"] = rng.choice(list("abc"), n)
    elif kind == "frame":
        gone = rng.random((n, p)) < 0.03
        gone[gone.all(axis=1)] = False
        X[gone] = np.nan
        _some_infinite(rng, X)
        X = pd.DataFrame(X, columns=gen.names(p), index=np.arange(n)[::-1] + 3)
    return X, y


def fit(e, X, y):
    if isinstance(e, CellMCD):  # refuses data with many marginal outliers, small samples of this kind included
        try:
            return e.fit(X)
        except ValueError as err:
            if "marginal" not in str(err):
                raise
            raise Skip("CellMCD refuses the data")
    return e.fit(X) if y is None else e.fit(X, y)


def norm_out(v):
    """Numeric content of an output (frames keep their labels)."""
    if isinstance(v, pd.DataFrame):
        return v.to_numpy(), (list(map(str, v.columns)), list(map(str, v.index)))
    if isinstance(v, pd.Series):
        return v.to_numpy(), None
    return np.asarray(v), None


def same(cx, got, want, tol, what):
    cx.check(sorted(got) == sorted(want), f"{what}: other outputs")
    for k in want:
        (a, la), (b, lb) = norm_out(got[k]), norm_out(want[k])
        cx.check(a.shape == b.shape and la == lb, f"{what}: {k} has another shape or other labels")
        if a.dtype == object or a.dtype == bool:
            cx.check(all((x == z) or (x != x and z != z) for x, z in zip(a.ravel(), b.ravel())), f"{what}: {k} differs")
        else:
            cx.close(a, b, tol, atol=tol if k in ("sd", "od", "score") else 0, what=f"{what}: {k}")


def snapshot(q, name):
    return {k: copy.deepcopy(v) for k, v in q.items()}


def query(name, e, X, y):
    return REG[name][3](e, X, y)


# ---------------------------------------------------------------------------------------------
# G01 inputs
FORMS = {"vec": ["array", "strided", "readonly", "int"], "mat": ["array", "fortran", "strided", "readonly", "int", "frame", "mixedframe", "list"], "reg": ["array", "fortran", "strided", "readonly", "int", "frame", "mixedframe"], "pca": ["array", "fortran", "strided", "readonly", "int"],
         "frame": ["array", "intframe", "labels"], "messy": ["array", "labels"]}


def wrap(form, X, y):
    """The same numbers in another container."""
    X, y = X.copy(), y if y is None else y.copy()
    if form == "fortran":
        X = np.asfortranarray(X)
    elif form == "strided":
        big = np.full((2 * X.shape[0],) + tuple(2 * s for s in X.shape[1:]), 77.0)
        sl = tuple(slice(None, None, 2) for _ in X.shape)
        big[sl] = X
        X = big[sl]
        if y is not None:
            b2 = np.full(2 * len(y), 77.0)
            b2[::-2] = y
            y = b2[::-2]
    elif form == "readonly":
        X = X.copy()
        X.flags.writeable = False
        if y is not None:
            y = y.copy()
            y.flags.writeable = False
    elif form == "int":
        X = X.astype(np.int64)
        y = y if y is None else y.astype(np.int64)
    elif form in ("frame", "mixedframe"):
        idx = np.arange(len(X))[::-1] * 3
        X = pd.DataFrame(X, columns=gen.names(X.shape[1]), index=idx)
        if form == "mixedframe":
            X[X.columns[0]] = X[X.columns[0]].astype(int)
        y = y if y is None else pd.Series(y, index=idx)
    elif form == "list":
        X = X.tolist()
    elif form == "intframe":
        X = X.copy()
        if not X[gen.names(1)[0]].isna().any():
            X[gen.names(1)[0]] = X[gen.names(1)[0]].astype(int)
    elif form == "labels":
        X = X.copy()
        X.index = pd.MultiIndex.from_arrays([np.arange(len(X)) // 4, np.arange(len(X)) % 4])
    return X, y


def bytes_of(v):
    if v is None:
        return None
    if isinstance(v, pd.DataFrame):
        return pickle.dumps((list(v.columns), list(v.index), [str(t) for t in v.dtypes], [v.iloc[:, j].tolist() for j in range(v.shape[1])])).hex()
    if isinstance(v, pd.Series):
        return repr((list(v.index), str(v.dtype), v.tolist()))
    if isinstance(v, list):
        return repr(v)
    return (str(v.dtype), v.shape, v.tobytes())


def plain(v):
    return v


@law("G01", FD({"est": st.sampled_from(NAMES), "form": st.integers(0, 7), "opt": st.integers(0, 2000), "n": N, "p": st.integers(2, 4), "seed": gen.SEED}), quick=2400,
     rule="estimator x settings x container (C or Fortran order, strided or read-only, integers, frames with mixed types or odd labels); fit and every query; then outputs and inputs are overwritten")
def inputs_untouched(c, cx):
    name, kind = c["est"], DKIND[c["est"]]
    form = FORMS[kind][c["form"] % len(FORMS[kind])]
    if form == "list" and name not in ("OGK", "KendallTau", "WrappingCovariance", "FastMCD", "DetMCD"):
        form = "array"
    X0, y0 = data(kind, c["seed"], c["n"], c["p"], form in ("int", "mixedframe"))
    if form == "intframe" and not X0[gen.names(1)[0]].isna().any():
        X0[gen.names(1)[0]] = np.round(X0[gen.names(1)[0]] * 1000)
    ref = fit(make(name, c["opt"]), X0.copy(), None if y0 is None else y0.copy())
    Xq = X0.copy()
    want = snapshot(query(name, ref, Xq, y0), name)
    X, y = wrap(form, X0, y0)
    before = bytes_of(X), bytes_of(y)
    e = make(name, c["opt"])
    out = fit(e, X, y)
    cx.ran = True
    cx.label(name, form)
    cx.check(out is e, "fit does not return the estimator")
    cx.check((bytes_of(X), bytes_of(y)) == before, f"fit changes the caller's data ({form})")
    if kind in ("frame", "messy") and form == "labels":
        want = {k: (v.set_axis(X.index[[list(X0.index).index(i) for i in v.index]]) if isinstance(v, pd.DataFrame) else v) for k, v in want.items()}
    XQ = X if not isinstance(X, list) else X0
    got = query(name, e, XQ, y)
    cx.check((bytes_of(X), bytes_of(y)) == before, f"a query changes the caller's data ({form})")
    tol = 1e-6 if name in ("CellMCD", "MMRegression", "RobustPowerTransformer", "PCALocantore", "ROBPCA") else 1e-8
    got0 = {k: (v.to_numpy() if isinstance(v, (pd.DataFrame, pd.Series)) and not isinstance(want[k], pd.DataFrame) else v) for k, v in got.items()}
    same(cx, got0, want, tol, f"results for the {form} container and for a plain one")
    again = query(name, e, XQ, y)
    same(cx, again, snapshot(got, name), 1e-12, "asking a second time")
    # overwriting what was returned, or the data the caller passed, does not reach into the model
    X1, y1 = data(kind, c["seed"], c["n"], c["p"], form in ("int", "mixedframe"))
    if form == "intframe" and not X1[gen.names(1)[0]].isna().any():
        X1[gen.names(1)[0]] = np.round(X1[gen.names(1)[0]] * 1000)
    fresh = wrap(form, X1, y1)
    XF = fresh[0] if not isinstance(fresh[0], list) else X1
    attr = {"location_", "covariance_", "covariance", "explained_variance_", "imputed", "residuals", "predictions", "cell0", "res0", "pred0", "precision"}
    if name == "CellMCD":
        attr = set(again)
    for k, v in again.items():
        if k in attr:
            continue  # attributes are the model's own arrays
        if isinstance(v, pd.DataFrame):
            v.iloc[:, :] = 0
        elif isinstance(v, np.ndarray) and v.ndim and v.flags.writeable:
            v[...] = 0
    if not isinstance(X, list):
        for v in (X, y):
            if isinstance(v, np.ndarray) and v.flags.writeable:
                v[...] = 7
            elif isinstance(v, pd.Series):
                v.iloc[:] = 7
            elif isinstance(v, pd.DataFrame):
                for j in range(v.shape[1]):
                    if v.dtypes.iloc[j] != object:
                        v.iloc[:, j] = 7
    third = query(name, e, XF, fresh[1])
    third0 = {k: (v.to_numpy() if isinstance(v, (pd.DataFrame, pd.Series)) and not isinstance(want[k], pd.DataFrame) else v) for k, v in third.items()}
    same(cx, third0, want, tol, "after overwriting outputs and training data")


FUN = {"wrapping": lambda X: wrapping_transformation(X), "wrapping_plain": lambda X: wrapping_transformation(X, rescale=False), "l1median": lambda X: l1median(X), "stahel_donoho": lambda X: stahel_donoho(X, random_seed=3)}


@law("G01", FD({"f": st.sampled_from(sorted(FUN)), "form": st.sampled_from(["array", "fortran", "strided", "readonly"]), "n": st.integers(12, 40), "p": st.integers(2, 5), "seed": gen.SEED}), quick=160, rule="function x array layout")
def functions_leave_input(c, cx):
    X0, _ = data("mat", c["seed"], c["n"], c["p"])
    want = np.array(FUN[c["f"]](X0.copy()))
    X, _ = wrap(c["form"], X0, None)
    got = FUN[c["f"]](X)
    cx.ran = True
    cx.label(c["f"], c["form"])
    cx.check(np.array_equal(X, X0), "the function changes its input")
    cx.close(got, want, 1e-9, what="result")
    got = np.asarray(got)
    if got.flags.writeable:
        got[...] = 0
    cx.check(np.array_equal(X, X0), "the result shares memory with the input")


# ---------------------------------------------------------------------------------------------
# G02 histories
OPS = ["fit", "fit", "query", "clone", "deepcopy", "pickle", "noise", "refuse", "set", "reuse"]


@law("G02", FD({"kinds": st.lists(st.sampled_from(NAMES), min_size=1, max_size=3), "opts": st.lists(st.integers(0, 2000), min_size=3, max_size=3), "seed": gen.SEED, "n": st.integers(20, 32),
                "ops": st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 2), st.integers(0, 3)).map(list), min_size=3, max_size=10)}), quick=1600,
     rule="histories of fits, refits on data of another size, queries, clones, copies, pickles, rejected fits and use of numpy's global generator on up to three estimators")
def estimator_histories(c, cx):
    slots = []
    for i, nm in enumerate(c["kinds"]):
        slots.append({"name": nm, "opt": c["opts"][i], "est": make(nm, c["opts"][i]), "fit": None})
    cache = {}

    def dataset(kind, k):
        return data(kind, c["seed"] + k, c["n"] + 3 * (k % 2), 2 + k % 3)

    def expected(name, opt, k):
        if (name, opt, k) not in cache:
            X, y = dataset(DKIND[name], k)
            cache[name, opt, k] = snapshot(query(name, fit(make(name, opt), X, y), X, y), name)
        return cache[name, opt, k]

    interesting = 0
    for op, i, k in c["ops"]:
        s = slots[i % len(slots)]
        kind = DKIND[s["name"]]
        if op == "fit":
            X, y = dataset(kind, k)
            fit(s["est"], X, y)
            interesting += s["fit"] is not None
            s["fit"] = k
        elif op == "reuse":  # the caller fills the same array or frame with new data and fits again
            X, y = dataset(kind, k)
            Z, z = data(kind, c["seed"] + 50 + k, c["n"] + 3 * (k % 2), 2 + k % 3)
            if np.shape(Z) != np.shape(X):
                continue
            fit(s["est"], Z, z)
            if isinstance(Z, pd.DataFrame):
                for col in range(Z.shape[1]):
                    Z[Z.columns[col]] = X.iloc[:, col].to_numpy()
                Z.index, Z.columns = X.index, X.columns
            else:
                Z[...] = X
            if y is not None:
                z[...] = y
            fit(s["est"], Z, z)
            interesting += 1
            s["fit"] = k
        elif op == "clone" and isinstance(s["est"], BaseEstimator):
            s["est"] = clone(s["est"])
            s["fit"] = None
        elif op == "deepcopy":
            old, s["est"] = s["est"], copy.deepcopy(s["est"])
            X, y = dataset(kind, 3 - k)
            fit(old, X, y)  # refitting the original does not change the copy
        elif op == "pickle":
            s["est"] = pickle.loads(pickle.dumps(s["est"]))
        elif op == "noise":
            np.random.seed(k + 5)
            np.random.standard_normal(17)
            other = make(s["name"], s["opt"] + 1)
            X, y = dataset(kind, 3 - k)
            fit(other, X, y)
        elif op == "refuse":
            X, y = dataset(kind, k)
            bad = X[:, None] if kind == "vec" else "nothing" if kind in ("frame", "messy") else np.full_like(X, np.nan)
            if s["name"] in ("CellMCD", "InitialDDCW", "DataCleaner", "RobustScaler", "RobustPowerTransformer") or kind == "reg":
                continue
            try:
                fit(s["est"], bad, y)
                s["fit"] = None
                s["est"] = make(s["name"], s["opt"])
            except Skip:
                raise
            except Exception:
                if s["fit"] is None:
                    s["est"] = make(s["name"], s["opt"])
                elif kind != "vec":
                    X, y = dataset(kind, s["fit"])
                    fit(s["est"], X, y)
        elif op == "set" and isinstance(s["est"], BaseEstimator) and s["name"] not in ("RobustScaler", "MMRegression"):
            s["opt"] = s["opt"] + k
            s["est"].set_params(**settings_of(s["name"], s["opt"]))
            s["fit"] = None
        for t in slots if op == "query" else [s]:
            if t["fit"] is None:
                continue
            X, y = dataset(DKIND[t["name"]], t["fit"])
            same(cx, query(t["name"], t["est"], X, y), expected(t["name"], t["opt"], t["fit"]), 1e-10, f"{t['name']} after this history and a fresh one")
    cx.ran = True
    cx.label(*c["kinds"])
    if not interesting and all(o[0] == "fit" for o in c["ops"]):
        cx.mark_trivial()


FEW = {
    "lts": (lambda a, s: QuietLTS(n_initial_subsets=a, n_best_models=1, random_state=s), lambda e, X, y: (e.predict(X), e.scale)),
    "s": (lambda a, s: SRegression(n_initial_subsets=a, n_best_subsets=1, random_state=s), lambda e, X, y: (e.predict(X), e.scale)),
    "mm": (lambda a, s: MMRegression(SRegression(n_initial_subsets=a, n_best_subsets=1, random_state=s)), lambda e, X, y: (e.predict(X), e.scale)),
    "mcd": (lambda a, s: FastMCD(n_initial_subsets=a, n_best_subsets=1, random_seed=s), lambda e, X, y: (e.location_, e.covariance_)),
    "robpca": (lambda a, s: ROBPCA(n_components=1, alpha=0.5, random_seed=s), lambda e, X, y: (e.location_, e.components_)),
}


@law("G02", FD({"k": st.sampled_from(sorted(FEW)), "a": st.integers(1, 3), "s": st.integers(0, 99), "n": st.integers(18, 30), "p": st.integers(2, 3), "seed": gen.SEED, "m": st.integers(1, 3)}), quick=800,
     rule="estimators with very few random starts, on data with several local optima, refitted on other data of the same or another size: nothing of the earlier search may survive")
def few_starts_refitted(c, cx):
    rng = np.random.default_rng(c["seed"])
    mk, ask = FEW[c["k"]]
    n, p = c["n"], c["p"]

    def hard(n):
        X = rng.standard_normal((n, p))
        y = rng.standard_normal(n)
        y[: n // 3] += 5 * X[: n // 3, 0]
        X[n // 3 : n // 2] *= 3
        return X, y

    e = mk(c["a"], c["s"])
    for k in range(c["m"]):
        A, b = hard(n + 4 * (k % 2))
        e.fit(A, b) if c["k"] in ("lts", "s", "mm") else e.fit(A)
    X, y = hard(n)
    f = mk(c["a"], c["s"])
    for g in (e, f):
        g.fit(X, y) if c["k"] in ("lts", "s", "mm") else g.fit(X)
    cx.ran = True
    cx.label(c["k"], f"{c['a']} starts")
    for u, v in zip(ask(e, X, y), ask(f, X, y)):
        cx.close(np.asarray(u), np.asarray(v), 1e-10, atol=1e-10, what=f"{c['k']} refitted and fresh")


# ---------------------------------------------------------------------------------------------
# G03 unfitted use and refused input
UNFITTED = {
    "uni": (lambda o: [Qn, UnivariateMCD, Tau, HuberOneStepM, CellwiseOneStepM, OneStepWrapping][o % 6](), lambda e, X: [lambda: e.scale, lambda: e.location], NotFittedError),
    "cov": (lambda o: [FastMCD, DetMCD, OGK, KendallTau, WrappingCovariance, CellMCD][o % 6](), lambda e, X: [lambda: e.covariance, lambda: e.distance_distance_plot()], NotFittedError),
    "reg": (lambda o: [FastLTSRegression, SRegression, MMRegression][o % 3](), lambda e, X: [lambda: e.predict(X), lambda: e.scale], NotFittedError),
    "cleaner": (lambda o: DataCleaner(), lambda e, X: [lambda: e.dropped_columns, lambda: e.dropped_rows], NotFittedError),
    "ddc": (lambda o: DDC(), lambda e, X: [lambda: e.predict(pd.DataFrame(X)), lambda: e.predict(pd.DataFrame(X), rowwise=True), lambda: e.impute(pd.DataFrame(X)), lambda: e.cellmap(pd.DataFrame(X))], ValueError),
    "cell": (lambda o: CellMCD(), lambda e, X: [lambda: e.cell_MD_plot(variable=0)] if hasattr(e, "cell_MD_plot") else [], NotFittedError),
}


@law("G03", FD({"k": st.sampled_from(sorted(UNFITTED)), "o": st.integers(0, 11), "cl": BOOL, "seed": gen.SEED, "n": st.integers(20, 30), "p": st.integers(2, 4)}), quick=160,
     rule="estimator (new, or cloned from a fitted one) x every query")
def unfitted_use(c, cx):
    mk, qs, exc = UNFITTED[c["k"]]
    e = mk(c["o"])
    X = np.random.default_rng(c["seed"]).standard_normal((c["n"], c["p"]))
    if c["cl"] and isinstance(e, BaseEstimator):
        if c["k"] == "reg":
            if isinstance(e, (SRegression, FastLTSRegression)):
                e.set_params(**({"n_initial_subsets": 10}))
            else:
                e.set_params(initial_estimator=SRegression(n_initial_subsets=10))
            if isinstance(e, FastLTSRegression):
                e.fit(X, X[:, 0] + 1, verbosity=50)
            else:
                e.fit(X, X[:, 0] + np.random.default_rng(1).standard_normal(c["n"]))
        else:
            try:
                e.fit(pd.DataFrame(X) if c["k"] == "cleaner" else X)
            except ValueError:
                if c["k"] != "cell":
                    raise
                cx.skip("too many marginal outliers for CellMCD")
        e = clone(e)
    cx.ran = True
    cx.label(type(e).__name__, "clone of a fitted one" if c["cl"] else "new")
    for f in qs(e, X):
        cx.raises(exc, f, f"query on an unfitted {type(e).__name__}")


@law("G03", FD({"what": st.sampled_from(["lts_alpha", "robpca_alpha", "cov_nan", "cov_1d", "uni_2d", "uni_nan", "ddc_text", "ddc_flat", "ddc_width", "cov_width", "reg_nan", "pca_nan", "scaler_nan", "power_nan"]), "o": st.integers(0, 11), "a": st.one_of(st.sampled_from([0.49, 0.45, 0.4, 0.3, 0.2, 0.1, 0.0, 1.01, 1.2, 1.5]), st.floats(-1, 0.499), st.floats(1.001, 5)), "seed": gen.SEED, "n": st.one_of(*[st.integers(15, 30)] * 3, st.integers(100, 200)), "p": st.integers(2, 4), "i": st.integers(0, 1000), "j": st.integers(0, 9)}), quick=1200,
     rule="unsupported coverage, missing cells, wrong dimensions or types x estimator x position")
def refused_input(c, cx):
    w, rng = c["what"], np.random.default_rng(c["seed"])
    n, p = c["n"], c["p"]
    X = rng.standard_normal((n, p))
    i, j = c["i"] % n, c["j"] % p
    cx.label(w)
    cov = [FastMCD, DetMCD, OGK, KendallTau, WrappingCovariance][c["o"] % 5]()
    uni = [Qn, UnivariateMCD, Tau, HuberOneStepM, CellwiseOneStepM, OneStepWrapping][c["o"] % 6]()
    D = pd.DataFrame(X, columns=gen.names(p))
    if w == "lts_alpha":
        cx.raises(ValueError, lambda: QuietLTS(alpha=c["a"]).fit(X, X[:, 0] + rng.standard_normal(n)), f"LTS with alpha={c['a']}")
    elif w == "robpca_alpha":
        cx.raises(ValueError, lambda: ROBPCA(alpha=c["a"], n_components=[None, 1, 2][c["o"] % 3]).fit(X), f"ROBPCA with alpha={c['a']}")
    elif w == "cov_nan":
        X[i, j] = [np.nan, np.inf, -np.inf][c["o"] % 3]
        cx.raises(ValueError, lambda: cov.fit(X if c["i"] % 2 else pd.DataFrame(X)), f"{type(cov).__name__} with a cell {X[i, j]}")
    elif w == "cov_1d":
        cx.raises(ValueError, lambda: cov.fit(X[:, 0]), f"{type(cov).__name__} with one-dimensional data")
    elif w == "uni_2d":
        cx.raises(ValueError, lambda: uni.fit([X, X[:, :1], X[:, :, None]][c["i"] % 3]), f"{type(uni).__name__} with a matrix")
    elif w == "uni_nan":
        x = X[:, 0].copy()
        x[i] = np.nan
        cx.raises(ValueError, lambda: uni.fit(x), f"{type(uni).__name__} with a missing value")
        e = uni.fit(x, ignore_nan=True)
        f = type(uni)().fit(x[~np.isnan(x)])
        cx.check(e.scale == f.scale and e.location == f.location, "ignoring a missing value is not the same as leaving it out")
    elif w == "ddc_text":
        D[f"v{j}"] = rng.choice(list("abcdef"), n)
        cx.raises(ValueError, lambda: DDC().fit(D), "DDC with a text column")
    elif w == "ddc_flat":
        D[f"v{j}"] = rng.choice([0.0, 1.0, 2.0][: 1 + c["o"] % 3], n)
        cx.raises(ValueError, lambda: DDC().fit(D), "DDC with a column of at most three values")
    elif w == "ddc_width":
        d = DDC().fit(D)
        E = pd.concat([D, D.iloc[:, :1].set_axis(["extra"], axis=1)], axis=1) if c["o"] % 2 else D.iloc[:, :-1]
        cx.raises(ValueError, lambda: d.predict(E), "DDC.predict with another number of columns")
        cx.raises(ValueError, lambda: d.impute(E), "DDC.impute with another number of columns")
    elif w == "reg_nan":
        y = X @ np.ones(p) + rng.standard_normal(n)
        v = [np.nan, np.inf][c["o"] % 2] if c["i"] % 2 else np.nan
        if c["i"] % 2:
            X[i, j] = v
        else:
            y[i] = v
        e = [QuietLTS(n_initial_subsets=10), SRegression(n_initial_subsets=10), MMRegression(SRegression(n_initial_subsets=10))][c["o"] % 3]
        cx.raises((ValueError, MissingDataError), lambda: e.fit(X, y), f"{type(e).__name__} with a value {v}")
    elif w == "pca_nan":
        X[i, j] = [np.nan, np.inf][c["o"] % 2]
        e = [ROBPCA(n_components=1), PCALocantore(n_components=1)][c["j"] % 2]
        cx.raises(ValueError, lambda: e.fit(X), f"{type(e).__name__} with a cell {X[i, j]}")
    elif w == "power_nan":
        x = np.exp(X[:, 0])
        x[i] = np.nan
        cx.raises(ValueError, lambda: RobustPowerTransformer(method=["yeojohnson", "boxcox", "auto"][c["o"] % 3], standardize=bool(c["j"] % 2)).fit(x), "RobustPowerTransformer with a missing value")
    elif w == "scaler_nan":
        X[i, j] = np.nan
        cx.raises(ValueError, lambda: RobustScaler(scale_estimator=uni).fit(X), "RobustScaler with a missing cell")
        e = RobustScaler(scale_estimator=uni).fit(X, ignore_nan=True)
        k = type(uni)().fit(np.delete(X[:, j], i))
        cx.check(e.locations_[j] == k.location and e.scales_[j] == k.scale, "ignoring a missing cell is not the same as leaving it out of its column")
    else:
        e = cov.fit(X) if c["o"] % 5 else FastMCD(n_initial_subsets=20).fit(X)
        cx.raises(ValueError, lambda: e.mahalanobis(np.c_[X, X[:, 0]]), "Mahalanobis distances of rows of another width")


# ---------------------------------------------------------------------------------------------
# G04 parameters
@law("G04", FD({"est": st.sampled_from([n for n in NAMES if DKIND[n] != "vec" and n != "DDC"]), "opt": st.integers(0, 2000), "opt2": st.integers(0, 2000), "seed": gen.SEED, "n": st.one_of(*[st.integers(20, 32)] * 9, st.integers(100, 130)), "p": st.integers(2, 4)}), quick=1000,
     rule="estimator x settings given to the constructor or set later")
def parameters_protocol(c, cx):
    name = c["est"]
    kind = DKIND[name]
    X, y = data(kind, c["seed"], c["n"], c["p"])
    kw = settings_of(name, c["opt"])
    e = make(name, c["opt"])
    par = e.get_params(deep=False)
    cx.ran = True
    cx.label(name)
    for k, v in kw.items():
        if not (name == "MMRegression" and k == "initial_estimator") and k != "scale_estimator":
            cx.check(k in par and par[k] == v, f"get_params: {k} is {par.get(k)!r}, constructed with {v!r}")
    before = {k: repr(v) for k, v in e.get_params(deep=True).items() if v is None or isinstance(v, (bool, int, float, str, tuple))}
    fit(e, X, y)
    want = snapshot(query(name, e, X, y), name)
    after = {k: repr(v) for k, v in e.get_params(deep=True).items() if k in before}
    cx.check(before == after, f"fitting changes the settings: {[(k, before[k], after.get(k)) for k in before if before[k] != after.get(k)]}")
    f = clone(e)
    cx.check(type(f) is type(e) and {k: repr(v) for k, v in f.get_params(deep=True).items() if k in before} == before, "the clone has other settings")
    same(cx, query(name, fit(f, X, y), X, y), want, 1e-10, "results of the clone")
    if name not in ("RobustScaler", "MMRegression"):
        g = make(name, c["opt2"])
        fit(g, X, y)
        g.set_params(**kw)
        same(cx, query(name, fit(g, X, y), X, y), want, 1e-10, "results after set_params")


def draws(k, d, pick):
    """A value for a constructor parameter, of the kind of its default."""
    if isinstance(d, bool):
        return bool(pick % 2)
    if k == "verbosity":
        return [10, 20, 30, 40, 50][pick % 5]
    if isinstance(d, int):
        return [0, 1, 2, 3, 7, 10, 33, 500, 10**6][pick % 9]
    if isinstance(d, float):
        return [0.0, 1e-20, 1e-9, 0.1, 0.25, 0.5, 0.501, 0.75, 0.999, 0.99999, 1.0, 1.5, 4.0, 60.0][pick % 14]
    if isinstance(d, tuple):
        return [(-4.0, 6.0), (0.0, 1.0), (-20.0, 3.0)][pick % 3]
    if k == "method":
        return ["boxcox", "yeojohnson", "auto"][pick % 3]
    if k == "clean_na_first":
        return ["automatic", "columns", "rows"][pick % 3]
    if k == "alpha":
        return [None, 0.5, 0.75, 1, 17, 0.5000001][pick % 6]
    if d is None:
        return [None, 0, 1, 2, 5, 12][pick % 6]
    return d


@law("G04", FD({"est": st.sampled_from(["FastMCD", "DetMCD", "OGK", "KendallTau", "WrappingCovariance", "CellMCD", "InitialDDCW", "ROBPCA", "PCALocantore", "RobustScaler", "RobustPowerTransformer", "DataCleaner", "FastLTSRegression", "SRegression", "MMRegression"]), "picks": st.lists(st.integers(0, 10**6), min_size=14, max_size=14), "later": BOOL}), quick=800,
     rule="estimator x any value of every constructor parameter: reported as given, also when set later or cloned")
def settings_reported(c, cx):
    cls = globals()[c["est"]]
    par = {k: v.default for k, v in inspect.signature(cls.__init__).parameters.items() if k != "self" and v.default is not inspect.Parameter.empty}
    kw = {k: draws(k, d, c["picks"][i % 14] + i) for i, (k, d) in enumerate(par.items())}
    if cls is CellMCD or cls is InitialDDCW:  # these refuse some values at once
        kw.update({k: v for k, v in {"alpha": 0.5 + (kw["alpha"] % 0.5), "min_eigenvalue": max(kw["min_eigenvalue"], 1e-6)}.items() if k in kw})
    e = cls().set_params(**kw) if c["later"] else cls(**kw)
    cx.ran = True
    cx.label(c["est"], "set_params" if c["later"] else "constructor")
    for what, f in (("", e), (" of a clone", clone(e))):
        got = f.get_params(deep=False)
        for k, v in kw.items():
            cx.check(k in got and type(got[k]) is type(v) and (got[k] == v if isinstance(v, (bool, int, float, str, tuple, type(None))) else True), f"{c['est']}: {k}{what} is {got.get(k)!r}, given as {v!r}")


@law("G04", FD({"reg": st.sampled_from(["FastLTSRegression", "SRegression", "MMRegression"]), "opt": st.integers(0, 2000), "seed": gen.SEED, "n": st.integers(40, 60), "p": st.integers(2, 3), "sc": BOOL, "cv": st.sampled_from([2, 3])}), quick=64,
     rule="pipelines of scalers and regression; cross-validation and grid search against fitting the parts by hand")
def pipelines(c, cx):
    X, y = data("reg", c["seed"], c["n"], c["p"])
    mk = lambda: make(c["reg"], c["opt"])
    pre = lambda: [RobustScaler(), RobustScaler(scale_estimator=Qn(), with_centering=False)] if c["sc"] else [RobustScaler(scale_estimator=Qn())]
    pipe = make_pipeline(*pre(), mk()).fit(X, y)
    Z, W = X, X[::3] * 1.1
    for t in pre():
        cx.close(clone(t).fit_transform(Z), clone(t).fit(Z).transform(Z), 1e-12, what="fit_transform and fit, transform")
        t.fit(Z)
        Z, W = t.transform(Z), t.transform(W)
    e = mk().fit(Z, y)
    cx.ran = True
    cx.label(c["reg"])
    cx.close(np.ravel(pipe.predict(X[::3] * 1.1)), np.ravel(e.predict(W)), 1e-8, what="pipeline predictions")
    # cross-validation: every fold is predicted by a model of the other folds
    n = len(y)
    cuts = np.array_split(np.arange(n), c["cv"])
    pred = np.ravel(cross_val_predict(mk(), X, y, cv=c["cv"]))
    for k in cuts:
        tr = np.setdiff1d(np.arange(n), k)
        cx.close(pred[k], np.ravel(mk().fit(X[tr], y[tr]).predict(X[k])), 1e-9, what="cross-validated predictions")
    par, vals = {"FastLTSRegression": ("alpha", [0.6, 0.9]), "SRegression": ("max_scale_iterations", [1, 5]), "MMRegression": ("max_iterations", [1, 50])}[c["reg"]]
    g = GridSearchCV(mk(), {par: vals}, cv=c["cv"]).fit(X, y)
    for v, s in zip(vals, g.cv_results_["mean_test_score"]):
        sc = []
        for k in cuts:
            tr = np.setdiff1d(np.arange(n), k)
            f = np.ravel(mk().set_params(**{par: v}).fit(X[tr], y[tr]).predict(X[k]))
            sc.append(1 - np.sum((y[k] - f) ** 2) / np.sum((y[k] - y[k].mean()) ** 2))
        cx.close(s, np.mean(sc), 1e-8, atol=1e-9, what=f"grid search score for {par}={v}")


# ---------------------------------------------------------------------------------------------
# G05 data sets
SETS = {"telephone": (24, ["Year", "Calls"]), "stars": (47, ["Te", "light"]), "animals": (28, ["body", "brain"]), "topgear": (297, None), "glass": (180, [f"V{i}" for i in range(1, 751)])}
KNOWN = {"telephone": [(0, "Year", 50.0), (23, "Year", 73.0), (0, "Calls", 0.44), (14, "Calls", 11.9), (19, "Calls", 21.2), (20, "Calls", 4.3)],
         "stars": [(0, "Te", 4.37), (0, "light", 5.23), (10, "Te", 3.49), (10, "light", 5.73), (46, "Te", 4.42), (46, "light", 4.50)],
         "animals": [(0, "body", 1.35), (0, "brain", 8.1), (5, "body", 11700.0), (5, "brain", 50.0), (25, "body", 87000.0), (25, "brain", 154.5)]}


def texts(name):
    with open(RDB.DATA_FOLDER / f"{name}.csv", newline="", encoding="utf-8") as f:
        return list(csv.reader(f))


def load(name, frame):
    f = getattr(RD, f"load_{name}")
    return f() if frame is None else f(as_frame=frame)


@law("G05", FD({"ops": st.lists(st.tuples(st.sampled_from(["telephone", "stars", "animals", "topgear", "glass"]), st.sampled_from([None, False, True]), BOOL).map(list), min_size=1, max_size=4), "i": st.integers(0, 10**6), "j": st.integers(0, 10**6)}), quick=160,
     rule="sequences of loads as array or frame, overwriting what was loaded before; a random cell against the file")
def bundled_data(c, cx):
    for name, frame, spoil in c["ops"]:
        b = load(name, frame)
        cx.ran = True
        cx.label(name, "frame" if frame else "array")
        n, names = SETS[name]
        raw = pd.read_csv(RDB.DATA_FOLDER / f"{name}.csv")
        names = names or list(b.feature_names)
        cx.check(list(b.feature_names) == names, "feature_names")
        cx.check(b.filename == f"{name}.csv" and (b.data_folder / b.filename).exists(), "filename")
        cx.check(b.DESCR == open(RDB.DESCR_FOLDER / f"{name}.rst").read() and len(b.DESCR) > 50, "DESCR")
        cx.check(isinstance(b.data, pd.DataFrame) == bool(frame), f"as_frame={frame} gives {type(b.data).__name__}")
        cx.check(b.data.shape == (n, len(names)), f"shape {b.data.shape}")
        if frame:
            cx.check(list(b.data.columns) == names, "columns")
        A = b.data.to_numpy() if frame else b.data
        i, j = c["i"] % n, c["j"] % len(names)
        W = raw[names].to_numpy()
        bad = [(a, k) for a, k in zip(*np.nonzero(A != W)) if not (A[a, k] != A[a, k] and W[a, k] != W[a, k])]
        cx.check(not bad, lambda: f"cell ({bad[0][0]}, {names[bad[0][1]]}) is {A[bad[0]]!r}, the file has {W[bad[0]]!r}")
        w = texts(name)[1 + i][texts(name)[0].index(names[j])]  # and one cell against the text of the file
        cx.check(str(A[i, j]) == w or (w in ("", "NA") and A[i, j] != A[i, j]) or abs(float(w) - A[i, j]) <= 1e-11 * abs(A[i, j]), f"cell ({i}, {names[j]}) is {A[i, j]!r}, the file has {w!r}")
        for r, k, v in KNOWN.get(name, []):
            cx.check(abs(float(A[r, names.index(k)]) - v) < 1e-9, f"{name} ({r}, {k}) is {A[r, names.index(k)]}, published value {v}")
        if name == "topgear":
            cat = b.categorical_features
            cx.check(len(names) == 32 and set(cat) <= set(names), "categorical features are features")
            f = load(name, True).data
            cx.check(set(f.select_dtypes(include=object).columns) - {"Verdict"} <= set(cat), "a text column is not among the categorical features")
        if spoil:
            if frame:
                b.data.iloc[:, :] = None if name == "topgear" else 0
            else:
                b.data[...] = 0
            b.feature_names.clear()
            if name == "topgear":
                b.categorical_features.clear()


@law("G05", FD({"cols": st.lists(st.text(alphabet="abcXYZ_ 1", min_size=1, max_size=5).filter(lambda s: s.strip() == s), min_size=1, max_size=5, unique=True), "pick": st.permutations(range(5)), "k": st.integers(1, 5), "n": st.integers(1, 8), "frame": BOOL, "seed": gen.SEED, "descr": st.text(alphabet="ab\n:=é", max_size=20)}), quick=240,
     rule="generated files with any columns; any selection in any order")
def data_files(c, cx):
    import pathlib, shutil, tempfile

    cols = c["cols"]
    pick = [cols[i] for i in c["pick"] if i < len(cols)][: c["k"]]
    rng = np.random.default_rng(c["seed"])
    A = rng.standard_normal((c["n"], len(cols))) * 10.0 ** rng.integers(-8, 9, len(cols))
    if c["seed"] % 2:
        A = np.round(A, 3)
    d = pathlib.Path(tempfile.mkdtemp())
    old = RDB.DATA_FOLDER, RDB.DESCR_FOLDER
    try:
        with open(d / "f.csv", "w") as f:
            f.write(",".join(cols) + "\n" + "\n".join(",".join(repr(float(v)) for v in r) for r in A) + "\n")
        (d / "f.rst").write_text(c["descr"])
        RDB.DATA_FOLDER = RDB.DESCR_FOLDER = d
        if not hasattr(RDB, "_load_data_and_descr"):
            cx.skip("no such reader")
        got, text = RDB._load_data_and_descr("f.csv", "f.rst", c["frame"], pick)
    finally:
        RDB.DATA_FOLDER, RDB.DESCR_FOLDER = old
        shutil.rmtree(d)
    cx.ran = True
    cx.check(text == c["descr"], "description")
    cx.check(isinstance(got, pd.DataFrame) == c["frame"], "container")
    want = A[:, [cols.index(k) for k in pick]]
    if c["frame"]:
        cx.check(list(got.columns) == pick, f"columns {list(got.columns)}, asked for {pick}")
    cx.check(np.asarray(got).shape == want.shape and np.all(np.abs(np.asarray(got, dtype=float) - want) <= 1e-11 * np.abs(want)), "selected columns differ from the file")


# ---------------------------------------------------------------------------------------------
# G06 reports and pictures
VERB = {"FastMCD": "init", "DetMCD": "init", "CellMCD": "init", "InitialDDCW": "init", "ROBPCA": "init", "FastLTSRegression": "fit", "SRegression": "fit", "DDC": "verbose"}


@law("G06", FD({"name": st.sampled_from(sorted(VERB)), "opt": st.integers(0, 2000), "level": st.sampled_from([10, 20, 30, 50]), "seed": gen.SEED, "n": st.integers(30, 60), "p": st.integers(2, 12)}), quick=200,
     rule="estimator x settings x level of reporting: the results are those of a silent fit")
def reports_change_nothing(c, cx):
    import contextlib, io

    name = c["name"]
    kind, _, f, q = REG[name]
    p = c["p"] if name == "DDC" else min(c["p"], 4)
    X, y = data(kind, c["seed"], max(c["n"], 6 * p), p)
    want = q(fit(make(name, c["opt"]), X, y), X, y)
    cx.label(name, f"level {c['level']}", "p>=10" if p >= 10 else "p<10")
    kw = settings_of(name, c["opt"])
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        if VERB[name] == "init":
            e = fit(f(verbosity=c["level"], **kw), X, y)
        elif VERB[name] == "verbose":
            e = f(**kw).fit(X, verbose=c["level"] < 30)
        else:
            e = f(**kw).fit(X, y, verbosity=c["level"])
        got = q(e, X, y)
    cx.ran = True
    same(cx, got, want, 0, f"{name} reporting at level {c['level']}")


def numbers(e):
    """The numeric arrays and frames an estimator holds."""
    d = {k: (v.to_numpy() if isinstance(v, (pd.DataFrame, pd.Series)) else v) for k, v in vars(e).items()}
    return {k: v.copy() for k, v in d.items() if isinstance(v, np.ndarray) and v.dtype.kind in "fib"}


@law("G06", FD({"what": st.sampled_from(["dd", "cell", "cellmap", "pca", "reg", "box"]), "opt": st.integers(0, 2000), "w": st.integers(2, 9), "h": st.integers(2, 9), "seed": gen.SEED, "n": st.one_of(*[st.integers(30, 50)] * 2, st.integers(100, 160)), "p": st.integers(2, 4), "flat": BOOL}), quick=240,
     rule="every plot in any size: the figure has that size and the results stay as they were")
def plots_change_nothing(c, cx):
    w, size = c["what"], (c["w"], c["h"])
    name = {"dd": ["FastMCD", "DetMCD", "OGK", "KendallTau", "WrappingCovariance"][c["opt"] % 5], "cell": "CellMCD", "cellmap": "DDC", "pca": ["ROBPCA", "PCALocantore"][c["opt"] % 2],
            "reg": ["FastLTSRegression", "SRegression", "MMRegression"][c["opt"] % 3], "box": None}[w]
    cx.label(w)
    plt.close("all")
    if name is None:
        X, _ = data("frame", c["seed"], c["n"], c["p"])
        X = X.fillna(0.0)
        before = X.copy()
        adjusted_boxplot(X, figsize=size)
        cx.ran = True
        pd.testing.assert_frame_equal(X, before)
    else:
        kind, _, _, q = REG[name]
        X, y = data(kind, c["seed"], c["n"], c["p"])
        if w == "pca" and c["flat"] and name == "PCALocantore":
            X[:, 1:] = X[:, :1]  # some components without any variance
        e = fit(make(name, c["opt"]), X, y)
        state = numbers(e)  # before the queries, which draw as well
        want = snapshot(q(e, X, y), name)
        plt.close("all")
        if w == "dd":
            e.distance_distance_plot(figsize=size)
        elif w == "cell":
            e.cell_MCD_plot(0, plottype=["indexplot", "residuals_vs_variable", "residuals_vs_predictions", "variable_vs_predictions", "bivariate"][c["opt"] % 5], second_variable=1, row_names=list(range(c["n"])), figsize=size)
        elif w == "cellmap":
            e.cellmap(X, figsize=size)
        elif w == "pca":
            e.plot_outlier_map(X, figsize=size)
        else:
            e.outlier_map(X, y.ravel(), figsize=size)
        cx.ran = True
    figs = [plt.figure(k) for k in plt.get_fignums()]
    cx.check(len(figs) == 1, f"{len(figs)} figures drawn")
    cx.close(figs[0].get_size_inches(), np.array(size, float), 1e-9, what="figure size")
    plt.close("all")
    if name is not None:
        for k, v in numbers(e).items():
            cx.check(k not in state or np.array_equal(v, state[k], equal_nan=True), f"drawing changes {name}.{k}")
        same(cx, q(e, X, y), want, 0, f"{name} after drawing")
        plt.close("all")
