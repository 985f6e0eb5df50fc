"""Case generators: JSON specs drawn by Hypothesis and the arrays they stand for."""
import numpy as np
from hypothesis import strategies as st

SEED = st.integers(0, 2**31 - 1)


# -- one-dimensional samples -------------------------------------------------------------------
def _small(min_n, max_n):
    """Short explicit samples: many ties, exact arithmetic, good shrinking."""
    n_hi = min(max_n, 24)
    elt = st.one_of(
        st.integers(-12, 12).map(lambda k: k / 2),
        st.integers(-3, 3).map(float),
        st.floats(-1000, 1000, width=32, allow_nan=False, allow_subnormal=False).map(
            lambda x: 0.0 if abs(x) < 1e-6 else float(x)
        ),
    )
    return st.lists(elt, min_size=min_n, max_size=max(min_n, n_hi)).map(lambda v: {"v": v})


VKINDS = ["normal", "cauchy", "lognormal", "uniform", "grid", "mixture", "exp"]


def _bulk(min_n, max_n, kinds=VKINDS):
    return st.fixed_dictionaries(
        {
            "kind": st.sampled_from(kinds),
            "n": st.integers(min_n, max_n),
            "seed": SEED,
            "e": st.integers(-6, 6),
            "shift": st.sampled_from([0.0, 1.0, -3.0, 50.0]),
            "out": st.sampled_from([0.0, 0.0, 0.1, 0.3, 0.45]),
        }
    )


def vec_case(min_n=3, max_n=120, kinds=VKINDS, small=True):
    return st.one_of(_small(min_n, max_n), _bulk(min_n, max_n, kinds)) if small else _bulk(
        min_n, max_n, kinds
    )


def vec(c):
    if "v" in c:
        return np.array(c["v"], dtype=float)
    rng = np.random.default_rng(c["seed"])
    n, k = c["n"], c["kind"]
    if k == "normal":
        x = rng.standard_normal(n)
    elif k == "cauchy":
        x = rng.standard_cauchy(n)
    elif k == "lognormal":
        x = rng.lognormal(0, 1, n)
    elif k == "uniform":
        x = rng.uniform(-1, 1, n)
    elif k == "grid":
        x = rng.integers(-4, 5, n).astype(float)
    elif k == "exp":
        x = -rng.exponential(1, n)
    else:
        x = np.where(rng.random(n) < 0.6, rng.normal(0, 1, n), rng.normal(6, 0.2, n))
    m = int(c.get("out", 0) * n)
    if m:
        x[rng.permutation(n)[:m]] = 30 + rng.random(m)
    return (x + c.get("shift", 0.0)) * 10.0 ** c.get("e", 0)


# -- matrices ----------------------------------------------------------------------------------
MKINDS = ["normal", "corr", "t3", "skew"]


def mat_case(min_n=20, max_n=80, min_p=2, max_p=5, kinds=MKINDS, outs=(0.0, 0.1, 0.2, 0.3),
             units=(0,), extra=None):
    d = {
        "kind": st.sampled_from(kinds),
        "n": st.integers(min_n, max_n),
        "p": st.integers(min_p, max_p),
        "seed": SEED,
        "out": st.sampled_from(list(outs)),
        "otype": st.sampled_from(["cluster", "spread", "cells"]),
        "units": st.sampled_from(list(units)),
    }
    if extra:
        d.update(extra)
    return st.fixed_dictionaries(d)


def mixing(rng, p):
    """Well-conditioned correlated mixing matrix."""
    q, _ = np.linalg.qr(rng.standard_normal((p, p)))
    return q * rng.uniform(0.6, 2.0, p)


def clean(c, rng):
    n, p, k = c["n"], c["p"], c["kind"]
    if k == "t3":
        x = rng.standard_t(3, (n, p))
    elif k == "skew":
        x = rng.exponential(1.0, (n, p)) - 1.0
    elif k == "grid":
        return rng.integers(-3, 4, (n, p)).astype(float)
    elif k == "factor":  # strongly correlated columns (some negatively, some unrelated)
        load = rng.choice([-1.0, 1.0, 1.0, 0.0], p)
        return rng.standard_normal((n, 1)) * load + rng.uniform(0.2, 0.8, p) * rng.standard_normal((n, p))
    else:
        x = rng.standard_normal((n, p))
    if k != "normal":
        x = x @ mixing(rng, p).T
    return x


def mat(c):
    rng = np.random.default_rng(c["seed"])
    x = clean(c, rng)
    n, p = x.shape
    m = int(c.get("out", 0) * n)
    if m:
        rows = rng.permutation(n)[:m]
        if c.get("otype") == "cells":
            x[rows, rng.integers(0, p, m)] += rng.choice([-1, 1], m) * rng.uniform(12, 25, m)
        elif c.get("otype") == "spread":
            x[rows] += rng.choice([-1, 1], (m, p)) * rng.uniform(10, 40, (m, p))
        else:
            v = rng.standard_normal(p)
            x[rows] = 25 * v / np.linalg.norm(v) + 0.3 * rng.standard_normal((m, p))
    u = c.get("units", 0)
    if u == 1:  # columns in very different units
        x = x * 10.0 ** rng.integers(-3, 4, p) + rng.uniform(-5, 5, p)
    elif u == 3:  # different units, no offset
        x = x * 10.0 ** rng.integers(-3, 4, p)
    elif u == 2:
        x = x + rng.uniform(-100, 100, p)
    return x


def names(p, prefix="v"):
    """p column labels that are not in alphabetical order."""
    return [f"{prefix}{(7 * j + 5) % 11}_{j}" for j in range(p)]


def gap(a, h):
    """Relative gap between the h-th and (h+1)-th smallest value (inf when h == n)."""
    s = np.sort(np.asarray(a, float))
    if h >= len(s):
        return np.inf
    return (s[h] - s[h - 1]) / max(abs(s[h]), abs(s[h - 1]), 1e-300)


def with_nans(x, frac, seed):
    """Copy with missing cells, at most 20% per column and never a whole row."""
    if not frac:
        return x.copy()
    rng = np.random.default_rng(seed)
    y = x.copy()
    n, p = x.shape
    for j in range(p):
        m = min(int(round(frac * n * rng.uniform(0, 2))), int(0.2 * n))
        y[rng.permutation(n)[:m], j] = np.nan
    full = np.isnan(y).all(axis=1)
    y[full] = x[full]
    return y
