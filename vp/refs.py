"""Reference implementations of DDC, the CellMCD start and the CellMCD iterations, written cell by cell."""
import numpy as np
from scipy.stats import chi2

from vp.props.u import bisq_w, huber_w, onestep_ref


def cw(x):
    """cellwise one-step location and scale (bisquare c=3, Huber b=2.5, delta 0.845)."""
    loc, s, _ = onestep_ref(np.asarray(x, float), lambda r: bisq_w(r, 3.0), 2.5, 0.845, 1e-12)
    return loc, s


def hub(x):
    loc, s, _ = onestep_ref(np.asarray(x, float), huber_w(1.5), 1.5, 0.7784655, 1e-12)
    return loc, s


def slope(x, y, cut):
    """robust slope through the origin of y on x."""
    if np.all(x == 0):
        return 0.0
    b = np.median(y[x != 0] / x[x != 0])
    r = y - b * x
    m = np.abs(r) <= cut * cw(r)[1]
    d = x[m] @ x[m]
    return float(x[m] @ y[m] / d) if d > 0 else 0.0


class RefDDC:
    def __init__(self, q=0.99, min_corr=0.5, est=cw):
        self.cut, self.min_corr, self.est = np.sqrt(chi2.ppf(q, 1)), min_corr, est

    def fit(self, X):
        X = np.where(np.isfinite(X), X, np.nan)
        n, p = X.shape
        ls = [self.est(x[~np.isnan(x)]) for x in X.T]
        self.loc, self.sc = np.array([a for a, _ in ls]), np.array([b for _, b in ls])
        Z, U = self.std(X)
        R = np.eye(p)
        for i in range(p):
            for j in range(i):
                ok = ~np.isnan(U[:, i]) & ~np.isnan(U[:, j])
                x, y = U[ok, i], U[ok, j]
                if ok.sum() == 0:
                    R[i, j] = R[j, i] = 0
                    continue
                r = np.clip((cw(x + y)[1] ** 2 - cw(x - y)[1] ** 2) / 4, -0.99, 0.99)
                d2 = (x**2 - 2 * r * x * y + y**2) / (1 - r**2)
                k = d2 < self.cut**2
                if k.sum() < 2 or np.ptp(x[k]) == 0 or np.ptp(y[k]) == 0:
                    R[i, j] = R[j, i] = 0  # no correlation to speak of
                    continue
                R[i, j] = R[j, i] = np.corrcoef(x[k], y[k])[0, 1]
        self.R = R
        self.S = np.full((p, p), np.nan)
        for i in range(p):
            for j in range(p):
                if i != j and abs(R[i, j]) >= self.min_corr:
                    ok = ~np.isnan(U[:, i]) & ~np.isnan(U[:, j])
                    self.S[i, j] = slope(U[ok, i], U[ok, j], self.cut)
        raw = self.raw(U)
        self.defl = np.array([slope(raw[~np.isnan(Z[:, j]), j], Z[~np.isnan(Z[:, j]), j], self.cut) for j in range(p)])
        res = Z - raw * self.defl
        self.rs = np.array([cw(r[~np.isnan(r)])[1] for r in res.T])
        self.stdres = res / self.rs
        self.pred = raw * self.defl
        self.flag = np.abs(self.stdres) > self.cut
        t = self.t(self.stdres)
        self.tl, self.ts = cw(t)
        self.rows = (t - self.tl) / self.ts > self.cut
        self.margin = np.nanmin(np.abs(np.abs(self.stdres) - self.cut)), np.min(np.abs((t - self.tl) / self.ts - self.cut))
        return self

    def std(self, X):
        Z = (X - self.loc) / self.sc
        return Z, np.where(np.abs(Z) > self.cut, np.nan, Z)

    def raw(self, U):
        n, p = U.shape
        out = np.zeros((n, p))
        for i in range(n):
            for j in range(p):
                num = den = 0.0
                for k in range(p):
                    if k != j and abs(self.R[k, j]) >= self.min_corr and not np.isnan(U[i, k]):
                        w = abs(self.R[k, j])
                        num += w * self.S[k, j] * U[i, k]
                        den += w
                out[i, j] = num / den if den > 0 else 0.0
        return out

    @staticmethod
    def t(stdres):
        return np.array([np.mean(chi2.cdf(r[~np.isnan(r)] ** 2, 1)) if np.any(~np.isnan(r)) else np.nan for r in stdres])

    def predict(self, X):
        X = np.where(np.isfinite(X), X, np.nan)
        Z, U = self.std(X)
        pred = self.raw(U) * self.defl
        sr = (Z - pred) / self.rs
        t = self.t(sr)
        return np.abs(sr) > self.cut, sr, (t - self.tl) / self.ts > self.cut, pred * self.sc + self.loc, t


def ref_wrap_given(X, locs, scs, b=1.5, c=4.0, q1=1.540793, q2=0.8622731):
    z = (X - locs) / scs
    a = np.abs(z)
    w = np.where(a < b, z, np.where(a <= c, np.sign(z) * q1 * np.tanh(q2 * (c - a)), 0.0))
    return locs + scs * (w - w.mean(0)) / w.std(0)


def trunc(S, lo):
    w, V = np.linalg.eigh((S + S.T) / 2)
    return V @ np.diag(np.maximum(w, lo)) @ V.T


def cond(mu, S, x, O, j):
    """conditional mean and variance of cell j given the cells in O."""
    if len(O) == 0:
        return mu[j], S[j, j]
    B = np.linalg.solve(S[np.ix_(O, O)], S[O, j])
    return mu[j] + B @ (x[O] - mu[O]), S[j, j] - B @ S[O, j]


def cell_objective(X, W, mu, S, q):
    tot = float(np.sum(q * np.sum(W == 0, axis=0)))
    for x, w in zip(X, W):
        O = np.where(w == 1)[0]
        if len(O):
            d = x[O] - mu[O]
            A = S[np.ix_(O, O)]
            tot += d @ np.linalg.solve(A, d) + np.linalg.slogdet(A)[1] + len(O) * np.log(2 * np.pi)
    return tot


def cell_iterations(X, mu, S, h, crit, max_steps, min_eig):
    """C-steps on standardised data X (NaN = not usable). Returns mu, S, W, info."""
    n, p = X.shape
    q = chi2.ppf(0.99, 1) - np.log(np.diag(np.linalg.inv(S))) + np.log(2 * np.pi)
    W = np.where(np.isnan(X), 0.0, 1.0)
    obj = cell_objective(X, W, mu, S, q)
    info = dict(steps=0, stopped="limit", margin=np.inf, gap=np.inf, Ws=[W])
    while info["steps"] < max_steps:
        V = W.copy()
        for j in np.argsort(W.sum(axis=0), kind="stable"):
            delta = np.full(n, np.inf)
            for i in range(n):
                if not np.isnan(X[i, j]):
                    m, v = cond(mu, S, X[i], [k for k in range(p) if k != j and V[i, k] == 1], j)
                    delta[i] = (X[i, j] - m) ** 2 / v + np.log(v) + np.log(2 * np.pi)
            good = np.where(delta <= q[j])[0]
            fin = delta[np.isfinite(delta)]
            info["margin"] = min(info["margin"], np.min(np.abs(fin - q[j])))
            if len(good) < h:
                order = np.argsort(delta, kind="stable")
                good = order[:h]
                if h < n and np.isfinite(delta[order[h]]):
                    info["margin"] = min(info["margin"], delta[order[h]] - delta[order[h - 1]])
            V[:, j] = 0
            V[good, j] = 1
        Y, bias = X.copy(), np.zeros((p, p))
        for i in range(n):
            M, O = np.where(V[i] == 0)[0], np.where(V[i] == 1)[0]
            if len(M) == 0:
                continue
            if len(O) == 0:
                Y[i], C = mu, S
            else:
                B = np.linalg.solve(S[np.ix_(O, O)], S[np.ix_(O, M)]).T
                Y[i, M] = mu[M] + B @ (X[i, O] - mu[O])
                C = S[np.ix_(M, M)] - B @ S[np.ix_(O, M)]
            bias[np.ix_(M, M)] += C
        mu2 = Y.mean(0)
        S2 = (Y - mu2).T @ (Y - mu2) / n + bias / n
        change = np.max(np.abs(S2 - S))
        S2 = trunc(S2, min_eig)
        o2 = cell_objective(X, V, mu2, S2, q)
        if not np.array_equal(V, W) or change > 1e-9:
            info["gap"] = min(info["gap"], abs(o2 - obj) / (abs(obj) + 1), abs(change - crit) / crit * 1e-3)
        if o2 > obj:
            info["stopped"] = "objective"
            return mu, S, W, info
        obj, mu, S, W = o2, mu2, S2, V
        info["steps"] += 1
        info["Ws"].append(W)
        if change <= crit:
            info["stopped"] = "converged"
            break
    return mu, S, W, info


def onestep_wrapping(x):
    """robpy's OneStepWrapping (judged on its own in U04)."""
    from robpy.univariate.onestep_m import OneStepWrapping

    e = OneStepWrapping().fit(np.asarray(x, float))
    return float(e.location), float(e.scale)


def ref_ddcw(X, alpha, min_eig):
    """Location and covariance from which CellMCD starts (input: standardised data, NaN allowed)."""
    n, p = X.shape
    d = RefDDC(q=0.9, min_corr=0.5, est=onestep_wrapping).fit(X)
    W = d.flag.copy()
    info = dict(margin=min(d.margin), capped=False, stages=[])
    for j in range(p):
        if W[:, j].sum() / n > 1 - alpha:
            info["capped"] = True
            a = np.where(np.isnan(d.stdres[:, j]), np.inf, np.abs(d.stdres[:, j]))
            order = np.argsort(-a, kind="stable")
            k = int(n * (1 - alpha))
            if k < n and np.isfinite(a[order[k]]):
                info["margin"] = min(info["margin"], a[order[k - 1]] - a[order[k]])
            W[:, j] = False
            W[order[:k], j] = True
    pred = np.round(d.predict(X)[3], 3)
    Zi = np.where(W | np.isnan(X), pred, X)
    Z, Zi = (X - d.loc) / d.sc, (Zi - d.loc) / d.sc

    def stage(A):
        w, V = np.linalg.eigh(np.cov(A, rowvar=False))
        V = V[:, w > min_eig]
        info["margin"] = min(info["margin"], np.min(np.abs(w - min_eig)) * 1e3)
        Y = A @ V
        ls = np.array([onestep_wrapping(y) for y in Y.T])
        C = np.atleast_2d(np.cov(ref_wrap_given(Y, ls[:, 0], np.maximum(ls[:, 1], min_eig)), rowvar=False))
        C = V @ C @ V.T
        s = np.sqrt(np.diag(C))
        return trunc(C / np.outer(s, s), min_eig) * np.outer(d.sc, d.sc)

    C = stage(Zi[~d.rows])
    U = np.clip(Z, -2, 2)
    RD = np.sum(np.linalg.solve(C, U.T).T * U, axis=1)
    med = np.median(RD)  # NaN as soon as a cell is missing: then no case is set aside
    with np.errstate(invalid="ignore"):
        r = RD / med * chi2.ppf(0.5, p)
        out = r > chi2.ppf(0.99, p)
    if np.isfinite(med):
        info["margin"] = min(info["margin"], np.min(np.abs(r - chi2.ppf(0.99, p))))
    info["dropped"] = int(out.sum())
    return d.loc, stage(Zi[~out]), info
