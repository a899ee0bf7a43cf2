"""Reference computations shared by the harnesses.  Written from the documentation,
in plain Python over lists, so that they run on symbols and on floats alike."""
import math
import random
import numpy as rnp


def lin(coefs, xs):
    t = None
    for c, x in zip(coefs, xs):
        c = float(c)
        if abs(c) < 1e-14:
            continue
        v = x * c
        t = v if t is None else t + v
    return 0.0 if t is None else t


def total(xs):
    t = 0.0
    for x in xs:
        t = t + x
    return t


def mean(xs):
    xs = list(xs)
    return total(xs) / len(xs)


def median(xs):
    return rnp.median(xs)


def ols(X, y):
    """coefficients, residuals of least squares with a concrete full-rank X"""
    X = rnp.asarray(X, dtype=float)
    P = rnp.linalg.pinv(X)
    b = [lin(P[i], y) for i in range(X.shape[1])]
    r = [y[i] - lin(X[i], b) for i in range(X.shape[0])]
    return b, r


def quad(g, u2):
    return lin([x * x for x in g], u2)


def classical_var(X, r, j, k_extra=0):
    X = rnp.asarray(X, dtype=float)
    n, k = X.shape
    XtXi = rnp.linalg.inv(X.T @ X)
    return total([x * x for x in r]) * (XtXi[j, j] / (n - k - k_extra))


def hc1_cov(X, r, i, j):
    X = rnp.asarray(X, dtype=float)
    n, k = X.shape
    A = rnp.linalg.inv(X.T @ X) @ X.T
    return lin(A[i] * A[j], [x * x for x in r]) * (n / (n - k))


def cluster_cov(X, r, groups, i, j):
    X = rnp.asarray(X, dtype=float)
    n, k = X.shape
    A = rnp.linalg.inv(X.T @ X) @ X.T
    labs = sorted(set(groups), key=str)
    G = len(labs)
    tot = 0.0
    for g in labs:
        idx = [a for a in range(n) if groups[a] == g]
        si = lin([A[i][a] for a in idx], [r[a] for a in idx])
        sj = si if i == j else lin([A[j][a] for a in idx], [r[a] for a in idx])
        tot = tot + si * sj
    return tot * ((G / (G - 1)) * ((n - 1) / (n - k)))


def sqrt(env, x):
    return env.np.sqrt(x)


def rng(seed):
    return random.Random(seed)


def tcrit(alpha, df):
    from scipy import stats
    return float(stats.t.ppf(1 - alpha / 2, df))


def zcrit(alpha):
    from scipy import stats
    return float(stats.norm.ppf(1 - alpha / 2))


def independent(X, groups):
    """columns of X after dummies for every grouping, without those they span; position of each kept column of X"""
    X = rnp.asarray(X, float)
    cols, pos = [], {}

    def push(c):
        if rnp.linalg.matrix_rank(rnp.column_stack(cols + [c]), tol=1e-8) > len(cols):
            cols.append(rnp.asarray(c, float))
            return True
        return False
    for g in groups:
        for v in sorted(set(g), key=str):
            push([float(x == v) for x in g])
    for j in range(X.shape[1]):
        if push(X[:, j]):
            pos[j] = len(cols) - 1
    return rnp.column_stack(cols), pos
