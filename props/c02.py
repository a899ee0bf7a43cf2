"""C02: HC1 and cluster-robust sandwich covariance."""
from symx.harness import Case
from .common import *
from .c01 import design


def vc(n, k, seed, clusters=None, kind="full", fac=False, off=True, as_series=False):
    def fn(env):
        la = env.mod("linalg")
        X = design(n, k, seed, kind)
        kk = X.shape[1]
        u = env.vec("u", n, -2, 2)
        U = env.np.array(u)
        cl = None
        if clusters is not None:
            cl = [clusters[i % len(clusters)] if not callable(clusters) else clusters(i) for i in range(n)]
        ids = None if cl is None else (env.pd.Series(cl, index=[5 * i + 3 for i in range(n)]) if as_series else rnp.array(cl))
        V = la.compute_robust_vcov(X, U, ids)
        for i in range(kk):
            for j in range(kk):
                if j > i and not off:
                    continue
                ref = hc1_cov(X, u, i, j) if cl is None else cluster_cov(X, u, cl, i, j)
                env.eq("V[%d,%d]" % (i, j), V[i, j], ref)
                if j > i:
                    env.eq("sym[%d,%d]" % (i, j), V[i, j], V[j, i])
    return fn


def order(n, k, seed, clusters):
    """row order and cluster relabelling do not matter"""
    def fn(env):
        la = env.mod("linalg")
        X = design(n, k, seed)
        u = env.vec("u", n, -2, 2)
        cl = [clusters[i % len(clusters)] for i in range(n)]
        p = list(range(n))
        rng(seed).shuffle(p)
        ren = {c: "z%d" % ((i * 7 + 3) % 11) for i, c in enumerate(clusters)}
        V = la.compute_robust_vcov(X, env.np.array(u), rnp.array(cl))
        W = la.compute_robust_vcov(X[p], env.np.array([u[i] for i in p]), rnp.array([ren[cl[i]] for i in p]))
        H = la.compute_robust_vcov(X, env.np.array(u))
        K = la.compute_robust_vcov(X[p], env.np.array([u[i] for i in p]))
        D = la.compute_robust_vcov(X, env.np.array(u), rnp.arange(n))
        for i in range(k):
            for j in range(i, k):
                env.eq("cl[%d,%d]" % (i, j), V[i, j], W[i, j])
                env.eq("hc[%d,%d]" % (i, j), H[i, j], K[i, j])
                # singleton clusters: G = n, so the factor is n/(n-k) as for HC1
                env.eq("singleton[%d,%d]" % (i, j), D[i, j], H[i, j])
    return fn


def few():
    def fn(env):
        la = env.mod("linalg")
        X = design(6, 2, 3)
        u = env.np.array(env.vec("u", 6))
        env.raises("one cluster", ValueError, lambda: la.compute_robust_vcov(X, u, rnp.array([4] * 6)))
        env.raises("one cluster ols", ValueError, lambda: la.solve_ols(X, u, cluster_ids=rnp.array(["a"] * 6)))
        V = la.compute_robust_vcov(X, u, rnp.array([1, 1, 1, 2, 2, 2]))
        env.eq("two clusters ok", V[1, 1], cluster_cov(X, list(u), [1, 1, 1, 2, 2, 2], 1, 1))
    return fn


def through_fit(n, k, seed, clusters, robust=True, c_arg=False):
    def fn(env):
        la = env.mod("linalg")
        X = design(n, k, seed)
        y = env.vec("y", n, -2, 2)
        cl = None if clusters is None else [clusters[i % len(clusters)] for i in range(n)]
        reg = la.LinearRegression(include_intercept=False, robust=robust, cluster_ids=None if (cl is None or c_arg) else rnp.array(cl))
        reg.fit(X, env.np.array(y), cluster_ids=rnp.array(cl) if c_arg else None)
        b, r = ols(X, y)
        for i in range(k):
            if cl is not None:
                ref = cluster_cov(X, r, cl, i, i)
            elif robust:
                ref = hc1_cov(X, r, i, i)
            else:
                ref = classical_var(X, r, i)
            env.eq("V%d" % i, reg.vcov_[i, i], ref)
            se = reg.get_se(i)
            env.eq("se%d" % i, se * se, ref)
    return fn


def through_rank(n, k, seed, clusters, kind, robust=True):
    """variances of the kept columns when others are linearly dependent: the sandwich (or classical) formula of the kept design"""
    def fn(env):
        la = env.mod("linalg")
        X = design(n, k, seed, kind)
        y = env.vec("y", n, -2, 2)
        cl = None if clusters is None else [clusters[i % len(clusters)] for i in range(n)]
        reg = la.LinearRegression(include_intercept=False, robust=robust, rank_deficient_action="silent", cluster_ids=None if cl is None else rnp.array(cl))
        reg.fit(X, env.np.array(y))
        drop = [j for j in range(X.shape[1]) if not env.issym(reg.coefficients_[j]) and float(reg.coefficients_[j]) != float(reg.coefficients_[j])]
        keep = [j for j in range(X.shape[1]) if j not in drop]
        env.true("rank", len(keep) == rnp.linalg.matrix_rank(X) and rnp.linalg.matrix_rank(X[:, keep]) == len(keep))
        env.true("df", reg.df_ == n - len(keep))
        b, r = ols(X[:, keep], y)
        Z = X[:, keep]
        G = rnp.linalg.inv(Z.T @ Z)
        for a, i in enumerate(keep):
            env.eq("b%d" % i, reg.coefficients_[i], b[a])
            for c, j in enumerate(keep):
                if j < i:
                    continue
                if cl is not None:
                    ref = cluster_cov(Z, r, cl, a, c)
                elif robust:
                    ref = hc1_cov(Z, r, a, c)
                else:
                    ref = total([v * v for v in r]) * (G[a, c] / (n - len(keep)))
                env.eq("V%d,%d" % (i, j), reg.vcov_[i, j], ref)
            se = reg.get_se(i)
            env.eq("se%d" % i, se * se, reg.vcov_[i, i])
        for i in drop:
            for j in range(X.shape[1]):
                env.isnan("nan%d,%d" % (i, j), reg.vcov_[i, j])
                env.isnan("nan%d,%d" % (j, i), reg.vcov_[j, i])
            env.isnan("se-nan%d" % i, reg.get_se(i))
    return fn


def sym_design(n, clusters):
    def fn(env):
        la = env.mod("linalg")
        x = env.vec("x", n, -2, 2)
        u = env.vec("u", n, -2, 2)
        X = env.np.array(x).reshape(n, 1)
        V = la.compute_robust_vcov(X, env.np.array(u), None if clusters is None else rnp.array(clusters))
        sxx = total([a * a for a in x])
        if clusters is None:
            m = total([a * a * c * c for a, c in zip(x, u)]) * (n / (n - 1.0))
        else:
            G = len(set(clusters))
            m = 0.0
            for g in set(clusters):
                s = total([x[i] * u[i] for i in range(n) if clusters[i] == g])
                m = m + s * s
            m = m * (G / (G - 1.0)) * ((n - 1.0) / (n - 1.0))
        env.eq("V", V[0, 0] * sxx * sxx, m)
    return fn


def cases(tier):
    out = []

    def add(name, f, b):
        out.append(Case(name, f, bounds=b))
    B = "residuals/outcomes in [-2,2]"
    add("hc1-8x3", vc(8, 3, 1), B + ", n=8 k=3")
    add("hc1-dummy", vc(9, 4, 2, kind="dummy"), B + ", n=9 k=4")
    add("cl-contig", vc(9, 3, 3, clusters=lambda i: i // 3), B)
    add("cl-noncontig", vc(10, 3, 4, clusters=[9, 2, 9, 5]), B)
    add("cl-strings", vc(8, 2, 5, clusters=["b", "a", "c"]), B)
    add("cl-two", vc(8, 3, 6, clusters=[1, 0]), B)
    add("cl-floats", vc(9, 2, 7, clusters=[1.5, -2.0, 0.25, 1.5]), B)
    add("cl-unequal", vc(10, 3, 8, clusters=lambda i: min(i // 2, 2)), B)
    add("cl-series", vc(8, 2, 9, clusters=[3, 1, 2], as_series=True), B)
    add("cl-negative", vc(9, 2, 19, clusters=[-1, -5, 3]), B)
    add("cl-singletons", vc(8, 2, 20, clusters=lambda i: [0, 0, 0, 1, 1, 2, 2, 3][i]), B)
    add("cl-many", vc(14, 3, 21, clusters=lambda i: min(i, 11)), B)
    add("cl-close-floats", vc(9, 2, 22, clusters=[0.25, 0.75, 1.0, 1.5, 0.9]), B)
    add("cl-zero-neg", vc(8, 2, 23, clusters=[0, -1, 2, 0]), B)
    add("cl-big-ints", vc(8, 2, 24, clusters=[10**12, 10**12 + 1, 7]), B)
    add("cl-bool", vc(7, 2, 25, clusters=[True, False]), B)
    add("cl-mixed-sizes", vc(13, 4, 26, clusters=lambda i: "aabbbbbcdddee"[i]), B)
    add("cl-num-strings", vc(8, 2, 27, clusters=["1", "1.0", "01"]), B)
    add("cl-dates", vc(8, 2, 28, clusters=list(rnp.array(["2020-01-01", "2020-01-02", "2021-01-01"], dtype="datetime64[D]"))), B)
    add("hc1-20x5", vc(20, 5, 29), B)
    add("hc1-tight", vc(5, 4, 30), B)
    add("order-3", order(10, 3, 31, [0.5, 0.25, -0.5, 3.0]), B)
    add("fit-singletons", through_fit(10, 2, 32, ["a", "a", "b", "b", "c", "d", "d", "d", "e", "b"]), B)
    add("order-1", order(9, 3, 10, [4, 1, 7]), B)
    add("order-2", order(8, 2, 11, ["q", "p", "r", "p"][:3]), B)
    add("few", few(), B)
    add("fit-hc1", through_fit(9, 3, 12, None), B)
    add("fit-classical", through_fit(9, 3, 13, None, robust=False), B)
    add("fit-cl", through_fit(9, 3, 14, [2, 8, 5]), B)
    add("fit-cl-arg", through_fit(9, 2, 15, [2, 8, 5], robust=False, c_arg=True), B)
    add("fit-cl-norobust", through_fit(9, 2, 16, ["u", "v", "w"], robust=False), B)
    for i, kd in enumerate(("dup", "lincomb", "zero", "dummytrap")):
        add("rank-hc1-" + kd, through_rank(11, 4, 40 + i, None, kd), B)
        add("rank-classical-" + kd, through_rank(11, 4, 50 + i, None, kd, robust=False), B)
        add("rank-cl-" + kd, through_rank(11, 4, 60 + i, [2, 8, 5], kd), B)
    add("symX-hc1", sym_design(4, None), "regressor and residuals in [-2,2]^4, no intercept")
    add("symX-cl", sym_design(4, [1, 2, 1, 3]), "regressor and residuals in [-2,2]^4, no intercept")
    if tier == "thorough":
        for s in range(6):
            add("T-hc1-%d" % s, vc(10 + 2 * s, 2 + s % 4, 100 + s), B)
            add("T-cl-%d" % s, vc(10 + 2 * s, 2 + s % 4, 120 + s, clusters=list(range(2 + s))), B)
            add("T-order-%d" % s, order(10 + s, 3, 140 + s, [3, 9, 4, 1][:2 + s % 3]), B)
        add("symX-cl-6", sym_design(6, [1, 2, 1, 3, 2, 3]), "regressor and residuals in [-2,2]^6, no intercept")
    return out
