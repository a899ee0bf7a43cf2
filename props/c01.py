"""C01: least squares solver."""
from symx.harness import Case
from .common import *


def design(n, k, seed, kind="full"):
    R = rng(seed)
    X = [[1.0] + [round(R.uniform(-2, 2), 3) for _ in range(k - 1)] for _ in range(n)]
    X = rnp.array(X)
    dep = []
    if kind == "dummy":
        for j in range(1, k):
            X[:, j] = [float(i % k == j) for i in range(n)]
    if kind == "dup":            # last column duplicates column 1
        X = rnp.column_stack([X, X[:, 1]])
    if kind == "lincomb":        # middle column is a combination of its neighbours
        X[:, 2] = 2 * X[:, 1] - X[:, 3] + 0.5
    if kind == "zero":
        X[:, 1] = 0.0
    if kind == "dummytrap":
        g = rnp.array([i % 3 for i in range(n)])
        X = rnp.column_stack([X, g == 0, g == 1, g == 2]).astype(float)
    if kind == "scaled":
        X[:, 1] *= 1e4
        X[:, 2] *= 1e-2
    if kind == "two":            # two separate dependencies
        X = rnp.column_stack([X[:, 1], X, 3 * X[:, 2], rnp.ones(n)])
    return X


def rank(X):
    s = rnp.linalg.svd(X, compute_uv=False)
    return int((s > 1e-8 * s[0]).sum())


def solve(n, k, seed, kind, action="silent", cluster=False, vcov=True, via="solve_ols", skip=False):
    def fn(env):
        X = design(n, k, seed, kind)
        y = env.vec("y", n)
        la = env.mod("linalg")
        Y = env.np.array(y)
        kk = X.shape[1]
        rk = rank(X)
        cl = [i % 4 for i in range(n)] if cluster else None
        if action == "error":
            if rk < kk:
                env.raises("raises", ValueError, lambda: la.solve_ols(X, Y, rank_deficient_action="error", return_vcov=False))
                return
        if via == "solve_ols":
            kw = dict(return_fitted=True, return_vcov=vcov, cluster_ids=rnp.array(cl) if cl else None, rank_deficient_action=action)
            if skip:
                kw["skip_rank_check"] = True
            b, r, f, V = la.solve_ols(X, Y, **kw)
            if vcov:
                b2, r2, V2 = la.solve_ols(X, Y, cluster_ids=rnp.array(cl) if cl else None, rank_deficient_action=action)
                for i in range(n):
                    env.eq("nofit_resid%d" % i, r2[i], r[i])
        else:
            reg = la.LinearRegression(include_intercept=(via == "reg+c"), rank_deficient_action=action, robust=(kind != "full"),
                                      cluster_ids=rnp.array(cl) if cl else None)
            reg.fit(X[:, 1:] if via == "reg+c" else X, Y)
            b, r, f, V = reg.coefficients_, reg.residuals_, reg.fitted_values_, reg.vcov_
            env.true("df", reg.df_ == n - rk and reg.n_params_effective_ == rk and reg.n_params_ == kk and reg.n_obs_ == n)
        kept = [j for j in range(kk) if not env.nanval(b[j])]
        env.true("n kept = rank", len(kept) == rk and rank(X[:, kept]) == rk)
        # projection on the full column space
        P = X @ rnp.linalg.pinv(X)
        for i in range(n):
            env.eq("fitted%d" % i, f[i], lin(P[i], y))
            env.eq("f+r%d" % i, f[i] + r[i], y[i])
        for j in kept:
            env.eq("normal eq %d" % j, lin(X[:, j], list(r)), 0.0)
        Pk = rnp.linalg.pinv(X[:, kept])
        for a, j in enumerate(kept):
            env.eq("coef%d" % j, b[j], lin(Pk[a], y))
        if V is not None:
            for j in range(kk):
                for l in range(kk):
                    if j in kept and l in kept:
                        continue
                    env.isnan("vcov nan %d,%d" % (j, l), V[j, l])
            for j in kept[:3]:
                if via != "solve_ols" and not cluster and kind == "full":
                    v = classical_var(X[:, kept], [y[i] - lin(P[i], y) for i in range(n)], kept.index(j))
                elif cluster:
                    v = cluster_cov(X[:, kept], [y[i] - lin(P[i], y) for i in range(n)], cl, kept.index(j), kept.index(j))
                else:
                    v = hc1_cov(X[:, kept], [y[i] - lin(P[i], y) for i in range(n)], kept.index(j), kept.index(j))
                env.eq("var%d" % j, V[j, j], v)
        if via != "solve_ols":
            Xn = rnp.array([[0.3 * a - 0.2 * j for j in range(kk)] for a in range(2)])
            if via == "reg+c":
                Xn[:, 0] = 1.0
            pr = reg.predict(Xn[:, 1:] if via == "reg+c" else Xn)
            for a in range(2):
                env.eq("predict%d" % a, pr[a], lin([Xn[a, j] for j in kept], [b[j] for j in kept]))
            ybar = mean(y)
            sst = total([(v - ybar) * (v - ybar) for v in y])
            ssr = total([e * e for e in r])
            env.eq("r2", reg.r_squared() * sst, sst - ssr)
            env.eq("adj r2", reg.r_squared(adjusted=True) * sst * ((n - rk) / (n - 1.0)), sst * ((n - rk) / (n - 1.0)) - ssr)
            for j in range(kk):
                if j in kept:
                    env.eq("get_coef%d" % j, reg.get_coefficient(j), b[j])
                else:
                    inf = reg.get_inference(j)
                    for q in (inf.coefficient, inf.se, inf.t_stat, inf.p_value, inf.conf_int[0], inf.conf_int[1]):
                        env.isnan("dropped inference %d" % j, q)
    return fn


def symx_design(n, via):
    """one symbolic regressor: normal equations for every design"""
    def fn(env):
        la = env.mod("linalg")
        x = env.vec("x", n, -2, 2)
        y = env.vec("y", n, -2, 2)
        X = env.np.column_stack([env.np.ones(n), env.np.array(x)])
        Y = env.np.array(y)
        if env.mode == "num":
            env.assume(rnp.linalg.matrix_rank(X) == 2)
        b, r, f, V = la.solve_ols(X, Y, return_fitted=True, return_vcov=False)
        xb, yb = mean(x), mean(y)
        sxx = total([(a - xb) * (a - xb) for a in x])
        sxy = total([(a - xb) * (c - yb) for a, c in zip(x, y)])
        env.eq("slope", b[1] * sxx, sxy)
        env.eq("intercept", b[0] + b[1] * xb, yb)
        env.eq("sum resid", total(r), 0.0)
        env.eq("x'resid", lin_sym(x, r), 0.0)
        for i in range(n):
            env.eq("f+r%d" % i, f[i] + r[i], y[i])
    return fn


def lin_sym(a, b):
    t = 0.0
    for x, y in zip(a, b):
        t = t + x * y
    return t


def cases(tier):
    out = []

    def add(name, n, k, seed, kind, **kw):
        out.append(Case(name, solve(n, k, seed, kind, **kw), bounds="y in [-3,3]^%d, %s design with %d base columns" % (n, kind, k)))
    add("full-8x3", 8, 3, 1, "full")
    add("full-novcov", 7, 4, 2, "full", vcov=False)
    add("full-skip", 7, 3, 2, "full", skip=True)
    add("dummy-9x3", 9, 3, 3, "dummy", cluster=True)
    add("scaled", 8, 3, 4, "scaled")
    add("dup", 8, 3, 5, "dup")
    add("dup-warn", 7, 2, 6, "dup", action="warn")
    add("lincomb", 9, 4, 7, "lincomb")
    add("lincomb-cl", 9, 4, 17, "lincomb", cluster=True)
    add("zero", 7, 3, 8, "zero")
    add("trap", 9, 2, 9, "dummytrap")
    add("two", 9, 3, 10, "two")
    add("err-dup", 6, 3, 11, "dup", action="error")
    add("err-trap", 7, 2, 11, "dummytrap", action="error")
    add("noerr-full", 6, 3, 12, "full", action="error")
    add("reg-full", 8, 3, 13, "full", via="reg")
    add("reg-c-full", 8, 3, 14, "full", via="reg+c")
    add("reg-c-dup", 8, 3, 15, "dup", via="reg+c")
    add("reg-trap-cl", 10, 2, 16, "dummytrap", via="reg", cluster=True)
    add("reg-c-lincomb", 9, 4, 18, "lincomb", via="reg+c")
    out.append(Case("symbolic-design-4", symx_design(4, 0), bounds="regressor and outcome in [-2,2]^4, full-rank designs"))
    if tier == "thorough":
        for s in range(6):
            add("T-full-%d" % s, 12 + s, 3 + s % 4, 100 + s, "full")
            add("T-reg-%d" % s, 12, 4, 120 + s, ["dup", "two", "dummytrap", "lincomb", "zero", "scaled"][s], via="reg")
            add("T-dep-%d" % s, 14, 4, 140 + s, ["dup", "two", "dummytrap", "lincomb", "zero", "scaled"][s], cluster=True)
        out.append(Case("symbolic-design-5", symx_design(5, 0), bounds="regressor and outcome in [-2,2]^5, full-rank designs"))
    return out
