"""C06: TWFE = full dummy-variable regression; within transformation; clustering; purity."""
from symx.harness import Case
from .common import *


def fe_design(rows, inter, covs):
    us = sorted({r[0] for r in rows}, key=str)
    ts = sorted({r[1] for r in rows})
    X = []
    for i, r in enumerate(rows):
        X.append([inter[i]] + [c[i] for c in covs] + [float(r[0] == u) for u in us] + [float(r[1] == t) for t in ts[1:]])
    return X


def dm(v, rows):
    """residual off unit and period dummies (reference); two-way demeaning on a balanced panel"""
    if any(n != rows.count(rows[0]) for n in (rows.count(r) for r in rows)) or len(set(rows)) != len({r[0] for r in rows}) * len({r[1] for r in rows}):
        X = rnp.array([[float(r[0] == u) for u in sorted({q[0] for q in rows})] + [float(r[1] == t) for t in sorted({q[1] for q in rows})] for r in rows])
        A = rnp.eye(len(rows)) - X @ rnp.linalg.pinv(X)
        return [lin(A[i], v) for i in range(len(rows))]
    us = {r[0] for r in rows}
    ts = {r[1] for r in rows}
    um = {u: mean([v[i] for i, r in enumerate(rows) if r[0] == u]) for u in us}
    tm = {t: mean([v[i] for i, r in enumerate(rows) if r[1] == t]) for t in ts}
    g = mean(v)
    return [v[i] - um[r[0]] - tm[r[1]] + g for i, r in enumerate(rows)]


def make(n_t, n_c, times, cov=0, seed=0, cluster=None, reps=1, label=None, alpha=0.05, treat=None, drop=(), levels=None):
    def fn(env):
        R = rng(seed)
        rows = [(u, t) for u in range(n_t + n_c) for t in times for _ in range(reps)]
        rows = [r for i, r in enumerate(rows) if i not in drop]
        if seed:
            R.shuffle(rows)
        n = len(rows)
        y = env.vec("y", n)
        lab = label or (lambda u: u)
        D = [float(u < n_t) if treat is None else float(treat(u, t)) for u, t in rows]
        d = {"y": y, "u": [lab(r[0]) for r in rows], "po": [r[1] for r in rows], "tr": [int(x) for x in D], "st": ["s%d" % (r[0] % 3) for r in rows]}
        inter = [D[i] * rows[i][1] for i in range(n)]
        covs, names = [], []
        for c in range(cov):
            v = [float(R.choice(levels)) if levels else round(R.uniform(-2, 2), 3) for _ in range(n)]
            covs.append(v)
            names.append("x%d" % c)
            d["x%d" % c] = v
        df = env.pd.DataFrame(d)
        if seed:
            df.index = [7 * i + 3 for i in range(n)]
        cols = list(df.columns)
        est = env.dd.TwoWayFixedEffects(cluster=cluster, alpha=alpha)
        res = est.fit(df, outcome="y", treatment="tr", time="po", unit="u", covariates=names or None)
        X = fe_design(rows, inter, covs)
        b, r = ols(X, y)
        env.eq("att=lsdv", res.att, b[0])
        if not cov and not drop and treat is None and len(times) == 2 and set(times) == {0, 1}:
            def m(a, t):
                return mean([y[i] for i in range(n) if D[i] == a and rows[i][1] == t])
            env.eq("att=dd", res.att, (m(1, 1) - m(1, 0)) - (m(0, 1) - m(0, 0)))
        Xd = [[1.0] for _ in range(n)]
        for v in [inter] + covs:
            for i, x in enumerate(dm(v, rows)):
                Xd[i].append(x)
        k = 2 + cov
        cl = d["u"] if cluster is None else d[cluster]
        env.eq("se^2", res.se * res.se, cluster_cov(Xd, r, cl, 1, 1))
        dfree = n - len({q[0] for q in rows}) - len(times) - cov
        c = tcrit(alpha, dfree)
        env.eq("ci_lo", res.conf_int[0], res.att - res.se * c)
        env.eq("ci_hi", res.conf_int[1], res.att + res.se * c)
        env.eq("t", res.t_stat * res.se, res.att)
        for i in range(n):
            env.eq("resid%d" % i, res.residuals[i], r[i])
        env.true("counts", res.n_obs == n and res.n_treated == len({rows[i][0] for i in range(n) if D[i]}) and
                 res.n_control == n_t + n_c - len({rows[i][0] for i in range(n) if D[i]}))
        env.true("frame-columns", list(df.columns) == cols and est.cluster == cluster)
        for i in range(n):
            env.eq("frame-y%d" % i, df["y"].iloc[i], y[i])
            env.true("frame%d" % i, df["tr"].iloc[i] == d["tr"][i] and df["po"].iloc[i] == d["po"][i])
    return fn


def within(nu, nt, seed, inplace, suffix, reps=1, drop=()):
    def fn(env):
        u = env.mod("utils")
        R = rng(seed)
        rows = [(i, t) for i in range(nu) for t in range(nt) for _ in range(reps)]
        rows = [r for i, r in enumerate(rows) if i not in drop]
        R.shuffle(rows)
        n = len(rows)
        y = env.vec("y", n)
        a, g = env.vec("a", nu), env.vec("g", nt)
        df = env.pd.DataFrame({"u": ["n%d" % r[0] for r in rows], "t": [2000 + r[1] for r in rows], "y": y,
                               "z": [y[i] + a[r[0]] + g[r[1]] for i, r in enumerate(rows)]}, index=[5 * i for i in range(n)])
        w = df.copy() if inplace else df
        out = u.within_transform(w, ["y", "z"], "u", "t", inplace=inplace, **({} if inplace else {"suffix": suffix}))
        ny, nz = ("y", "z") if inplace else ("y" + suffix, "z" + suffix)
        oy, oz = list(out[ny]), list(out[nz])
        ref = dm(y, rows)
        for i in range(n):
            env.eq("within%d" % i, oy[i], ref[i])
            env.eq("removes-components%d" % i, oz[i], oy[i])
            if not inplace:
                env.eq("orig%d" % i, df["y"].iloc[i], y[i])
        for q in range(nu):
            env.eq("unit-mean%d" % q, total([oy[i] for i in range(n) if rows[i][0] == q]), 0.0)
        for q in range(nt):
            env.eq("time-mean%d" % q, total([oy[i] for i in range(n) if rows[i][1] == q]), 0.0)
        env.true("cols", (set(out.columns) == {"u", "t", "y", "z"}) if inplace else (set(df.columns) == {"u", "t", "y", "z"} and
                 set(out.columns) == {"u", "t", "y", "z", ny, nz}))
        env.true("index", list(out.index) == list(df.index))
        # one-way
        o, nfe = u.demean_by_group(df, ["y"], "u")
        for i in range(n):
            m = mean([y[j] for j in range(n) if rows[j][0] == rows[i][0]])
            env.eq("demean%d" % i, o["y"].iloc[i], y[i] - m)
            env.eq("demean-orig%d" % i, df["y"].iloc[i], y[i])
        env.true("nfe", nfe == nu - 1)
        o2, _ = u.demean_by_group(df, ["y"], "t", suffix="_d")
        for i in range(n):
            m = mean([y[j] for j in range(n) if rows[j][1] == rows[i][1]])
            env.eq("demean-s%d" % i, o2["y_d"].iloc[i], y[i] - m)
            env.eq("demean-s-y%d" % i, o2["y"].iloc[i], y[i])
    return fn


def cases(tier):
    out = []

    def add(name, *a, **k):
        out.append(Case(name, make(*a, **k), bounds="outcomes in [-3,3]; panel of %d treated + %d control units, time values %s" % (a[0], a[1], a[2])))
    add("2x3", 2, 3, [0, 1])
    add("1x4", 1, 4, [0, 1], seed=1, alpha=0.1)
    add("5x2", 5, 2, [0, 1], seed=2, label=lambda u: "id%d" % (9 - u))
    add("reps2", 3, 3, [0, 1], seed=3, reps=2)
    add("cov", 3, 4, [0, 1], cov=1, seed=4)
    add("cov2", 3, 5, [0, 1], cov=2, seed=5, reps=2)
    add("cov-binary", 4, 4, [0, 1], cov=1, seed=14, reps=2, levels=(0, 1))
    add("cov-levels", 3, 4, [1, 2, 3], cov=2, seed=15, levels=(1, 2, 5))
    add("cluster", 4, 5, [0, 1], seed=6, cluster="st")
    add("periods3", 3, 3, [1, 2, 4], seed=7)
    add("periods4-cov", 3, 3, [0, 1, 2, 3], cov=1, seed=8)
    add("timevarying", 3, 3, [1, 2, 3], seed=9, treat=lambda u, t: u < 3 and t >= 2)
    add("unbalanced", 3, 4, [0, 1, 2], seed=10, drop=(1, 9, 20))
    add("unbalanced-cov", 3, 4, [1, 2, 3, 5], seed=11, cov=1, drop=(0, 7, 13, 14), label=lambda u: "id%d" % (9 - u))
    add("unbalanced-reps", 3, 3, [0, 1], seed=12, reps=3, drop=(2, 9, 10))
    add("unbalanced-treat", 4, 3, [1, 2, 3], seed=13, treat=lambda u, t: u < 4 and t >= 2, drop=(4, 17))
    for i, (a, b, dr) in enumerate([(4, 3, (0, 5)), (5, 3, (3, 4, 9)), (4, 4, (15,))]):
        out.append(Case("within-unbalanced%d" % i, within(a, b, 40 + i, i == 1, "_q", 1 + (i == 2), dr), bounds="%d units x %d periods, %d rows missing; values and components in [-3,3]" % (a, b, len(dr))))
    for i, (a, b, ip, sf, rp) in enumerate([(3, 3, False, "_demeaned", 1), (4, 2, False, "_w", 2), (2, 5, True, "", 1)]):
        out.append(Case("within%d" % i, within(a, b, i, ip, sf, rp), bounds="%d units x %d periods; values, unit and period components in [-3,3]" % (a, b)))
    if tier == "thorough":
        for s, (a, b, T) in enumerate([(4, 6, 5), (7, 4, 3), (3, 9, 4), (10, 10, 2)]):
            add("T%d" % s, a, b, list(range(T)), seed=20 + s)
            add("Tcov%d" % s, a, b, list(range(T)), seed=30 + s, cov=2, cluster="st")
            add("Tunb%d" % s, a, b, list(range(T)), seed=50 + s, cov=s % 3, drop=tuple(rng(s).sample(range((a + b) * T), 5)))
            out.append(Case("Twithin%d" % s, within(a + 2, T + 2, s, False, "_x"), bounds="%d units x %d periods" % (a + 2, T + 2)))
    return out
