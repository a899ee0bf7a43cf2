"""C15: triple difference on all eight-cell designs, three methods."""
import math
from symx.harness import Case
from .common import *
from .csref import logit

CELLS = [(g, p, t) for g in (1, 0) for p in (1, 0) for t in (0, 1)]
NAMES = {(g, p, t): "%s, %s, %s" % ("Treated" if g else "Control", "Eligible" if p else "Ineligible", "Post" if t else "Pre") for g, p, t in CELLS}
SIGN = {(g, p, t): (2 * g - 1) * (2 * p - 1) * (2 * t - 1) for g, p, t in CELLS}


def design(sizes, seed=0, shuffle=True):
    rows = [c for c, k in zip(CELLS, sizes) for _ in range(k)]
    if shuffle:
        rng(seed + 5).shuffle(rows)
    return rows


def frame(env, rows, y, x=(), cl=None, kind="int", index=None, order=None):
    f = {"int": int, "float": float, "bool": bool}[kind]
    o = order or list(range(len(rows)))
    d = {"y": [y[i] for i in o]}
    for k, c in enumerate("gpt"):
        d[c] = [f(rows[i][k]) for i in o]
    for k, v in enumerate(x):
        d["x%d" % k] = [v[i] for i in o]
    if cl is not None:
        d["c"] = [cl[i] for i in o]
    df = env.pd.DataFrame(d)
    if index is not None:
        df.index = index
    return df


def fit(env, df, method, x=(), cl=None, conv=False, **k):
    kw = dict(outcome="y", group="g", partition="p", time="t", covariates=["x%d" % i for i in range(len(x))] or None)
    if cl is not None:
        k["cluster"] = "c"
    if conv:
        return env.dd.triple_difference(df, estimation_method=method, **kw, **k)
    return env.dd.TripleDifference(estimation_method=method, **k).fit(df, **kw)


def cells(rows, y):
    return {c: [v for q, v in zip(rows, y) if q == c] for c in CELLS}


def X8(rows, x=()):
    return rnp.array([[1.0, g, p, t, g * p, g * t, p * t, g * p * t] + [v[i] for v in x] for i, (g, p, t) in enumerate(rows)], dtype=float)


def psi_se2(rows, y, w, cl, method):
    """weights w normalised within cell and period"""
    n = len(rows)
    psi = [0.0] * n
    for c in CELLS:
        ix = [i for i in range(n) if rows[i] == c]
        s = sum(w[i] for i in ix)
        m = total([w[i] / s * y[i] for i in ix])
        for i in ix:
            psi[i] = (y[i] - m) * (SIGN[c] * w[i] / s)
    if cl is None:
        return total([v * v for v in psi]) * (n / (n - 1))
    labs = sorted(set(cl), key=str)
    G = len(labs)
    tot = 0.0
    for g in labs:
        s = total([v for v, c in zip(psi, cl) if c == g])
        tot = tot + s * s
    return tot * (G / (G - 1))


def counts(env, r, rows):
    n = len(rows)
    for nm, g, p in (("treated_eligible", 1, 1), ("treated_ineligible", 1, 0), ("control_eligible", 0, 1), ("control_ineligible", 0, 0)):
        env.true("n." + nm, getattr(r, "n_" + nm) == sum(1 for q in rows if q[:2] == (g, p)))
    env.true("n", r.n_obs == n)


def ref_se2(rows, y, x, method, robust, cl):
    if method == "reg":
        X = X8(rows, x)
        b, res = ols(X, y)
        if cl is not None:
            return cluster_cov(X, res, cl, 7, 7)
        return hc1_cov(X, res, 7, 7) if robust else classical_var(X, res, 7)
    if method == "dr" and cl is None:
        C = cells(rows, y)
        tot = 0.0
        for v in C.values():
            if len(v) > 1:
                m = mean(v)
                tot = tot + total([(a - m) * (a - m) for a in v]) / (len(v) - 1) / len(v)
        return tot
    return psi_se2(rows, y, [1.0] * len(rows), cl, method)


def nocov(method, sizes, seed=0, robust=True, cl=None, kind="int", index=None, conv=False, trim=None):
    def fn(env):
        rows = design(sizes, seed)
        n = len(rows)
        y = env.vec("y", n)
        k = dict(robust=robust)
        if trim is not None:
            k["pscore_trim"] = trim
        ids = None if cl is None else [("s%d" % (i * 7 % cl)) if seed % 2 else (i * 7 % cl) for i in range(n)]
        ix = None if index is None else ["r%d" % (i * 5 % n) for i in range(n)] if index == "str" else [3 * i % n for i in range(n)] if index == "perm" else [0] * n
        r = fit(env, frame(env, rows, y, cl=ids, kind=kind, index=ix), method, cl=ids, conv=conv, **k)
        C = cells(rows, y)
        env.eq("att", r.att, total([mean(C[c]) * SIGN[c] for c in CELLS]))
        for c in CELLS:
            env.eq("mean." + NAMES[c], r.group_means[NAMES[c]], mean(C[c]))
        env.true("cells", len(r.group_means) == 8)
        counts(env, r, rows)
        env.eq("se2", r.se * r.se, ref_se2(rows, y, (), method, robust, ids))
        env.true("clusters", r.n_clusters == (None if cl is None else len(set(ids))))
        env.true("label", r.estimation_method == method)
    return fn


def shift(method, sizes, seed=0, ncov=0, cl=None, robust=True, scale=True):
    """a constant added to all outcomes changes nothing; row order and labels do not matter; scaling scales"""
    def fn(env):
        R = rng(seed)
        rows = design(sizes, seed)
        n = len(rows)
        y = env.vec("y", n)
        x = [[round(R.uniform(-1, 1), 2) for _ in rows] for _ in range(ncov)]
        ids = None if cl is None else [i * 7 % cl for i in range(n)]
        c = env.var("c")
        r = fit(env, frame(env, rows, y, x, ids), method, x, ids, robust=robust)
        q = fit(env, frame(env, rows, [v + c for v in y], x, ids), method, x, ids, robust=robust)
        env.eq("att", q.att, r.att)
        env.eq("se2", q.se * q.se, r.se * r.se)
        o = list(range(n))
        R.shuffle(o)
        q = fit(env, frame(env, rows, y, x, None if cl is None else ["z%d" % (50 - v) for v in ids], order=o, kind="float", index=[7] * n), method, x, ids, robust=robust)
        env.eq("order.att", q.att, r.att)
        env.eq("order.se2", q.se * q.se, r.se * r.se)
        if scale:
            q = fit(env, frame(env, rows, [v * -2.5 for v in y], x, ids), method, x, ids, robust=robust)
            env.eq("scale.att", q.att, r.att * -2.5)
            env.eq("scale.se2", q.se * q.se, r.se * r.se * 6.25)
        # period, group and eligibility effects common to a pair of cells cancel
        a, b, e = env.vec("g", 4), env.vec("p", 4), env.vec("t", 4)
        z = [v + a[2 * i[0] + i[1]] + b[2 * i[0] + i[2]] + e[2 * i[1] + i[2]] for v, i in zip(y, rows)]
        q = fit(env, frame(env, rows, z, x, ids), method, x, ids, robust=robust)
        env.eq("two-way.att", q.att, r.att)
        d = env.var("d")
        q = fit(env, frame(env, rows, [v + d if i == (1, 1, 1) else v for v, i in zip(y, rows)], x, ids), method, x, ids, robust=robust)
        env.eq("effect.att", q.att, r.att + d)
        if cl is None or method == "reg":
            env.eq("effect.se2", q.se * q.se, r.se * r.se)
    return fn


def regcov(sizes, seed, ncov, robust, cl=None, collinear=False):
    def fn(env):
        R = rng(seed)
        rows = design(sizes, seed)
        n = len(rows)
        y = env.vec("y", n)
        x = [[round(R.uniform(-1, 1), 2) for _ in rows] for _ in range(ncov)]
        xs = x + ([[2 * v - 0.5 for v in x[0]]] if collinear else [])
        ids = None if cl is None else [i * 7 % cl for i in range(n)]
        k = {"rank_deficient_action": "silent"} if collinear else {}
        r = fit(env, frame(env, rows, y, xs, ids), "reg", xs, ids, robust=robust, **k)
        X = X8(rows, x)
        b, res = ols(X, y)
        env.eq("att", r.att, b[7])
        env.eq("se2", r.se * r.se, ref_se2(rows, y, x, "reg", robust, ids))
        ym = mean(y)
        env.eq("r2", (1.0 - r.r_squared) * total([(v - ym) * (v - ym) for v in y]), total([v * v for v in res]))
    return fn


def dr_linear(sizes, seed, ncov, strong=False):
    """outcomes exactly linear in the covariates within each cell and period: the doubly
    robust estimate is the triple difference of predictions for the effectively treated"""
    def fn(env):
        R = rng(seed)
        rows = design(sizes, seed)
        n = len(rows)
        x = [[round(R.uniform(-1, 1) + (0.8 * r[0] if strong else 0), 2) for r in rows] for _ in range(ncov)]
        B = {c: [env.var("b%d%d%d_%d" % (c + (k,))) for k in range(ncov + 1)] for c in CELLS}
        y = [B[c][0] + total([B[c][k + 1] * x[k][i] for k in range(ncov)]) for i, c in enumerate(rows)]
        r = fit(env, frame(env, rows, y, x), "dr", x)
        att = 0.0
        for c in CELLS:
            ref = [i for i in range(n) if rows[i] == (1, 1, c[2])]
            att = att + (B[c][0] + total([B[c][k + 1] * mean([x[k][i] for i in ref]) for k in range(ncov)])) * SIGN[c]
        env.eq("att", r.att, att)
    return fn


def weights(rows, x, trim):
    X = [[x[k][i] for k in range(len(x))] for i in range(len(rows))]
    cl = lambda v: min(max(v, trim), 1 - trim)
    pg = [cl(v) for v in logit(X, [q[0] for q in rows])]
    pp = [cl(v) for v in logit(X, [q[1] for q in rows])]
    w = []
    for (g, p, t), a, b in zip(rows, pg, pp):
        own = cl((a if g else 1 - a) * (b if p else 1 - b))
        w.append(cl(a * b) / own)
    return w


def cov_weighted(method, sizes, seed, ncov, trim=0.01, cl=None, strong=1.0, flat=()):
    """inverse probability weighting: cell means weighted by P(treated, eligible | x) / P(own cell | x);
    doubly robust: outcome-model prediction for the treated-eligible plus weighted mean residual"""
    def fn(env):
        R = rng(seed)
        rows = design(sizes, seed)
        n = len(rows)
        y = env.vec("y", n)
        x = [[round(R.uniform(-1, 1) + 0.3 * strong * q[0] - 0.2 * q[1] * strong, 2) for q in rows] for _ in range(ncov)]
        for i, q in enumerate(rows):
            if q in flat:  # first covariate absent in this cell
                x[0][i] = 0.0
        ids = None if cl is None else [i * 7 % cl for i in range(n)]
        r = fit(env, frame(env, rows, y, x, ids), method, x, ids, pscore_trim=trim)
        w = weights(rows, x, trim)
        att = 0.0
        for c in CELLS:
            ix = [i for i in range(n) if rows[i] == c]
            s = sum(w[i] for i in ix)
            if method == "ipw":
                att = att + total([y[i] * (w[i] / s) for i in ix]) * SIGN[c]
            else:
                ref = [i for i in range(n) if rows[i] == (1, 1, c[2])]
                D = lambda js: [[1.0] + [x[k][j] for k in range(ncov)] for j in js]
                live = [k for k in range(ncov + 1) if not (c in flat and k == 1)]
                bb, res = ols([[q[k] for k in live] for q in D(ix)], [y[i] for i in ix])
                b = [bb[live.index(k)] if k in live else 0.0 for k in range(ncov + 1)]
                pred = mean([lin(q, b) for q in D(ref)])
                att = att + (pred + total([e * (w[i] / s) for e, i in zip(res, ix)])) * SIGN[c]
        env.eq("att", r.att, att, tol=1e-5)
        if method == "ipw":
            env.eq("se2", r.se * r.se, psi_se2(rows, y, w, ids, method), tol=1e-5)
        counts(env, r, rows)
    return fn


def missing_cell(env):
    for k in range(8):
        rows = design([0 if i == k else 2 for i in range(8)], k)
        y = env.vec("y", len(rows))
        for m in ("reg", "ipw", "dr"):
            env.raises("cell%d.%s" % (k, m), ValueError, lambda: fit(env, frame(env, rows, y), m))
    rows = design([2] * 8)
    y = env.vec("y", 16)
    df = frame(env, rows, y)
    for c in "gpt":
        d2 = df.copy()
        d2[c] = [2 if i == 3 else v for i, v in enumerate(df[c])]
        env.raises("nonbinary." + c, ValueError, lambda: fit(env, d2, "dr"))
    env.raises("column", ValueError, lambda: env.dd.TripleDifference().fit(df, outcome="y", group="g", partition="p", time="zz"))
    d2 = df.copy()
    d2["x0"] = [float("nan") if i == 2 else 0.1 * i for i in range(16)]
    env.raises("nan-covariate", ValueError, lambda: fit(env, d2, "dr", x=(1,)))


def cases(tier):
    out = []
    B = "outcomes in [-3,3]"

    def add(nm, fn, b, **o):
        out.append(Case(nm, fn, bounds=b, opts=dict({"lazy": True}, **o)))
    S1 = (2, 3, 1, 2, 2, 1, 3, 2)
    S2 = (3, 2, 2, 4, 2, 3, 2, 2)
    for m in ("reg", "ipw", "dr"):
        for nm, s, k in (("bal", (2,) * 8, {}), ("unbal", S1, dict(seed=1)), ("classical", S2, dict(robust=False, seed=2)),
                         ("cluster", S2, dict(cl=5, seed=3)), ("cluster2", S1, dict(cl=3, seed=4, conv=True)),
                         ("kinds", S1, dict(kind="float", index="perm", seed=5)), ("conv", S2, dict(kind="bool" if m == "reg" else "int", index="dup", conv=True, seed=6)),
                         ("trim", S1, dict(seed=7, trim=0.2)), ("single", (1, 2, 1, 1, 1, 1, 2, 1), dict(seed=8))):
            add("%s-%s" % (m, nm), nocov(m, s, **k), B + ", cells %s, %s" % (s, k))
        add("%s-shift" % m, shift(m, S1, 1), B + ", constants and two-way effects in [-3,3], cells %s" % (S1,))
        add("%s-shift-cl" % m, shift(m, S1, 3, cl=4), B + ", constants and two-way effects, clusters, cells %s" % (S1,))
        add("%s-shift-cov" % m, shift(m, (3,) * 8, 2, ncov=1), B + ", constants, one covariate")
    add("reg-cov1", regcov((2, 3, 2, 2, 2, 3, 2, 2), 1, 1, True), B + ", one covariate, robust")
    add("reg-cov2", regcov((2, 3, 2, 2, 2, 3, 2, 2), 2, 2, False), B + ", two covariates, classical")
    add("reg-cov-cl", regcov((2, 3, 2, 2, 2, 3, 2, 2), 3, 2, True, cl=5), B + ", two covariates, clusters")
    add("reg-collinear", regcov((2, 3, 2, 2, 2, 3, 2, 2), 4, 1, True, collinear=True), B + ", a redundant covariate")
    add("dr-linear1", dr_linear((3, 4, 3, 3, 4, 3, 3, 5), 1, 1), "all cell intercepts and slopes in [-3,3]")
    add("dr-linear2", dr_linear((4, 5, 4, 4, 5, 4, 4, 4), 2, 2, True), "all cell intercepts and slopes in [-3,3], covariate shifted in the treated group")
    for m in ("ipw", "dr"):
        add("%s-cov1" % m, cov_weighted(m, (3, 4, 3, 3, 4, 3, 3, 4), 11, 1), B + ", one covariate")
        add("%s-cov2" % m, cov_weighted(m, (4, 5, 4, 4, 5, 4, 4, 4), 12, 2, cl=6), B + ", two covariates, clusters")
        add("%s-cov-trim" % m, cov_weighted(m, (3, 4, 3, 3, 4, 3, 3, 4), 13, 1, trim=0.3, strong=2.0), B + ", binding propensity trimming")
        add("%s-cov-flat" % m, cov_weighted(m, (3, 4, 3, 3, 4, 3, 3, 4), 14, 1, flat=((0, 1, 0), (1, 0, 1))), B + ", a covariate that does not vary in two cells")
        add("%s-cov2-flat" % m, cov_weighted(m, (4, 5, 4, 4, 5, 4, 4, 4), 15, 2, flat=((0, 0, 0), (0, 1, 1))), B + ", two covariates, one constant in two cells")
        add("%s-cov-pairs" % m, cov_weighted(m, (3, 2, 2, 3, 4, 2, 3, 2), 16, 1), B + ", one covariate, cells of two")
    add("missing", missing_cell, B)
    if tier == "thorough":
        for s in range(10):
            R = rng(s + 90)
            z = tuple(R.randint(2, 6) for _ in range(8))
            for m in ("reg", "ipw", "dr"):
                add("T-%s-%d" % (m, s), nocov(m, z, s, cl=R.choice([None, 3, 6])), B + ", cells %s" % (z,))
                z2 = tuple(v + 2 for v in z)
                if m != "reg":
                    add("Tw-%s-%d" % (m, s), cov_weighted(m, z2, s, R.randint(1, 2), cl=R.choice([None, 4])), B + ", covariates, cells %s" % (z2,))
                else:
                    add("Tw-reg-%d" % s, regcov(z2, s, R.randint(1, 3), True), B + ", covariates, cells %s" % (z2,))
                add("Ts-%s-%d" % (m, s), shift(m, z2, s, ncov=R.randint(0, 1)), B + ", constants, cells %s" % (z2,))
    return out
