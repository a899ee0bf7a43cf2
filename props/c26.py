"""C26: wild cluster bootstrap.  Either the outcomes or the cluster weights (drawn by a recording generator) are solver
variables; the draws' distribution, the comparison of studentised statistics under the null and the interval are
compared with a reference written from the definition of the restricted wild cluster bootstrap."""
import math
import warnings
from symx.harness import Case
from .common import *


def design(kind):
    """rows of (cluster, covariates of the design); concrete"""
    R = rng(11)
    if kind == "2x2":
        # 5 clusters, both periods, treated clusters 1 3
        g = [c for c in range(5) for t in (0, 1)]
        d = [c % 2 for c in g]
        t = [i % 2 for i in range(10)]
        X = [[1.0, a, b, a * b] for a, b in zip(d, t)]
        return X, g, 3
    if kind == "cov":
        g = ["b", "a", "a", "c", "b", "c", "d", "d", "a", "b", "d", "c"]
        X = [[1.0, float(i % 2), round(R.uniform(-1, 1), 2)] for i in range(12)]
        return X, g, 1
    if kind == "first":
        X, g, _ = design("cov")
        return X, g, 0
    if kind == "uneven":
        g = [7, 7, 7, 3, 3, 9, 9, 9, 9, 1]
        X = [[1.0, round(R.uniform(-1, 1), 2), round(R.uniform(0, 1), 2)] for _ in g]
        return X, g, 2
    if kind == "one":
        g = [0, 0, 1, 1, 2, 2, 3]
        return [[round(R.uniform(0.5, 2), 2)] for _ in g], g, 0


def outcome(env, n, free, seed=5):
    R = rng(seed)
    y = [round(R.uniform(-2, 2), 2) for _ in range(n)]
    for i in free:
        y[i] = env.var("y%d" % i)
    return y


def matrices(X):
    X = rnp.asarray(X, float)
    return X, rnp.linalg.inv(X.T @ X) @ X.T


class Wild:
    """definition: statistics under the null from restricted residuals, one weight per cluster; coefficient
    distribution from the unrestricted ones"""

    def __init__(self, X, y, g, j, null=0.0):
        self.X, A = matrices(X)
        self.n, self.k = self.X.shape
        self.A, self.a, self.g, self.j, self.null = A, A[j], list(g), j, null
        self.labs = sorted(set(g), key=str)
        G = len(self.labs)
        self.adj = (G / (G - 1)) * ((self.n - 1) / (self.n - self.k))
        self.b, self.V, self.e = self.stat(y)
        y0 = [v - null * self.X[i, j] for i, v in enumerate(y)]
        if self.k > 1:
            Xr, Ar = matrices(rnp.delete(self.X, j, axis=1))
            br = [lin(r, y0) for r in Ar]
            self.er = [y0[i] - lin(Xr[i], br) for i in range(self.n)]
        else:
            self.er = y0
        self.y = y

    def stat(self, y):
        b = [lin(r, y) for r in self.A]
        e = [y[i] - lin(self.X[i], b) for i in range(self.n)]
        V = 0.0
        for c in self.labs:
            s = lin([self.a[i] for i in range(self.n) if self.g[i] == c], [e[i] for i in range(self.n) if self.g[i] == c])
            V = V + s * s
        return b[self.j], V * self.adj, e

    def draw(self, w):
        """w: cluster -> weight; (coefficient of the unrestricted draw, restricted coefficient, its variance)"""
        full = self.b + lin(self.a, [self.e[i] * (w[self.g[i]] - 1.0) for i in range(self.n)])
        ys = [self.y[i] - self.er[i] + self.er[i] * w[self.g[i]] for i in range(self.n)]
        b, V, _ = self.stat(ys)
        return full, b, V


def weights_of(ref, drawn, b):
    # clusters in sorted order, one weight each, one round per draw
    labs = sorted(set(ref.g))
    return dict(zip(labs, drawn[b * len(labs):(b + 1) * len(labs)]))


def check(env, ref, r, drawn, B, alpha, sym_p=True):
    labs = sorted(set(ref.g))
    env.true("one-weight-per-cluster-and-draw", len(drawn) == B * len(labs))
    env.true("reported", r.n_clusters == len(labs) and r.n_bootstrap == B and abs(r.alpha - alpha) < 1e-12)
    t = r.t_stat_original
    env.eq("t2", t * t * ref.V, (ref.b - ref.null) * (ref.b - ref.null))
    env.le("t-sign", 0.0, t * (ref.b - ref.null))
    dist, conds, away = [], [], []
    d0 = (ref.b - ref.null) * (ref.b - ref.null)
    for b in range(B):
        w = weights_of(ref, drawn, b)
        if len({abs(x) for x in w.values() if not env.issym(x)}) == 1 and not any(env.issym(x) for x in w.values()):
            # a tie in every sample: decided by more than rounding only away from a zero statistic
            env.assume(abs(ref.b - ref.null) > 0.02)
        full, bs, Vs = ref.draw(w)
        dist.append(full)
        lhs, rhs = (bs - ref.null) * (bs - ref.null) * ref.V, d0 * Vs
        conds.append(lhs >= rhs * (1 - 2e-8))
        away.append(lhs - rhs)
    got = lst(r.bootstrap_distribution)
    env.true("draws", got is not None and len(got) == B)
    for b, (x, y) in enumerate(zip(got or [], dist)):
        env.eq("draw%d" % b, x, y)
    m = mean(dist)
    if B > 1:
        env.eq("se2", r.se * r.se * (B - 1), total([(x - m) * (x - m) for x in dist]))
        env.le("se>=0", 0.0, r.se)
    lo, hi = env.np.percentile(env.np.array(dist), alpha / 2 * 100), env.np.percentile(env.np.array(dist), (1 - alpha / 2) * 100)
    env.eq("ci-lower", r.ci_lower, lo)
    env.eq("ci-upper", r.ci_upper, hi)
    p = r.p_value
    env.lt("p>0", 0.0, p)
    env.le("p<=1", p, 1.0)
    if not sym_p:
        return
    floor = 1.0 / (B + 1)
    share = env.count(conds)
    if abs(p - floor) < 1e-12:
        env.eq("p-none", share, 0.0, away=away)
    else:
        env.eq("p-share", share, p * B, away=away)


def lst(x):
    return None if x is None else list(x.tolist() if hasattr(x, "tolist") else x)


class Mixed:
    """weights drawn by a seeded generator, those at the given positions free between the smallest and largest value"""

    def __init__(self, env, seed, free, sd):
        import numpy
        self.env, self.free, self.seed_arg, self.drawn = env, free, sd, []
        self.real = numpy.random.Generator(numpy.random.PCG64(seed))

    def choice(self, a, size=None, replace=True, p=None, **k):
        v = [float(x) for x in rnp.ravel(self.real.choice(a, size=size, replace=replace, p=p))]
        lo, hi = float(min(a)), float(max(a))
        for i in range(len(v)):
            if len(self.drawn) + i in self.free:
                v[i] = self.env.var("w%d" % (len(self.drawn) + i), lo, hi)
        self.drawn += v
        return self.env.np.array(v).reshape(size if isinstance(size, tuple) else (int(size),))


def direct(kind, free=(), law="rademacher", null=0.0, B=2, alpha=0.05, wfree=None, wsym=False, seed=3, sym_p=True):
    """y partly free with drawn weights, or y concrete with free weights"""
    def fn(env):
        X, g, j = design(kind)
        y = outcome(env, len(g), free)
        if wfree is not None:
            made = []

            def factory(sd=None):
                made.append(Mixed(env, seed, wfree, sd))
                return made[-1]
            env.set_rng(factory)
        else:
            made = env.fake_rng("w", seed=seed, concrete=not wsym)
        nu = env.var("null", -2, 2) if null == "sym" else null
        ref = Wild(X, y, g, j, nu)
        env.assume(ref.V > 0.01)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = env.dd.wild_bootstrap_se(env.np.array(X), env.np.array(y), env.np.array(ref.e), env.np.array(g), j, n_bootstrap=B, weight_type=law, null_hypothesis=nu, alpha=alpha, seed=17,
                                         return_distribution=True)
        env.true("one-generator", len(made) == 1 and made[0].seed_arg == 17)
        env.true("law", r.weight_type == law)
        if wsym or wfree:
            for b in range(B):
                env.assume(ref.draw(weights_of(ref, made[0].drawn, b))[2] > 0.001)
        check(env, ref, r, made[0].drawn, B, alpha, sym_p)
    return fn


def law(name, moments):
    """the drawn law: values and probabilities have mean zero and variance one"""
    def fn(env):
        X, g, j = design("2x2")
        y = outcome(env, len(g), (0, 3))
        made = env.fake_rng("w", concrete=True)
        env.dd.wild_bootstrap_se(env.np.array(X), env.np.array(y), None, env.np.array(g), j, n_bootstrap=2, weight_type=name, seed=4)
        env.true("one-generator", len(made) == 1)
        calls = [c for c in made[0].log if c[0] == "choice"]
        env.true("drawn-by-choice", len(calls) > 0)
        for c in calls:
            v = [float(x) for x in c[1]]
            p = [1.0 / len(v)] * len(v) if c[4] is None else [float(x) for x in c[4]]
            env.true("replacement", c[3])
            env.eq("probabilities", sum(p), 1.0)
            for k, m in enumerate(moments):
                env.eq("moment%d" % (k + 1), sum(a * b ** (k + 1) for a, b in zip(p, v)), m)
    return fn


def ties(kind, sign):
    """equal weights in all clusters reproduce the sample (or its mirror image): as extreme as the original"""
    def fn(env):
        X, g, j = design(kind)
        y = outcome(env, len(g), (0, 4, 7))
        ref = Wild(X, y, g, j)
        env.assume(ref.V > 0.01)
        env.assume(ref.b * ref.b > 0.01)

        class Same:
            def choice(self, a, size=None, **k):
                return env.np.array([float(sign)] * int(size))
        env.set_rng(lambda seed=None: Same())
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = env.dd.wild_bootstrap_se(env.np.array(X), env.np.array(y), None, env.np.array(g), j, n_bootstrap=3, seed=1)
        env.eq("p", r.p_value, 1.0)
    return fn


def errors(env):
    X, g, j = design("2x2")
    y = outcome(env, len(g), (0, 1))
    W = env.dd.wild_bootstrap_se
    a = [env.np.array(X), env.np.array(y), None]
    env.raises("law", ValueError, W, *a, env.np.array(g), j, n_bootstrap=2, weight_type="normal")
    env.raises("one-cluster", ValueError, W, *a, env.np.array([1] * len(g)), j, n_bootstrap=2)
    for G, few in ((4, True), (5, False)):
        gg = [i % G for i in range(len(g))]
        env.fake_rng("w", concrete=True)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            W(*a, env.np.array(gg), j, n_bootstrap=2, seed=1)
        env.true("warned%d" % G, any("clusters detected" in str(x.message) for x in w) == few)


# ------------------------------------------------------------------ estimators
def did_rows(G=5):
    return [(c, c % 2, t, i) for c in range(G) for t in (0, 1) for i in range(2 if c == 1 else 1)]


def estimator(which, cov=False, law="rademacher", alpha=0.05, free=(0, 5)):
    """the estimator reports the bootstrap of its own regression, with its own settings"""
    def fn(env):
        B = 2
        made = env.fake_rng("w", seed=8, concrete=True)
        kw = dict(inference="wild_bootstrap", n_bootstrap=B, bootstrap_weights=law, alpha=alpha, seed=23)
        if which == "did":
            rows = did_rows()
            n = len(rows)
            y = outcome(env, n, free)
            d = {"y": y, "d": [r[1] for r in rows], "t": [r[2] for r in rows], "c": [r[0] for r in rows]}
            X = [[1.0, r[1], r[2], r[1] * r[2]] for r in rows]
            if cov:
                R = rng(2)
                d["x"] = [round(R.uniform(-1, 1), 2) for _ in rows]
                X = [r + [x] for r, x in zip(X, d["x"])]
            df = env.pd.DataFrame(d)
            args = dict(outcome="y", treatment="d", time="t", covariates=["x"] if cov else None)
            est = env.dd.DifferenceInDifferences(cluster="c", **kw)
            plain = env.dd.DifferenceInDifferences(cluster="c", alpha=alpha)
            g, j, yy = d["c"], 3, y
        else:
            us, T = range(5), 2
            rows = [(u, t) for u in us for t in range(T)]
            n = len(rows)
            y = outcome(env, n, free)
            tr = [1 if u % 2 else 0 for u, t in rows]
            post = [t for u, t in rows]
            cl = [u if which == "twfe" else [0, 1, 2, 3, 3][u] for u, t in rows]
            df = env.pd.DataFrame({"y": y, "d": tr, "p": post, "u": [u for u, t in rows], "k": cl})
            args = dict(outcome="y", treatment="d", time="p", unit="u")
            k = {} if which == "twfe" else {"cluster": "k"}
            est = env.dd.TwoWayFixedEffects(**k, **kw)
            plain = env.dd.TwoWayFixedEffects(alpha=alpha, **k)

            def dem(v):
                m = mean(v)
                mu = {u: mean([v[i] for i in range(n) if rows[i][0] == u]) for u in us}
                mt = {t: mean([v[i] for i in range(n) if rows[i][1] == t]) for t in range(T)}
                return [v[i] - mu[rows[i][0]] - mt[rows[i][1]] + m for i in range(n)]
            yy = dem(y)
            X = [[1.0, x] for x in dem([float(a * b) for a, b in zip(tr, post)])]
            g, j = cl, 1
        ref = Wild(X, yy, g, j)
        env.assume(ref.V > 0.01)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = est.fit(df, **args)
            q = plain.fit(df, **args)
        env.true("seed", len(made) == 1 and made[0].seed_arg == 23)
        env.true("method", r.inference_method == "wild_bootstrap" and r.n_bootstrap == B and r.n_clusters == len(set(g)))
        env.true("plain-method", q.inference_method == "analytical")
        env.eq("att", r.att, ref.b)
        env.eq("att-plain", r.att, q.att)
        drawn = made[0].drawn
        env.true("weights", len(drawn) == B * len(set(g)))
        t = r.t_stat
        env.eq("t2", t * t * ref.V, ref.b * ref.b)
        env.le("t-sign", 0.0, t * ref.b)
        dist, conds, away = [], [], []
        for b in range(B):
            full, bs, Vs = ref.draw(weights_of(ref, drawn, b))
            dist.append(full)
            conds.append(bs * bs * ref.V >= ref.b * ref.b * Vs * (1 - 2e-8))
            away.append(bs * bs * ref.V - ref.b * ref.b * Vs)
        m = mean(dist)
        env.eq("se2", r.se * r.se * (B - 1), total([(x - m) * (x - m) for x in dist]))
        for nm, x, qn in (("lo", r.conf_int[0], alpha / 2), ("hi", r.conf_int[1], 1 - alpha / 2)):
            env.eq("ci-" + nm, x, env.np.percentile(env.np.array(dist), qn * 100))
        share = env.count(conds)
        if abs(r.p_value - 1.0 / (B + 1)) < 1e-12:
            env.eq("p-none", share, 0.0, away=away)
        else:
            env.eq("p-share", share, r.p_value * B, away=away)
        env.true("significant", r.is_significant == (r.p_value < alpha))
    return fn


def analytic(env):
    """without clusters the bootstrap is not run; the analytic results stand"""
    rows = did_rows()
    y = outcome(env, len(rows), (0, 5, 7))
    df = env.pd.DataFrame({"y": y, "d": [r[1] for r in rows], "t": [r[2] for r in rows]})
    a = env.dd.DifferenceInDifferences(inference="wild_bootstrap", n_bootstrap=2, seed=1).fit(df, outcome="y", treatment="d", time="t")
    b = env.dd.DifferenceInDifferences().fit(df, outcome="y", treatment="d", time="t")
    env.true("method", a.inference_method == "analytical" and a.n_bootstrap is None)
    for k in ("att", "se", "t_stat", "p_value"):
        env.eq(k, getattr(a, k), getattr(b, k))


def collinear(env):
    """a dropped covariate does not change or prevent the bootstrap of the identified effect"""
    rows = did_rows()
    y = outcome(env, len(rows), (5,))
    df = env.pd.DataFrame({"y": y, "d": [r[1] for r in rows], "t": [r[2] for r in rows], "c": [r[0] for r in rows], "x": [3.0 * r[1] for r in rows]})
    out = []
    for cov in (None, ["x"]):
        made = env.fake_rng("w", seed=8, concrete=True)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = env.dd.DifferenceInDifferences(cluster="c", inference="wild_bootstrap", n_bootstrap=2, seed=1).fit(df, outcome="y", treatment="d", time="t", covariates=cov)
        out.append(r)
    a, b = out
    env.eq("att", a.att, b.att)
    env.eq("se", a.se, b.se)
    env.eq("lo", a.conf_int[0], b.conf_int[0])
    env.eq("hi", a.conf_int[1], b.conf_int[1])


def cases(tier):
    out = []
    for nm, mom in (("rademacher", (0, 1)), ("webb", (0, 1)), ("mammen", (0, 1, 1))):
        out.append(Case("law-" + nm, law(nm, mom), bounds="the drawn law"))
    KIND = (("2x2", (0, 5)), ("cov", (1, 4)), ("uneven", (2, 9)), ("one", (0, 3)), ("first", (3, 8)))
    for kind, free in KIND:
        # the p-value with one free outcome or weight, everything else with several
        out.append(Case("outcome-" + kind, direct(kind, free[:1]), bounds="one free outcome, 2 draws"))
        out.append(Case("outcome2-" + kind, direct(kind, free[1:], alpha=0.1, seed=9), bounds="one free outcome, 2 draws"))
        out.append(Case("weight-" + kind, direct(kind, wfree=(1,), B=2), bounds="one free weight, 2 draws"))
        out.append(Case("weights-" + kind, direct(kind, wsym=True, B=1, sym_p=False), bounds="all weights in the hull of the law, 1 draw; no p-value"))
    for lw in ("webb", "mammen"):
        out.append(Case("outcome-" + lw, direct("cov", (7,), law=lw, alpha=0.1), bounds="one free outcome, 2 draws"))
        out.append(Case("weight-" + lw, direct("uneven", wfree=(6,), law=lw), bounds="one free weight, 2 draws"))
        out.append(Case("weights-" + lw, direct("uneven", wsym=True, B=1, law=lw, sym_p=False), bounds="all weights, 1 draw; no p-value"))
    out.append(Case("null-fixed", direct("cov", (7,), null=1.5), bounds="H0 value 1.5, one free outcome"))
    out.append(Case("null-free", direct("uneven", (), null="sym"), bounds="H0 value free in (-2,2)"))
    out.append(Case("draws-3", direct("2x2", (2,), B=3, alpha=0.2), bounds="one free outcome, 3 draws"))
    for s in (1, -1):
        out.append(Case("ties%+d" % s, ties("2x2", s), bounds="3 free outcomes, equal weights"))
        out.append(Case("ties-cov%+d" % s, ties("cov", s), bounds="3 free outcomes, equal weights"))
    out.append(Case("errors", errors))
    for nm, a in (("did", dict(which="did")), ("did-cov", dict(which="did", cov=True, law="webb", alpha=0.1)), ("twfe", dict(which="twfe")), ("twfe-cluster", dict(which="twfe-k", law="mammen"))):
        out.append(Case("fit-" + nm, estimator(free=(5,), **a), bounds="one free outcome, 2 draws"))
    out.append(Case("no-cluster", analytic))
    out.append(Case("collinear", collinear, bounds="one free outcome"))
    if tier == "thorough":
        for kind, free in KIND:
            out.append(Case("deep-%s" % kind, direct(kind, free), bounds="2 free outcomes, 2 draws"))
            out.append(Case("deep-draws-%s" % kind, direct(kind, free[:1], B=5), bounds="1 free outcome, 5 draws"))
            out.append(Case("deep-weights-" + kind, direct(kind, wsym=True, B=1), bounds="all weights, 1 draw"))
            out.append(Case("deep-weights2-" + kind, direct(kind, wsym=True, B=2, sym_p=False), bounds="all weights, 2 draws; no p-value"))
            for i in range(10):
                out.append(Case("deep-each-%s-%d" % (kind, i), direct(kind, (i % (7 if kind == "one" else 10),), seed=20 + i), bounds="1 free outcome, 2 draws"))
    return out
