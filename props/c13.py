"""C13: simplex projection, synthetic unit and time weights."""
import contextlib
from symx.harness import Case, Skip
from .common import *


def simplex(env):
    u = env.mod("utils")
    f = getattr(u, "_project_simplex", None) or getattr(u, "project_simplex", None)
    if f is None:
        names = [k for k in dir(u) if "simplex" in k.lower() and callable(getattr(u, k))]
        f = getattr(u, names[0]) if names else None
    if f is None:
        env.note("no projection routine of its own")
        raise Skip()
    return f


def project(n, ties=None, scale=2.0):
    def fn(env):
        v = env.vec("v", n, -scale, scale)
        if ties:
            v = [v[i] for i in ties]
        m = len(v)
        w = list(simplex(env)(env.np.array(v)))
        env.true("len", len(w) == m)
        env.eq("sum", total(w), 1.0)
        for i in range(m):
            env.le("nonneg%d" % i, 0.0, w[i])
        # variational characterisation of the Euclidean projection: (v-w).(p-w) <= 0 for every
        # point p of the simplex (linear in p, p symbolic)
        r = [v[i] - w[i] for i in range(m)]
        if n <= 3:
            p = env.vec("p", m - 1, 0.0, 1.0)
            env.assume(total(p) <= 1.0)
            p = p + [1.0 - total(p)]
            env.le("closest", total([r[i] * (p[i] - w[i]) for i in range(m)]), 0.0)
        # the same optimality, linear: mass only where v_i - w_i is largest
        for i in range(m):
            for j in range(m):
                if i != j:
                    env.true("kkt%d%d" % (i, j), env.any_of(w[i] <= 1e-7, r[i] >= r[j] - 1e-7))
        for i in range(m):
            for j in range(i):
                # order preserving and 1-Lipschitz on differences
                env.true("order%d%d" % (i, j), env.any_of(v[i] <= v[j], w[i] >= w[j] - 1e-7))
                env.true("order%d%d" % (j, i), env.any_of(v[j] <= v[i], w[j] >= w[i] - 1e-7))
    return fn


def ordered(n, perm, scale=1.0):
    """all vectors whose entries have the given order (any length: one sorting path)"""
    def fn(env):
        g = [env.var("top", -scale, scale)] + [env.var("gap%d" % i, 0.0, scale) for i in range(1, n)]
        s = [g[0]]
        for x in g[1:]:
            s.append(s[-1] - x)
        v = [s[perm[i]] for i in range(n)]
        w = list(simplex(env)(env.np.array(v)))
        env.eq("sum", total(w), 1.0)
        r = [v[i] - w[i] for i in range(n)]
        for i in range(n):
            env.le("nonneg%d" % i, 0.0, w[i])
            for j in (perm.index(0), perm.index(n - 1), (i + 1) % n):
                if i != j:
                    env.true("kkt%d%d" % (i, j), env.any_of(w[i] <= 1e-7, r[i] >= r[j] - 1e-7))
    return fn


def fixed(n):
    def fn(env):
        v = env.vec("v", n - 1, 0.0, 1.0)
        env.assume(total(v) <= 1.0)
        v = v + [1.0 - total(v)]
        env.eqs("fixed", list(simplex(env)(env.np.array(v))), v)
    return fn


def shift(n):
    def fn(env):
        v = env.vec("v", n, -2, 2)
        c = env.var("c", -3, 3)
        env.eqs("shift", list(simplex(env)(env.np.array([x + c for x in v]))), list(simplex(env)(env.np.array(v))))
    return fn


@contextlib.contextmanager
def iterations(env, k):
    u = env.mod("utils")
    old = getattr(u, "_OPTIMIZATION_MAX_ITER", None)
    try:
        if old is not None:
            u._OPTIMIZATION_MAX_ITER = k
        yield
    finally:
        if old is not None:
            u._OPTIMIZATION_MAX_ITER = old


def unit_weights(Yc, lam=0.0, iters=2, lo=-3, hi=3, minw=None):
    n_pre, n = len(Yc), len(Yc[0])

    def fn(env):
        T = env.vec("t", n_pre, lo, hi)
        kw = {} if minw is None else {"min_weight": minw}
        with iterations(env, iters):
            w = list(env.dd.utils.compute_synthetic_weights(env.np.array([[float(x) for x in r] for r in Yc]), env.np.array(T), lambda_reg=lam, **kw))
        env.true("len", len(w) == n)
        env.eq("sum", total(w), 1.0)
        for i in range(n):
            env.le("nonneg%d" % i, 0.0, w[i])

        def obj(x):
            o = 0.0
            for t in range(n_pre):
                d = T[t] - lin([Yc[t][j] for j in range(n)], x) if not all(isinstance(q, float) for q in x) else T[t] - sum(Yc[t][j] * x[j] for j in range(n))
                o = o + d * d
            return o + lam * total([(q - 1.0 / n) * (q - 1.0 / n) for q in x])
        env.le("no-worse-than-uniform", obj(w), obj([1.0 / n] * n), tol=1e-4)
    return fn


def time_weights(n_pre, n, zeta, above=None):
    """above: treated path known to lie above (True) / below (False) the controls in each period"""
    def fn(env):
        R = rng(n_pre)
        if above is None:
            Yc = [[env.var("c%d_%d" % (t, j), -3, 3) for j in range(n)] for t in range(n_pre)]
            T = env.vec("t", n_pre)
        else:
            # gaps to the controls grow with t: a, a+b1, a+b1+b2, ...
            Yc = [[round(R.uniform(-0.5, 0.5), 2) for j in range(n)] for t in range(n_pre)]
            g = [env.var("a", 0.05, 1.0)] + [env.var("b%d" % t, 0.0, 1.0) for t in range(1, n_pre)]
            T = [total(g[:t + 1]) * (1.0 if x else -1.0) + mean(Yc[t]) for t, x in enumerate(above)]
        w = list(env.mod("utils").compute_time_weights(env.np.array(Yc), env.np.array(T), zeta=zeta))
        env.true("len", len(w) == n_pre)
        env.eq("sum", total(w), 1.0)
        for t in range(n_pre):
            env.le("nonneg%d" % t, 0.0, w[t])
        if above is None:
            return
        for t in range(1, n_pre):
            # the period where the treated path is closer to the controls never gets less weight
            env.le("closer%d" % t, w[t], w[t - 1])
    return fn


def degenerate(env):
    u = env.mod("utils")
    t = env.vec("t", 3)
    env.eqs("one-control", list(u.compute_synthetic_weights(env.np.array([[x] for x in env.vec("c", 3)]), env.np.array(t))), [1.0])
    env.true("no-control", len(u.compute_synthetic_weights(env.np.array(t)[:, None][:, :0], env.np.array(t))) == 0)
    env.eqs("one-period", list(u.compute_time_weights(env.np.array([[t[0], t[1]]]), env.np.array([t[2]]))), [1.0])
    # a floor above every weight leaves the uniform weights
    Yc = env.np.array([[1.0, 2.0, 0.5], [0.3, 1.0, 2.0]])
    with iterations(env, 1):
        w = list(u.compute_synthetic_weights(Yc, env.np.array(t[:2]), min_weight=2.0))
    env.eqs("all-floored", w, [1.0 / 3] * 3)


def cases(tier):
    out = []
    th = tier == "thorough"
    mp = dict(max_paths=5000 if th else 600, budget=1500 if th else 150)
    for n in (1, 2, 3, 4) + ((5,) if th else ()):
        if n > 1:
            out.append(Case("project%d" % n, project(n), bounds="all vectors of length %d in [-2,2], every competing simplex point" % n, **mp))
        if 1 < n < 5:
            out.append(Case("fixed%d" % n, fixed(n), bounds="all points of the %d-simplex" % n, **mp))
        if 1 < n < 4:
            out.append(Case("shift%d" % n, shift(n), bounds="all vectors of length %d, all shifts" % n, **mp))
    for n in (5, 6, 8, 12) + ((10, 20, 30) if th else ()):
        p = list(range(n))
        rng(n).shuffle(p)
        out.append(Case("ordered%d" % n, ordered(n, p, 0.4), bounds="all vectors of length %d with entries ordered as %s, top in [-.4,.4], gaps in [0,.4]" % (n, p), **mp))
    out.append(Case("ties3", project(2, [0, 1, 0]), bounds="length 3 with a tie", **mp))
    out.append(Case("ties4", project(2, [0, 0, 1, 1]), bounds="length 4 with two ties", **mp))
    out.append(Case("project-large", project(3, scale=100.0), bounds="length 3 in [-100,100]", **mp))

    def uw(nm, *a, **k):
        out.append(Case(nm, unit_weights(*a, **k), bounds="treated path in [-3,3]; controls %s, %s" % (a[0], k), **mp))
    uw("unit-2x2", [[1.0, 2.5], [0.5, -1.0]])
    uw("unit-2x3", [[1.0, 2.5, 0.0], [0.5, -1.0, 2.0]], iters=1)
    uw("unit-2x3-reg", [[1.0, 2.5, 0.0], [0.5, -1.0, 2.0]], lam=2.0, iters=1, lo=-2, hi=2)
    uw("unit-3x2-reg", [[1.0, 0.2], [0.5, -1.0], [2.0, 1.0]], lam=0.7, iters=2)
    uw("unit-1x3", [[1.0, 2.5, -2.0]], iters=1)
    uw("unit-2x2-it3", [[1.0, 2.5], [0.5, -1.0]], iters=3, lam=0.1)
    for n_pre, n, z, ab in ((2, 2, 1.0, None), (3, 2, 0.0, None), (3, 3, 0.0, None), (2, 1, 5.0, None),
                            (2, 2, 1.0, [True, False]), (2, 3, 0.0, [True, True]), (3, 2, 0.0, [True, False, True]), (2, 2, 4.0, [False, False])):
        out.append(Case("time-%d-%d-%g%s" % (n_pre, n, z, "" if ab is None else "-" + "".join("ud"[not x] for x in ab)), time_weights(n_pre, n, z, ab),
                        opts={"no_square": True},
                        bounds="%d pre-periods, %d controls, zeta %g, %s" % (n_pre, n, z, "all paths in [-3,3]" if ab is None else "treated path on a known side"), **mp))
    out.append(Case("degenerate", degenerate, bounds="paths in [-3,3]", **mp))
    if th:
        uw("unit-3x3", [[1.0, 2.5, 0.0], [0.5, -1.0, 2.0], [0.2, 0.4, 0.1]], iters=2)
        uw("unit-2x4", [[1.0, 2.5, 0.0, -1.0], [0.5, -1.0, 2.0, 0.3]], iters=1)
        uw("unit-2x2-it5", [[1.0, 2.5], [0.5, -1.0]], iters=5)
    return out
