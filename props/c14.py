"""C14: synthetic difference-in-differences.  The weight optimisers (C13) are replaced by
arbitrary points of the simplex: solver variables that the harness records."""
import contextlib
from symx.harness import Case
from .common import *
from .c10 import stats_of


def sdid(Yc, Yt, w, lam, pre, post):
    """Yc: {unit: {period: y}}, Yt likewise; w {unit: weight}, lam {period: weight}"""
    ch = lambda Y: mean([Y[t] for t in post]) - total([lam[t] * Y[t] for t in pre])
    tr = mean([ch(Yt[u]) for u in Yt])
    return tr - total([w[u] * ch(Yc[u]) for u in Yc])


def point(env, tag, n, sym=True, seed=0):
    """a point of the simplex (interior box around it) with n coordinates"""
    if n == 1:
        return [1.0]
    if not sym:
        R = rng(seed)
        v = [R.randint(1, 5) for _ in range(n)]
        return [x / sum(v) for x in v]
    v = [env.var("%s%d" % (tag, i), 0.0, 1.0 / n) for i in range(n - 1)]
    return v + [1.0 - total(v)]


@contextlib.contextmanager
def weights(env, calls, sym):
    """both optimisers return recorded simplex points"""
    saved = []

    def stub(kind):
        def f(Yc, Yt, *a, **k):
            n = env.np.asarray(Yc).shape[1] if kind == "unit" else len(Yt)
            w = point(env, "%s%d_" % (kind, len(calls)), n, sym if len(calls) < 2 else False, len(calls))
            calls.append((kind, Yc, Yt, list(w), a, k))
            return env.np.array(w)
        return f
    for m in ("utils", "synthetic_did"):
        mod = env.mod(m)
        for nm, kind in (("compute_synthetic_weights", "unit"), ("compute_time_weights", "time")):
            if hasattr(mod, nm):
                saved.append((mod, nm, getattr(mod, nm)))
                setattr(mod, nm, stub(kind))
    try:
        yield
    finally:
        for mod, nm, f in saved:
            setattr(mod, nm, f)


def panel(nt, nc, periods, names=False, seed=0):
    R = rng(seed + 77)
    units = list(range(nt + nc))
    R.shuffle(units)
    tr = sorted(units[:nt])
    lab = (lambda u: "s%d" % (u * 7 % 31)) if names else (lambda u: u + 10)
    rows = [(lab(u), t, 1 if u in tr else 0) for u in range(nt + nc) for t in periods]
    return rows


def frame(env, rows, y, order=None, extra=None):
    ix = order or list(range(len(rows)))
    d = {"y": [y[i] for i in ix], "u": [rows[i][0] for i in ix], "t": [rows[i][1] for i in ix], "d": [rows[i][2] for i in ix]}
    for k, v in (extra or {}).items():
        d[k] = [v[i] for i in ix]
    return env.pd.DataFrame(d)


def table(rows, y, d):
    o = {}
    for (u, t, g), v in zip(rows, y):
        if g == d:
            o.setdefault(u, {})[t] = v
    return o


def split(periods, post):
    P = sorted(periods)
    if post is None:
        return P[:len(P) // 2], P[len(P) // 2:]
    return [t for t in P if t not in post], list(post)


def check_calls(env, nm, calls, Yc, Yt, pre):
    for kind, a, b, w, pos, kw in calls:
        env.eqs(nm + kind + ".controls", list(env.np.asarray(a).ravel()), [Yc[u][t] for t in pre for u in Yc])
        env.eqs(nm + kind + ".treated", list(b), [mean([Yt[u][t] for u in Yt]) for t in pre])


def fit_case(nt, nc, periods, post=None, order=False, names=False, seed=0, wsym=True, B=3, method="placebo", alpha=0.1, spread=None, lam=0.5, zeta=2.0, effect=1.0):
    def fn(env):
        R = rng(seed)
        rows = panel(nt, nc, periods, names, seed)
        n = len(rows)
        if spread is None:
            y = env.vec("y", n)
        else:
            e = env.vec("e", n, -spread, spread)
            y = [v + round(R.uniform(-1, 1), 2) + (effect if g and t in split(periods, post)[1] else 0) for v, (u, t, g) in zip(e, rows)]
        o = list(range(n))
        if order:
            R.shuffle(o)
        Yc, Yt = table(rows, y, 0), table(rows, y, 1)
        key = lambda d: {k: d[k] for k in sorted(d)}
        Yc, Yt = key(Yc), key(Yt)
        pre, pst = split(periods, post)
        made = env.fake_rng("w", seed=seed)
        calls = []
        with weights(env, calls, wsym):
            r = env.dd.SyntheticDiD(variance_method=method, n_bootstrap=B, seed=3, alpha=alpha, lambda_reg=lam, zeta=zeta).fit(
                frame(env, rows, y, o), outcome="y", treatment="d", unit="u", time="t", post_periods=post)
        env.true("pre/post", list(map(int, r.pre_periods)) == list(pre) and list(map(int, r.post_periods)) == list(pst))
        env.true("n", r.n_treated == nt and r.n_control == nc and r.n_obs == n)
        env.true("unit-keys", sorted(r.unit_weights, key=str) == sorted(Yc, key=str))
        env.true("time-keys", sorted(map(int, r.time_weights)) == sorted(pre))
        w, tl = dict(r.unit_weights), {int(k): v for k, v in r.time_weights.items()}
        main = calls[:2]
        env.true("kinds", sorted(c[0] for c in main) == ["time", "unit"])
        check_calls(env, "main.", main, Yc, Yt, pre)
        for c in main:
            env.true("regularisation." + c[0], (list(c[4]) + list(c[5].values())) == [lam if c[0] == "unit" else zeta])
            env.eqs("reported." + c[0], [w[u] for u in Yc] if c[0] == "unit" else [tl[t] for t in pre], c[3])
        att = sdid(Yc, Yt, w, tl, pre, pst)
        env.eq("att", r.att, att)
        fit2 = mean([(mean([Yt[u][t] for u in Yt]) - total([w[u] * Yc[u][t] for u in Yc])) * (mean([Yt[u][t] for u in Yt]) - total([w[u] * Yc[u][t] for u in Yc])) for t in pre])
        if spread is not None:
            env.eq("rmse2", r.pre_treatment_fit * r.pre_treatment_fit, fit2)
        env.true("one-generator", len(made) == 1 and made[0].seed_arg == 3)
        picks = [list(p) for m in made for p in m.picks]
        env.true("replications", len(picks) == B)
        draws = []
        cu = list(Yc)
        if method == "placebo":
            for p in picks:
                p = [int(x) for x in p]
                env.true("permutation", sorted(p) == list(range(nc)))
                pc, pt = p[:nc - nt], p[nc - nt:]
                s = total([w[cu[i]] for i in pc])
                draws.append(sdid({cu[i]: Yc[cu[i]] for i in pc}, {cu[i]: Yc[cu[i]] for i in pt}, {cu[i]: w[cu[i]] / s for i in pc}, tl, pre, pst))
        else:
            k = 2
            for b, p in enumerate(picks):
                lab = lambda x: x if isinstance(x, str) else int(x)
                p = [lab(x) for x in p]
                env.true("resample-pool", len(p) == nt + nc and set(p) <= set(Yc) | set(Yt))
                C = {"%s_%d" % (u, i): Yc[u] for i, u in enumerate(p) if u in Yc}
                T = {"%s_%d" % (u, i): Yt[u] for i, u in enumerate(p) if u in Yt}
                if not C or not T:
                    continue
                cc = calls[k:k + 2]
                k += 2
                check_calls(env, "boot%d." % b, cc, C, T, pre)
                for c in cc:
                    env.true("boot%d.reg" % b, (list(c[4]) + list(c[5].values())) == [lam if c[0] == "unit" else zeta])
                bw = [c[3] for c in cc if c[0] == "unit"][0]
                bt = [c[3] for c in cc if c[0] == "time"][0]
                draws.append(sdid(C, T, dict(zip(C, bw)), dict(zip(pre, bt)), pre, pst))
        env.eqs("replicates", list(r.placebo_effects), draws)
        if wsym:
            return
        m = len(draws)
        mu = mean(draws)
        ss = total([(d - mu) * (d - mu) for d in draws])
        env.eq("se2", r.se * r.se, ss / m if method == "placebo" else ss / (m - 1))
        if env.nanval(r.t_stat):
            env.eq("zero-se", r.se, 0.0)
        else:
            env.eq("t", r.t_stat * r.se, att)
        env.eq("lo", r.conf_int[0], att - r.se * zcrit(alpha))
        env.eq("hi", r.conf_int[1], att + r.se * zcrit(alpha))
        if method == "placebo":
            if spread is not None:
                sg = 1.0 if effect > 0 else -1.0
                k = env.count([env.any_of(d >= att * sg, d <= -(att * sg)) for d in draws])
                env.eq("p", r.p_value, env.np.maximum(k / m, 1.0 / (m + 1)), away=[d - att for d in draws] + [d + att for d in draws] + [att])
        else:
            env.eq("p-normal", r.p_value, env.mod("utils").compute_p_value(r.t_stat))
        env.true("labels", r.variance_method == method and r.alpha == alpha)
    return fn


def formula(n_pre, n_post, nc):
    """the estimator for all outcomes and all weights; shocks and unit constants cancel"""
    def fn(env):
        f = env.dd.utils.compute_sdid_estimator if hasattr(env.dd, "utils") else env.mod("utils").compute_sdid_estimator
        A = [[env.var("a%d_%d" % (t, j), -3, 3) for j in range(nc)] for t in range(n_pre)]
        B = [[env.var("b%d_%d" % (t, j), -3, 3) for j in range(nc)] for t in range(n_post)]
        x, z = env.vec("x", n_pre), env.vec("z", n_post)
        w, l = point(env, "w", nc), point(env, "l", n_pre)
        ar = env.np.array
        tau = f(ar(A), ar(B), ar(x), ar(z), ar(w), ar(l))
        pre, post = list(range(n_pre)), list(range(n_pre, n_pre + n_post))
        Yc = {j: {t: (A + B)[t][j] for t in pre + post} for j in range(nc)}
        Yt = {0: {t: (x + z)[t] for t in pre + post}}
        env.eq("formula", tau, sdid(Yc, Yt, dict(enumerate(w)), dict(enumerate(l)), pre, post))
        d = env.vec("d", n_pre + n_post)
        u = env.vec("f", nc + 1)
        A2 = [[A[t][j] + d[t] + u[j] for j in range(nc)] for t in pre]
        B2 = [[B[t][j] + d[n_pre + t] + u[j] for j in range(nc)] for t in range(n_post)]
        x2 = [x[t] + d[t] + u[nc] for t in pre]
        z2 = [z[t] + d[n_pre + t] + u[nc] for t in range(n_post)]
        env.eq("invariant", f(ar(A2), ar(B2), ar(x2), ar(z2), ar(w), ar(l)), tau)
        e = env.var("e")
        env.eq("effect", f(ar(A), ar(B), ar(x), ar([v + e for v in z]), ar(w), ar(l)), tau + e)
    return fn


def real_weights(nt, nc, periods, post, seed=0, cov=False, tr=None):
    """unpatched optimiser: concrete pre-period outcomes, all post-period outcomes"""
    def fn(env):
        R = rng(seed)
        rows = panel(nt, nc, periods, False, seed)
        pre, pst = split(periods, post)
        v = iter(env.vec("y", sum(1 for q in rows if q[1] in pst)))
        y = [next(v) if q[1] in pst else round(R.uniform(-2, 2), 2) for q in rows]
        made = env.fake_rng("w", seed=seed)
        r = env.dd.SyntheticDiD(variance_method="placebo", n_bootstrap=2, seed=1).fit(
            frame(env, rows, y), outcome="y", treatment="d", unit="u", time="t", post_periods=post)
        Yc, Yt = table(rows, y, 0), table(rows, y, 1)
        w = {k: float(env.value(x)) for k, x in r.unit_weights.items()}
        tl = {int(k): float(env.value(x)) for k, x in r.time_weights.items()}
        env.eq("w-sum", sum(w.values()), 1.0)
        env.eq("l-sum", sum(tl.values()), 1.0)
        env.true("nonneg", min(w.values()) >= 0 and min(tl.values()) >= 0)
        env.eq("att", r.att, sdid(Yc, Yt, w, tl, pre, pst))
        # optimality of the unit weights on the pre-period fit (all competing vertices)
        g = {u: sum(2 * (sum(w[j] * Yc[j][t] for j in Yc) - sum(Yt[i][t] for i in Yt) / nt) * Yc[u][t] for t in pre) for u in Yc}
        gw = sum(w[u] * g[u] for u in Yc)
        for u in Yc:
            env.true("optimal%s" % u, g[u] - gw >= -1e-3)
        d = {t: env.var("d%s" % t, -3, 3) for t in pst}
        y2 = [a + d[q[1]] if q[1] in pst else a for a, q in zip(y, rows)]
        env.fake_rng("w", seed=seed)
        r2 = env.dd.SyntheticDiD(variance_method="placebo", n_bootstrap=2, seed=1).fit(
            frame(env, rows, y2), outcome="y", treatment="d", unit="u", time="t", post_periods=post)
        env.eq("common-shock", r2.att, r.att)
        env.eq("common-shock-se2", r2.se * r2.se, r.se * r.se)
    return fn


def residual_case(env):
    """covariates are partialled out with unit and period effects before weighting"""
    R = rng(5)
    rows = panel(1, 3, [1, 2, 3, 4], False, 5)
    n = len(rows)
    y = env.vec("y", n)
    x = [round(R.uniform(-1, 1), 2) for _ in rows]
    made = env.fake_rng("w", seed=2)
    calls = []
    with weights(env, calls, False):
        r = env.dd.SyntheticDiD(variance_method="placebo", n_bootstrap=2).fit(
            frame(env, rows, y, extra={"x": x}), outcome="y", treatment="d", unit="u", time="t", covariates=["x"])
    us, ts = sorted({q[0] for q in rows}), sorted({q[1] for q in rows})
    X = rnp.array([[1.0, x[i]] + [float(q[0] == u) for u in us[1:]] + [float(q[1] == t) for t in ts[1:]] for i, q in enumerate(rows)])
    b, res = ols(X, y)
    my = mean(y)
    z = [v + my for v in res]
    Yc, Yt = table(rows, z, 0), table(rows, z, 1)
    env.eq("att", r.att, sdid(Yc, Yt, dict(r.unit_weights), {int(k): v for k, v in r.time_weights.items()}, [1, 2], [3, 4]))


def too_few(env):
    """no placebo split possible: no inference is reported"""
    rows = panel(2, 2, [1, 2, 3, 4], False, 1)
    y = env.vec("y", len(rows))
    calls = []
    with weights(env, calls, False):
        r = env.dd.SyntheticDiD(variance_method="placebo", n_bootstrap=3).fit(frame(env, rows, y), outcome="y", treatment="d", unit="u", time="t")
    for x in (r.t_stat, r.p_value):
        env.isnan("nan", x)


def cases(tier):
    out = []
    L = {"lazy": True}

    def add(nm, *a, **k):
        out.append(Case(nm, fit_case(*a, **k), opts=L,
                        bounds="outcomes %s, every simplex weighting %s; %d treated, %d controls, periods %s, %s" % (
                            "in [-3,3]" if k.get("spread") is None else "within %s of a panel" % k["spread"],
                            "" if k.get("wsym", True) else "(one point)", a[0], a[1], list(a[2]), k)))
    for a in ((2, 1, 2), (1, 2, 3), (3, 2, 2)):
        out.append(Case("formula-%d-%d-%d" % a, formula(*a), bounds="all outcomes in [-3,3], all simplex weights, shocks, constants; %d pre, %d post, %d controls" % a))
    add("fit-1x3", 1, 3, range(1, 5), B=3, method="bootstrap", seed=8)
    add("fit-2x3", 2, 3, range(1, 6), [4, 5], order=True, B=3, method="bootstrap", seed=10)
    add("fit-names", 1, 3, range(1, 6), [5], order=True, names=True, B=3, method="bootstrap", seed=9)
    add("fit-gap", 1, 2, range(1, 6), [2, 4], B=2, wsym=False)
    add("placebo", 1, 4, range(1, 5), wsym=False, spread=0.1, B=4)
    add("placebo2", 2, 5, range(1, 6), [4, 5], wsym=False, spread=0.1, B=3, order=True, seed=3, effect=-1.0)
    add("placebo-3", 1, 3, range(1, 5), wsym=False, spread=0.1, B=3, seed=4)
    add("placebo-sym", 2, 3, [1, 2, 3], [3], B=1, seed=4)
    add("boot", 2, 3, range(1, 5), method="bootstrap", wsym=False, B=3, seed=2)
    add("boot-names", 2, 3, range(1, 6), [4, 5], method="bootstrap", wsym=False, B=3, names=True, order=True, seed=6)
    add("boot-skip", 1, 2, range(1, 5), method="bootstrap", wsym=False, B=6, seed=1)
    out.append(Case("real-1x3", real_weights(1, 3, range(1, 6), [4, 5]), opts=L, bounds="post outcomes in [-3,3], one pre-period matrix"))
    out.append(Case("real-2x4", real_weights(2, 4, range(1, 7), [5, 6], seed=2), opts=L, bounds="post outcomes in [-3,3], one pre-period matrix"))
    out.append(Case("covariates", residual_case, opts=L, bounds="outcomes in [-3,3]"))
    out.append(Case("too-few", too_few, bounds="outcomes in [-3,3]"))
    if tier == "thorough":
        for s in range(6):
            R = rng(40 + s)
            nt, nc, T = R.randint(1, 3), R.randint(4, 7), R.randint(4, 8)
            add("T%d" % s, nt, nc, range(1, T + 1), wsym=False, B=5, seed=s + 20, order=True, names=s % 2 == 0, spread=0.1)
            add("Tb%d" % s, nt, nc, range(1, T + 1), wsym=False, B=5, seed=s + 20, order=True, names=s % 2 == 0, method="bootstrap")
            out.append(Case("Tr%d" % s, real_weights(nt, nc, range(1, T + 1), list(range(T - 1, T + 1)), seed=s), bounds="post outcomes"))
        out.append(Case("T-formula", formula(4, 3, 4), bounds="all outcomes, weights"))
    return out
