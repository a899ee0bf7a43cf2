"""C22: placebo, permutation and pre-trend diagnostics.  Every outcome is a solver variable; panel
shapes, fake periods, fake groups and (exhaustively) the reassignments are enumerated."""
import itertools
import math
from symx.harness import Case
from .common import *
from .inf import pval


def check_inf(env, nm, est, se, t, p, ci, alpha, df):
    """the reported tuple belongs to the Student reference with df (coherence of p and interval as such: C04)"""
    env.eq(nm + ".t*se", t * se, est)
    c = tcrit(alpha, df)
    env.eq(nm + ".ci_lo", ci[0], est - se * c)
    env.eq(nm + ".ci_hi", ci[1], est + se * c)


def panel(env, treated, units, periods, shuffle=None, drop=(), unbal=(), lo=-2.0, hi=2.0, dup=()):
    rows = [(u, t) for u in units for t in periods if (u, t) not in drop]
    rows += list(dup)
    if shuffle is not None:
        rng(shuffle).shuffle(rows)
    seen, y, ids = {}, [], []
    for u, t in rows:
        n = seen.get((u, t), 0)
        seen[u, t] = n + 1
        y.append(env.var("y_%s_%s%s" % (u, t, "b" * n), lo, hi))
    df = env.pd.DataFrame({"u": [r[0] for r in rows], "t": [r[1] for r in rows],
                           "d": [int(r[0] in treated) for r in rows], "y": y}, index=list(range(20, 20 + len(rows))))
    return df, rows, y


def did(rows, y, tr, post, keep=lambda r: True, robust=True, cluster=None):
    """double difference of cell means, its HC1/classical/cluster variance, n and k"""
    idx = [i for i, r in enumerate(rows) if keep(r)]
    X = [[1.0, float(rows[i][0] in tr), float(rows[i][1] in post), float(rows[i][0] in tr and rows[i][1] in post)] for i in idx]
    yy = [y[i] for i in idx]
    m = {}
    for a in (0, 1):
        for b in (0, 1):
            m[a, b] = mean([yy[j] for j in range(len(idx)) if X[j][1] == a and X[j][2] == b])
    att = (m[1, 1] - m[1, 0]) - (m[0, 1] - m[0, 0])
    r = [yy[j] - m[int(X[j][1]), int(X[j][2])] for j in range(len(idx))]
    if cluster:
        v = cluster_cov(X, r, [rows[i][0] for i in idx], 3, 3)
    elif robust:
        v = hc1_cov(X, r, 3, 3)
    else:
        v = classical_var(X, r, 3)
    return att, v, len(idx)


def result(env, nm, res, att, v, n, alpha, df):
    env.eq(nm + ".effect", res.placebo_effect, att)
    env.true(nm + ".n", int(res.n_obs) == n)
    if isinstance(v, float) and v == 0.0:
        return
    env.eq(nm + ".se2", res.se * res.se, v)
    if env.value(v <= 0):
        return
    check_inf(env, nm, res.placebo_effect, res.se, res.t_stat, res.p_value, res.conf_int, alpha, df)
    env.eq(nm + ".p", res.p_value, pval(env, res.t_stat, df))
    env.iff(nm + ".signif", res.is_significant, res.p_value < alpha, margin=res.p_value - alpha)


def timing(treated=(1, 2), units=(1, 2, 3, 4, 5), periods=(1, 2, 3, 4), posts=(3, 4), fake=2, alpha=0.1, shuffle=None, drop=(), kw=None, via="direct", sparse=False, dup=()):
    def fn(env):
        D = env.mod("diagnostics")
        df, rows, y = panel(env, treated, units, periods, shuffle, drop, dup=dup)
        kw2 = dict(kw or {})
        pp = None if posts is None else list(posts)
        if via == "direct":
            r = D.placebo_timing_test(df, "y", "d", "t", fake, post_periods=pp, alpha=alpha, **kw2)
        else:
            r = D.run_placebo_test(df, "y", "d", "t", test_type="Fake_Timing", fake_treatment_period=fake, post_periods=pp, alpha=alpha, **kw2)
        ps = set(posts) if posts is not None else set(sorted(periods)[len(periods) // 2:])
        fp = [t for t in periods if t not in ps and t >= fake]
        ro = dict(robust=kw2.get("robust", True), cluster="u" if kw2.get("cluster") else None)
        att, v, n = did(rows, y, treated, fp, lambda r: r[1] not in ps, **ro)
        result(env, "placebo", r, att, v, n, alpha if "alpha" not in kw2 else kw2["alpha"], n - 4)
        a2, v2, n2 = did(rows, y, treated, ps, **ro)
        env.eq("original", r.original_effect, a2)
        env.eq("original-se2", r.original_se * r.original_se, v2)
        env.true("meta", r.test_type == "fake_timing" and r.fake_period == fake and r.alpha == alpha)
        # what happens after treatment cannot matter
        df2 = df.copy()
        z = [env.var("z%d" % i) for i in range(len(rows))]
        df2["y"] = [z[i] if rows[i][1] in ps else y[i] for i in range(len(rows))]
        r2 = D.placebo_timing_test(df2, "y", "d", "t", fake, post_periods=pp, alpha=alpha, **kw2)
        env.eq("ni-effect", r2.placebo_effect, r.placebo_effect)
        env.eq("ni-se2", r2.se * r2.se, r.se * r.se)
        for p in ps:
            env.raises("fake-in-post-%s" % p, ValueError, D.placebo_timing_test, df, "y", "d", "t", p, post_periods=sorted(ps))
    return fn


def group(treated=(1, 2), units=(1, 2, 3, 4, 5, 6), fake=(4, 6), periods=(1, 2, 3), posts=(3,), alpha=0.05, shuffle=None, drop=(), via="run", kw=None, switch=False, dup=()):
    def fn(env):
        D = env.mod("diagnostics")
        df, rows, y = panel(env, treated, units, periods, shuffle, drop, dup=dup)
        ps = set(posts) if posts is not None else set(sorted(periods)[len(periods) // 2:])
        if switch:
            # an indicator that turns on with treatment: the first periods of a treated unit read 0
            df["d"] = [int(r[0] in treated and r[1] in ps) for r in rows]
        if switch == "ended":
            # the first treated unit's treatment ended before the others' began
            df["d"] = [int(r[0] in treated and (r[1] in ps) == (r[0] != treated[0])) for r in rows]
        kw2 = dict(kw or {})
        pp = None if posts is None else list(posts)
        if via == "run":
            f = lambda d: D.run_placebo_test(d, "y", "d", "t", unit="u", test_type="fake_group", fake_treatment_group=list(fake), post_periods=pp, alpha=alpha, **kw2)
        else:
            # the caller hands over never-treated units only
            f = lambda d: D.placebo_group_test(d[d["d"] == 0], "y", "t", "u", list(fake), post_periods=pp, alpha=alpha, **kw2)
        r = f(df)
        ro = dict(robust=kw2.get("robust", True), cluster="u" if kw2.get("cluster") else None)
        att, v, n = did(rows, y, fake, ps, lambda r: r[0] not in treated, **ro)
        result(env, "placebo", r, att, v, n, kw2.get("alpha", alpha), n - 4)
        env.true("meta", r.test_type == "fake_group" and list(r.fake_group) == list(fake) and r.alpha == alpha)
        df2 = df.copy()
        z = [env.var("z%d" % i) for i in range(len(rows))]
        df2["y"] = [z[i] if rows[i][0] in treated else y[i] for i in range(len(rows))]
        r2 = f(df2)
        env.eq("ni-effect", r2.placebo_effect, r.placebo_effect)
        env.eq("ni-se2", r2.se * r2.se, r.se * r.se)
        env.raises("no-unit", ValueError, D.run_placebo_test, df, "y", "d", "t", test_type="fake_group", fake_treatment_group=list(fake))
        env.raises("no-group", ValueError, D.run_placebo_test, df, "y", "d", "t", unit="u", test_type="fake_group", fake_treatment_group=[])
        env.raises("bad-type", ValueError, D.run_placebo_test, df, "y", "d", "t", unit="u", test_type="fakegroup")
    return fn


class AllSplits:
    """hands out the reassignments in a fixed exhaustive order"""

    def __init__(self, sd=None, start=0, step=1):
        import numpy
        self.seed_arg, self.k, self.picked = sd, start, []
        self.step = step
        self.real = numpy.random.Generator(numpy.random.PCG64(3))

    def _next(self, a, size):
        import numpy
        arr = list(numpy.asarray(a).tolist())
        combos = list(itertools.combinations(arr, size))
        c = combos[self.k % len(combos)]
        self.k += self.step
        self.picked.append(c)
        return c, [x for x in arr if x not in c]

    def choice(self, a, size=None, replace=True, p=None, **k):
        import numpy
        if isinstance(a, int):
            a = range(a)
        if replace or size is None:
            raise TypeError("reassignment with replacement")
        return numpy.array(self._next(a, int(size))[0])

    def permutation(self, x, **k):
        import numpy
        x = range(x) if isinstance(x, int) else x
        p = self.real.permutation(numpy.asarray(x))
        self.picked.append(tuple(p.tolist()))
        return p

    def shuffle(self, x):
        x[:] = self.permutation(x)


def perm(treated=(1, 2), units=(1, 2, 3, 4), periods=(0, 1), n=6, alpha=0.05, shuffle=None, drop=(), kw=None, via="direct", start=0, step=1, dup=()):
    def fn(env):
        D = env.mod("diagnostics")
        df, rows, y = panel(env, treated, units, periods, shuffle, drop, dup=dup)
        made = []

        def factory(sd=None):
            made.append(AllSplits(sd, start, step))
            return made[-1]
        env.set_rng(factory)
        if via == "direct":
            r = D.permutation_test(df, "y", "d", "t", "u", n_permutations=n, alpha=alpha, seed=11, **(kw or {}))
        else:
            r = D.run_placebo_test(df, "y", "d", "t", unit="u", test_type="permutation", n_permutations=n, alpha=alpha, seed=11, **(kw or {}))
        env.true("seed", len(made) == 1 and made[0].seed_arg == 11)
        picks = made[0].picked
        env.true("as-many", len(picks) == n and all(len(p) == len(treated) for p in picks))
        o, v, _ = did(rows, y, treated, (1,), robust=(kw or {}).get("robust", True))
        env.eq("original", r.original_effect, o)
        env.eq("original-se2", r.original_se * r.original_se, v)
        effs = []
        for p in picks:
            try:
                effs.append(did(rows, y, p, (1,))[0])
            except ZeroDivisionError:
                pass
        m = len(effs)
        env.true("valid", int(r.n_permutations) == m and len(r.permutation_distribution) == m)
        for i in range(m):
            env.eq("perm%d" % i, r.permutation_distribution[i], effs[i])
        env.eq("mean", r.placebo_effect, mean(effs))
        mu = mean(effs)
        ss = total([(x - mu) * (x - mu) for x in effs]) / (m - 1)
        env.eq("sd2", r.se * r.se, ss)
        if not env.nanval(r.t_stat):
            env.eq("t*se", r.t_stat * r.se, o)
        # share of reassignments at least as extreme (ties up to rounding count), floored
        P = r.p_value * m
        least = env.count([abs(e) >= abs(o) for e in effs])
        env.le("p-share", least, P, tol=1e-9)
        most = env.count([abs(e) >= abs(o) * (1 - 1e-7) for e in effs])
        fl = m / (m + 1.0)
        if env.value(P > fl + 1e-9):
            env.le("p-share-up", P, most, tol=1e-9)
        env.le("p-floor", fl, P, tol=1e-9)
        env.le("p-cap", P, float(m), tol=1e-9)
        env.iff("signif", r.is_significant, r.p_value < alpha, margin=r.p_value - alpha)
        q = [env.np.percentile(env.np.array(effs), a) for a in (alpha / 2 * 100, (1 - alpha / 2) * 100)]
        env.eq("ci-lo", r.conf_int[0], q[0])
        env.eq("ci-hi", r.conf_int[1], q[1])
        env.true("meta", r.test_type == "permutation" and int(r.n_obs) == len(rows))
    return fn


def loo(treated=(1, 2, 3), units=(1, 2, 3, 4, 5), periods=(0, 1), alpha=0.05, shuffle=None, drop=(), kw=None, via="direct", expect_fail=False, dup=()):
    def fn(env):
        D = env.mod("diagnostics")
        df, rows, y = panel(env, treated, units, periods, shuffle, drop, dup=dup)
        call = lambda d: (D.leave_one_out_test(d, "y", "d", "t", "u", alpha=alpha, **(kw or {})) if via == "direct" else
                          D.run_placebo_test(d, "y", "d", "t", unit="u", test_type="leave_one_out", alpha=alpha, **(kw or {})))
        if expect_fail:
            env.raises("nothing-left", RuntimeError, call, df)
            return
        r = call(df)
        ro = dict(robust=(kw or {}).get("robust", True))
        o, v, _ = did(rows, y, treated, (1,), **ro)
        env.eq("original", r.original_effect, o)
        env.eq("original-se2", r.original_se * r.original_se, v)
        env.true("units", set(r.leave_one_out_effects) == set(treated))
        effs = []
        for u in treated:
            try:
                e = did(rows, y, [x for x in treated if x != u], (1,), lambda q: q[0] != u)[0]
            except ZeroDivisionError:
                env.isnan("loo-%s" % u, r.leave_one_out_effects[u])
                continue
            env.eq("loo-%s" % u, r.leave_one_out_effects[u], e)
            effs.append(e)
        m = len(effs)
        mu = mean(effs)
        env.eq("mean", r.placebo_effect, mu)
        if m > 1:
            ss = total([(x - mu) * (x - mu) for x in effs]) / (m - 1)
            env.eq("sd2", r.se * r.se, ss)
            if env.value(ss > 0):
                check_inf(env, "loo", r.placebo_effect, r.se, r.t_stat, r.p_value, r.conf_int, alpha, m - 1)
                env.eq("loo.p", r.p_value, pval(env, r.t_stat, m - 1))
                env.iff("loo.signif", r.is_significant, r.p_value < alpha, margin=r.p_value - alpha)
        env.true("meta", r.test_type == "leave_one_out" and int(r.n_obs) == len(rows) and r.alpha == alpha)
    return fn


def battery(env):
    """the whole suite: one entry per test, each the same as the single test"""
    D = env.mod("diagnostics")
    treated, units, periods = (1, 2), (1, 2, 3, 4), (1, 2, 3, 4)
    df, rows, y = panel(env, treated, units, periods)
    df["p"] = [int(t >= 3) for _, t in rows]
    env.set_rng(lambda sd=None: AllSplits(sd))
    r = D.run_all_placebo_tests(df, "y", "d", "t", "u", pre_periods=[1, 2], post_periods=[3, 4], n_permutations=6, alpha=0.1, seed=5)
    env.true("keys", set(r) == {"fake_timing_2", "permutation", "leave_one_out"})
    a, v, n = did(rows, y, treated, (2,), lambda q: q[1] <= 2)
    result(env, "timing", r["fake_timing_2"], a, v, n, 0.1, n - 4)
    # multi-valued time cannot be fitted as a post indicator: reported as errors, not as numbers
    for k in ("permutation", "leave_one_out"):
        env.true(k, isinstance(r[k], dict) and bool(r[k].get("error")) and r[k].get("test_type") == k)


def battery2(env):
    D = env.mod("diagnostics")
    treated, units, periods = (1, 2), (1, 2, 3, 4), (0, 1)
    df, rows, y = panel(env, treated, units, periods)
    env.set_rng(lambda sd=None: AllSplits(sd))
    r = D.run_all_placebo_tests(df, "y", "d", "t", "u", pre_periods=[0], post_periods=[1], n_permutations=6, alpha=0.1, seed=5)
    env.true("keys", set(r) == {"permutation", "leave_one_out"})
    o = did(rows, y, treated, (1,))[0]
    env.eq("perm", r["permutation"].original_effect, o)
    env.eq("perm-first", r["permutation"].permutation_distribution[0], o)
    for u in treated:
        env.eq("loo-%s" % u, r["leave_one_out"].leave_one_out_effects[u], did(rows, y, [x for x in treated if x != u], (1,), lambda q: q[0] != u)[0])


def slopes(treated=(1, 2), units=(1, 2, 3), periods=(1, 2, 3, 4, 5), pre=(1, 2, 3), shuffle=None, drop=(), offset=0, dup=()):
    def fn(env):
        U = env.mod("utils")
        df, rows, y = panel(env, treated, units, periods, shuffle, drop, dup=dup)
        f = lambda d: U.check_parallel_trends(d, "y", "t", "d", pre_periods=None if pre is None else list(pre))
        r = f(df)
        ps = set(pre) if pre is not None else set(sorted(periods)[:len(periods) // 2])
        sl, va = {}, {}
        for nm, g in (("treated", True), ("control", False)):
            ix = [i for i, q in enumerate(rows) if (q[0] in treated) == g and q[1] in ps]
            if len(ix) < 2 or len({rows[i][1] for i in ix}) < 2:
                env.isnan(nm + "-slope", r[nm + "_trend"])
                sl[nm] = None
                continue
            X = [[1.0, float(rows[i][1])] for i in ix]
            b, e = ols(X, [y[i] for i in ix])
            sl[nm] = b[1]
            env.eq(nm + "-slope", r[nm + "_trend"], b[1])
            if len(ix) > 2:
                va[nm] = classical_var(X, e, 1)
                env.eq(nm + "-se2", r[nm + "_trend_se"] * r[nm + "_trend_se"], va[nm])
            else:
                env.isnan(nm + "-se", r[nm + "_trend_se"])
        if sl["treated"] is None or sl["control"] is None:
            env.isnan("diff", r["trend_difference"])
            env.isnan("p", r["p_value"])
            env.true("verdict", r["parallel_trends_plausible"] is None)
        else:
            env.eq("diff", r["trend_difference"], sl["treated"] - sl["control"])
            if len(va) == 2:
                env.eq("diff-se2", r["trend_difference_se"] * r["trend_difference_se"], va["treated"] + va["control"])
                if env.value(va["treated"] + va["control"] > 0):
                    env.eq("t", r["t_statistic"] * r["trend_difference_se"], r["trend_difference"])
                    env.eq("p", r["p_value"], pval(env, r["t_statistic"]))
                    env.iff("verdict", r["parallel_trends_plausible"], r["p_value"] > 0.05, margin=r["p_value"] - 0.05)
            else:
                env.isnan("p", r["p_value"])
                env.true("verdict", r["parallel_trends_plausible"] is None)
        df2 = df.copy()
        z = [env.var("z%d" % i) for i in range(len(rows))]
        df2["y"] = [y[i] if rows[i][1] in ps else z[i] for i in range(len(rows))]
        r2 = f(df2)
        for k in ("treated_trend", "control_trend", "trend_difference"):
            if not env.nanval(r[k]):
                env.eq("ni-" + k, r2[k], r[k])
    return fn


def changes(rows, y, treated, ps, unit):
    """period-to-period changes: per unit, or of the group means"""
    out = {}
    Y = {}
    for i, q in enumerate(rows):
        Y.setdefault(q, []).append(y[i])
    for nm, g in (("t", True), ("c", False)):
        us = sorted({q[0] for q in rows if (q[0] in treated) == g})
        ch = []
        if unit:
            for u in us:
                ts = sorted({q[1] for q in rows if q[0] == u and q[1] in ps})
                ch += [Y[u, b][0] - Y[u, a][0] for a, b in zip(ts, ts[1:])]
        else:
            ts = sorted({q[1] for q in rows if q[0] in us and q[1] in ps})
            ms = [mean([v for u in us for v in Y.get((u, t), [])]) for t in ts]
            ch = [b - a for a, b in zip(ms, ms[1:])]
        out[nm] = ch
    return out["t"], out["c"]


def var1(xs):
    m = mean(xs)
    return total([(x - m) * (x - m) for x in xs]) / (len(xs) - 1)


class W:
    """stand-in for the two-sample distances: their values are solver variables"""

    def __init__(self, env):
        self.env, self.n, self.args = env, 0, []

    def wasserstein(self, a, b, *x, **k):
        v = self.env.var("w%d" % self.n, 0.0, 3.0)
        self.n += 1
        self.args.append((list(a), list(b), v))
        return v

    def ks(self, a, b, *x, **k):
        self.kargs = (list(a), list(b))
        self.kres = (self.env.var("ks", 0.0, 1.0), self.env.var("ksp", 0.0, 1.0))
        return self.kres


def robust(treated=(1, 2), units=(1, 2, 3, 4), periods=(1, 2, 3), pre=(1, 2), unit=True, shuffle=None, n=3, drop=(), thr=0.2):
    def fn(env):
        U = env.mod("utils")
        df, rows, y = panel(env, treated, units, periods, shuffle, drop)
        ps = set(pre) if pre is not None else set(sorted(periods)[:len(periods) // 2])
        w = W(env)
        made = env.fake_rng("r", seed=7)
        kw = dict(unit="u" if unit else None, pre_periods=None if pre is None else list(pre), n_permutations=n, seed=13, wasserstein_threshold=thr)
        if env.mode == "sym":
            env.opts(**{"stub:stats.wasserstein_distance": w.wasserstein, "stub:stats.ks_2samp": w.ks})
            r = U.check_parallel_trends_robust(df, "y", "t", "d", **kw)
        else:
            from scipy import stats
            s = stats.wasserstein_distance, stats.ks_2samp
            stats.wasserstein_distance, stats.ks_2samp = w.wasserstein, w.ks
            try:
                r = U.check_parallel_trends_robust(df, "y", "t", "d", **kw)
            finally:
                stats.wasserstein_distance, stats.ks_2samp = s
        T, C = changes(rows, y, treated, ps, unit)
        env.true("sizes", len(r["treated_changes"]) == len(T) and len(r["control_changes"]) == len(C))
        key = lambda xs: sum(((i + 1) * 0.0 for i, _ in enumerate(xs)), 0.0)
        for i, x in enumerate(T):
            env.eq("tc%d" % i, r["treated_changes"][i], x)
        for i, x in enumerate(C):
            env.eq("cc%d" % i, r["control_changes"][i], x)
        if len(T) < 2 or len(C) < 2:
            for k in ("wasserstein_distance", "wasserstein_p_value", "ks_statistic", "ks_p_value", "mean_difference", "variance_ratio"):
                env.isnan(k, r[k])
            env.true("verdict", r["parallel_trends_plausible"] is None)
            return
        env.true("seed", len(made) == 1 and made[0].seed_arg == 13)
        env.true("calls", len(w.args) == n + 1)
        for lab, (a, b) in (("w", w.args[0][:2]), ("ks", w.kargs)):
            env.eqs(lab + "-args-t", a, T)
            env.eqs(lab + "-args-c", b, C)
        al = T + C
        for j, (a, b, v) in enumerate(w.args[1:]):
            p = [int(x) for x in made[0].picks[j]]
            env.true("perm-size%d" % j, len(a) == len(T) and len(b) == len(C) and sorted(p) == list(range(len(al))))
            env.eqs("perm%d" % j, a + b, [al[i] for i in p])
        obs = w.args[0][2]
        env.eq("w", r["wasserstein_distance"], obs)
        k = env.count([v >= obs for _, _, v in w.args[1:]])
        env.eq("w-p", r["wasserstein_p_value"] * n, k, away=[v - obs for _, _, v in w.args[1:]])
        env.eq("ks", r["ks_statistic"], w.kres[0])
        env.eq("ks-p", r["ks_p_value"], w.kres[1])
        env.eq("mean-diff", r["mean_difference"], mean(T) - mean(C))
        vt, vc = var1(T), var1(C)
        if env.value(vc > 0):
            env.eq("ratio", r["variance_ratio"] * vc, vt)
        sd2 = var1(al)
        if env.value(sd2 > 0):
            env.eq("norm2", r["wasserstein_normalized"] * r["wasserstein_normalized"] * sd2, obs * obs)
            env.iff("verdict", r["parallel_trends_plausible"], env.all_of(r["wasserstein_p_value"] > 0.05, r["wasserstein_normalized"] < thr), margin=r["wasserstein_normalized"] - thr)
        env.true("n", int(r["n_treated"]) == len(T) and int(r["n_control"]) == len(C))
    return fn


class TD:
    """stand-in Student distribution with symbolic degrees of freedom"""

    def __init__(self, env):
        self.env, self.calls = env, []


def equiv(treated=(1, 2), units=(1, 2, 3, 4), periods=(1, 2, 3), pre=(1, 2), unit=True, shuffle=None, margin=None, drop=(), flatc=False):
    """two one-sided tests; with one degenerate group the degrees of freedom are a number and the
    p-values are decided too"""
    def fn(env):
        U = env.mod("utils")
        df, rows, y = panel(env, treated, units, periods, shuffle, drop)
        ps = set(pre) if pre is not None else set(sorted(periods)[:len(periods) // 2])
        if flatc:
            y = [y[i] if q[0] in treated or q[1] not in ps else y[rows.index((q[0], min(ps)))] + 0.25 * sorted(ps).index(q[1]) for i, q in enumerate(rows)]
            df["y"] = y
        m = env.var("margin", 0.05, 2.0) if margin == "sym" else margin
        f = lambda d: U.equivalence_test_trends(d, "y", "t", "d", unit="u" if unit else None, pre_periods=None if pre is None else list(pre), equivalence_margin=m)
        T, C = changes(rows, y, treated, ps, unit)
        r = f(df)
        if len(T) < 2 or len(C) < 2:
            env.isnan("p", r["tost_p_value"])
            env.true("verdict", r["equivalent"] is None)
            return
        vt, vc = var1(T), var1(C)
        env.eq("diff", r["mean_difference"], mean(T) - mean(C))
        s2 = vt / len(T) + vc / len(C)
        if not env.value(s2 > 0):
            env.true("verdict", r["equivalent"] is None)
            return
        se = r["se_difference"]
        env.eq("se2", se * se, s2)
        M = r["equivalence_margin"]
        if m is None:
            env.eq("margin2", M * M * 4, var1(T + C))
            env.true("margin>0", M >= 0)
        else:
            env.eq("margin", M, m)
        env.eq("t-lo", r["lower_t_stat"] * se, (mean(T) - mean(C)) + M)
        env.eq("t-hi", r["upper_t_stat"] * se, (mean(T) - mean(C)) - M)
        den = (vt / len(T)) ** 2 / (len(T) - 1) + (vc / len(C)) ** 2 / (len(C) - 1)
        env.eq("df", r["degrees_of_freedom"] * den, s2 * s2)
        lo, hi, p = r["lower_p_value"], r["upper_p_value"], r["tost_p_value"]
        env.le("p>=lo", lo, p)
        env.le("p>=hi", hi, p)
        env.true("p-is-one", env.any_of(p <= lo, p <= hi))
        env.iff("verdict", r["equivalent"], p < 0.05, margin=p - 0.05)
        dfn = r["degrees_of_freedom"]
        if env.mode == "sym":
            from symx import stubs
            S = stubs.STATS.t
        else:
            from scipy import stats
            S = stats.t
        env.eq("p-lo", lo, S.sf(r["lower_t_stat"], dfn))
        env.eq("p-hi", hi, S.cdf(r["upper_t_stat"], dfn))
        df2 = df.copy()
        z = [env.var("z%d" % i) for i in range(len(rows))]
        df2["y"] = [y[i] if rows[i][1] in ps else z[i] for i in range(len(rows))]
        r2 = f(df2)
        env.eq("ni", r2["mean_difference"], r["mean_difference"])
        env.eq("ni-se2", r2["se_difference"] * r2["se_difference"], s2)
    return fn


def cases(tier):
    out = [
        Case("timing-basic", timing()),
        Case("timing-run-classical", timing(via="run", kw={"robust": False}, shuffle=2)),
        Case("timing-infer-post", timing(posts=None, fake=2, shuffle=5)),
        Case("timing-late-fake", timing(treated=(2, 4), periods=(1, 2, 3, 4, 5), posts=(4, 5), fake=3, shuffle=1)),
        Case("timing-gap-post", timing(periods=(1, 2, 3, 4), posts=(2, 4), fake=3)),
        Case("timing-cluster", timing(kw={"cluster": "u"})),
        Case("timing-unbalanced", timing(drop={(1, 4), (5, 1)}, shuffle=9)),
        Case("group-run", group()),
        Case("group-run-infer", group(posts=None, periods=(1, 2, 3, 4), shuffle=3)),
        Case("group-run-switching", group(switch=True, shuffle=4)),
        Case("group-run-ended", group(treated=(2, 3), units=(1, 2, 3, 4, 5, 6), fake=(1, 4), switch="ended", shuffle=6)),
        Case("timing-half-years", timing(periods=(2000.0, 2000.5, 2001.0, 2001.5, 2002.0), posts=(2001.5, 2002.0), fake=2001.0, shuffle=3)),
        Case("perm-failing", perm(treated=(1,), units=(1, 2, 3, 4, 5), n=4, start=1, drop={(5, 1)}), opts={"lazy": True}),
        Case("perm-failing-2", perm(treated=(1, 2), units=(1, 2, 3, 4, 5), n=9, start=1, drop={(4, 1), (5, 1)}, via="run"), opts={"lazy": True}),
        Case("loo-failing", loo(treated=(1, 2, 3), units=(1, 2, 3, 4, 5), drop={(2, 1), (3, 1)}), opts={"lazy": True}),
        Case("group-run-cluster", group(treated=(3,), units=(1, 2, 3, 4, 5), fake=(1, 5), kw={"cluster": "u"})),
        Case("group-direct", group(via="direct", shuffle=8)),
        Case("group-direct-strings", group(treated=("b",), units=("a", "b", "c", "d", "e"), fake=("e", "a"), via="direct")),
        Case("perm-all", perm(), opts={"lazy": True}),
        Case("perm-run-shuffled", perm(shuffle=3, via="run", n=5, start=2), opts={"lazy": True}),
        Case("perm-1-of-4", perm(treated=(3,), n=4, alpha=0.3), opts={"lazy": True}),
        Case("perm-repeat", perm(treated=(2,), units=(1, 2, 3), n=4, start=1), opts={"lazy": True}),
        Case("loo-basic", loo()),
        Case("loo-two", loo(treated=(2, 5), shuffle=6)),
        Case("loo-run-classical", loo(via="run", kw={"robust": False}, treated=(1, 4), units=(1, 2, 3, 4))),
        Case("loo-unbalanced", loo(treated=(1, 2, 3), units=(1, 2, 3, 4, 5), drop={(2, 1)}, shuffle=1)),
        Case("loo-single", loo(treated=(2,), expect_fail=True)),
        # units observed unequally often, repeated rows, several units per label
        Case("timing-repeated", timing(dup=((1, 2), (1, 4), (5, 1)), shuffle=4)),
        Case("timing-repeated-cluster", timing(dup=((1, 1), (3, 1), (3, 2)), shuffle=7, kw={"cluster": "u"})),
        Case("timing-alpha-strings", timing(treated=("a", "c"), units=("a", "b", "c", "d"), alpha=0.01, via="run", shuffle=11)),
        Case("group-repeated", group(dup=((4, 1), (5, 3), (1, 3)), shuffle=6)),
        Case("group-unbalanced", group(drop={(4, 1), (1, 3)}, dup=((6, 3),), via="direct", shuffle=1)),
        Case("perm-repeated", perm(dup=((1, 0), (1, 1), (3, 1)), shuffle=2), opts={"lazy": True}),
        Case("perm-unbalanced", perm(drop={(2, 0), (3, 1)}, shuffle=2), opts={"lazy": True}),
        Case("perm-classical", perm(treated=(1, 4), kw={"robust": False}, n=5, start=3), opts={"lazy": True}),
        Case("loo-repeated", loo(treated=(1, 2, 3), dup=((2, 0), (2, 1), (2, 1)), shuffle=3)),
        Case("loo-repeated-control", loo(treated=(1, 4), dup=((3, 1), (4, 0)), shuffle=5, via="run")),
        Case("loo-four", loo(treated=(2, 3, 4, 6), units=(1, 2, 3, 4, 5, 6), drop={(3, 0), (6, 1)}, dup=((4, 1),), alpha=0.2, shuffle=8)),
        Case("loo-long-post", loo(treated=("a", "d"), units=("a", "b", "c", "d"), dup=(("d", 1), ("a", 1), ("b", 1), ("c", 1)), shuffle=2)),
        Case("slopes-repeated", slopes(dup=((1, 1), (3, 2), (3, 3)), shuffle=7)),
        Case("battery", battery),
        Case("battery-binary", battery2, opts={"lazy": True}),
        Case("slopes", slopes()),
        Case("slopes-infer-odd", slopes(pre=None, periods=(1, 2, 3, 4, 5), shuffle=2)),
        Case("robust-infer-odd", robust(pre=None, periods=(1, 2, 3, 4, 5), shuffle=5, n=2)),
        Case("equiv-infer-odd", equiv(pre=None, periods=(1, 2, 3, 4, 5), shuffle=5)),
        Case("slopes-infer", slopes(pre=None, periods=(1, 2, 3, 4, 5, 6), shuffle=2)),
        Case("slopes-unbalanced", slopes(drop={(1, 2), (3, 1)}, periods=(1, 2, 3, 4, 5), pre=(1, 2, 3, 4), shuffle=4)),
        Case("slopes-two-points", slopes(treated=(1,), units=(1, 2, 3), periods=(1, 2, 3), pre=(1, 2))),
        Case("slopes-one-period", slopes(periods=(1, 2, 3), pre=(2,))),
        Case("slopes-gap", slopes(periods=(2001, 2003, 2004, 2007), pre=(2001, 2003, 2004), shuffle=3)),
        Case("robust-unit", robust()),
        Case("robust-shuffled", robust(shuffle=3, periods=(1, 2, 3, 4), pre=(1, 2, 3), treated=(2,), units=(1, 2, 3), n=2)),
        Case("robust-aggregate", robust(unit=False, periods=(1, 2, 3, 4), pre=(1, 2, 3), shuffle=5)),
        Case("robust-infer", robust(pre=None, periods=(1, 2, 3, 4), shuffle=5, thr=0.5)),
        Case("robust-few", robust(treated=(1,), units=(1, 2, 3), pre=(1, 2))),
        Case("robust-gap", robust(treated=(1, 2), units=(1, 2, 3, 4), periods=(1, 2, 3, 4), pre=(1, 2, 3), drop={(1, 2)}, shuffle=2, n=2)),
        Case("equiv-unit", equiv(margin="sym")),
        Case("equiv-default", equiv(shuffle=3)),
        Case("equiv-aggregate", equiv(unit=False, periods=(1, 2, 3, 4), pre=(1, 2, 3), margin="sym", shuffle=5)),
        Case("equiv-flat", equiv(margin="sym", flatc=True)),
        Case("equiv-few", equiv(treated=(1,), margin=0.3)),
    ]
    return out
