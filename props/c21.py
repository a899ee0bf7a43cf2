"""C21: simulated data.  Effects, trends, scales and every random draw are solver variables;
the same draws are replayed with and without the effect."""
from symx.harness import Case
from .common import *


def gen(env, name, **kw):
    """run a generator on draws w0_0, w0_1, ... (the same variables on every call)"""
    made = env.fake_rng("w", seed=4)
    df = getattr(env.dd, name)(**kw)
    return df, made


def col(df, c):
    return [df[c].iloc[i] for i in range(len(df))]


def by(df, keys):
    ks = list(zip(*[[int(x) for x in col(df, k)] for k in keys]))
    return {k: i for i, k in enumerate(ks)}, ks


def effects(env, name, keys, eff, kw, ekey="treatment_effect", const=()):
    """outcome(effect) - outcome(0) = stated effect = recorded effect; nothing else changes"""
    a, ma = gen(env, name, seed=11, **kw)
    b, mb = gen(env, name, seed=11, **dict(kw, **{ekey: 0.0}))
    env.true("seed", all(m.seed_arg == 11 for m in ma + mb) and len(ma) == len(mb))
    ia, ks = by(a, keys)
    ib, ks2 = by(b, keys)
    env.true("keys", len(ia) == len(a) and ks == ks2 and len(ib) == len(b))
    for k in ks:
        i, j = ia[k], ib[k]
        lab = "_".join(str(x) for x in k)
        e = eff(a, i, k)
        env.eq("effect_" + lab, a["outcome"].iloc[i] - b["outcome"].iloc[j], e)
        env.eq("true_" + lab, a["true_effect"].iloc[i], e)
        env.eq("zero_" + lab, b["true_effect"].iloc[j], 0.0)
        for c in const:
            env.true("%s_%s" % (c, lab), int(a[c].iloc[i]) == int(b[c].iloc[j]))
    return a, ia


def did(n=5, T=4, tp=2, frac=0.5):
    def fn(env):
        e, tr = env.var("effect"), env.var("trend")
        kw = dict(n_units=n, n_periods=T, treatment_effect=e, treatment_fraction=frac, treatment_period=tp, unit_fe_sd=env.var("fe", 0.0, 2.0), time_trend=tr, noise_sd=env.var("sd", 0.0, 2.0))
        nt = int(n * frac)

        def eff(df, i, k):
            return e if int(df["treated"].iloc[i]) == 1 and k[1] >= tp else 0.0
        a, ia = effects(env, "generate_did_data", ("unit", "period"), eff, kw, const=("treated", "post"))
        env.true("grid", sorted(ia) == [(u, t) for u in range(n) for t in range(T)])
        env.true("n-treated", len({u for (u, t), i in ia.items() if int(a["treated"].iloc[i]) == 1}) == nt)
        env.true("constant", all(len({int(a["treated"].iloc[ia[u, t]]) for t in range(T)}) == 1 for u in range(n)))
        env.true("post", all(int(a["post"].iloc[i]) == int(t >= tp) for (u, t), i in ia.items()))
        # without idiosyncratic noise a unit's outcome follows the trend plus the effect
        c, _ = gen(env, "generate_did_data", **dict(kw, noise_sd=0.0))
        ic, _ = by(c, ("unit", "period"))
        for u in range(n):
            for t in range(1, T):
                d = e if int(c["treated"].iloc[ic[u, t]]) == 1 and t == tp else 0.0
                env.eq("path_%d_%d" % (u, t), c["outcome"].iloc[ic[u, t]] - c["outcome"].iloc[ic[u, t - 1]], tr + d)
    return fn


def panel(n=4, T=4, tp=2, frac=0.5, par=True):
    def fn(env):
        e, v = env.var("effect"), env.var("violation", 0.1, 2.0)
        kw = dict(n_units=n, n_periods=T, treatment_period=tp, treatment_fraction=frac, treatment_effect=e, parallel_trends=par, trend_violation=v, unit_fe_sd=env.var("fe", 0.0, 2.0), noise_sd=env.var("sd", 0.0, 2.0))

        def eff(df, i, k):
            return e if int(df["treated"].iloc[i]) == 1 and k[1] >= tp else 0.0
        a, ia = effects(env, "generate_panel_data", ("unit", "period"), eff, kw, const=("treated", "post"))
        env.true("grid", sorted(ia) == [(u, t) for u in range(n) for t in range(T)])
        env.true("n-treated", len({u for (u, t), i in ia.items() if int(a["treated"].iloc[i]) == 1}) == int(n * frac))
        env.true("post", all(int(a["post"].iloc[i]) == int(t >= tp) for (u, t), i in ia.items()))
        c, _ = gen(env, "generate_panel_data", **dict(kw, noise_sd=0.0, treatment_effect=0.0))
        ic, _ = by(c, ("unit", "period"))
        step = {u: [c["outcome"].iloc[ic[u, t]] - c["outcome"].iloc[ic[u, t - 1]] for t in range(1, T)] for u in range(n)}
        ref = [u for u in range(n) if int(c["treated"].iloc[ic[u, 0]]) == 0][0]
        for u in range(n):
            tr = int(c["treated"].iloc[ic[u, 0]]) == 1
            for t in range(T - 1):
                env.eq("trend_%d_%d" % (u, t), step[u][t] - step[ref][t], v if tr and not par else 0.0)
    return fn


def event(n=4, pre=2, post=2, frac=0.5):
    def fn(env):
        e = env.var("effect")
        T = pre + post
        kw = dict(n_units=n, n_pre=pre, n_post=post, treatment_fraction=frac, treatment_effect=e, unit_fe_sd=env.var("fe", 0.0, 2.0), noise_sd=env.var("sd", 0.0, 2.0))

        def eff(df, i, k):
            return e if int(df["treated"].iloc[i]) == 1 and k[1] >= pre else 0.0
        a, ia = effects(env, "generate_event_study_data", ("unit", "period"), eff, kw, const=("treated", "post", "event_time"))
        env.true("grid", sorted(ia) == [(u, t) for u in range(n) for t in range(T)])
        env.true("n-treated", len({u for (u, t), i in ia.items() if int(a["treated"].iloc[i]) == 1}) == int(n * frac))
        env.true("post", all(int(a["post"].iloc[i]) == int(t >= pre) for (u, t), i in ia.items()))
        env.true("event-time", all(int(a["event_time"].iloc[i]) == t - pre for (u, t), i in ia.items()))
        c, _ = gen(env, "generate_event_study_data", **dict(kw, noise_sd=0.0, treatment_effect=0.0))
        ic, _ = by(c, ("unit", "period"))
        for u in range(1, n):
            for t in range(1, T):
                env.eq("parallel_%d_%d" % (u, t), c["outcome"].iloc[ic[u, t]] - c["outcome"].iloc[ic[u, t - 1]], c["outcome"].iloc[ic[0, t]] - c["outcome"].iloc[ic[0, t - 1]])
    return fn


def staggered(n=6, T=5, cohorts=(2, 3), frac=0.34, dyn=True, default=False):
    def fn(env):
        e, g, tr = env.var("effect"), env.var("growth", -1.0, 1.0), env.var("trend")
        kw = dict(n_units=n, n_periods=T, never_treated_frac=frac, treatment_effect=e, dynamic_effects=dyn, effect_growth=g, unit_fe_sd=env.var("fe", 0.0, 2.0), time_trend=tr, noise_sd=env.var("sd", 0.0, 2.0))
        if not default:
            kw["cohort_periods"] = list(cohorts)

        def size(ft, t):
            if ft == 0 or t < ft:
                return 0.0
            return e * (1.0 + g * float(t - ft)) if dyn else e

        def eff(df, i, k):
            return size(int(df["first_treat"].iloc[i]), k[1])
        a, ia = effects(env, "generate_staggered_data", ("unit", "period"), eff, kw, const=("first_treat", "treated", "treat"))
        ft = {u: int(a["first_treat"].iloc[ia[u, 0]]) for u in range(n)}
        env.true("grid", sorted(ia) == [(u, t) for u in range(n) for t in range(T)])
        env.true("constant", all(int(a["first_treat"].iloc[i]) == ft[u] for (u, t), i in ia.items()))
        env.true("never", sum(1 for x in ft.values() if x == 0) == int(n * frac))
        env.true("cohorts", {x for x in ft.values() if x} <= set(cohorts))
        env.true("treated", all(int(a["treated"].iloc[i]) == int(ft[u] > 0 and t >= ft[u]) for (u, t), i in ia.items()))
        env.true("treat", all(int(a["treat"].iloc[i]) == int(ft[u] > 0) for (u, t), i in ia.items()))
        c, _ = gen(env, "generate_staggered_data", **dict(kw, noise_sd=0.0))
        ic, _ = by(c, ("unit", "period"))
        fc = {u: int(c["first_treat"].iloc[ic[u, 0]]) for u in range(n)}
        for u in range(n):
            for t in range(1, T):
                env.eq("path_%d_%d" % (u, t), c["outcome"].iloc[ic[u, t]] - c["outcome"].iloc[ic[u, t - 1]], tr + size(fc[u], t) - size(fc[u], t - 1))
    return fn


def factor(n=4, pre=2, post=2, nt=2, k=1):
    def fn(env):
        e, s = env.var("effect"), env.var("strength", 0.1, 2.0)
        T = pre + post
        shift = env.var("shift", 0.1, 1.0)
        kw = dict(n_units=n, n_pre=pre, n_post=post, n_treated=nt, n_factors=k, treatment_effect=e, factor_strength=s, treated_loading_shift=shift, unit_fe_sd=env.var("fe", 0.0, 2.0), noise_sd=env.var("sd", 0.0, 2.0))

        def eff(df, i, k_):
            return e if k_[0] < nt and k_[1] >= pre else 0.0
        a, ia = effects(env, "generate_factor_data", ("unit", "period"), eff, kw, const=("treated", "treat"))
        env.true("grid", sorted(ia) == [(u, t) for u in range(n) for t in range(T)])
        env.true("treat", all(int(a["treat"].iloc[i]) == int(u < nt) for (u, t), i in ia.items()))
        env.true("treated", all(int(a["treated"].iloc[i]) == int(u < nt and t >= pre) for (u, t), i in ia.items()))
        # the interactive part scales with the stated strength and vanishes at zero
        y = {}
        for nm, q in (("0", dict(factor_strength=0.0)), ("1", dict(factor_strength=1.0)), ("s", {}), ("noshift", dict(treated_loading_shift=0.0))):
            c, _ = gen(env, "generate_factor_data", **dict(kw, noise_sd=0.0, treatment_effect=0.0, **q))
            ic, _ = by(c, ("unit", "period"))
            y[nm] = {key: c["outcome"].iloc[i] for key, i in ic.items()}
        for u in range(n):
            for t in range(T):
                env.eq("scale_%d_%d" % (u, t), y["s"][u, t] - y["0"][u, t], s * (y["1"][u, t] - y["0"][u, t]))
                if t:
                    env.eq("additive_%d_%d" % (u, t), y["0"][u, t] - y["0"][u, 0], y["0"][0, t] - y["0"][0, 0])
                if u >= nt:
                    env.eq("shift_%d_%d" % (u, t), y["s"][u, t], y["noshift"][u, t])
    return fn


def ddd(n=2, cov=False):
    def fn(env):
        e, g, p, t = env.var("effect"), env.var("group"), env.var("partition"), env.var("time")
        kw = dict(n_per_cell=n, treatment_effect=e, group_effect=g, partition_effect=p, time_effect=t, noise_sd=env.var("sd", 0.0, 2.0), add_covariates=cov)

        def eff(df, i, k):
            return e if all(int(df[c].iloc[i]) == 1 for c in ("group", "partition", "time")) else 0.0
        a, ia = effects(env, "generate_ddd_data", ("unit_id",), eff, kw, const=("group", "partition", "time"))
        cells = [tuple(int(a[c].iloc[i]) for c in ("group", "partition", "time")) for i in range(len(a))]
        env.true("cells", sorted(cells) == sorted((x, y, z) for x in (0, 1) for y in (0, 1) for z in (0, 1) for _ in range(n)))
        env.true("covariates", ("age" in a.columns and "education" in a.columns) == cov)
        if not cov:
            c, _ = gen(env, "generate_ddd_data", **dict(kw, noise_sd=0.0))
            m = {}
            for i in range(len(c)):
                m.setdefault(tuple(int(c[q].iloc[i]) for q in ("group", "partition", "time")), []).append(c["outcome"].iloc[i])
            for k, v in m.items():
                for i in range(1, len(v)):
                    env.eq("same_%d%d%d_%d" % (k + (i,)), v[i], v[0])
            z = {k: v[0] for k, v in m.items()}
            d = lambda G, P: z[G, P, 1] - z[G, P, 0]
            env.eq("triple", d(1, 1) - d(1, 0) - d(0, 1) + d(0, 0), e)
            env.eq("group", z[1, 0, 0] - z[0, 0, 0], g)
            env.eq("partition", z[0, 1, 0] - z[0, 0, 0], p)
            env.eq("time", z[0, 0, 1] - z[0, 0, 0], t)
    return fn


def estimate(env):
    """noise-free simulated data: the estimators return the stated effect"""
    e = env.var("effect")
    d, _ = gen(env, "generate_did_data", n_units=4, n_periods=4, treatment_effect=e, noise_sd=0.0, time_trend=env.var("trend"))
    c = {(a, b): mean([d["outcome"].iloc[i] for i in range(len(d)) if int(d["treated"].iloc[i]) == a and int(d["post"].iloc[i]) == b]) for a in (0, 1) for b in (0, 1)}
    env.eq("did", c[1, 1] - c[1, 0] - c[0, 1] + c[0, 0], e)
    env.eq("recorded", mean([d["true_effect"].iloc[i] for i in range(len(d)) if int(d["treated"].iloc[i]) * int(d["post"].iloc[i]) == 1]), e)


def errors(env):
    e = env.var("effect")
    dd = env.dd
    env.fake_rng("w")
    env.raises("cohort0", ValueError, dd.generate_staggered_data, n_units=4, n_periods=4, cohort_periods=[0], treatment_effect=e)
    env.raises("cohortT", ValueError, dd.generate_staggered_data, n_units=4, n_periods=4, cohort_periods=[4], treatment_effect=e)
    env.raises("factor-n", ValueError, dd.generate_factor_data, n_units=3, n_treated=4, n_pre=2, n_post=1, treatment_effect=e)
    env.raises("panel-0", ValueError, dd.generate_panel_data, n_units=3, n_periods=3, treatment_period=0, treatment_effect=e)
    env.raises("panel-T", ValueError, dd.generate_panel_data, n_units=3, n_periods=3, treatment_period=3, treatment_effect=e)


def cases(tier):
    q = tier == "quick"
    C = []

    def add(nm, fn, desc="", **k):
        k.setdefault("max_paths", 20 if q else 100)
        C.append(Case(nm, fn, desc, **k))
    add("did", did(), "5 units x 4 periods")
    add("did-last-period", did(n=3, T=3, tp=2, frac=0.7))
    add("did-first-period", did(n=4, T=3, tp=1, frac=0.25))
    add("did-none-treated", did(n=3, T=3, tp=1, frac=0.2))
    add("did-never-post", did(n=3, T=2, tp=5))
    add("panel", panel())
    add("panel-violation", panel(par=False, n=5, frac=0.4))
    add("panel-late", panel(T=5, tp=4, n=3, frac=0.67))
    add("event-study", event())
    add("event-study-uneven", event(n=5, pre=3, post=1, frac=0.6))
    add("staggered", staggered(), "dynamic effects")
    add("staggered-static", staggered(dyn=False, cohorts=(1, 4), frac=0.5))
    add("staggered-no-never", staggered(frac=0.0, n=5))
    add("staggered-unsorted", staggered(n=7, T=6, cohorts=(4, 2, 5), frac=0.15))
    add("staggered-default-8", staggered(n=5, T=8, cohorts=(3, 5, 7), default=True, frac=0.3))
    add("staggered-default-6", staggered(n=5, T=6, cohorts=(2, 4), default=True, frac=0.3))
    add("factor", factor())
    add("factor-two", factor(n=3, pre=2, post=2, nt=1, k=2))
    add("factor-all-treated", factor(n=2, pre=3, post=1, nt=2, k=1))
    # post periods outnumber pre periods, one pre period, one treated unit, more treated than control
    add("did-long-post", did(n=4, T=5, tp=1, frac=0.75))
    add("did-period-zero", did(n=3, T=3, tp=0, frac=0.5))
    add("panel-long-post", panel(n=4, T=5, tp=1, frac=0.75))
    add("panel-long-post-violation", panel(n=3, T=5, tp=1, frac=0.4, par=False))
    add("event-long-post", event(n=4, pre=1, post=3, frac=0.75))
    add("event-long-post-few", event(n=4, pre=2, post=4, frac=0.25))
    add("staggered-early", staggered(n=5, T=6, cohorts=(1,), frac=0.2))
    add("staggered-many", staggered(n=9, T=7, cohorts=(1, 2, 3, 6), frac=0.12))
    add("staggered-static-long", staggered(n=5, T=7, cohorts=(2, 6), frac=0.2, dyn=False))
    add("factor-long-post", factor(n=3, pre=1, post=3, nt=1, k=1))
    add("factor-long-post-two", factor(n=4, pre=2, post=3, nt=3, k=2))
    add("factor-one-each", factor(n=2, pre=1, post=1, nt=1, k=2))
    add("ddd-one", ddd(n=1))
    add("ddd-three-cov", ddd(n=3, cov=True))
    add("ddd", ddd())
    add("ddd-cov", ddd(n=2, cov=True))
    add("estimate", estimate)
    add("errors", errors)
    if not q:
        add("did-large", did(n=9, T=7, tp=3, frac=0.45))
        add("staggered-large", staggered(n=12, T=9, cohorts=(2, 5, 8), frac=0.3))
        add("factor-large", factor(n=7, pre=5, post=3, nt=3, k=3))
        add("panel-large", panel(n=9, T=8, tp=5, frac=0.35, par=False))
        add("ddd-large", ddd(n=6))
    return C
