"""C10: multiplier bootstrap of CallawaySantAnna."""
from symx.harness import Case
from .common import *
from .csref import *


def stats_of(env, est, draws, alpha, floor=None):
    """SE^2, interval, p-value of one bootstrapped effect"""
    n = len(draws)
    m = mean(draws)
    v = total([(d - m) * (d - m) for d in draws]) / (n - 1)
    lo, hi = env.ostat(draws, alpha / 2), env.ostat(draws, 1 - alpha / 2)
    if est >= 0:
        k = env.count([d <= 0 for d in draws])
    else:
        k = env.count([d >= 0 for d in draws])
    return v, lo, hi, k * (2.0 / n), 1.0 / ((floor or n) + 1)


def check(env, nm, est, draws, se, ci, p, alpha):
    v, lo, hi, raw, fl = stats_of(env, est, draws, alpha)
    env.eq(nm + ".se2", se * se, v)
    env.eq(nm + ".lo", ci[0], lo)
    env.eq(nm + ".hi", ci[1], hi)
    env.eq(nm + ".p", p, env.np.maximum(env.np.minimum(raw, 1.0), fl), away=draws + [est])
    env.le(nm + ".p<=1", p, 1.0)


def make(cohorts, periods, B=4, control="never_treated", ant=0, base="varying", alpha=0.1, wt="rademacher", seed=0, balance=None, agg="all",
         wide=False, symw=False, effect=1.0, spread=0.1, method="dr", cov=0):
    def fn(env):
        R = rng(seed)
        rows = panel(cohorts, periods)
        n = len(rows)
        e = env.vec("e", n) if wide else env.vec("e", n, -spread, spread)
        y = list(e)
        if not wide:
            lv = {}
            for i, (u, t, g) in enumerate(rows):
                b = round(R.uniform(-1.5, 1.5), 2) + (effect if g and t >= g else 0.0)
                y[i] = y[i] + b
        X = covariates(R, rows, cov)
        names = ["x%d" % i for i in range(cov)]
        df = frame(env, rows, y, extra={q: [X[r[0], r[1]][i] for r in rows] for i, q in enumerate(names)})
        made = env.fake_rng("w", seed=seed, concrete=not symw)
        est = env.dd.CallawaySantAnna(control_group=control, anticipation=ant, base_period=base, alpha=alpha, n_bootstrap=B,
                                      bootstrap_weights=wt, seed=7, estimation_method=method)
        r = est.fit(df, outcome="y", unit="u", time="t", first_treat="g", aggregate=agg, balance_e=balance, covariates=names or None)
        ref = CovCells(rows, y, X, method, control, ant, base) if cov else Cells(rows, y, control, ant, base)
        units = sorted({u for c in ref.cells.values() for u in c["psi"]})
        w = [x for m in made for x in m.drawn]
        env.true("one-generator", len(made) == 1 and made[0].seed_arg == 7)
        env.true("draw-count", len(w) == B * len(units))
        if len(w) != B * len(units):
            return
        W = [dict(zip(units, w[b * len(units):(b + 1) * len(units)])) for b in range(B)]

        def draws(eff, psi):
            return [eff + total([W[b][u] * p for u, p in psi.items()]) for b in range(B)]
        br = r.bootstrap_results
        for k, c in ref.cells.items():
            v = r.group_time_effects[k]
            d = draws(c["effect"], c["psi"])
            env.eq("att%s" % (k,), v["effect"], c["effect"])
            check(env, "gt%s" % (k,), c["effect"], d, v["se"], v["conf_int"], v["p_value"], alpha)
            env.eq("gt_t%s" % (k,), v["t_stat"] * v["se"], c["effect"])
        s = ref.simple()
        if s is None:
            for a in (r.overall_att, r.overall_se, r.overall_p_value, r.overall_t_stat):
                env.isnan("overall-nan", a)
        else:
            d = draws(s[0], s[1])
            env.eqs("dist", list(br.bootstrap_distribution), d)
            env.eq("overall", r.overall_att, s[0])
            check(env, "overall", s[0], d, r.overall_se, r.overall_conf_int, r.overall_p_value, alpha)
            env.eq("overall_t", r.overall_t_stat * r.overall_se, s[0])
        if agg in ("all", "event_study"):
            for ev, (pr, eff, psi) in ref.event(balance).items():
                v = r.event_study_effects[ev]
                env.eq("es_att%d" % ev, v["effect"], eff)
                check(env, "es%d" % ev, eff, draws(eff, psi), v["se"], v["conf_int"], v["p_value"], alpha)
        if agg in ("all", "group"):
            for g, (pr, eff, psi) in ref.group().items():
                v = r.group_effects[g]
                env.eq("grp_att%s" % g, v["effect"], eff)
                check(env, "grp%s" % g, eff, draws(eff, psi), v["se"], v["conf_int"], v["p_value"], alpha)
        env.true("meta", br.n_bootstrap == B and br.weight_type == wt and br.alpha == alpha)
    return fn


def laws(env):
    """the weight laws handed to the generator have mean zero and unit variance"""
    for wt, k in (("rademacher", 2), ("mammen", 2), ("webb", 6)):
        made = env.fake_rng("w", concrete=True)
        rows = panel([(0, 2), (2, 2)], [1, 2])
        x = env.var("x", -1, 1)
        df = frame(env, rows, [x * (1 + u) + (t == 2) * (1.0 + u * u) for u, t, g in rows])
        env.dd.CallawaySantAnna(n_bootstrap=50, bootstrap_weights=wt, seed=1).fit(df, outcome="y", unit="u", time="t", first_treat="g")
        calls = [c for m in made for c in m.log if c[0] == "choice"]
        env.true(wt + ".drawn", len(calls) >= 1)
        for c in calls:
            v = rnp.asarray(c[1], float)
            p = rnp.full(len(v), 1.0 / len(v)) if c[4] is None else rnp.asarray(c[4], float)
            env.true(wt + ".support", len(set(rnp.round(v, 9))) == k and c[3])
            env.eq(wt + ".mean", float((p * v).sum()), 0.0)
            env.eq(wt + ".var", float((p * v * v).sum()), 1.0)
            if wt == "mammen":
                env.eq(wt + ".third", float((p * v ** 3).sum()), 1.0)
            else:
                env.eq(wt + ".third", float((p * v ** 3).sum()), 0.0)


def nonfinite(env):
    """non-finite draws are dropped, the p-value floor uses the valid ones; under half valid gives NaN"""
    est = env.dd.CallawaySantAnna(n_bootstrap=6, alpha=0.2)
    f = getattr(est, "_compute_effect_bootstrap_stats", None)
    if f is None:
        env.note("no separate statistics routine")
        return
    d = env.vec("d", 4)
    e = env.var("e")
    nan, inf = float("nan"), float("inf")
    se, ci, p = f(e, env.np.array([d[0], nan, d[1], d[2], inf, d[3]]))
    check(env, "valid", e, d, se, ci, p, 0.2)
    se, ci, p = f(e, env.np.array([d[0], nan, nan, inf, -inf, d[3]]))
    for x in (se, ci[0], ci[1], p):
        env.isnan("few", x)


def cases(tier):
    out = []
    L = {"lazy": True}

    def add(name, *a, **k):
        out.append(Case(name, make(*a, **k), opts=dict(L), bounds="outcomes %s; cohorts %s, periods %s, %s" %
                        ("in [-3,3]" if k.get("wide") else "within 0.1 of a fixed heterogeneous panel", a[0], list(a[1]), k)))
    add("one-cell", [(0, 2), (2, 2)], [1, 2], B=5, wide=True)
    add("one-cell-symw", [(0, 2), (2, 1)], [1, 2], B=3, wide=True, symw=True, wt="webb", agg=None)
    add("two-cells", [(0, 2), (2, 2)], [1, 2, 3], B=4, wide=True, alpha=0.5, wt="mammen")
    add("cohorts", [(0, 3), (3, 2), (4, 3)], range(1, 6), seed=1)
    add("cohorts-neg", [(0, 3), (3, 2), (4, 3)], range(1, 6), seed=2, effect=-1.0, control="not_yet_treated", wt="webb")
    add("universal", [(0, 2), (3, 3), (5, 1)], range(1, 6), seed=3, base="universal", alpha=0.3, B=6, method="ipw")
    add("ant1", [(0, 2), (4, 2), (5, 3)], range(1, 7), seed=4, ant=1, B=3, wt="mammen")
    add("balance", [(0, 2), (3, 2), (4, 3)], range(1, 6), seed=5, balance=1, agg="event_study", B=3, spread=0.02)
    add("balance-gap", [(0, 2), (4, 2), (6, 1)], [1, 2, 3, 5, 6, 8], seed=8, balance=1, agg="event_study", B=3, spread=0.02)
    add("cov-reg", [(0, 5), (3, 3), (4, 3)], range(1, 5), seed=9, B=3, spread=0.02, cov=1, method="reg")
    add("no-post", [(0, 3), (7, 3)], range(1, 5), seed=6, control="not_yet_treated")
    out.append(Case("laws", laws, bounds="each weight law (finite support, exact moments)"))
    out.append(Case("nonfinite", nonfinite, opts=dict(L), bounds="estimate and four finite draws in [-3,3]"))
    if tier == "thorough":
        for s in range(6):
            R = rng(300 + s)
            T = R.randint(4, 6)
            co = [(0, R.randint(2, 4))] + [(g, R.randint(1, 4)) for g in sorted(R.sample(range(2, T + 1), 2))]
            add("T%d" % s, co, range(1, T + 1), seed=s + 10, B=R.choice([5, 7, 9]), control=R.choice(["never_treated", "not_yet_treated"]),
                base=R.choice(["varying", "universal"]), ant=R.choice([0, 0, 1]), wt=R.choice(["rademacher", "mammen", "webb"]),
                alpha=R.choice([0.05, 0.2]), effect=R.choice([1.0, -1.0, 0.5]))
        add("T-wide", [(0, 2), (2, 2), (3, 1)], [1, 2, 3], B=3, wide=True)
        add("T-symw", [(0, 2), (2, 1)], [1, 2, 3], B=3, wide=True, symw=True, agg="group")
    return out
