"""C08: aggregation of group-time effects."""
from symx.harness import Case
from .common import *
from .csref import *


def make(cohorts, periods, control="never_treated", ant=0, base="varying", method="dr", drop=(), seed=0, balance=None, agg="all", label=None, cov=0, sym=None):
    def fn(env):
        R = rng(seed)
        rows = panel(cohorts, periods, set(drop))
        y = env.vec("y", len(rows) if sym is None else sum(q[0] in sym for q in rows))
        if sym is not None:
            it = iter(y)
            y = [next(it) if q[0] in sym else round(R.uniform(-2, 2), 2) for q in rows]
        order = list(range(len(rows)))
        if seed:
            R.shuffle(order)
        X = covariates(R, rows, cov)
        names = ["x%d" % i for i in range(cov)]
        df = frame(env, rows, y, order=order, label=label or (lambda u: u), extra={n: [X[r[0], r[1]][i] for r in rows] for i, n in enumerate(names)})
        tol = dict(tol=1e-3) if cov and method != "reg" else {}
        r = env.dd.CallawaySantAnna(control_group=control, anticipation=ant, base_period=base, estimation_method=method).fit(
            df, outcome="y", unit="u", time="t", first_treat="g", aggregate=agg, balance_e=balance, covariates=names or None)
        ref = CovCells(rows, y, X, method, control, ant, base) if cov else Cells(rows, y, control, ant, base)
        s = ref.simple()
        if s is None:
            env.isnan("overall-nan", r.overall_att)
            env.isnan("overall-se-nan", r.overall_se)
            env.isnan("overall-p-nan", r.overall_p_value)
        else:
            env.eq("overall", r.overall_att, s[0], **tol)
            env.eq("overall_se2", r.overall_se * r.overall_se, ssq(s[2]), **tol)
        if agg in ("all", "event_study"):
            ev = ref.event(balance)
            keys = set(ev)
            rp = -1 - ant
            if base == "universal" and ev:
                keys.add(rp)
            env.true("event-times", set(r.event_study_effects) == keys)
            for e, (pr, eff, psi) in ev.items():
                v = r.event_study_effects.get(e)
                if v is None:
                    continue
                env.eq("es[%d]" % e, v["effect"], eff, **tol)
                env.eq("es_se2[%d]" % e, v["se"] * v["se"], ssq(psi), **tol)
                env.true("es_n[%d]" % e, v["n_groups"] == len(pr))
            if base == "universal" and ev and rp not in ev:
                v = r.event_study_effects[rp]
                env.true("ref-zero", float(v["effect"]) == 0.0 and v["n_groups"] == 0)
                for q in ("se", "t_stat", "p_value"):
                    env.isnan("ref-" + q, v[q])
        else:
            env.true("no-es", r.event_study_effects is None)
        if agg in ("all", "group"):
            gr = ref.group()
            env.true("cohorts", set(r.group_effects) == set(gr))
            for g, (pr, eff, psi) in gr.items():
                v = r.group_effects.get(g)
                if v is None:
                    continue
                env.eq("grp[%s]" % g, v["effect"], eff, **tol)
                env.eq("grp_se2[%s]" % g, v["se"] * v["se"], ssq(psi), **tol)
                env.true("grp_n[%s]" % g, v["n_periods"] == len(pr))
        else:
            env.true("no-grp", r.group_effects is None)
    return fn


def cases(tier):
    out = []

    def add(name, *a, **k):
        out.append(Case(name, make(*a, **k), bounds="outcomes in [-3,3]; cohorts (g,size) %s, periods %s, %s" % (a[0], list(a[1]), k)))
    S = [(0, 3), (3, 2), (4, 3), (5, 1)]
    add("never-var", S, range(1, 7), seed=1)
    add("nyt-var", S, range(1, 6), control="not_yet_treated", method="reg")
    add("never-uni", S, range(1, 6), base="universal", method="ipw", seed=2)
    add("nyt-uni-ant1", [(0, 2), (4, 2), (5, 3)], range(1, 7), control="not_yet_treated", base="universal", ant=1)
    add("ant1", [(0, 2), (3, 3), (5, 1)], range(1, 7), ant=1, seed=3)
    add("ant2-group", [(0, 2), (4, 2), (6, 2)], range(1, 8), ant=2, agg="group")
    add("balance1", S, range(1, 6), balance=1, agg="event_study")
    add("balance2", S, range(1, 7), balance=2, agg="event_study", seed=4, control="not_yet_treated")
    add("balance-gap", [(0, 2), (4, 2), (6, 1), (3, 2)], [1, 2, 3, 5, 6, 8], balance=1, agg="event_study", seed=5)
    add("balance-gap0", [(0, 2), (4, 2), (6, 1), (5, 2)], [1, 3, 5, 6, 8], balance=0, agg="all", seed=9)
    add("unbalanced", [(0, 3), (3, 3), (4, 2)], range(1, 6), drop=[(0, 2), (3, 2), (4, 4), (6, 3), (1, 5)], seed=6)
    add("late-cohort", [(0, 3), (3, 2), (9, 2)], range(1, 6), control="not_yet_treated")
    add("no-post", [(0, 3), (7, 2), (9, 2)], range(1, 5), control="not_yet_treated")
    add("first-period-cohort", [(0, 2), (1, 2), (3, 2)], range(1, 5))
    add("single-units", [(0, 1), (2, 1), (3, 1)], range(1, 5), label=lambda u: "s%d" % (9 - u))
    add("simple-only", S, range(1, 6), agg=None)
    add("gap", [(0, 2), (4, 2), (6, 1)], [1, 2, 3, 5, 6, 8])
    C = [(0, 6), (3, 3), (4, 4)]
    for m in ("reg", "ipw", "dr"):
        add("cov-" + m, C, range(1, 6), method=m, cov=1, seed=7, sym=None if m == "reg" else (1, 7))
        add("cov-nyt-" + m, C, range(1, 5), method=m, cov=1, seed=14, control="not_yet_treated", base="universal", sym=None if m == "reg" else (1, 7), agg=["event_study", "group", "all"][len(m) % 3])
    if tier == "thorough":
        for s in range(8):
            R = rng(200 + s)
            T = R.randint(5, 8)
            co = [(0, R.randint(1, 4))] + [(g, R.randint(1, 4)) for g in sorted(R.sample(range(2, T + 2), R.randint(2, 4)))]
            for control in ("never_treated", "not_yet_treated"):
                for base in ("varying", "universal"):
                    for ant in (0, 1):
                        add("T%d-%s-%s-%d" % (s, control[:3], base[:3], ant), co, range(1, T + 1), control=control, base=base, ant=ant,
                            method=R.choice(["dr", "reg", "ipw"]), seed=s + 1, balance=R.choice([None, 0, 1, 2]))
    return out
