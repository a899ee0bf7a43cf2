"""C07: group-time effects of CallawaySantAnna."""
from symx.harness import Case
from .common import *
from .csref import *


def make(cohorts, periods, control="never_treated", ant=0, base="varying", method="dr", drop=(), seed=0, label=None):
    def fn(env):
        R = rng(seed)
        rows = panel(cohorts, periods, set(drop))
        y = env.vec("y", len(rows))
        order = list(range(len(rows)))
        if seed:
            R.shuffle(order)
        df = frame(env, rows, y, label=label or (lambda u: u), order=order)
        cols = list(df.columns)
        r = env.dd.CallawaySantAnna(control_group=control, anticipation=ant, base_period=base, estimation_method=method).fit(
            df, outcome="y", unit="u", time="t", first_treat="g")
        ref = Cells(rows, y, control, ant, base)
        env.true("cells", set(r.group_time_effects) == set(ref.cells))
        env.true("groups", list(r.groups) == ref.cohorts and list(r.time_periods) == ref.P)
        nt = sum(1 for u in ref.units if ref.G[u])
        env.true("units", r.n_treated_units == nt and r.n_control_units == len(ref.units) - nt and r.n_obs == len(rows))
        for k, c in ref.cells.items():
            v = r.group_time_effects.get(k)
            if v is None:
                continue
            env.eq("att%s" % (k,), v["effect"], c["effect"])
            env.eq("se2%s" % (k,), v["se"] * v["se"], c["se2"])
            env.true("n%s" % (k,), v["n_treated"] == c["nt"] and v["n_control"] == c["nc"])
        env.true("frame", list(df.columns) == cols)
    return fn


def covs(cohorts, periods, method, control="never_treated", ncov=1, seed=0, varying_cov=True, base="varying", missing=None, xs=None):
    """with covariates: base-period covariates, comparison-group regression, propensity weights"""
    def fn(env):
        R = rng(seed)
        rows = panel(cohorts, periods)
        y = env.vec("y", len(rows))
        X = covariates(R, rows, ncov, varying_cov)
        if xs:
            X = {(u, t): [xs[u]] for u, t, g in rows}
        if missing:
            X[missing][ncov - 1] = float("nan")
        names = ["x%d" % i for i in range(ncov)]
        df = frame(env, rows, y, extra={n: [X[r[0], r[1]][i] for r in rows] for i, n in enumerate(names)})
        r = env.dd.CallawaySantAnna(control_group=control, estimation_method=method, base_period=base).fit(
            df, outcome="y", unit="u", time="t", first_treat="g", covariates=names)
        ref = CovCells(rows, y, X, method, control, 0, base, missing)
        env.true("cells", set(r.group_time_effects) == set(ref.cells))
        tol = 1e-6 if method == "reg" else 1e-3
        for k, c in ref.cells.items():
            v = r.group_time_effects[k]
            env.eq("att(%s,%s)" % k, v["effect"], c["effect"], tol)
            env.eq("se2(%s,%s)" % k, v["se"] * v["se"], c["se2"], tol)
            env.true("n(%s,%s)" % k, v["n_treated"] == c["nt"] and v["n_control"] == c["nc"])
    return fn


XT = [2.9, 1.0, 2.8, 0.3, 0.1, -0.5, 1.2, -0.5, 3.3, 0.6, 2.6, 2.5, 3.5, 0.2, 3.8, 0.8, 2.8, 1.6, 0.2, 3.2, 1.9, 1.1, 3.3, -0.4]


def errors(env):
    """no never-treated units / missing columns are errors, option values are validated"""
    rows = panel([(3, 2), (4, 2)], [1, 2, 3, 4])
    y = env.vec("y", len(rows))
    df = frame(env, rows, y)
    kw = dict(outcome="y", unit="u", time="t", first_treat="g")
    env.raises("no-never", ValueError, env.dd.CallawaySantAnna().fit, df, **kw)
    env.raises("no-never-nyt", ValueError, env.dd.CallawaySantAnna(control_group="not_yet_treated").fit, df, **kw)
    env.raises("missing", ValueError, env.dd.CallawaySantAnna().fit, df, **dict(kw, first_treat="zz"))
    for bad in (dict(control_group="x"), dict(estimation_method="x"), dict(base_period="x"), dict(bootstrap_weights="x")):
        env.raises("bad-%s" % list(bad)[0], ValueError, env.dd.CallawaySantAnna, **bad)


def cases(tier):
    out = []

    def add(name, *a, **k):
        out.append(Case(name, make(*a, **k), bounds="outcomes in [-3,3]; cohorts (g,size) %s, periods %s, %s" % (a[0], list(a[1]), k)))
    S = [(0, 2), (3, 2), (4, 1), (5, 2)]
    P6 = range(1, 7)
    for control in ("never_treated", "not_yet_treated"):
        for base in ("varying", "universal"):
            for ant in (0, 1):
                add("%s-%s-%d" % (control[:3], base[:3], ant), S, P6, control=control, base=base, ant=ant,
                    method=["dr", "reg", "ipw"][(ant + len(out)) % 3], seed=len(out))
    add("ant2", [(0, 2), (4, 2), (6, 1)], range(1, 8), ant=2, seed=4)
    add("ant2-nyt-uni", [(0, 1), (4, 2), (6, 2)], range(1, 8), ant=2, control="not_yet_treated", base="universal")
    add("first-period-cohort", [(0, 2), (1, 2), (3, 2)], range(1, 5), seed=3)
    add("late-cohort", [(0, 2), (3, 2), (9, 2)], range(1, 6), control="not_yet_treated", seed=2)
    add("gap-periods", [(0, 2), (4, 2), (6, 1)], [1, 2, 3, 5, 6, 8], seed=5)
    add("gap-base-missing", [(0, 2), (5, 2), (3, 1)], [1, 2, 3, 5, 6], control="not_yet_treated")
    add("gap-base-uni", [(0, 2), (5, 2), (3, 1)], [1, 2, 3, 5, 6], base="universal", seed=11)
    add("gap-uni-nyt", [(0, 2), (4, 2), (6, 2)], [1, 2, 4, 5, 6, 7], base="universal", control="not_yet_treated", seed=12)
    add("gap-ant", [(0, 2), (5, 2), (7, 1)], [1, 2, 4, 5, 6, 7], ant=1, seed=13)
    add("gap-ant-uni", [(0, 2), (5, 2), (8, 1)], [1, 2, 3, 5, 6, 7, 8], ant=1, base="universal", seed=14)
    add("float-times", [(0, 2), (3.0, 2), (5.0, 2)], [1.0, 2.0, 3.0, 4.0, 5.0, 6.0], control="not_yet_treated", seed=15)
    add("many-cohorts", [(0, 2), (2, 1), (3, 2), (4, 1), (5, 2), (6, 1), (7, 1)], range(1, 8), control="not_yet_treated", seed=16)
    add("all-late", [(0, 2), (8, 2), (9, 1)], range(1, 7), control="not_yet_treated", seed=17)
    add("unbalanced", [(0, 3), (3, 3), (4, 2)], range(1, 6), drop=[(0, 2), (3, 2), (4, 4), (6, 3), (1, 5)], seed=6)
    add("unbalanced-uni-nyt", [(0, 3), (3, 3), (4, 2)], range(1, 6), drop=[(0, 2), (3, 2), (4, 4), (6, 3), (1, 5)], base="universal", control="not_yet_treated")
    add("string-units", [(0, 2), (3, 2), (4, 2)], range(1, 6), label=lambda u: "u%02d" % ((u * 7) % 10), control="not_yet_treated", seed=8)
    add("negative-labels", [(0, 2), (2004, 2), (2006, 3)], range(2002, 2008), label=lambda u: -u * 3, method="ipw", seed=9)
    C = [(0, 4), (3, 3), (4, 3)]
    for m in ("reg", "ipw", "dr"):
        out.append(Case("cov-" + m, covs(C, [1, 2, 3, 4, 5], m, seed=3), bounds="outcomes in [-3,3]; one time-varying covariate, cohorts %s" % C))
        if m != "reg":
            out.append(Case("cov-extreme-" + m, covs([(0, 6), (2, 24)], [1, 2], m, xs=[-25.0, -1.9, -1.9, -1.0, -3.1, 5.4] + XT),
                            bounds="outcomes in [-3,3]; comparison units with propensities beyond 0.01 and 0.99"))
        out.append(Case("cov-small-" + m, covs([(0, 8), (3, 2), (4, 1)], [1, 2, 3, 4], m, seed=12), bounds="outcomes in [-3,3]; one covariate, cohorts of two units and one unit"))
        out.append(Case("cov-nyt-" + m, covs([(0, 4), (3, 3), (4, 4)], [1, 2, 3, 4], m, control="not_yet_treated", seed=4, base="universal"),
                        bounds="outcomes in [-3,3]; one covariate, not-yet-treated, universal base"))
    out.append(Case("cov2-reg", covs([(0, 5), (3, 3), (4, 3)], [1, 2, 3, 4], "reg", ncov=2, seed=5), bounds="outcomes in [-3,3]; two covariates"))
    for m, u in (("reg", 1), ("ipw", 6), ("dr", 9)):
        out.append(Case("cov-missing-" + m, covs([(0, 5), (3, 3), (4, 3)], [1, 2, 3, 4], m, ncov=1 + (m == "reg"), seed=21, missing=(u, 2)),
                        bounds="outcomes in [-3,3]; the covariate of one unit missing in one base period"))
    out.append(Case("errors", errors, bounds="documented error conditions"))
    if tier == "thorough":
        for s in range(6):
            R = rng(100 + s)
            T = R.randint(5, 8)
            co = [(0, R.randint(1, 4))] + [(g, R.randint(1, 4)) for g in sorted(R.sample(range(2, T + 2), R.randint(2, 4)))]
            for control in ("never_treated", "not_yet_treated"):
                for base in ("varying", "universal"):
                    for ant in (0, 1, 2):
                        add("T%d-%s-%s-%d" % (s, control[:3], base[:3], ant), co, range(1, T + 1), control=control, base=base, ant=ant,
                            method=R.choice(["dr", "reg", "ipw"]), seed=s + 1)
        for s in range(3):
            for m in ("reg", "ipw", "dr"):
                out.append(Case("Tcov%d-%s" % (s, m), covs([(0, 6), (3, 4), (5, 5)], [1, 2, 3, 4, 5, 6], m, ncov=2, seed=20 + s,
                                                           control=["never_treated", "not_yet_treated"][s % 2]), bounds="outcomes in [-3,3]; two covariates"))
    return out
