"""C04: coherence of reported inference.  Full fits are run on a two-parameter family
of outcomes (effect a, noise scale s) which reaches every (estimate, SE) pair."""
from symx.harness import Case
from .common import *
from .inf import check_inf, pval


def utils_case(alpha, df):
    def fn(env):
        u = env.mod("utils")
        e = env.var("e", -5, 5)
        se = env.var("se", 0.05, 3)
        t = e / se
        p = u.compute_p_value(t, df=df)
        ci = u.compute_confidence_interval(e, se, alpha, df=df)
        check_inf(env, "u", e, se, t, p, ci, alpha, df)
        env.eq("p", p, pval(env, t, df))
        p1 = u.compute_p_value(t, df=df, two_sided=False)
        env.eq("one-sided", p1 * 2, p)
    return fn


def linreg_case(alpha, dfarg, kind):
    def fn(env):
        L = env.mod("linalg")
        R = rng(3)
        n, k = 9, 3
        X = [[1.0, float(R.randint(0, 1)), round(R.uniform(-2, 2), 2)] for _ in range(n)]
        X[0][1], X[1][1] = 0.0, 1.0
        a, s = env.var("a", -3, 3), env.var("s", 0.05, 2)
        y = [a * X[i][1] + s * round(R.uniform(-2, 2), 2) + 0.3 for i in range(n)]
        kw = dict(robust=(kind == "hc1"), alpha=alpha)
        if kind == "cluster":
            kw["cluster_ids"] = env.np.array([0, 1, 2, 3, 0, 1, 2, 3, 1])
        m = L.LinearRegression(include_intercept=False, **kw).fit(env.np.array(X), env.np.array(y))
        df = n - k if dfarg is None else (dfarg if dfarg > 0 else None)
        for j in range(k):
            r = m.get_inference(j, df=dfarg)
            check_inf(env, "b%d" % j, r.coefficient, r.se, r.t_stat, r.p_value, r.conf_int, alpha, df)
            r2 = m.get_inference(j, alpha=0.2, df=dfarg)
            check_inf(env, "c%d" % j, r2.coefficient, r2.se, r2.t_stat, r2.p_value, r2.conf_int, 0.2, df)
        r = m.get_inference(1, df=dfarg)
        env.eq("p", r.p_value, pval(env, r.t_stat, df))
        env.iff("is_significant", r.is_significant(), r.p_value < alpha, margin=r.p_value - alpha)
    return fn


def fam(env, D, seed, base=None, lo=0.05):
    """y = a*D + s*noise (+ base): the estimate and its SE range over all pairs"""
    R = rng(seed)
    a, s = env.var("a", -3, 3), env.var("s", lo, 2)
    e = [round(R.uniform(-2, 2), 2) for _ in D]
    return [a * d + s * x + (0.0 if base is None else base[i]) for i, (d, x) in enumerate(zip(D, e))]


def staggered(cohorts, T):
    """rows (unit, t, g) for [(g, size)]"""
    rows, u = [], 0
    for g, sz in cohorts:
        for _ in range(sz):
            for t in range(1, T + 1):
                rows.append((u, t, g))
            u += 1
    return rows


def collinear_case(est, alpha, robust=True):
    """a covariate that repeats another one is dropped and takes no degree of freedom"""
    def fn(env):
        rows = [(u, t, int(u >= 4)) for u in range(8) for t in range(4)]
        D = [float(r[2] and r[1] >= 2) for r in rows]
        y = fam(env, D, 11)
        R = rng(4)
        x = [round(R.uniform(-1, 1), 2) for _ in rows]
        df = env.pd.DataFrame({"y": y, "u": [r[0] for r in rows], "t": [r[1] for r in rows], "tr": [r[2] for r in rows],
                               "po": [int(r[1] >= 2) for r in rows], "x": x, "x2": [2.0 * v for v in x]})
        n, dd = len(rows), env.dd
        kw = dict(alpha=alpha, rank_deficient_action="silent", robust=robust)
        if est == "did":
            k = n - 5
            r = dd.DifferenceInDifferences(**kw).fit(df, outcome="y", treatment="tr", time="po", covariates=["x", "x2"])
        elif est == "twfe":
            k = n - 8 - 2 - 1
            r = dd.TwoWayFixedEffects(**kw).fit(df, outcome="y", treatment="tr", time="po", unit="u", covariates=["x", "x2"])
        elif est == "multi":
            k = n - 8 - 0
            r = dd.MultiPeriodDiD(**kw).fit(df, outcome="y", treatment="tr", time="t", post_periods=[2, 3], covariates=["x", "x2"])
            check_inf(env, "avg", r.avg_att, r.avg_se, r.avg_t_stat, r.avg_p_value, r.avg_conf_int, alpha, k)
            env.eq("avg-p", r.avg_p_value, pval(env, r.avg_t_stat, k))
            for q, pe in r.period_effects.items():
                check_inf(env, "p%s" % q, pe.effect, pe.se, pe.t_stat, pe.p_value, pe.conf_int, alpha, k)
                env.eq("p%s-p" % q, pe.p_value, pval(env, pe.t_stat, k))
            return
        check_inf(env, est, r.att, r.se, r.t_stat, r.p_value, r.conf_int, alpha, k)
        env.eq("p", r.p_value, pval(env, r.t_stat, k))
    return fn


def did_case(est, alpha):
    def fn(env):
        dd = env.dd
        rows = [(u, t, int(u >= 4)) for u in range(8) for t in range(4)]
        D = [float(r[2] and r[1] >= 2) for r in rows]
        y = fam(env, D, 11)
        df = env.pd.DataFrame({"y": y, "u": [r[0] for r in rows], "t": [r[1] for r in rows], "tr": [r[2] for r in rows],
                               "po": [int(r[1] >= 2) for r in rows]})
        n = len(rows)
        if est in ("did", "did-classical", "did-cluster"):
            m = dd.DifferenceInDifferences(robust=est != "did-classical", cluster="u" if est == "did-cluster" else None, alpha=alpha)
            r = m.fit(df, outcome="y", treatment="tr", time="po")
            check_inf(env, est, r.att, r.se, r.t_stat, r.p_value, r.conf_int, alpha, n - 4)
            env.eq("p", r.p_value, pval(env, r.t_stat, n - 4))
            env.iff("flag", r.is_significant, r.p_value < alpha, margin=r.p_value - alpha)
        elif est == "twfe":
            k = n - 8 - 2
            r = dd.TwoWayFixedEffects(alpha=alpha).fit(df, outcome="y", treatment="tr", time="po", unit="u")
            check_inf(env, est, r.att, r.se, r.t_stat, r.p_value, r.conf_int, alpha, k)
            env.eq("p", r.p_value, pval(env, r.t_stat, k))
        elif est == "multi":
            k = n - 1 - 1 - 3 - 2   # intercept, group, periods, interactions
            r = dd.MultiPeriodDiD(alpha=alpha).fit(df, outcome="y", treatment="tr", time="t", post_periods=[2, 3])
            check_inf(env, "avg", r.avg_att, r.avg_se, r.avg_t_stat, r.avg_p_value, r.avg_conf_int, alpha, k)
            env.eq("avg-p", r.avg_p_value, pval(env, r.avg_t_stat, k))
            for q, pe in r.period_effects.items():
                check_inf(env, "p%s" % q, pe.effect, pe.se, pe.t_stat, pe.p_value, pe.conf_int, alpha, k)
                env.eq("p%s-p" % q, pe.p_value, pval(env, pe.t_stat, k))
    return fn


def cs_case(alpha, method="dr", control="never_treated"):
    def fn(env):
        rows = staggered([(0, 4), (3, 3), (4, 3)], 5)
        D = [float(r[2] > 0 and r[1] >= r[2]) for r in rows]
        y = fam(env, D, 5)
        df = env.pd.DataFrame({"y": y, "u": [r[0] for r in rows], "t": [r[1] for r in rows], "g": [r[2] for r in rows]})
        r = env.dd.CallawaySantAnna(alpha=alpha, estimation_method=method, control_group=control).fit(
            df, outcome="y", unit="u", time="t", first_treat="g", aggregate="all")
        check_inf(env, "overall", r.overall_att, r.overall_se, r.overall_t_stat, r.overall_p_value, r.overall_conf_int, alpha, None)
        env.eq("p", r.overall_p_value, pval(env, r.overall_t_stat))
        for nm, d in (("gt", r.group_time_effects), ("es", r.event_study_effects), ("grp", r.group_effects)):
            for key, v in d.items():
                check_inf(env, "%s%s" % (nm, key), v["effect"], v["se"], v["t_stat"], v["p_value"], v["conf_int"], alpha, None)
                if nm != "gt":
                    env.eq("%s%s-p" % (nm, key), v["p_value"], pval(env, v["t_stat"]))
    return fn


def cs_zero(method, which):
    """units of one group that move in parallel exactly: every standard error is zero
    (which='all'), or only that of the later cohort is positive"""
    def fn(env):
        rows = staggered([(0, 4), (3, 2), (4, 2)], 5)
        f = [env.var("f%d" % t, -3, 3) for t in range(6)]
        a, b, s = env.var("a", -3, 3), env.var("b", 0.5, 3), env.var("s", 0.5, 2)
        y = [f[r[1]] + (a if r[2] == 3 else b) * float(r[2] > 0 and r[1] >= r[2]) + (s * float(r[1]) if which == "one" and r[0] == 7 else 0.0) for r in rows]
        df = env.pd.DataFrame({"y": y, "u": [r[0] for r in rows], "t": [r[1] for r in rows], "g": [r[2] for r in rows]})
        r = env.dd.CallawaySantAnna(estimation_method=method).fit(df, outcome="y", unit="u", time="t", first_treat="g", aggregate="all")
        # cohort 4 never has zero errors when one of its units moves away
        zero = lambda g: which == "all" or g == 3
        for nm, d in (("gt", r.group_time_effects), ("grp", r.group_effects)):
            for key, v in d.items():
                if zero(key[0] if nm == "gt" else key):
                    env.eq("%s%s-se" % (nm, key), v["se"], 0.0)
                    env.isnan("%s%s-t" % (nm, key), v["t_stat"])
                    env.isnan("%s%s-p" % (nm, key), v["p_value"])
                else:
                    env.true("%s%s-pos" % (nm, key), v["se"] > 0)
                    env.eq("%s%s-t" % (nm, key), v["t_stat"] * v["se"], v["effect"])
        if which == "all":
            for nm, v in r.event_study_effects.items():
                env.eq("es%s-se" % (nm,), v["se"], 0.0)
                env.isnan("es%s-t" % (nm,), v["t_stat"])
                env.isnan("es%s-p" % (nm,), v["p_value"])
    return fn


def sa_case(alpha):
    def fn(env):
        rows = staggered([(0, 4), (3, 3), (4, 3)], 5)
        D = [float(r[2] > 0 and r[1] >= r[2]) for r in rows]
        y = fam(env, D, 7)
        df = env.pd.DataFrame({"y": y, "u": [r[0] for r in rows], "t": [r[1] for r in rows], "g": [r[2] for r in rows]})
        r = env.dd.SunAbraham(alpha=alpha).fit(df, outcome="y", unit="u", time="t", first_treat="g")
        check_inf(env, "overall", r.overall_att, r.overall_se, r.overall_t_stat, r.overall_p_value, r.overall_conf_int, alpha, None)
        env.eq("p", r.overall_p_value, pval(env, r.overall_t_stat))
        for key, v in r.event_study_effects.items():
            check_inf(env, "es%s" % key, v["effect"], v["se"], v["t_stat"], v["p_value"], v["conf_int"], alpha, None)
            env.eq("es%s-p" % key, v["p_value"], pval(env, v["t_stat"]))
    return fn


def ddd_case(method, alpha):
    def fn(env):
        cells = [(g, p, t) for g in (0, 1) for p in (0, 1) for t in (0, 1)]
        rows = [c for i, c in enumerate(cells) for _ in range(2 + i % 2)]
        D = [float(r == (1, 1, 1)) for r in rows]
        y = fam(env, D, 9)
        df = env.pd.DataFrame({"y": y, "g": [r[0] for r in rows], "p": [r[1] for r in rows], "t": [r[2] for r in rows]})
        r = env.dd.TripleDifference(estimation_method=method, alpha=alpha).fit(df, outcome="y", group="g", partition="p", time="t")
        k = len(rows) - 8
        check_inf(env, method, r.att, r.se, r.t_stat, r.p_value, r.conf_int, alpha, k)
        env.eq("p", r.p_value, pval(env, r.t_stat, k))
        env.iff("flag", r.is_significant, r.p_value < alpha, margin=r.p_value - alpha)
    return fn


def loo_case(alpha):
    def fn(env):
        rows = [(u, t, int(u >= 3)) for u in range(6) for t in range(2)]
        D = [float(r[2] and r[1]) for r in rows]
        y = fam(env, D, 3)
        df = env.pd.DataFrame({"y": y, "u": [r[0] for r in rows], "po": [r[1] for r in rows], "tr": [r[2] for r in rows]})
        r = env.mod("diagnostics").leave_one_out_test(df, outcome="y", treatment="tr", time="po", unit="u", alpha=alpha)
        k = len(r.leave_one_out_effects) - 1
        check_inf(env, "loo", r.placebo_effect, r.se, r.t_stat, r.p_value, r.conf_int, alpha, k)
        env.eq("p", r.p_value, pval(env, r.t_stat, k))
        m = mean(list(r.leave_one_out_effects.values()))
        env.eq("mean", r.placebo_effect, m)
        env.eq("sd", r.se * r.se, total([(e - m) * (e - m) for e in r.leave_one_out_effects.values()]) / k)
    return fn


def cases(tier):
    out = []

    def add(name, fn, b="effect a in [-3,3], noise scale s in [0.05,2]", **k):
        out.append(Case(name, fn, bounds=b, **k))
    for al in ((0.01, 0.05, 0.1, 0.32) if tier == "quick" else (0.001, 0.01, 0.025, 0.05, 0.1, 0.2, 0.32, 0.5)):
        for df in ((None, 1, 2, 7, 12, 29, 60, 150) if tier == "quick" else (None, 1, 2, 3, 5, 7, 15, 30, 60, 200)):
            add("utils-%s-%s" % (al, df), utils_case(al, df), "estimate in [-5,5], se in [0.05,3]")
    for kind in ("hc1", "classical", "cluster"):
        for dfa in (None, 4, 0):
            add("linreg-%s-%s" % (kind, dfa), linreg_case(0.05 if dfa != 4 else 0.1, dfa, kind))
    for m, w in (("dr", "all"), ("reg", "one"), ("ipw", "all"), ("ipw", "one")) if tier == "quick" else [(m, w) for m in ("dr", "reg", "ipw") for w in ("all", "one")]:
        add("cs-zero-%s-%s" % (m, w), cs_zero(m, w), "period effects and treatment effects in [-3,3], spread in [0.5,2]")
    for al in (0.05, 0.1) if tier == "thorough" else (0.1,):
        for e in ("did", "did-classical", "did-cluster", "twfe", "multi"):
            add("%s-%s" % (e, al), did_case(e, al))
        for e in ("did", "twfe", "multi"):
            for rb in (True, False):
                add("collinear-%s-%s-%s" % (e, "hc1" if rb else "classical", al), collinear_case(e, al, rb))
        for m in ("dr", "reg", "ipw"):
            add("cs-%s-%s" % (m, al), cs_case(al, m, "not_yet_treated" if m == "reg" else "never_treated"))
        add("sa-%s" % al, sa_case(al))
        for m in ("dr", "reg", "ipw"):
            add("ddd-%s-%s" % (m, al), ddd_case(m, al))
        add("loo-%s" % al, loo_case(al))
    return out
