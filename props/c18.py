"""C18: power of the pre-trends test.  Pre-period effects, standard errors, correlations and
the violation size are solver variables; the noncentral chi-square tail is an uninterpreted
increasing function of its noncentrality."""
import math
from symx.harness import Case
from .common import *
from .c17 import mp_results, cs_results


def nc_target(alpha, power, n):
    from scipy import stats
    c = stats.chi2.ppf(1 - alpha, df=n)
    lo, hi = 0.0, 1.0
    while stats.ncx2.sf(c, n, hi) < power:
        hi *= 2
    for _ in range(200):
        m = (lo + hi) / 2
        lo, hi = (m, hi) if stats.ncx2.sf(c, n, m) < power else (lo, m)
    return hi


def tail(env, c, n, nc):
    if env.mode == "sym":
        from symx import stubs
        return stubs.STATS.ncx2.sf(c, n, nc)
    from scipy import stats
    return stats.ncx2.sf(c, n, nc) if nc > 0 else stats.chi2.sf(c, n)


def pattern(kind, n, custom=None):
    w = {"linear": [float(n - 1 - i) for i in range(n)], "constant": [1.0] * n, "last_period": [0.0] * (n - 1) + [1.0], "custom": list(custom or [])}[kind]
    k = math.sqrt(sum(x * x for x in w))
    return [x / k for x in w]


def sa_results(env, es):
    C = env.dd.SunAbrahamResults if hasattr(env.dd, "SunAbrahamResults") else env.mod("sun_abraham").SunAbrahamResults
    d = {t: {"effect": e, "se": s, "t_stat": 1.0, "p_value": 0.3, "conf_int": (0.0, 1.0), "n_groups": n} for t, (e, s, n) in es.items()}
    return C(event_study_effects=d, overall_att=0.5, overall_se=0.2, overall_t_stat=2.5, overall_p_value=0.01, overall_conf_int=(0.1, 0.9), cohort_weights={}, groups=[3], time_periods=[1, 2, 3],
             n_obs=40, n_treated_units=4, n_control_units=4)


def build(env, src, n, corr, treat="treated", sd=None):
    """-> results, effects, ses, inverse of the correlation matrix, pre_periods argument"""
    e, s = env.vec("e", n), env.vec("s", n, 0.2, 2.0) if sd is None else list(sd)
    Ri = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
    if src in ("coef", "coef-shuffle", "coef-arg"):
        R = [[1.0 if i == j else corr / abs(i - j) for j in range(n)] for i in range(n)]
        Ri = rnp.linalg.inv(rnp.array(R)).tolist()
        npost = 2
        pre, post = list(range(n + 1)), [n + 1, n + 2]
        ref = 0 if src != "coef-shuffle" else n          # omitted period first or last
        est = [p for p in pre if p != ref]
        keys = ["const", treat] + ["period_%d" % p for p in est] + ["%s:period_%d" % (treat, p) for p in est] + ["%s:period_%d" % (treat, p) for p in post]
        if src == "coef-shuffle":
            keys = keys[::-1]
        W = [[0.7 + 0.05 * i if i == j else 0.02 for j in range(len(keys))] for i in range(len(keys))]
        at = [keys.index("%s:period_%d" % (treat, p)) for p in est]
        for i in range(n):
            for j in range(n):
                W[at[i]][at[j]] = s[i] * s[j] * R[i][j] if i != j else s[i] * s[i]
        co = {k: e[at.index(q)] if q in at else 0.1 * q for q, k in enumerate(keys)}
        pe = (est + post) if src == "coef-arg" else post
        se = [(s[est.index(p)] if p in est else 0.3) for p in pe]
        res = mp_results(env, [(e[est.index(p)] if p in est else 1.0) for p in pe], se, [] if src == "coef-arg" else pre, pe, env.np.array(W), co, 0.25)
        return res, e, (s if src == "coef-arg" else None), s, Ri, (pre if src == "coef-arg" else None)
    if src == "effects":
        per = list(range(n)) + [n + 1, n + 2]
        res = mp_results(env, e + [1.0, 1.1], s + [0.3, 0.4], list(range(n)), per, None, None, 0.25)
        return res, e, s, s, Ri, None
    es = {t - n - 1: (e[t], s[t], 1) for t in range(n)}
    es[-1] = (0.0, float("nan"), 0)
    es.update({0: (1.0, 0.3, 2), 1: (1.2, 0.35, 1)})
    es[-9] = (0.4, float("nan"), 1)
    order = [1, -1] + [t - n - 1 for t in range(n)][::-1] + [0, -9]
    es = {t: es[t] for t in order}
    return (cs_results(env, es, order) if src == "cs" else sa_results(env, es)), e, s, s, Ri, None


def fit(src, n, kind, corr=0.3, alpha=0.05, power=0.8, custom=None, treat="treated", fixed=None):
    def fn(env):
        from scipy import stats
        P = env.mod("pretrends")
        res, e, s, sd, Ri, pre = build(env, src, n, corr, treat, fixed)
        if custom == "sym":
            cw = env.vec("w", n, -1.0, 1.0)
            n2 = total([x * x for x in cw])
            env.assume(n2 >= 0.05)
            nw = env.np.sqrt(n2)
            w = [x / nw for x in cw]
        else:
            cw = list(custom or [])
            w = pattern(kind, n, custom)
        q = total([w[i] * w[j] * Ri[i][j] / (sd[i] * sd[j]) for i in range(n) for j in range(n) if Ri[i][j] != 0 and (custom == "sym" or w[i] * w[j] != 0)])
        crit = float(stats.chi2.ppf(1 - alpha, df=n))
        nc = nc_target(alpha, power, n)
        if env.mode == "sym":
            # two known points of the power curve
            from symx import sym
            sym.CTX.fn_insts.setdefault(("ncx2nc", (crit, float(n))), []).extend([(0.0, alpha), (nc, power)])
        kw = dict(alpha=alpha, power=power, violation_type=kind)
        if custom:
            kw["violation_weights"] = env.np.array(cw) if custom == "sym" else cw
        pt = P.PreTrendsPower(**kw)
        a = {} if pre is None else {"pre_periods": pre}
        M = env.var("M", 0.05, 3.0)
        r = pt.fit(res, M=M, **a)
        env.true("n", r.n_pre_periods == n)
        env.eqs("effects", list(r.pre_period_effects), e)
        if s is not None:
            env.eqs("ses", list(r.pre_period_ses), s)
        env.eq("critical", r.critical_value, crit)
        env.eq("nc", r.noncentrality, M * M * q)
        env.eq("stat", r.test_statistic, n + M * M * q)
        env.eq("power", r.power, tail(env, crit, n, M * M * q))
        env.true("M", (r.violation_magnitude == M) is True or env.value(r.violation_magnitude == M))
        env.eq("mdv", r.mdv * r.mdv * q, nc, tol=1e-5)
        env.true("mdv>0", r.mdv > 0)
        # power reaches the target exactly from the detectable violation on
        env.iff("threshold", r.power >= power, M * M * q >= nc, margin=M * M * q - nc)
        env.eq("power_at", pt.power_at(res, M, **a), r.power)
        env.eq("stored", r.power_at(M), r.power)
        for i in range(n):
            for j in range(n):
                if Ri == [[float(x == y) for y in range(n)] for x in range(n)]:
                    env.eq("V%d%d" % (i, j), r.vcov[i, j], sd[i] * sd[j] if i == j else 0.0)
        d = pt.fit(res, **a)
        env.eq("default-M", d.violation_magnitude, r.mdv)
        env.eq("default-nc", d.noncentrality, nc, tol=1e-5)
        c = pt.power_curve(res, M_grid=[0.0, 0.4, 2.0], **a)
        env.true("grid", [float(v) for v in c.M_values] == [0.0, 0.4, 2.0])
        env.eq("curve0", c.powers[0], alpha)
        env.eq("curve1", c.powers[1], tail(env, crit, n, 0.16 * q))
        env.eq("curve2", c.powers[2], tail(env, crit, n, 4.0 * q))
        env.eq("curve-mdv", c.mdv, r.mdv)
        env.le("monotone", c.powers[1], c.powers[2])
        if not custom:
            k = dict(alpha=alpha, target_power=power, violation_type=kind, **a)
            env.eq("conv-mdv", P.compute_mdv(res, **k), r.mdv)
            env.eq("conv-power", P.compute_pretrends_power(res, M=M, **k).power, r.power)
        h = pt.sensitivity_to_honest_did(res, **a)
        env.eq("honest-mdv", h["mdv"], r.mdv)
        if s is not None:
            top = s[0]
            for v in s[1:]:
                top = v if env.value(v > top) else top
            env.eq("honest-se", h["max_pre_se"], top)
    return fn


def curve_auto(n):
    """automatic grid: 0 to 2.5 detectable violations"""
    def fn(env):
        P = env.mod("pretrends")
        res, e, s, sd, Ri, pre = build(env, "cs", n, 0.0)
        pt = P.PreTrendsPower(violation_type="constant")
        mdv = pt.fit(res).mdv
        c = pt.power_curve(res, n_points=6)
        for k in range(6):
            env.eq("M%d" % k, c.M_values[k], mdv * 0.5 * k)
    return fn


def scale(src, n, kind):
    """multiplying every standard error by k multiplies the detectable violation by k"""
    def fn(env):
        P = env.mod("pretrends")
        k = env.var("k", 0.3, 3.0)
        s = env.vec("s", n, 0.2, 2.0)
        es = lambda f: {t - n: (0.1, s[t] * f, 1) for t in range(n)}
        mk = cs_results if src == "cs" else sa_results
        add = {0: (1.0, 0.4, 1)}
        pt = P.PreTrendsPower(violation_type=kind)
        a = pt.fit(mk(env, {**es(1.0), **add})).mdv
        b = pt.fit(mk(env, {**es(k), **add})).mdv
        env.eq("scale", b, a * k, tol=1e-5)
    return fn


def cases(tier):
    out = []

    def add(nm, fn, b="effects in [-3,3], standard errors in [0.2,2], M in [0.05,3]", **o):
        out.append(Case(nm, fn, bounds=b, opts=o))
    for kind in ("linear", "constant", "last_period"):
        add("coef-" + kind, fit("coef", 2, kind, treat="treated" if kind == "linear" else "d"))
        add("cs-" + kind, fit("cs", 3, kind, alpha=0.1, power=0.9))
    add("coef3", fit("coef", 3, "linear", corr=0.4, treat="grp"))
    add("coef-arg", fit("coef-arg", 2, "linear", corr=-0.3, treat="grp"))
    add("coef-arg3", fit("coef-arg", 3, "last_period", corr=0.4, power=0.5))
    add("coef-shuffle", fit("coef-shuffle", 2, "constant", corr=0.2, treat="d", alpha=0.01))
    add("effects", fit("effects", 2, "linear"))
    add("effects-custom", fit("effects", 3, "custom", custom=[0.5, 0.0, -1.0]))
    add("coef-custom", fit("coef", 2, "custom", custom=[3, 4], corr=0.5))
    add("coef-custom-neg", fit("coef", 3, "custom", custom=[1.0, -2.0, 0.5], corr=0.4, fixed=[0.5, 1.1, 0.8]))
    add("coef-custom-sym", fit("coef", 2, "custom", custom="sym", corr=0.4, fixed=[0.5, 1.1]), "also pattern in [-1,1]^2, squared length at least 0.05")
    add("cs-custom-sym", fit("cs", 2, "custom", custom="sym"), "also pattern in [-1,1]^2, squared length at least 0.05")
    add("low-target", fit("coef", 2, "linear", corr=0.2, treat="d", alpha=0.01, power=0.02))
    add("low-target-one", fit("cs", 1, "constant", alpha=0.05, power=0.1))
    add("high-target", fit("effects", 2, "linear", power=0.999))
    add("sa", fit("sa", 2, "linear"))
    add("sa-last", fit("sa", 3, "last_period", power=0.6))
    add("sa-one", fit("sa", 1, "constant"))
    add("auto", curve_auto(1))
    for s in ("cs", "sa"):
        add("scale-" + s, scale(s, 3, "linear"), "standard errors in [0.2,2], factor in [0.3,3]")
    if tier == "thorough":
        for i in range(8):
            R = rng(i)
            n = R.randint(2, 5)
            kind = R.choice(["linear", "constant", "last_period", "custom"])
            add("T-%d" % i, fit(R.choice(["coef", "coef-arg", "coef-shuffle", "cs", "sa", "effects"]), n, kind, corr=R.uniform(-0.3, 0.4), alpha=R.choice([0.01, 0.05, 0.1]),
                                power=R.choice([0.5, 0.8, 0.95]), custom=[round(R.uniform(-1, 1), 2) for _ in range(n)] if kind == "custom" else None))
    return out
