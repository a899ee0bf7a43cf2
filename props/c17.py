"""C17: honest sensitivity analysis.  Event-study effects, standard errors, weights and the
allowed violation M are solver variables; result objects are built directly (every mix of
covariance/coefficient storage) and by the real estimators on symbolic outcomes."""
import math
from symx.harness import Case
from .common import *
from . import csref


def mp_results(env, eff, ses, pre, post, vcov=None, coefs=None, avg_se=None):
    R = env.mod("results")
    pe = {p: R.PeriodEffect(period=p, effect=e, se=s, t_stat=e / s, p_value=0.5, conf_int=(e - s, e + s)) for p, e, s in zip(post, eff, ses)}
    return R.MultiPeriodDiDResults(period_effects=pe, avg_att=mean(eff), avg_se=0.25 if avg_se is None else avg_se, avg_t_stat=1.0, avg_p_value=0.3, avg_conf_int=(0.0, 1.0),
                                   n_obs=80, n_treated=40, n_control=40, pre_periods=list(pre), post_periods=list(post), vcov=vcov, coefficients=coefs)


def cs_results(env, es, order=None, overall_se=0.4):
    """es: relative time -> (effect, se, n_groups)"""
    R = env.mod("staggered_results") if hasattr(env.mod("staggered"), "__name__") and _has(env, "staggered_results") else env.mod("staggered")
    C = getattr(R, "CallawaySantAnnaResults", None) or env.dd.CallawaySantAnnaResults
    d = {}
    for t in (order or sorted(es)):
        e, s, n = es[t]
        d[t] = {"effect": e, "se": s, "t_stat": 1.0, "p_value": 0.3, "conf_int": (0.0, 1.0), "n_groups": n}
    return C(group_time_effects={}, overall_att=0.5, overall_se=overall_se, overall_t_stat=1.0, overall_p_value=0.3, overall_conf_int=(0.0, 1.0), groups=[3], time_periods=[1, 2, 3],
             n_obs=50, n_treated_units=5, n_control_units=5, event_study_effects=d)


def _has(env, name):
    try:
        env.mod(name)
        return True
    except Exception:
        return False


def wsum(l, x):
    return total([a * b for a, b in zip(l, x)])


def quad(l, V):
    return total([l[i] * l[j] * V[i][j] for i in range(len(l)) for j in range(len(l))])


def absmax(env, xs):
    m = 0.0
    for x in xs:
        a = abs(x)
        m = a if env.value(a > m) else m
    return m


def check_fit(env, nm, r, theta, var, scale, M, alpha):
    """relative-magnitude result against theta +/- M*scale and normal critical value"""
    env.eq(nm + ".estimate", r.original_estimate, theta)
    env.eq(nm + ".se2", r.original_se * r.original_se, var)
    env.eq(nm + ".lb", r.lb, theta - M * scale)
    env.eq(nm + ".ub", r.ub, theta + M * scale)
    z = zcrit(alpha)
    env.eq(nm + ".ci_lb", r.ci_lb, r.lb - z * r.original_se)
    env.eq(nm + ".ci_ub", r.ci_ub, r.ub + z * r.original_se)
    env.true(nm + ".M", env.value(r.M == M) if env.issym(M) else r.M == M)


def rm_mp(npre, npost, kind, alpha=0.05, l=None, treat="treated", off=0, names=None):
    """relative magnitudes for MultiPeriodDiD results; kind: how the covariance is stored"""
    def fn(env):
        H = env.mod("honest_did")
        per = names or [off + i for i in range(npre + npost)]
        pre, post = per[:npre], per[npre:]
        e = env.vec("e", npost)
        s = env.vec("s", npost, 0.2, 2.0)
        M = env.var("M", 0.0, 3.0)
        coefs = vcov = None
        V = [[s[i] * s[i] if i == j else 0.0 for j in range(npost)] for i in range(npost)]
        pr = []
        if kind in ("full", "nopre", "post"):
            # every coefficient of the regression in order, covariance of all of them
            nm = ["const", treat] + ["period_%s" % p for p in per[1:]]
            prek = ["%s:period_%s" % (treat, p) for p in pre[1:]] if kind == "full" else []
            if kind == "full":
                pr = env.vec("b", npre - 1)
            allk = nm + prek + ["%s:period_%s" % (treat, p) for p in post] + ["x"]
            k0 = allk.index("%s:period_%s" % (treat, post[0]))
            coefs = {}
            for i, k in enumerate(allk):
                coefs[k] = e[i - k0] if k0 <= i < k0 + npost else (pr[prek.index(k)] if k in prek else 0.1 * i)
            c = env.var("c", -0.1, 0.1)
            W = [[0.5 + 0.1 * i if i == j else 0.01 for j in range(len(allk))] for i in range(len(allk))]
            for i in range(npost):
                for j in range(npost):
                    W[k0 + i][k0 + j] = s[i] * s[i] if i == j else c * s[i] * s[j]
                    V[i][j] = W[k0 + i][k0 + j]
            vcov = env.np.array(W)
        elif kind == "block":
            c = env.var("c", -0.1, 0.1)
            for i in range(npost):
                for j in range(npost):
                    if i != j:
                        V[i][j] = c * s[i] * s[j]
            vcov = env.np.array(V)
        avg = env.var("avg", 0.1, 1.0)
        res = mp_results(env, e, s, pre, post, vcov, coefs, avg)
        scale = absmax(env, pr) if pr else avg
        lv = l or [1.0 / npost] * npost
        if l == "sym":
            lv = env.vec("l", npost, -1.0, 1.0)
        kw = {} if l is None else {"l_vec": env.np.array(lv) if l == "sym" else l}
        h = H.HonestDiD(method="relative_magnitude", alpha=alpha, **kw)
        theta, var = wsum(lv, e), quad(lv, V)
        r = h.fit(res, M=M)
        check_fit(env, "rm", r, theta, var, scale, M, alpha)
        r0 = h.fit(res, M=0)
        check_fit(env, "zero", r0, theta, var, scale, 0, alpha)
        # default of the constructor
        r1 = H.HonestDiD(method="relative_magnitude", alpha=alpha, **kw).fit(res)
        check_fit(env, "one", r1, theta, var, scale, 1.0, alpha)
        if l is None:
            check_fit(env, "conv", H.compute_honest_did(res, method="relative_magnitude", M=0.5, alpha=alpha), theta, var, scale, 0.5, alpha)
        h.M = 2.0
        check_fit(env, "stored", h.fit(res), theta, var, scale, 2.0, alpha)
        env.iff("sig", r.is_significant, env.any_of(r.ci_lb > 0, r.ci_ub < 0), margin=r.ci_lb * r.ci_ub)
    return fn


def rm_cs(pre, post, dead=(), ref=True, order=None, alpha=0.1, l=None):
    """Callaway-Sant'Anna event study; `dead` relative times have no finite standard error"""
    def fn(env):
        H = env.mod("honest_did")
        es = {}
        for t in list(pre) + list(post):
            es[t] = (env.var("e%d" % (t + 20)), env.var("s%d" % (t + 20), 0.2, 2.0), 2)
        for t in dead:
            es[t] = (es[t][0] if t >= 0 else 0.05, float("nan"), 1)
        if ref:
            es[-1] = (0.0, float("nan"), 0)
        M = env.var("M", 0.0, 3.0)
        res = cs_results(env, es, order)
        live = [t for t in sorted(post) if t not in dead]
        e, s = [es[t][0] for t in live], [es[t][1] for t in live]
        lv = l or [1.0 / len(live)] * len(live)
        scale = absmax(env, [es[t][0] for t in es if t < 0 and es[t][2] > 0]) if pre else 0.4
        h = H.HonestDiD(alpha=alpha, **({} if l is None else {"l_vec": env.np.array(l)}))
        V = [[s[i] * s[i] if i == j else 0.0 for j in range(len(s))] for i in range(len(s))]
        check_fit(env, "rm", h.fit(res, M=M), wsum(lv, e), quad(lv, V), scale, M, alpha)
    return fn


def rm_undefined(kind, first):
    """a pre-period effect that was not estimated (NaN) is no violation of any size"""
    def fn(env):
        H = env.mod("honest_did")
        a, b, M, nan = env.var("a"), env.var("b"), env.var("M", 0.0, 3.0), float("nan")
        if kind == "cs":
            es = {-3: (a, 0.3, 2), -2: (b, 0.4, 1), 0: (env.var("e"), 0.5, 2)}
            es[-4 if first else -1] = (nan, nan, 1)
            res = cs_results(env, es, list(es) if first is None else sorted(es))
            e, se = es[0][0], 0.5
        else:
            e, se = env.var("e"), 0.5
            co = {"d:period_1": nan, "d:period_2": a, "d:period_3": b, "d:period_5": e} if first else {"d:period_1": a, "d:period_2": b, "d:period_3": nan, "d:period_5": e}
            res = mp_results(env, [e], [se], [1, 2, 3], [5], coefs=co)
        check_fit(env, "rm", H.HonestDiD(alpha=0.1).fit(res, M=M), e, se * se, absmax(env, [a, b]), M, 0.1)
    return fn


def fitted(T, first, cov=False, treat="treated", cluster=False, l=None, seed=0, robust=True):
    """chain MultiPeriodDiD.fit -> HonestDiD.fit on symbolic outcomes"""
    def fn(env):
        H = env.mod("honest_did")
        R = rng(seed)
        rows = [(u, t, int(u % 2 == 0)) for u in range(4) for t in range(T)]
        R.shuffle(rows)
        y = [env.var("y%d" % i) if q[1] >= first - 1 else round(R.uniform(-1, 1), 2) for i, q in enumerate(rows)]
        df = env.pd.DataFrame({"y": y, treat: [q[2] for q in rows], "t": [q[1] for q in rows], "u": [q[0] for q in rows], "x": [round(R.uniform(-1, 1), 2) for q in rows]})
        kw = {"cluster": "u"} if cluster else {}
        res = env.dd.MultiPeriodDiD(robust=robust, **kw).fit(df, outcome="y", treatment=treat, time="t", post_periods=list(range(first, T)), **({"covariates": ["x"]} if cov else {}))
        M = env.var("M", 0.0, 2.0)
        h = H.HonestDiD(method="relative_magnitude")
        r = h.fit(res, M=M)
        env.eq("estimate", r.original_estimate, res.avg_att)
        env.eq("se", r.original_se, res.avg_se)
        env.eq("lb", r.lb, res.avg_att - M * res.avg_se)
        env.eq("ub", r.ub, res.avg_att + M * res.avg_se)
        env.eq("ci_lb", r.ci_lb, res.avg_att - (M + zcrit(0.05)) * res.avg_se)
        env.eq("ci_ub", r.ci_ub, res.avg_att + (M + zcrit(0.05)) * res.avg_se)
        n = T - first
        for k in range(n):
            p = res.period_effects[first + k]
            q = H.HonestDiD(l_vec=[1.0 if i == k else 0.0 for i in range(n)]).fit(res, M=0)
            env.eq("e%d" % k, q.original_estimate, p.effect)
            env.eq("v%d" % k, q.original_se * q.original_se, p.se * p.se)
    return fn


def fitted_cs(cohorts, T, base="varying", seed=0):
    """chain CallawaySantAnna.fit -> HonestDiD.fit; some outcomes symbolic"""
    def fn(env):
        H = env.mod("honest_did")
        R = rng(seed)
        rows = csref.panel(cohorts, list(range(1, T + 1)))
        y = [env.var("y%d" % i) if R.random() < 0.3 else round(R.uniform(-2, 2), 2) for i in range(len(rows))]
        res = env.dd.CallawaySantAnna(base_period=base).fit(csref.frame(env, rows, y), outcome="y", unit="u", time="t", first_treat="g", aggregate="event_study")
        es = res.event_study_effects
        live = [t for t in sorted(es) if es[t].get("n_groups", 1) > 0 and not env.nanval(es[t]["se"])]
        post, pre = [t for t in live if t >= 0], [t for t in live if t < 0]
        M = env.var("M", 0.0, 2.0)
        r = H.HonestDiD(method="relative_magnitude").fit(res, M=M)
        n = len(post)
        check_fit(env, "rm", r, mean([es[t]["effect"] for t in post]), total([es[t]["se"] * es[t]["se"] for t in post]) / (n * n), absmax(env, [es[t]["effect"] for t in pre]), M, 0.05)
    return fn


def smooth(npre, npost, Ms, combined=False, l=None):
    """second-difference restriction: nested sets, intervals contain sets; combined = the
    intersection with the relative-magnitude set"""
    def fn(env):
        H = env.mod("honest_did")
        es = {}
        for t in range(-npre, npost):
            es[t] = (env.var("e%d" % (t + 20)), env.var("s%d" % (t + 20), 0.2, 2.0), 1)
        res = cs_results(env, es)
        h = H.HonestDiD(method="combined" if combined else "smoothness", **({} if l is None else {"l_vec": l}))
        lv = l or [1.0 / npost] * npost
        e, s = [es[t][0] for t in range(npost)], [es[t][1] for t in range(npost)]
        theta, var = wsum(lv, e), wsum([x * x for x in lv], [x * x for x in s])
        scale = absmax(env, [es[t][0] for t in range(-npre, 0)]) if npre else 0.4
        prev = None
        z = zcrit(0.05)
        for M in Ms:
            r = h.fit(res, M=M)
            env.eq("est%s" % M, r.original_estimate, theta)
            env.eq("se%s" % M, r.original_se * r.original_se, var)
            fin = env.issym(r.lb) or math.isfinite(r.lb)
            if fin:
                env.eq("ci_lb%s" % M, r.ci_lb, r.lb - z * r.original_se)
                env.eq("ci_ub%s" % M, r.ci_ub, r.ub + z * r.original_se)
            else:
                env.true("ci_inf%s" % M, r.lb == -math.inf and r.ci_lb == -math.inf and r.ub == math.inf and r.ci_ub == math.inf)
            env.le("ordered%s" % M, r.lb, r.ub)
            if combined:
                env.le("rm_lb%s" % M, theta - M * scale, r.lb)
                env.le("rm_ub%s" % M, r.ub, theta + M * scale)
            if prev is not None:
                env.le("nest_lb%s" % M, r.lb, prev[0])
                env.le("nest_ub%s" % M, prev[1], r.ub)
            prev = (r.lb, r.ub)
    return fn


def smooth_set(npre, npost, M):
    """the identified set bounds violations of the post periods given the estimated
    pre-period ones: it is bounded"""
    def fn(env):
        H = env.mod("honest_did")
        es = {t: (round(0.1 * t + 0.03 * t * t, 3), 0.3, 1) for t in range(-npre, 0)}
        es.update({t: (env.var("e%d" % t), 0.3, 1) for t in range(npost)})
        r = H.HonestDiD(method="smoothness").fit(cs_results(env, es), M=M)
        env.true("bounded", env.issym(r.lb) or math.isfinite(r.lb))
    return fn


def breakdown(tol, lo, hi, neg=False, cs=True):
    """direct search over [0, 10]"""
    def fn(env):
        H = env.mod("honest_did")
        a = env.var("a", lo, hi)
        a = -a if neg else a
        sc, se, z = 0.5, 0.3, zcrit(0.05)
        res = cs_results(env, {-2: (0.1, 0.2, 1), -1: (-sc, 0.2, 1), 0: (a, se, 1)}) if cs else mp_results(env, [a], [se], [0, 1], [2], None, None, sc)
        b = H.HonestDiD(method="relative_magnitude").breakdown_value(res, tol=tol)
        m = (abs(a) - z * se) / sc
        if b is None:
            env.le("none", 10.0, m)
        elif b == 0:
            env.le("zero", m, 0.0)
        else:
            env.le("upper", b, m + tol)
            env.le("lower", m - tol, b)
        # at and above the crossing the interval includes zero
        r = H.HonestDiD(method="relative_magnitude").fit(res, M=10)
        env.iff("large", not r.is_significant, env.any_of(env.all_of(r.ci_lb <= 0, r.ci_ub >= 0)), margin=r.ci_lb * r.ci_ub)
    return fn


def grid(Ms, base, width, neg=False, method="relative_magnitude", combined=False):
    """sensitivity curve: one entry per M in the given order, breakdown at the crossing"""
    def fn(env):
        H = env.mod("honest_did")
        a = base + env.var("a", 0.0, width)
        a = -a if neg else a
        sc, se, z = 0.5, 0.3, zcrit(0.1)
        res = cs_results(env, {-2: (0.1, 0.2, 1), -1: (-sc, 0.2, 1), 0: (a, se, 1)})
        h = H.HonestDiD(method=method, alpha=0.1)
        r = h.sensitivity_analysis(res, M_grid=Ms)
        grd = Ms if Ms is not None else ([0, 0.25, 0.5, 0.75, 1.0, 1.25, 1.5, 1.75, 2.0] if method == "relative_magnitude" else [0, 0.1, 0.2, 0.3, 0.5, 0.75, 1.0])
        env.true("M", [float(v) for v in r.M_values] == [float(v) for v in grd])
        env.true("n", len(r.bounds) == len(grd) == len(r.robust_cis))
        for k, M in enumerate(grd):
            env.eq("lb%d" % k, r.bounds[k][0], a - M * sc)
            env.eq("ub%d" % k, r.bounds[k][1], a + M * sc)
            env.eq("cl%d" % k, r.robust_cis[k][0], a - M * sc - z * se)
            env.eq("cu%d" % k, r.robust_cis[k][1], a + M * sc + z * se)
        env.eq("est", r.original_estimate, a)
        env.eq("ose", r.original_se, se)
        m = (abs(a) - z * se) / sc
        b = r.breakdown_M
        if b is None:
            env.le("none", float(max(grd)), m)
        elif b == 0:
            env.le("zero", m, 0.0)
        else:
            env.le("upper", b, m + 1e-4)
            env.le("lower", m - 1e-4, b)
        d = r.to_dataframe()
        env.true("df", len(d) == len(grd))
        for k, M in enumerate(grd):
            env.eq("df_lb%d" % k, list(d["lb"])[k], a - M * sc)
            env.eq("df_cu%d" % k, list(d["ci_ub"])[k], a + M * sc + z * se)
    return fn


def flat_pre(kind):
    """every estimated pre-period effect is exactly zero: no allowed violation whatever M is"""
    def fn(env):
        H = env.mod("honest_did")
        e = env.vec("e", 2)
        s = env.vec("s", 2, 0.2, 2.0)
        M = env.var("M", 0.0, 3.0)
        if kind == "cs":
            res = cs_results(env, {-3: (0.0, 0.3, 1), -2: (-0.0, 0.2, 1), 0: (e[0], s[0], 1), 1: (e[1], s[1], 1)})
        else:
            V = env.np.array([[0.04, 0.0, 0.0, 0.0], [0.0, 0.09, 0.0, 0.0], [0.0, 0.0, s[0] * s[0], 0.0], [0.0, 0.0, 0.0, s[1] * s[1]]])
            res = mp_results(env, e, s, [0, 1], [2, 3], V, {"const": 0.7, "d:period_1": 0.0, "d:period_2": e[0], "d:period_3": e[1]})
        for al, l in ((0.05, None), (0.2, [1.0, -0.5])):
            kw = {} if l is None else {"l_vec": l}
            lv = l or [0.5, 0.5]
            var = lv[0] * lv[0] * s[0] * s[0] + lv[1] * lv[1] * s[1] * s[1]
            r = H.HonestDiD(method="relative_magnitude", alpha=al, **kw).fit(res, M=M)
            check_fit(env, "flat%s" % al, r, wsum(lv, e), var, 0.0, M, al)
    return fn


def restrictions(env):
    """negative allowances are refused, zero and small ones are not; undefined inputs of the interval are refused"""
    H = env.mod("honest_did")
    a, b = env.var("a", -2, 2), env.var("b", -2, 2)
    for nm, mk, bad in (("sd", lambda: H.DeltaSD(M=a), a < 0), ("rm", lambda: H.DeltaRM(Mbar=b), b < 0), ("sdrm", lambda: H.DeltaSDRM(M=a, Mbar=b), env.any_of(a < 0, b < 0))):
        if env.value(bad):
            env.raises(nm, ValueError, mk)
        else:
            d = mk()
            env.true(nm + "-M", nm == "rm" or env.value(d.M == a))
            env.true(nm + "-Mbar", nm == "sd" or env.value(d.Mbar == b))
    al = env.var("al", -0.5, 1.5)
    if env.value(env.any_of(al <= 0, al >= 1)):
        env.raises("alpha", ValueError, lambda: H.HonestDiD(alpha=al))
    if env.value(a < 0):
        for m in ("relative_magnitude", "smoothness", "combined"):
            env.raises("M-" + m, ValueError, lambda: H.HonestDiD(method=m, M=a))


def cases(tier):
    out = []

    def add(nm, fn, b="all effects in [-3,3], standard errors in [0.2,2], M in [0,3]", **o):
        mp = o.pop("max_paths", None)
        out.append(Case(nm, fn, bounds=b, opts=o, max_paths=mp))
    for k in ("cs", "mp"):
        for f in (True, False):
            add("rm-undefined-%s-%s" % (k, "first" if f else "last"), rm_undefined(k, f))
    add("rm-flat-cs", flat_pre("cs"))
    add("rm-flat-mp", flat_pre("mp"))
    add("restrictions", restrictions, "M, Mbar in [-2,2], alpha in [-0.5,1.5]")
    for k in ("none", "block", "full", "nopre"):
        add("rm-" + k, rm_mp(3, 2, k, treat="treated" if k == "full" else "d"))
    add("rm-full3", rm_mp(3, 3, "full", alpha=0.2, treat="grp", names=["a1", "a2", "a3", "b1", "b2", "b3"]))
    # labels that are beginnings of one another
    add("rm-labels", rm_mp(3, 2, "full", treat="d", names=[9, 1, 2, 10, 20]))
    add("rm-labels2", rm_mp(3, 3, "full", treat="d", names=[0, 3, 4, 1, 10, 100]))
    add("rm-labels-text", rm_mp(3, 2, "full", treat="d", names=["q0", "q", "q1", "q11", "q112"]))
    add("rm-one", rm_mp(4, 1, "full", treat="d", off=2000))
    add("rm-lvec", rm_mp(2, 3, "full", l=[0.0, 1.0, 0.0], treat="d", off=9))
    add("rm-lvec2", rm_mp(2, 2, "block", l=[0.25, -1.0], alpha=0.01))
    add("rm-lvec3", rm_mp(2, 3, "full", l=[0.5, 0.5, 0.0], treat="d"))
    add("rm-lvec4", rm_mp(2, 3, "block", l=[0.0, 1.0, -1.0], treat="d"))
    add("rm-lvec-sym", rm_mp(2, 3, "full", l="sym", treat="d"), "weights in [-1,1]")
    add("rm-lvec-sym-block", rm_mp(1, 2, "block", l="sym", alpha=0.1), "weights in [-1,1]")
    add("cs", rm_cs([-3, -2], [0, 1]))
    add("cs-order", rm_cs([-3, -2], [0, 1], order=[1, -1, -3, 0, -2]))
    add("cs-dead", rm_cs([-2], [0, 1, 2], dead=(1, -3)))
    add("cs-nopre", rm_cs([], [0, 1, 2]))
    add("cs-lvec", rm_cs([-2, -4], [0, 1, 3], l=[1.0, 0.5, -0.5], ref=False))
    F = "outcomes in [-3,3]"
    add("fit", fitted(4, 2), F, lazy=True)
    add("fit-cov", fitted(4, 2, cov=True, treat="d", seed=1), F, lazy=True)
    add("fit-cluster", fitted(4, 2, cluster=True, treat="d", seed=2), F, lazy=True)
    add("fit-classic", fitted(5, 3, treat="tr", seed=3, robust=False), F, lazy=True)
    add("fit-cs", fitted_cs([(0, 2), (3, 2), (4, 2)], 5), "30% of outcomes in [-3,3]", lazy=True, max_paths=30)
    add("fit-cs-universal", fitted_cs([(0, 3), (3, 2)], 5, "universal", seed=2), "30% of outcomes in [-3,3]", lazy=True, max_paths=30)
    add("smooth", smooth(2, 2, [0, 0.5, 1.0]))
    add("smooth-two", smooth(1, 1, [0, 0.5]))
    add("smooth-post", smooth(0, 3, [0.0, 1.0]))
    add("smooth-lvec", smooth(2, 2, [0, 0.3], l=[0.0, 1.0]))
    add("combined", smooth(2, 2, [0.5, 1.0, 2.0], combined=True))
    add("smooth-bounded", smooth_set(3, 2, 0.5), "post effects in [-3,3]")
    for i, (tol, lo, hi) in enumerate([(1.5, 0.0, 3.0), (0.7, 1.0, 6.0), (3.0, 0.3, 9.0)]):
        add("break-%d" % i, breakdown(tol, lo, hi, neg=i == 1, cs=i != 2), "effect in [%s,%s]" % (lo, hi), max_paths=200)
    for i, (g, b, w, neg) in enumerate([(None, 1.1, 1e-5, False), ([0.5, 1.0, 2.0], 0.55, 1e-5, False), ([2.0, 0.0, 1.0], 1.3, 1e-5, True), ([0, 1], 0.2, 0.2, False), ([0, 0.5], 2.0, 1.0, False),
                                        ([1.0, 2.0], 0.1, 0.3, True)]):
        add("grid-%d" % i, grid(g, b, w, neg), "effect in [%s,%s]" % (b, b + w), max_paths=200)
    if tier == "thorough":
        for i in range(6):
            R = rng(40 + i)
            a, b = R.randint(2, 4), R.randint(1, 4)
            add("T-rm-%d" % i, rm_mp(a, b, R.choice(["full", "block", "none", "nopre"]), alpha=R.choice([0.01, 0.05, 0.1]), treat=R.choice(["d", "treated", "g:x"]), off=R.randint(0, 3000)))
            add("T-cs-%d" % i, rm_cs([-t for t in range(2, a + 1)], list(range(b)), dead=(-6,)))
            add("T-break-%d" % i, breakdown(R.choice([0.3, 0.2]), 0.0, 5.0, neg=i % 2 == 0), "effect in [0,5]", max_paths=2000)
            add("T-grid-%d" % i, grid(sorted(R.uniform(0, 3) for _ in range(4)), R.uniform(0.5, 1.5), 4e-5, i % 2 == 0), "narrow effect band", max_paths=2000)
            add("T-fit-%d" % i, fitted(5, R.choice([2, 3, 4]), cov=i % 2 == 0, treat="d", cluster=i % 3 == 0, seed=i), F, lazy=True)
    return out
