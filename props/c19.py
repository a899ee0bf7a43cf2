"""C19: analytical power, detectable effects, required sample sizes; simulated power.
sigma, effects, intra-cluster correlations (and, where listed, group sizes) are solver variables."""
import math
from symx.harness import Case
from .common import *
from .csref import panel, frame


def zq(p):
    from scipy import stats
    return float(stats.norm.ppf(p))


def sf(env, x):
    if env.mode == "sym":
        from symx import stubs
        return stubs.STATS.norm.sf(x)
    from scipy import stats
    return float(stats.norm.sf(x))


def za_zb(alpha, power, alt):
    return zq(1 - (alpha / 2 if alt == "two-sided" else alpha)), zq(power)


def variance(nt, nc, npre, npost, sigma, rho):
    T = npre + npost
    if T == 2:
        return sigma * sigma * (2.0 / nt + 2.0 / nc)
    return sigma * sigma * (1.0 / nt + 1.0 / nc) * (1.0 + rho * (T - 1.0)) / float(T)


def ref_power(env, e, se, alpha, alt):
    za = za_zb(alpha, 0.8, alt)[0]
    hi, lo = sf(env, za - e / se), sf(env, za + e / se)
    return hi + lo if alt == "two-sided" else hi if alt == "greater" else lo


def formulas(alt, npre=1, npost=1, alpha=0.05, power=0.8, sym_n=False):
    def fn(env):
        P = env.mod("power")
        sigma, e = env.var("sigma", 0.2, 3.0), env.var("e", -3.0, 3.0)
        rho = env.var("rho", -0.9 / (npre + npost - 1), 0.9) if npre + npost > 2 else 0.0
        nt, nc = (env.var("nt", 2.0, 200.0), env.var("nc", 2.0, 200.0)) if sym_n else (7, 12)
        kw = dict(n_pre=npre, n_post=npost, rho=rho)
        pa = P.PowerAnalysis(alpha=alpha, power=power, alternative=alt)
        za, zb = za_zb(alpha, power, alt)
        se = env.np.sqrt(variance(nt, nc, npre, npost, sigma, rho))
        m = pa.mde(nt, nc, sigma, **kw)
        env.eq("mde", m.mde, se * (za + zb))
        env.true("mde>0", m.mde > 0)
        env.eq("mde-scale", pa.mde(nt, nc, sigma * 2.5, **kw).mde, m.mde * 2.5)
        env.true("mde-falls-t", pa.mde(nt + 1, nc, sigma, **kw).mde < m.mde)
        env.true("mde-falls-c", pa.mde(nt, nc + 1, sigma, **kw).mde < m.mde)
        at = pa.power(m.mde if alt != "less" else -m.mde, nt, nc, sigma, **kw)
        env.le("power-at-mde", power, at.power, tol=1e-9)
        env.le("power-at-mde-tight", at.power, power + (sf(env, 2 * za + zb) if alt == "two-sided" else 0.0), tol=1e-9)
        r = pa.power(e, nt, nc, sigma, **kw)
        env.eq("power", r.power, ref_power(env, e, se, alpha, alt))
        env.eq("power-mde", r.mde, m.mde)
        for q, tag, eff in ((m, "m", m.mde), (r, "r", e)):
            env.true("echo-" + tag, (q.n_pre, q.n_post, q.alpha, q.alternative) == (npre, npost, alpha, alt))
            for f, w in (("n_treated", nt), ("n_control", nc), ("required_n", nt + nc), ("sigma", sigma), ("rho", rho), ("effect_size", eff)):
                if (tag, f) != ("r", "required_n"):
                    env.eq("echo-%s-%s" % (tag, f), getattr(q, f), w)
        env.eq("echo-m-power", m.power, power)
        T, frac = npre + npost, nt / (nt + nc)
        exact = sigma * sigma * (za + zb) ** 2 * (2.0 if T == 2 else (1.0 + rho * (T - 1.0)) / T)
        env.le("required-enough", exact, r.required_n * (e * e * frac * (1 - frac)), tol=1e-7)
        if not sym_n:
            env.le("required-tight", (r.required_n - 1.0) * (e * e * frac * (1 - frac)), env.np.maximum(exact, 3.0 * (e * e * frac * (1 - frac))), tol=1e-7)
        env.true("design", (r.design, m.design, r.alternative, r.alpha) == (("basic_did" if npre + npost == 2 else "panel"),) * 2 + (alt, alpha))
        o = pa.power(-e, nt, nc, sigma, **kw)
        if alt == "two-sided":
            env.eq("sign", o.power, r.power)
            env.eq("compute_power", P.compute_power(e, nt, nc, sigma, alpha, npre, npost, rho), r.power)
            env.eq("compute_mde", P.compute_mde(nt, nc, sigma, power, alpha, npre, npost, rho), m.mde)
        else:
            other = P.PowerAnalysis(alpha=alpha, power=power, alternative="less" if alt == "greater" else "greater")
            env.eq("mirror", other.power(-e, nt, nc, sigma, **kw).power, r.power)
            # power grows with the effect in the direction of the alternative
            up = 0.5 if alt == "greater" else -0.5
            env.le("monotone", r.power, pa.power(e + up, nt, nc, sigma, **kw).power, tol=1e-12)
    return fn


def sample(alt="two-sided", npre=1, npost=1, frac=0.5, alpha=0.05, power=0.8, elo=0.6, ehi=1.6, neg=False, rho=None, rel=False):
    """required sample sizes: sigma = 1 scale is free, the effect is symbolic"""
    def fn(env):
        P = env.mod("power")
        sigma = env.var("sigma", 0.8, 1.0) if not rel else env.var("sigma", 0.3, 3.0)
        e = env.var("e", elo, ehi)
        if neg:
            e = -e
        T = npre + npost
        r_ = 0.0 if T == 2 else rho if rho is not None else env.var("rho", -0.5 / (T - 1), 0.5)
        pa = P.PowerAnalysis(alpha=alpha, power=power, alternative=alt)
        za, zb = za_zb(alpha, power, alt)
        r = pa.sample_size(e, sigma, npre, npost, r_, frac)
        nt, nc, n = r.n_treated, r.n_control, r.required_n
        a = -e if neg else e
        env.eq("n", nt + nc, n)
        env.eq("echo-effect", r.effect_size, e)
        env.eq("echo-sigma", r.sigma, sigma)
        env.eq("echo-rho", r.rho, r_)
        env.eq("echo-power", r.power, power)
        env.true("echo", (r.n_pre, r.n_post, r.alpha, r.alternative) == (npre, npost, alpha, alt))
        env.eq("mde", r.mde * r.mde, variance(nt, nc, npre, npost, sigma, r_) * (za + zb) ** 2)
        env.le("achieves", r.mde, a, tol=1e-9)
        env.true("groups", env.all_of([nt >= 2, nc >= 2]))
        # design with the exact fractional allocation
        de = 1.0 + r_ * (T - 1.0)
        exact = sigma * sigma * (za + zb) ** 2 * (2.0 if T == 2 else de / T) / (a * a * (frac * (1 - frac)))
        m = env.np.maximum(exact, 4.0) if not env.mode == "sym" else exact
        big = exact > 4
        lim = 4.0 if not (big is True or (big is not False and bool(big))) else exact
        small = max(0.0, 2.0 - 4 * min(frac, 1 - frac)) + 2 if frac != 0.5 else 0
        env.le("not-large", n, lim + 3.0 + small, tol=1e-9)
        env.le("share-t", nt, lim * frac + 2.0, tol=1e-9)
        env.le("share-c", nc, lim * (1 - frac) + 2.0, tol=1e-9)
        if alt == "two-sided":
            env.eq("compute", P.compute_sample_size(e, sigma, power, alpha, npre, npost, r_, frac), n)
        back = pa.power(e * (1 + 1e-7), nt, nc, sigma, npre, npost, r_)
        env.le("power", power, back.power, tol=1e-9)
    return fn


def curves(alt="two-sided", npre=2, npost=2):
    def fn(env):
        P = env.mod("power")
        sigma = env.var("sigma", 0.2, 3.0)
        es = env.vec("e", 3, -3.0, 3.0)
        rho = env.var("rho", -0.9 / (npre + npost - 1), 0.9) if npre + npost > 2 else 0.0
        kw = dict(n_pre=npre, n_post=npost, rho=rho)
        pa = P.PowerAnalysis(alternative=alt, alpha=0.1, power=0.9)
        se = env.np.sqrt(variance(6, 9, npre, npost, sigma, rho))
        c = pa.power_curve(6, 9, sigma, effect_sizes=list(es), **kw)
        env.true("len", len(c) == 3)
        for i in range(3):
            env.eq("e%d" % i, c["effect_size"].iloc[i], es[i])
            env.eq("p%d" % i, c["power"].iloc[i], ref_power(env, es[i], se, 0.1, alt))
        d = pa.power_curve(6, 9, sigma, **kw)
        env.true("dlen", len(d) == 50)
        mde = pa.mde(6, 9, sigma, **kw).mde
        for i in (0, 7, 49):
            env.eq("de%d" % i, d["effect_size"].iloc[i], mde * (2.5 * i / 49))
            env.eq("dp%d" % i, d["power"].iloc[i], ref_power(env, mde * (2.5 * i / 49), se, 0.1, alt))
        s = pa.sample_size_curve(es[0], sigma, sample_sizes=[8, 20, 50], treat_frac=0.25, **kw)
        env.true("slen", list(s["sample_size"]) == [8, 20, 50])
        for i, (a, b) in enumerate([(2, 6), (5, 15), (12, 38)]):
            v = env.np.sqrt(variance(a, b, npre, npost, sigma, rho))
            env.eq("sp%d" % i, s["power"].iloc[i], ref_power(env, es[0], v, 0.1, alt))
    return fn


def zero(env):
    P = env.mod("power")
    sigma = env.var("sigma", 0.2, 3.0)
    for alt in ("two-sided", "greater", "less"):
        pa = P.PowerAnalysis(alternative=alt)
        env.true("max-" + alt, pa.sample_size(0.0, sigma).required_n >= 2 ** 30)
        env.eq("size-" + alt, pa.power(0.0, 5, 8, sigma).power, 0.05)


class Gen:
    """data generator; records the calls it receives.  Outcomes are solver variables."""

    def __init__(self, env, n, T, per, noise=True):
        self.env, self.n, self.T, self.per, self.noise = env, n, T, per, noise
        self.calls = []

    def __call__(self, n_units, n_periods, treatment_effect, treatment_fraction, treatment_period, noise_sd, seed, **kw):
        i = len(self.calls)
        y = self.env.vec("y%d_" % i, self.n * self.T) if self.noise else [float(k % 3) for k in range(self.n * self.T)]
        rows = []
        for u in range(self.n):
            for t in range(self.T):
                tr = int(u < self.per)
                po = int(t >= treatment_period)
                v = y[u * self.T + t]
                rows.append((u, t, tr, po, v + treatment_effect if tr and po else v))
        self.calls.append(dict(n_units=n_units, n_periods=n_periods, e=treatment_effect, f=treatment_fraction, tp=treatment_period, sd=noise_sd, seed=seed, kw=kw, rows=rows))
        return self.env.pd.DataFrame({"unit": [r[0] for r in rows], "period": [r[1] for r in rows], "treated": [r[2] for r in rows], "post": [r[3] for r in rows],
                                      "outcome": [r[4] for r in rows]})


class Out:
    def __init__(self, **k):
        self.__dict__.update(k)


PREFIX = {"MultiPeriodDiD": "avg_", "CallawaySantAnna": "overall_"}


def stand_in(env, name, fit, **kw):
    """an estimator of the named class whose fit is replaced"""
    base = getattr(env.dd, name, None)
    cls = type(name, (base,) if base else (), {"fit": fit})
    return cls(**kw)


def simulate(name, sims=2, effects=None, te=1.0, alpha=0.1, fail=()):
    """the simulation summary for any sequence of estimates, standard errors, p-values and intervals"""
    def fn(env):
        P = env.mod("power")
        n, T, tp = 6, 3, 1
        seen = []

        def fit(self, data, **kw):
            i = len(seen)
            a = dict(att=env.var("att%d" % i), se=env.var("se%d" % i, 0.1, 2.0), p=env.var("p%d" % i, 0.0, 1.0), lo=env.var("lo%d" % i, -2.0, 1.5))
            a["hi"] = a["lo"] + env.var("w%d" % i, 0.1, 3.0)
            seen.append((a, data, kw))
            if i in fail:
                raise ValueError("no estimate")
            x = PREFIX.get(name, "")
            return Out(**{x + "att": a["att"], x + "se": a["se"], x + "p_value": a["p"], x + "conf_int": (a["lo"], a["hi"])})
        g = Gen(env, n, T, 2, noise=False)
        ef = None if effects is None else list(effects)
        r = P.simulate_power(stand_in(env, name, fit), n_units=n, n_periods=T, treatment_effect=te, treatment_fraction=0.5, treatment_period=tp, sigma=0.7, n_simulations=sims, alpha=alpha,
                             effect_sizes=ef, seed=3, data_generator=g, data_generator_kwargs={"extra": 5}, estimator_kwargs={"flag": 2}, progress=False)
        grid = [te] if ef is None else ef
        prim = grid.index(te) if te in grid else len(grid) - 1
        env.true("calls", len(g.calls) == len(seen) == len(grid) * sims)
        env.true("args", all((c["n_units"], c["n_periods"], c["f"], c["tp"], c["sd"], c["kw"]) == (n, T, 0.5, tp, 0.7, {"extra": 5}) for c in g.calls))
        env.true("kwargs", all(k.get("flag") == 2 and k["outcome"] == "outcome" for _, _, k in seen))
        if name == "MultiPeriodDiD":
            env.true("post-periods", all(list(k["post_periods"]) == list(range(tp, T)) for _, _, k in seen))
        env.true("effects", [c["e"] for c in g.calls] == [e for e in grid for _ in range(sims)])
        env.true("seeds", len({int(c["seed"]) for c in g.calls}) == len(g.calls))
        for k, e in enumerate(grid):
            got = [seen[k * sims + i][0] for i in range(sims) if k * sims + i not in fail]
            m = len(got)
            rej = [1.0 if bool(env.value(x["p"] < alpha)) else 0.0 for x in got]
            pw = sum(rej) / m
            env.eq("power%d" % k, r.powers[k], pw)
            if k == prim:
                env.eq("power", r.power, pw)
                env.eq("rate", r.rejection_rate, pw)
                mu = mean([x["att"] for x in got])
                env.eq("mean", r.mean_estimate, mu)
                env.eq("mean-se", r.mean_se, mean([x["se"] for x in got]))
                env.eq("var", r.std_estimate * r.std_estimate, total([(x["att"] - mu) * (x["att"] - mu) for x in got]) / (m - 1.0))
                cov = [1.0 if bool(env.value(x["lo"] <= e)) and bool(env.value(x["hi"] >= e)) else 0.0 for x in got]
                env.eq("coverage", r.coverage, sum(cov) / m)
                s = math.sqrt(pw * (1 - pw) / m)
                env.eq("power-se", r.power_se, s)
                env.eq("ci0", r.power_ci[0], max(0.0, pw - zcrit(0.05) * s))
                env.eq("ci1", r.power_ci[1], min(1.0, pw + zcrit(0.05) * s))
                env.eq("bias", r.bias, mu - e)
                env.eq("rmse", r.rmse * r.rmse, r.std_estimate * r.std_estimate + (mu - e) * (mu - e))
                env.true("n", r.n_simulations == m == len(r.simulation_results))
                for i in range(m):
                    q = r.simulation_results[i]
                    env.eq("est%d" % i, q["estimate"], got[i]["att"])
                    env.eq("se%d" % i, q["se"], got[i]["se"])
                    env.eq("p%d" % i, q["p_value"], got[i]["p"])
                    env.true("rej%d" % i, bool(env.value(q["rejected"])) == (rej[i] == 1.0))
        env.true("primary", r.true_effect == grid[prim] and r.alpha == alpha and list(r.effect_sizes) == grid)
        curve = r.power_curve_df()
        env.true("curve", list(curve["effect_size"]) == grid)
        for k in range(len(grid)):
            env.eq("curve%d" % k, curve["power"].iloc[k], r.powers[k])
    return fn


def shift(name, n=4, T=2, tp=1, per=2, **kw):
    """the estimate used for power is the estimator's own double difference and moves one for one
    with the stated effect"""
    def fn(env):
        P = env.mod("power")
        e = env.var("effect", -3.0, 3.0)
        real = getattr(env.dd, name).fit
        x = PREFIX.get(name, "")
        outs, sizes = [], []

        def fit(self, data, *a, **k):
            r = real(self, data, *a, **k)
            sizes.append((getattr(r, x + "att"), getattr(r, x + "se")))
            return Out(**{x + "att": getattr(r, x + "att"), x + "se": getattr(r, x + "se"), x + "p_value": 0.5, x + "conf_int": (-1e9, 1e9)})
        gens = []
        for te in (0.0, e):
            g = Gen(env, n, T, per)
            r = P.simulate_power(stand_in(env, name, fit, **kw), n_units=n, n_periods=T, treatment_effect=te, treatment_period=tp, n_simulations=2, seed=1, data_generator=g, progress=False)
            outs.append(r)
            gens.append(g)
        env.eq("shift", outs[1].mean_estimate - outs[0].mean_estimate, e)
        env.eq("se", outs[1].mean_se, outs[0].mean_se)
        env.eq("bias", outs[1].bias, outs[0].bias)

        def dd(rows):
            c = lambda tr, po: mean([v for _, _, a, b, v in rows if a == tr and b == po])
            return c(1, 1) - c(1, 0) - c(0, 1) + c(0, 0)
        # all designs here are balanced with one treatment date; base periods differ by estimator
        if name in ("DifferenceInDifferences", "TwoWayFixedEffects"):
            env.eq("estimate", outs[0].mean_estimate, mean([dd(c["rows"]) for c in gens[0].calls]))
        else:
            base = tp - 1
            def dm(rows):
                c = lambda tr, f: mean([v for _, t, a, b, v in rows if a == tr and f(t)])
                return mean([c(1, lambda q: q == t) - c(1, lambda q: q == base) - c(0, lambda q: q == t) + c(0, lambda q: q == base) for t in range(tp, T)])
            if name == "CallawaySantAnna":
                env.eq("estimate", outs[0].mean_estimate, mean([dm(c["rows"]) for c in gens[0].calls]))
    return fn


def staggered(cohorts, T):
    """adoption dates supplied by the data generator are those the estimator sees"""
    def fn(env):
        P = env.mod("power")
        e = env.var("effect", -3.0, 3.0)
        rows0 = [(u, t, g) for u, g in enumerate([g for g, k in cohorts for _ in range(k)]) for t in range(T)]
        outs = []
        for te in (0.0, e):
            got = []

            def gen(treatment_effect, **kw):
                y = env.vec("y%d_" % len(got), len(rows0))
                y = [v + treatment_effect if g and t >= g else v for v, (u, t, g) in zip(y, rows0)]
                got.append(y)
                return env.pd.DataFrame({"unit": [r[0] for r in rows0], "period": [r[1] for r in rows0], "first_treat": [r[2] for r in rows0],
                                         "treated": [int(r[2] > 0) for r in rows0], "outcome": y})
            real = env.dd.CallawaySantAnna.fit

            def fit(self, data, *a, **k):
                r = real(self, data, *a, **k)
                return Out(overall_att=r.overall_att, overall_se=r.overall_se, overall_p_value=0.5, overall_conf_int=(-1e9, 1e9))
            r = P.simulate_power(stand_in(env, "CallawaySantAnna", fit), n_units=6, n_periods=T, treatment_effect=te, treatment_period=1, n_simulations=2, seed=1, data_generator=gen, progress=False)
            outs.append(r)
            ests = []
            for y in got:
                Y = {(u, t): v for v, (u, t, g) in zip(y, rows0)}
                G = {u: g for u, t, g in rows0}
                nev = [u for u in G if not G[u]]
                num, den = 0.0, 0
                for g, k in cohorts:
                    if not g:
                        continue
                    tr = [u for u in G if G[u] == g]
                    for t in range(g, T):
                        num = num + k * (mean([Y[u, t] - Y[u, g - 1] for u in tr]) - mean([Y[u, t] - Y[u, g - 1] for u in nev]))
                        den += k
                ests.append(num / den)
            env.eq("estimate%d" % len(outs), r.mean_estimate, mean(ests))
        env.eq("shift", outs[1].mean_estimate - outs[0].mean_estimate, e)
    return fn


def cases(tier):
    q = tier == "quick"
    C = []

    def add(nm, fn, desc="", **k):
        k.setdefault("max_paths", 60 if q else 600)
        k["opts"] = dict(k.get("opts", {}), mirror_anchor=True)
        C.append(Case(nm, fn, desc, **k))
    A = dict(opts={"floor": "atom"})
    for alt in ("two-sided", "greater", "less"):
        add("formula-basic-" + alt, formulas(alt, alpha=0.1 if alt == "less" else 0.05, power=0.9 if alt == "greater" else 0.8), "2x2, %s" % alt, **A)
        add("formula-panel-" + alt, formulas(alt, 3, 2, alpha=0.05), "5 periods, symbolic correlation, %s" % alt, **A)
    add("formula-3-periods", formulas("two-sided", 1, 2, power=0.7), "3 periods", **A)
    add("formula-symbolic-n", formulas("two-sided", sym_n=True), "symbolic group sizes", **A)
    add("formula-panel-symbolic-n", formulas("two-sided", 2, 2, sym_n=True), "symbolic group sizes, 4 periods", **A)
    for alt, neg in (("two-sided", False), ("two-sided", True), ("greater", False), ("less", True)):
        add("sample-basic-%s%s" % (alt, "-neg" if neg else ""), sample(alt, neg=neg, elo=0.9, ehi=2.5), "required n as path forks")
    add("sample-frac-0.3", sample(frac=0.3, elo=0.9, ehi=2.5))
    add("sample-frac-0.8", sample(frac=0.8, elo=0.9, ehi=2.5, power=0.9))
    add("sample-small", sample(elo=2.5, ehi=9.0), "minimum sizes")
    add("sample-3-periods", sample(npre=1, npost=2, elo=0.5, ehi=1.5), "three periods count as a panel")
    add("sample-3-periods-pre", sample(npre=2, npost=1, elo=0.5, ehi=1.5, frac=0.4), "three periods count as a panel")
    add("sample-panel", sample(npre=2, npost=2, elo=0.5, ehi=1.5))
    add("sample-panel-0.3", sample(npre=4, npost=2, elo=0.5, ehi=1.5, frac=0.3))
    add("sample-atom", sample(elo=0.1, ehi=2.0, rel=True), "required n as integer-part atoms", **A)
    add("sample-atom-panel-0.3", sample(npre=3, npost=3, elo=0.1, ehi=2.0, frac=0.3, rel=True), "required n as integer-part atoms", **A)
    add("simulate-staggered", staggered([(0, 2), (2, 2), (3, 1)], 4), "three cohorts with adoption dates from the generator")
    for alt in ("two-sided", "greater", "less"):
        add("curves-" + alt, curves(alt), **A)
    add("curves-basic", curves(npre=1, npost=1), **A)
    add("zero", zero)
    add("sim-did", simulate("DifferenceInDifferences", sims=3), "summary over 3 simulations with symbolic estimates, p-values and intervals")
    add("sim-did-grid", simulate("DifferenceInDifferences", effects=[0.5, 1.0, 2.0], te=1.0), "effect grid")
    add("sim-did-grid-last", simulate("DifferenceInDifferences", effects=[0.5, 2.0], te=1.0, alpha=0.05), "primary effect not on the grid")
    add("sim-did-grid-close", simulate("DifferenceInDifferences", effects=[0.93, 1.0], te=1.0), "two nearby effects on the grid")
    add("sim-did-fail", simulate("DifferenceInDifferences", sims=4, fail=(1,)), "failed simulation dropped")
    add("sim-mp", simulate("MultiPeriodDiD"))
    add("sim-cs", simulate("CallawaySantAnna"))
    add("sim-twfe", simulate("TwoWayFixedEffects", effects=[1.0, 0.0]))
    add("sim-other", simulate("SomeEstimator"))
    for nm, T, tp in (("DifferenceInDifferences", 3, 1), ("TwoWayFixedEffects", 4, 2), ("MultiPeriodDiD", 4, 2), ("CallawaySantAnna", 4, 2)):
        add("shift-" + nm, shift(nm, T=T, tp=tp))
    return C
