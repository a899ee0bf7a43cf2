"""C05: MultiPeriodDiD effects."""
from symx.harness import Case
from .common import *


def make(n_t, n_c, periods, post, ref=None, kind="hc1", cov=0, fe=False, absorb=None, seed=0, alpha=0.05, drop=0, default_post=False, dup=None, gone=None):
    def fn(env):
        R = rng(seed)
        rows = [(u, t, int(u < n_t)) for u in range(n_t + n_c) for t in periods]
        if seed:
            R.shuffle(rows)
        if drop:
            rows = rows[drop:]
        if gone is not None:
            rows = [r for r in rows if not (r[2] and r[1] == gone)]
        n = len(rows)
        y = env.vec("y", n)
        d = {"y": y, "u": [100 - r[0] for r in rows], "t": [r[1] for r in rows], "tr": [r[2] for r in rows]}
        pre = [p for p in sorted(periods) if p not in post]
        rf = pre[0] if ref is None else ref
        X, names = [], ["const", "tr"] + ["period_%s" % p for p in sorted(periods) if p != rf] + ["tr:period_%s" % p for p in post]
        for r in rows:
            X.append([1.0, r[2]] + [float(r[1] == p) for p in sorted(periods) if p != rf] + [float(r[2] and r[1] == p) for p in post])
        covs = []
        for c in range(cov):
            v = [round(R.uniform(-2, 2), 3) for _ in range(n)]
            d["x%d" % c] = v
            covs.append("x%d" % c)
            for i in range(n):
                X[i].append(v[i])
        if fe:
            f = [r[0] % 3 for r in rows]
            d["fe"] = f
            for i in range(n):
                X[i] += [float(f[i] == 1), float(f[i] == 2)]
        if dup is not None:
            d["xd"] = [2.0 * v for v in d["x0"]] if dup == "x0" else [float(r[0] % 2 + 3 * r[2]) if dup == "unit" else float(r[1]) for r in rows]
        d["rg"] = [(r[0] * 2) % 3 for r in rows]
        d["sh"] = ["s%d" % ((r[0] + list(periods).index(r[1])) % 3) for r in rows]
        df = env.pd.DataFrame(d)
        est = env.dd.MultiPeriodDiD(robust=kind != "classical", cluster="u" if kind == "cluster" else None, alpha=alpha,
                                      rank_deficient_action="warn" if dup is None and gone is None else "silent")
        kw = dict(outcome="y", treatment="tr", time="t", covariates=(covs + ["xd"] if dup is not None else covs) or None, fixed_effects=["fe"] if fe else None, reference_period=ref,
                  absorb=list(absorb) if absorb else None)
        if not default_post:
            kw["post_periods"] = list(post)
        res = est.fit(df, **kw)
        g = {}
        for p in [q for q in periods if q != gone]:
            yt = [y[i] for i, r in enumerate(rows) if r[1] == p and r[2]]
            yc = [y[i] for i, r in enumerate(rows) if r[1] == p and not r[2]]
            g[p] = mean(yt) - mean(yc)
        env.true("periods", list(res.period_effects) == list(post) and list(res.pre_periods) == pre and list(res.post_periods) == list(post))
        eff = {p: res.period_effects[p].effect for p in post}
        if gone is not None:
            pe = res.period_effects[gone]
            for q, v in enumerate((pe.effect, pe.se, pe.t_stat, pe.p_value) + tuple(pe.conf_int)):
                env.isnan("unidentified[%d]" % q, v)
            for q, v in enumerate((res.avg_att, res.avg_se, res.avg_t_stat, res.avg_p_value) + tuple(res.avg_conf_int)):
                env.isnan("avg unidentified[%d]" % q, v)
        ident = [p for p in post if p != gone]
        if not cov and not fe and not drop and not dup and (not absorb or absorb == "u"):
            base = mean([g[p] for p in pre])
            for p in ident:
                env.eq("dd[%s]" % p, eff[p], g[p] - base)
        if gone is None:
            env.eq("avg", res.avg_att, mean([eff[p] for p in post]))
        elif gone in post:
            X = [[v for j, v in enumerate(x) if names[j:j + 1] != ["tr:period_%s" % gone]] for x in X]
            names.remove("tr:period_%s" % gone)
        pos = {j: j for j in range(len(X[0]))}
        if absorb:
            X, pos = independent(X, [d[a] for a in absorb])
        b, r = ols(X, y)
        k = len(X[0])
        for j, nm in enumerate(names + covs):
            if j in pos and nm != "const" and (not dup or ":" in nm):
                env.eq("coef:" + nm, res.coefficients[nm], b[pos[j]])
        if not absorb and not dup:
            env.eq("coef:const", res.coefficients["const"], b[0])
        ix = {p: pos[names.index("tr:period_%s" % p)] for p in ident}
        labs = [rr[0] for rr in rows]

        def cov_(i, j):
            if kind == "classical":
                Xm = rnp.asarray(X, float)
                return total([e * e for e in r]) * (rnp.linalg.inv(Xm.T @ Xm)[i, j] / (n - k))
            if kind == "cluster":
                return cluster_cov(X, r, labs, i, j)
            return hc1_cov(X, r, i, j)
        c = tcrit(alpha, n - k)
        for p in ident:
            pe = res.period_effects[p]
            env.eq("eff=coef[%s]" % p, pe.effect, b[ix[p]])
            if not absorb or kind != "cluster":
                env.eq("se^2[%s]" % p, pe.se * pe.se, cov_(ix[p], ix[p]))
            env.eq("t[%s]" % p, pe.t_stat * pe.se, pe.effect)
            env.eq("lo[%s]" % p, pe.conf_int[0], pe.effect - pe.se * c)
            env.eq("hi[%s]" % p, pe.conf_int[1], pe.effect + pe.se * c)
            env.true("label[%s]" % p, pe.period == p)
        env.true("counts", res.n_treated == sum([r[2] for r in rows]) and res.n_control == sum([1 - r[2] for r in rows]))
        if gone is not None:
            return
        if absorb and kind == "cluster":
            return
        v = total([cov_(ix[p], ix[q]) for p in post for q in post]) / (len(post) ** 2)
        env.eq("avg_se^2", res.avg_se * res.avg_se, v)
        env.eq("avg_lo", res.avg_conf_int[0], res.avg_att - res.avg_se * c)
        env.eq("avg_hi", res.avg_conf_int[1], res.avg_att + res.avg_se * c)
        env.true("n", res.n_obs == n)
    return fn


def refs(n_t, n_c, periods, post, seed):
    """independence of the reference period, one run per choice"""
    def fn(env):
        rows = [(u, t, int(u < n_t)) for u in range(n_t + n_c) for t in periods]
        y = env.vec("y", len(rows))
        df = env.pd.DataFrame({"y": y, "t": [r[1] for r in rows], "tr": [r[2] for r in rows]})
        out = []
        for ref in [None] + [p for p in periods]:
            out.append(env.dd.MultiPeriodDiD().fit(df, outcome="y", treatment="tr", time="t", post_periods=post, reference_period=ref))
        for k, o in enumerate(out[1:]):
            for p in post:
                env.eq("eff[%d,%s]" % (k, p), o.period_effects[p].effect, out[0].period_effects[p].effect)
                env.eq("se2[%d,%s]" % (k, p), o.period_effects[p].se ** 2, out[0].period_effects[p].se ** 2)
            env.eq("avg[%d]" % k, o.avg_att, out[0].avg_att)
            env.eq("avg_se2[%d]" % k, o.avg_se ** 2, out[0].avg_se ** 2)
    return fn


def cases(tier):
    out = []

    def add(name, *a, **k):
        out.append(Case(name, make(*a, **k), bounds="outcomes y_i in [-3,3]; %d treated, %d control units, periods %s, post %s" % (a[0], a[1], a[2], a[3])))
    add("2x3-4p", 2, 3, [0, 1, 2, 3], [2, 3])
    add("3x2-5p-ref", 3, 2, [1, 2, 3, 4, 5], [4, 5], ref=3, seed=1)
    add("1x4-3p", 1, 4, [7, 8, 9], [9], seed=2, alpha=0.1)
    add("refpost", 2, 3, [0, 1, 2, 3], [2, 3], ref=2, seed=3)
    add("classical", 3, 2, [1, 2, 3, 4], [3, 4], kind="classical", seed=4)
    add("cluster", 3, 4, [1, 2, 3, 4], [3, 4], kind="cluster", seed=5)
    add("nonadjacent-post", 2, 2, [1, 2, 3, 4, 5], [3, 5], seed=6)
    add("default-post", 2, 2, [1, 2, 3, 4, 5], [3, 4, 5], default_post=True, seed=7)
    add("cov", 3, 3, [1, 2, 3, 4], [3, 4], cov=1, seed=8)
    add("cov-cluster", 3, 3, [1, 2, 3, 4], [3, 4], cov=2, kind="cluster", seed=9)
    add("fe", 3, 4, [1, 2, 3, 4], [3, 4], fe=True, kind="classical", seed=10)
    add("unbalanced", 3, 3, [1, 2, 3, 4], [3, 4], drop=2, seed=11)
    add("absorb", 2, 3, [1, 2, 3, 4], [3, 4], absorb="u", seed=12)
    add("absorb-unbalanced", 3, 3, [1, 2, 3, 4], [3, 4], absorb=["u"], seed=20, drop=3)
    add("absorb-classical", 3, 4, [1, 2, 3, 4], [3, 4], absorb=["rg"], kind="classical", seed=21, cov=1)
    add("absorb-cluster", 3, 3, [1, 2, 3, 4], [2, 4], absorb=["u"], kind="cluster", seed=22, cov=1, drop=1)
    add("absorb-two", 4, 4, [1, 2, 3, 4], [3, 4], absorb=["rg", "sh"], kind="classical", seed=23, drop=3, ref=2)
    add("absorb-fe", 3, 4, [1, 2, 3], [3], absorb=["sh"], fe=True, seed=24, drop=2)
    for kind in ("hc1", "classical", "cluster"):
        add("dependent-cov-" + kind, 3, 4, [1, 2, 3, 4], [3, 4], cov=1, kind=kind, seed=24, dup="x0")
    add("dependent-time", 3, 2, [1, 2, 3, 4, 5], [4, 5], kind="classical", seed=25, dup="time")
    for kind in ("hc1", "classical"):
        add("unidentified-" + kind, 3, 3, [1, 2, 3, 4, 5], [3, 4, 5], kind=kind, seed=26, gone=4)
    add("string-post", 2, 2, ["a", "b", "c"], ["c"], seed=13)
    out.append(Case("ref-independence", refs(2, 2, [1, 2, 3, 4], [3, 4], 0), bounds="outcomes in [-3,3]; all four reference periods"))
    if tier == "thorough":
        for s, (a, b, T, k) in enumerate([(4, 5, 6, 3), (5, 3, 7, 2), (2, 6, 8, 5), (6, 6, 5, 1)]):
            P = list(range(1, T + 1))
            for kind in ("hc1", "classical", "cluster"):
                add("T-%d-%s" % (s, kind), a, b, P, P[-k:], kind=kind, seed=30 + s)
            add("Tcov-%d" % s, a, b, P, P[-k:], cov=2, seed=50 + s, ref=P[1])
        out.append(Case("T-ref", refs(3, 4, [1, 2, 3, 4, 5, 6], [4, 5, 6], 0), bounds="outcomes in [-3,3]; all six reference periods"))
    return out
