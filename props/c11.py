"""C11: interaction-weighted event study (SunAbraham)."""
from symx.harness import Case
from .common import *
from .csref import panel, frame
from .c10 import stats_of


def cluster_quad(X, r, groups, w):
    """w' V w for the cluster-robust covariance of the least-squares coefficients"""
    X = rnp.asarray(X, dtype=float)
    n, k = X.shape
    a = rnp.asarray(w, float) @ (rnp.linalg.inv(X.T @ X) @ X.T)
    labs = sorted(set(groups), key=str)
    G = len(labs)
    tot = 0.0
    for g in labs:
        s = lin([a[i] for i in range(n) if groups[i] == g], [r[i] for i in range(n) if groups[i] == g])
        tot = tot + s * s
    return tot * ((G / (G - 1)) * ((n - 1) / (n - k)))


class Ref:
    """cohort-by-relative-time changes against never-treated, IW weights"""

    def __init__(self, rows, y, ant=0, units=None, cells=True):
        Y = {(u, t): y[i] for i, (u, t, g) in enumerate(rows)}
        G = {u: g for u, t, g in rows}
        self.P = sorted({r[1] for r in rows})
        self.units = units if units is not None else sorted(G)
        self.G = G
        ref = -1 - ant
        nev = [u for u in self.units if not G[u]]
        self.cohorts = sorted({G[u] for u in self.units if G[u]})
        self.size = {g: sum(1 for u in self.units if G[u] == g) for g in self.cohorts}
        self.cell, self.n = {}, {}
        for g in self.cohorts:
            tr = [u for u in self.units if G[u] == g]
            for t in self.P:
                e = t - g
                self.n[g, e] = sum(1 for u in tr if (u, t) in Y)
                if e == ref or not self.n[g, e]:
                    continue
                self.cell[g, e] = None if not cells else (mean([Y[u, t] - Y[u, g + ref] for u in tr]) - mean([Y[u, t] - Y[u, g + ref] for u in nev]))
        self.w = {}
        for e in sorted({k[1] for k in self.cell}):
            gs = [g for g in self.cohorts if (g, e) in self.cell]
            s = sum(self.n[g, e] for g in gs)
            self.w[e] = {g: self.n[g, e] / s for g in gs}
        self.es = {} if not cells else {e: lin(list(w.values()), [self.cell[g, e] for g in w]) for e, w in self.w.items()}
        post = [e for e in self.w if e >= 0]
        n = {e: sum(self.n[g, e] for g in self.w[e]) for e in post}
        self.ow = {e: n[e] / sum(n.values()) for e in post}
        self.overall = lin(list(self.ow.values()), [self.es[e] for e in post]) if post and cells else None


def make(cohorts, periods, ant=0, control="never_treated", cov=None, cluster=None, seed=1, order=False, alpha=0.05, names=False, never=0, drop=()):
    def fn(env):
        R = rng(seed)
        rows = [q for q in panel(cohorts, periods) if q[:2] not in drop]
        n = len(rows)
        y = env.vec("y", n)
        extra = {}
        if cov:
            extra["x"] = [round(R.uniform(-1, 1) + 0.3 * t * (1 if g else -1), 3) for u, t, g in rows]
        if cluster:
            extra["cl"] = [cluster[r[0]] for r in rows]
        o = list(range(n))
        if order:
            R.shuffle(o)
        kw = dict(label=(lambda u: "z%d" % ((u * 7) % 23))) if names else {}
        df = frame(env, rows, y, extra=extra, order=o, never=never, **kw)
        est = env.dd.SunAbraham(control_group=control, anticipation=ant, alpha=alpha, cluster="cl" if cluster else None)
        r = est.fit(df, outcome="y", unit="u", time="t", first_treat="g", covariates=["x"] if cov else None)
        ref = Ref(rows, y, ant, cells=not drop)
        keys = sorted(ref.cell)
        us, ts = [q[0] for q in rows], [q[1] for q in rows]
        # what is left after removing unit and period effects (exact also with missing rows)
        Z = rnp.array([[float(u == v) for v in sorted(set(us))] + [float(t == v) for v in sorted(set(ts))[1:]] for u, t in zip(us, ts)])
        M = rnp.eye(n) - Z @ rnp.linalg.pinv(Z)

        def within(v, *a):
            return list(M @ rnp.array(v, dtype=float))
        D = [within([1.0 if (q[2] == g and q[1] - q[2] == e) else 0.0 for q in rows], us, ts) for g, e in keys]
        if cov:
            D.append(within(extra["x"], us, ts))
        X = rnp.column_stack(D)
        yy = [None] * n
        # coefficient of the (already orthogonal) within design on the raw outcome
        b, _ = ols(X, y)
        res = [lin(list(M[i]), list(y)) - lin(X[i], b) for i in range(n)]
        gr = extra["cl"] if cluster else us
        eff = dict(zip(keys, b)) if cov or drop else ref.cell
        env.true("cells", {(int(g), int(e)) for g, e in r.cohort_effects} == set(keys))
        env.true("rel-times", {int(e) for e in r.event_study_effects} == set(ref.w))

        def wvec(d):
            v = rnp.zeros(X.shape[1])
            for k, x in d.items():
                v[keys.index(k)] = x
            return v
        for k in keys:
            c = r.cohort_effects[k]
            env.eq("cell%s" % (k,), c["effect"], eff[k])
            env.eq("cell_se%s" % (k,), c["se"] * c["se"], cluster_quad(X, res, gr, wvec({k: 1.0})))
            env.eq("cell_w%s" % (k,), c["weight"], ref.w[k[1]][k[0]])
        for e, w in ref.w.items():
            v = r.event_study_effects[e]
            env.true("cohorts@%d" % e, {int(g) for g in r.cohort_weights[e]} == set(w))
            for g in w:
                env.eq("w@%d,%s" % (e, g), r.cohort_weights[e][g], w[g])
            env.eq("w-sum@%d" % e, sum(r.cohort_weights[e].values()), 1.0)
            env.eq("es%d" % e, v["effect"], lin(list(w.values()), [eff[g, e] for g in w]))
            env.eq("es_se%d" % e, v["se"] * v["se"], cluster_quad(X, res, gr, wvec({(g, e): x for g, x in w.items()})))
            env.eq("es_t%d" % e, v["t_stat"] * v["se"], v["effect"])
            env.eq("es_lo%d" % e, v["conf_int"][0], v["effect"] - v["se"] * zcrit(alpha))
            env.eq("es_hi%d" % e, v["conf_int"][1], v["effect"] + v["se"] * zcrit(alpha))
            env.true("es_ng%d" % e, v["n_groups"] == len(w))
        if not ref.ow:
            env.isnan("no-post", r.overall_att)
            env.isnan("no-post-se", r.overall_se)
            env.isnan("no-post-p", r.overall_p_value)
        else:
            wo = {(g, e): x * q for e, q in ref.ow.items() for g, x in ref.w[e].items()}
            env.eq("overall", r.overall_att, lin(list(wo.values()), [eff[k] for k in wo]))
            env.eq("overall_se", r.overall_se * r.overall_se, cluster_quad(X, res, gr, wvec(wo)))
            env.eq("overall_lo", r.overall_conf_int[0], r.overall_att - r.overall_se * zcrit(alpha))
            env.eq("overall_hi", r.overall_conf_int[1], r.overall_att + r.overall_se * zcrit(alpha))
        env.true("nt", r.n_treated_units == sum(s for g, s in cohorts if g) and r.n_control_units == sum(s for g, s in cohorts if not g))
        env.true("nobs", r.n_obs == n)
    return fn


def boot(cohorts, periods, B=3, seed=0, alpha=0.2, effect=1.0, spread=0.1, ant=0, cluster=False):
    def fn(env):
        R = rng(seed)
        rows = panel(cohorts, periods)
        e = env.vec("e", len(rows), -spread, spread)
        y = [v + round(R.uniform(-1, 1), 2) + (effect * (1 + t - g) if g and t >= g else 0.0) for v, (u, t, g) in zip(e, rows)]
        made = env.fake_rng("w", seed=seed)
        df = frame(env, rows, y, extra={"cl": [r[0] % 3 for r in rows]})
        r = env.dd.SunAbraham(n_bootstrap=B, seed=5, alpha=alpha, anticipation=ant, cluster="cl" if cluster else None).fit(
            df, outcome="y", unit="u", time="t", first_treat="g")
        ref = Ref(rows, y, ant)
        env.true("one-generator", len(made) == 1 and made[0].seed_arg == 5)
        picks = [list(map(int, p)) for m in made for p in m.picks]
        env.true("resamples", len(picks) == B and all(len(p) == len(ref.units) for p in picks))
        call = [c for m in made for c in m.log if c[0] == "choice"]
        env.true("pool", all(sorted(map(int, c[1])) == ref.units and c[3] for c in call))
        G = ref.G
        D = []
        for p in picks:
            if not any(G[u] == 0 for u in p) or not any(G[u] for u in p):
                raise AssertionError("degenerate resample: choose another seed")
            D.append(Ref(rows, y, ant, p))
        br = r.bootstrap_results

        def chk(nm, est, draws, se, ci, pv):
            v, lo, hi, raw, fl = stats_of(env, est, draws, alpha)
            env.eq(nm + ".se2", se * se, v)
            env.eq(nm + ".lo", ci[0], lo)
            env.eq(nm + ".hi", ci[1], hi)
            env.eq(nm + ".p", pv, env.np.maximum(env.np.minimum(raw, 1.0), fl), away=draws + [est])
        for k, est in ref.es.items():
            v = r.event_study_effects[k]
            env.eq("es%d" % k, v["effect"], est)
            chk("es%d" % k, est, [d.es.get(k, est) for d in D], v["se"], v["conf_int"], v["p_value"])
        ov = [d.overall for d in D]
        env.eqs("dist", list(br.bootstrap_distribution), ov)
        env.eq("overall", r.overall_att, ref.overall)
        chk("overall", ref.overall, ov, r.overall_se, r.overall_conf_int, r.overall_p_value)
        env.eq("overall_t", r.overall_t_stat * r.overall_se, ref.overall)
    return fn


def cases(tier):
    out = []

    def add(nm, *a, **k):
        out.append(Case(nm, make(*a, **k), bounds="outcomes in [-3,3]; cohorts %s, periods %s, %s" % (a[0], list(a[1]), k)))

    def addb(nm, *a, **k):
        out.append(Case(nm, boot(*a, **k), opts={"lazy": True}, bounds="outcomes within %s of a fixed panel; cohorts %s, periods %s, %s" % (
            k.get("spread", 0.1), a[0], list(a[1]), k)))
    add("one-cohort", [(0, 2), (3, 2)], range(1, 6))
    add("two-cohorts", [(0, 3), (3, 2), (4, 3)], range(1, 6), order=True)
    add("unequal", [(0, 2), (2, 4), (5, 1)], range(1, 6), names=True, alpha=0.1)
    add("three", [(0, 3), (2, 1), (3, 2), (5, 2)], range(1, 7))
    add("single-units", [(0, 2), (2, 1), (4, 1)], range(1, 6))
    add("ant1", [(0, 2), (3, 2), (5, 3)], range(1, 7), ant=1)
    add("ant2", [(0, 2), (4, 2), (5, 1)], range(1, 7), ant=2, order=True)
    add("nyt", [(0, 2), (3, 1), (4, 2)], range(1, 6), control="not_yet_treated")
    add("cluster", [(0, 4), (3, 3), (4, 3)], range(1, 6), cluster=["a", "b", "a", "c", "b", "d", "a", "c", "d", "d"])
    add("cov", [(0, 3), (3, 2), (4, 2)], range(1, 6), cov=True)
    add("cov-order", [(0, 3), (2, 2), (4, 2)], range(1, 6), cov=True, order=True, names=True)
    add("irregular", [(0, 2), (2004, 2), (2007, 2)], [2001, 2003, 2004, 2006, 2007, 2010])
    add("inf", [(0, 2), (3, 2), (4, 1)], range(1, 6), never=float("inf"))
    add("last-period", [(0, 2), (3, 2), (5, 2)], range(1, 6), seed=4)
    add("not-reached", [(0, 2), (3, 2), (6, 2)], range(1, 6), seed=5)
    add("wide", [(0, 2), (2, 2), (25, 2)], [1, 2, 24, 25], seed=6)
    add("wide-ant", [(0, 2), (30, 2)], [1, 27, 28, 29, 30, 59], seed=8, ant=1)
    add("gap", [(0, 3), (3, 2), (4, 2)], range(1, 6), seed=9, drop=[(3, 4), (5, 5), (1, 2), (6, 1)])
    add("gap-cov", [(0, 3), (2, 3), (4, 2)], range(1, 6), seed=10, drop=[(3, 3), (4, 3), (7, 5)], cov=True, order=True)
    add("gap-cell", [(0, 3), (3, 1), (4, 3)], range(1, 6), seed=11, drop=[(3, 4), (4, 5), (0, 1)])
    add("no-post", [(0, 3), (6, 2)], range(1, 6), seed=12)
    addb("boot", [(0, 3), (3, 3), (4, 2)], range(1, 6), seed=3)
    addb("boot-neg", [(0, 4), (2, 2), (4, 2)], range(1, 5), seed=4, effect=-1.0, alpha=0.05, B=4, spread=0.02)
    addb("boot-ant", [(0, 4), (3, 3)], range(1, 6), seed=6, ant=1, B=4, spread=0.05)
    addb("boot-cluster", [(0, 4), (3, 3), (4, 2)], range(1, 6), seed=7, cluster=True)
    if tier == "thorough":
        for s in range(8):
            R = rng(70 + s)
            T = R.randint(5, 8)
            co = [(0, R.randint(2, 4))] + [(g, R.randint(1, 4)) for g in sorted(R.sample(range(3, T + 1), 3))]
            add("T%d" % s, co, range(1, T + 1), seed=s, order=True, ant=s % 2, cov=s % 3 == 0)
            addb("Tb%d" % s, co, range(1, T + 1), seed=20 + s, B=5)
    return out
