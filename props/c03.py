"""C03: basic DiD = double difference; regression-equivalence; standard errors."""
from symx.harness import Case
from .common import *


def cells(sizes):
    """rows (treated, post) for cell sizes ordered (c,pre),(c,post),(t,pre),(t,post)"""
    rows = []
    for (d, t), n in zip([(0, 0), (0, 1), (1, 0), (1, 1)], sizes):
        rows += [(d, t)] * n
    return rows


def dd_of(rows, y):
    m = {}
    for d in (0, 1):
        for t in (0, 1):
            m[d, t] = mean([y[i] for i, r in enumerate(rows) if r[0] == d and r[1] == t])
    return (m[1, 1] - m[1, 0]) - (m[0, 1] - m[0, 0])


def make(sizes, shuffle, kind, cov=0, fe=False, formula=None, cluster=None, index=None, numeric_type=float, alpha=0.05, fetype=None, absorb=None, cnames=None):
    def fn(env):
        rows = cells(sizes)
        R = rng(shuffle)
        if shuffle:
            R.shuffle(rows)
        n = len(rows)
        y = env.vec("y", n)
        d = {"y": y, "tr": [numeric_type(r[0]) for r in rows], "po": [numeric_type(r[1]) for r in rows]}
        X = [[1.0, r[0], r[1], r[0] * r[1]] for r in rows]
        R2 = rng(5 + shuffle)
        covs = []
        for c in range(cov):
            v = [round(R2.uniform(-2, 2), 3) for _ in range(n)]
            nm = cnames[c] if cnames else "x%d" % c
            d[nm] = v
            covs.append(nm)
            for i in range(n):
                X[i].append(v[i])
        if fe:
            f = [R2.choice(["a", "b", "c"]) for _ in range(n)]
            f[0], f[1], f[2] = "a", "b", "c"
            d["fe"] = [dict(a=fetype(30), b=fetype(4), c=fetype(5))[v] for v in f] if fetype else f
            if fetype:
                f = [{"a": "c", "b": "a", "c": "b"}[v] for v in f]
            for i in range(n):
                X[i] += [float(f[i] == "b"), float(f[i] == "c")]
        cl = None
        if cluster:
            cl = [cluster[i % len(cluster)] for i in range(n)]
            d["cl"] = cl
        if shuffle % 2:
            ks = list(d)
            R2.shuffle(ks)
            d = {k: d[k] for k in ks}
        groups = []
        for a in absorb or ():
            g = [{"unit": i % 4, "region": "r%d" % ((i * i) % 3), "wave": (3 * i + i // 6) % 4, "site": "ab"[i % 2]}[a] for i in range(n)]
            if a == "unit":         # every unit on one side of the treatment divide
                g = ["%d-%d" % (v, r[0]) for v, r in zip(g, rows)]
            d[a] = g
            groups.append(g)
        df = env.pd.DataFrame(d)
        if index == "str":
            df.index = ["r%d" % ((7 * i) % n) for i in range(n)]
        elif index == "perm":
            p = list(range(n))
            R2.shuffle(p)
            df.index = p
        elif index == "dup":
            df.index = [i % 4 for i in range(n)]
        elif index:
            df.index = [index - 3 * i for i in range(n)]
        est = env.dd.DifferenceInDifferences(robust=(kind != "classical"), cluster="cl" if cluster else None, alpha=alpha)
        if formula:
            res = est.fit(df, formula=formula)
        else:
            res = est.fit(df, outcome="y", treatment="tr", time="po", covariates=covs or None, fixed_effects=["fe"] if fe else None, absorb=list(absorb) if absorb else None)
        at, pos = 3, None
        if absorb:
            X, pos = independent(X, groups)
            at = pos[3]
        b, r = ols(X, y)
        if not cov and not fe and not absorb:
            env.eq("att=dd", res.att, dd_of(rows, y))
        env.eq("att=coef", res.att, b[at])
        k = len(X[0])
        if kind == "classical" and not cluster:
            v = classical_var(X, r, at)
        elif cluster:
            v = cluster_cov(X, r, cl, at, at)
        else:
            v = hc1_cov(X, r, at, at)
        if not absorb or not cluster:
            env.eq("se^2", res.se * res.se, v)
        env.eq("vcov", res.vcov[3][3], res.se * res.se)
        env.eq("t*se", res.t_stat * res.se, res.att)
        c = tcrit(alpha, n - k)
        env.eq("ci_lo", res.conf_int[0], res.att - res.se * c)
        env.eq("ci_hi", res.conf_int[1], res.att + res.se * c)
        env.true("n", res.n_obs == n and res.n_treated == sum(r[0] for r in rows) and res.n_control == n - sum(r[0] for r in rows))
        for i in range(n):
            env.eq("resid%d" % i, res.residuals[i], r[i])
            if absorb:
                continue
            env.eq("fit+res%d" % i, res.fitted_values[i] + res.residuals[i], y[i])
        names = ["const", "tr", "po", "tr:po"] + covs
        for j, nm in enumerate(names):
            if absorb:
                if nm != "const" and j in pos:
                    env.eq("coef:" + nm, res.coefficients[nm], b[pos[j]])
                continue
            env.eq("coef:" + nm, res.coefficients[nm], b[j])
        if absorb:
            return
        ybar = mean(y)
        sst = total([(v_ - ybar) * (v_ - ybar) for v_ in y])
        ssr = total([e * e for e in r])
        env.eq("r2", res.r_squared * sst, sst - ssr)
    return fn


def interfaces():
    """formula and column-name interfaces refuse the same things"""
    def fn(env):
        rows = cells((3, 3, 3, 3))
        n = len(rows)
        y = env.vec("y", n)
        x = [round(rng(3).uniform(-2, 2), 3) for _ in range(n)]
        df = env.pd.DataFrame({"y": y, "tr": [r[0] for r in rows], "po": [r[1] for r in rows], "x": x, "k": [2 * r[0] for r in rows]})
        dd = env.dd.DifferenceInDifferences
        bad = {"missing covariate": ("y ~ tr * po + zz", dict(covariates=["zz"])), "missing covariate among": ("y ~ tr * po + x + zz", dict(covariates=["x", "zz"])),
               "missing outcome": ("w ~ tr * po", dict(outcome="w")), "missing treatment": ("y ~ t * po", dict(treatment="t")),
               "missing time": ("y ~ tr * p", dict(time="p")), "non-binary treatment": ("y ~ k * po", dict(treatment="k"))}
        for what, (f, kw) in bad.items():
            env.raises("formula: " + what, Exception, lambda: dd().fit(df, formula=f))
            env.raises("columns: " + what, Exception, lambda: dd().fit(df, **dict(dict(outcome="y", treatment="tr", time="po"), **kw)))
        env.raises("columns: missing fixed effect", Exception, lambda: dd().fit(df, outcome="y", treatment="tr", time="po", fixed_effects=["zz"]))
        env.raises("columns: missing absorb", Exception, lambda: dd().fit(df, outcome="y", treatment="tr", time="po", absorb=["zz"]))
        a = dd().fit(df, formula="y ~ tr * po + x")
        b = dd().fit(df, outcome="y", treatment="tr", time="po", covariates=["x"])
        env.eq("att", a.att, b.att)
        env.eq("se^2", a.se * a.se, b.se * b.se)
    return fn


def cases(tier):
    out = [Case("interfaces-refuse", interfaces(), bounds="outcomes in [-3,3], 12 observations; six faulty specifications in both interfaces")]

    def add(name, *a, **k):
        out.append(Case(name, make(*a, **k), bounds="outcomes y_i in [-3,3], %d observations" % sum(a[0])))
    add("hc1-3333", (3, 3, 3, 3), 0, "hc1")
    add("hc1-2143", (2, 1, 4, 3), 3, "hc1", index=100)
    add("hc1-1116", (2, 2, 1, 6), 5, "hc1", numeric_type=int, alpha=0.1)
    add("classical-3225", (3, 2, 2, 5), 2, "classical")
    add("cluster-3323", (3, 3, 2, 3), 4, "hc1", cluster=["a", "b", "c", "d"])
    add("cluster-noncontig", (2, 3, 3, 2), 7, "hc1", cluster=[7, 3, 7, 1, 3], index=50)
    add("cov-hc1", (3, 2, 3, 4), 6, "hc1", cov=1)
    add("cov2-cluster", (3, 3, 3, 3), 8, "hc1", cov=2, cluster=[1, 2, 3, 4, 5])
    add("fe-classical", (3, 3, 3, 3), 9, "classical", fe=True)
    add("fe-cov-hc1", (4, 3, 3, 4), 10, "hc1", fe=True, cov=1)
    add("fe-index", (3, 3, 3, 3), 15, "hc1", fe=True, index="perm")
    add("fe-index-str", (3, 4, 3, 3), 16, "classical", fe=True, cov=1, index="str")
    add("fe-int-index", (4, 3, 3, 3), 17, "hc1", fe=True, fetype=int, index=40)
    add("fe-float", (4, 3, 3, 3), 19, "hc1", fe=True, fetype=lambda v: v / 2.0)
    add("fe-cluster-dup", (3, 3, 4, 3), 18, "hc1", fe=True, cluster=[5, 6, 7, 8, 9, 10], index="dup")
    add("cov-perm", (3, 2, 3, 4), 21, "classical", cov=2, index="perm")
    add("cluster-perm", (3, 2, 3, 4), 23, "hc1", cluster=["x", "y", "z", "x", "w"], index="perm", alpha=0.01)
    add("bool", (3, 2, 2, 4), 25, "hc1", numeric_type=bool, index="perm")
    add("formula-colon-cov", (3, 3, 3, 3), 27, "hc1", formula="y ~ x0 + tr + po + tr:po", cov=1)
    add("formula-cov2", (3, 3, 3, 3), 29, "classical", formula="y ~ tr*po + x0 + x1", cov=2, index="perm")
    add("formula-cluster", (3, 3, 2, 3), 31, "hc1", formula="  y~tr *po ", cluster=[1, 2, 3, 4, 5])
    add("formula-star", (2, 3, 2, 3), 11, "hc1", formula="y ~ tr * po")
    add("formula-colon", (2, 3, 3, 3), 12, "hc1", formula="y ~ tr + po + tr:po")
    add("formula-cov", (3, 3, 3, 3), 13, "hc1", formula="y ~ tr * po + x0", cov=1)
    add("formula-names", (3, 3, 3, 4), 49, "hc1", formula="y ~ t + tr + p + po + tr:po", cov=2, cnames=["t", "p"])
    add("formula-names-star", (3, 3, 3, 4), 51, "classical", formula="y ~ tr * po + tr_po + t:x", cov=2, cnames=["tr_po", "t:x"])
    add("formula-order", (3, 3, 3, 4), 53, "hc1", formula="y ~ tr:po + po_x + tr + yy + po", cov=2, cnames=["po_x", "yy"])
    add("absorb-unit", (4, 4, 4, 4), 33, "hc1", absorb=["unit"])
    add("absorb-unit-odd", (3, 5, 4, 6), 34, "classical", absorb=["unit"], cov=1)
    add("absorb-region", (4, 3, 3, 5), 35, "hc1", absorb=["region"], cov=1, index="perm")
    add("absorb-region-cl", (4, 3, 3, 5), 36, "classical", absorb=["region"], alpha=0.1)
    add("absorb-two", (4, 5, 4, 6), 47, "hc1", absorb=["region", "wave"], cov=1, index="str")
    add("absorb-two-unit", (5, 4, 6, 5), 38, "classical", absorb=["unit", "wave"])
    add("absorb-nested", (5, 4, 6, 5), 40, "classical", absorb=["unit", "site"])
    add("absorb-nested-out", (5, 4, 4, 5), 42, "hc1", absorb=["site", "unit"], cov=1)
    add("absorb-three", (6, 5, 6, 7), 43, "hc1", absorb=["region", "site", "wave"])
    add("absorb-cluster", (4, 4, 4, 5), 39, "hc1", absorb=["unit"], cluster=["a", "b", "c", "d", "e"], cov=1)
    add("absorb-fe", (4, 5, 4, 5), 41, "classical", absorb=["wave"], fe=True, index=30)
    if tier == "thorough":
        for s, sz in enumerate([(1, 2, 3, 4), (5, 4, 2, 6), (8, 2, 3, 7), (2, 2, 2, 9), (6, 6, 6, 6)]):
            add("hc1-T%d" % s, sz, 20 + s, "hc1")
            add("cl-T%d" % s, sz, 40 + s, "hc1", cluster=list(range(3 + s)))
            add("covfe-T%d" % s, (sz[0] + 2, sz[1] + 2, sz[2] + 2, sz[3] + 2), 60 + s, "classical", cov=1, fe=True)
    return out
