"""C09: invariance of the staggered estimators."""
from symx.harness import Case
from .common import *
from .csref import *

INF = float("inf")


def fit(env, est, df, opts):
    kw = dict(outcome="y", unit="u", time="t", first_treat="g")
    if est == "cs":
        o = dict(opts)
        agg = o.pop("aggregate", "all")
        return env.dd.CallawaySantAnna(**o).fit(df, aggregate=agg, **kw)
    if est == "sa":
        return env.dd.SunAbraham(**opts).fit(df, **kw)
    o = dict(opts)
    return env.dd.BaconDecomposition(**o).fit(df, **kw)


def summary(env, est, r, shift=0):
    """{label: (value, kind)} kind e = effect, s = standard error, w = weight, n = count"""
    o = {}
    if est == "cs":
        o["overall"] = (r.overall_att, "e")
        o["overall_se"] = (r.overall_se, "s")
        o["nt"] = (r.n_treated_units, "n")
        o["nc"] = (r.n_control_units, "n")
        for (g, t), v in r.group_time_effects.items():
            o["gt%s" % ((int(g) - shift, int(t) - shift),)] = (v["effect"], "e")
            o["gt_se%s" % ((int(g) - shift, int(t) - shift),)] = (v["se"], "s")
            o["gt_n%s" % ((int(g) - shift, int(t) - shift),)] = (v["n_treated"] * 1000 + v["n_control"], "n")
        for e, v in (r.event_study_effects or {}).items():
            o["es%d" % e] = (v["effect"], "e")
            o["es_se%d" % e] = (v["se"], "s")
        for g, v in (r.group_effects or {}).items():
            o["grp%s" % (int(g) - shift)] = (v["effect"], "e")
            o["grp_se%s" % (int(g) - shift)] = (v["se"], "s")
    elif est == "sa":
        o["overall"] = (r.overall_att, "e")
        o["overall_se"] = (r.overall_se, "s")
        o["nt"] = (r.n_treated_units, "n")
        o["nc"] = (r.n_control_units, "n")
        for e, v in r.event_study_effects.items():
            o["es%d" % e] = (v["effect"], "e")
            o["es_se%d" % e] = (v["se"], "s")
            for g, w in r.cohort_weights[e].items():
                o["w%d,%s" % (e, int(g) - shift)] = (w, "w")
        for (g, e), v in r.cohort_effects.items():
            o["ce%s,%d" % (int(g) - shift, e)] = (v["effect"], "e")
            o["ce_se%s,%d" % (int(g) - shift, e)] = (v["se"], "s")
    else:
        o["twfe"] = (r.twfe_estimate, "e")
        for c in r.comparisons:
            k = "%s|%s|%s" % (c.comparison_type, int(c.treated_group) - shift,
                              "never" if c.comparison_type == "treated_vs_never" else int(c.control_group) - shift)
            o["est" + k] = (c.estimate, "e")
            o["w" + k] = (c.weight, "w")
    return o


def same(env, nm, A, B, scale=None):
    env.true(nm + ".keys", set(A) == set(B))
    for k in A:
        if k not in B:
            continue
        a, kind = A[k]
        b = B[k][0]
        if kind == "n":
            env.true("%s.%s" % (nm, k), int(a) == int(b))
            continue
        if env.nanval(a) or env.nanval(b):
            env.true("%s.%s" % (nm, k), env.nanval(a) and env.nanval(b))
            continue
        if kind == "w":
            env.eq("%s.%s" % (nm, k), b, a)
        elif kind == "e":
            env.eq("%s.%s" % (nm, k), b, a if scale is None else a * scale)
        else:
            env.eq("%s.%s^2" % (nm, k), b * b, a * a if scale is None else a * a * (scale * scale))


def make(est, cohorts, periods, tr, opts, seed=1, drop=()):
    def fn(env):
        R = rng(seed)
        rows = panel(cohorts, periods, set(drop))
        n = len(rows)
        y = env.vec("y", n)
        nu = rows[-1][0] + 1
        A = summary(env, est, fit(env, est, frame(env, rows, y), opts))
        scale, shift = None, 0
        y2, kw = list(y), {}
        if tr == "order":
            o = list(range(n))
            R.shuffle(o)
            kw["order"] = o
        elif tr == "columns":
            # column order, and rows sorted by period
            kw["order"] = sorted(range(n), key=lambda i: (rows[i][1], -rows[i][0]))
        elif tr == "index":
            p = list(range(n))
            R.shuffle(p)
            kw["index"] = lambda i: p[i]
        elif tr == "dup-index":
            kw["index"] = lambda i: i % 3
        elif tr == "names":
            p = list(range(nu))
            R.shuffle(p)
            kw["label"] = lambda u: "id-%d" % (37 * p[u] % 101)
        elif tr == "perm-ids":
            p = list(range(nu))
            R.shuffle(p)
            kw["label"] = lambda u: 50 - 3 * p[u]
        elif tr == "calendar":
            kw["shift"] = shift = 1990
        elif tr == "inf":
            kw["never"] = INF
        elif tr == "const":
            c = env.var("c", -5, 5)
            y2 = [v + c for v in y]
        elif tr == "shock":
            d = {t: env.var("d%s" % t, -5, 5) for t in periods}
            y2 = [v + d[r[1]] for v, r in zip(y, rows)]
        elif tr == "unitfe":
            d = {u: env.var("a%s" % u, -5, 5) for u in range(nu)}
            y2 = [v + d[r[0]] for v, r in zip(y, rows)]
        elif tr == "scale":
            scale = 2.5
            y2 = [v * scale for v in y]
        elif tr == "negate":
            scale = -1.0
            y2 = [v * -1.0 for v in y]
        df2 = frame(env, rows, y2, **kw)
        if tr == "columns":
            df2["zz"] = [1.5] * n
            df2 = df2[["t", "zz", "g", "y", "u"]]
        B = summary(env, est, fit(env, est, df2, opts), shift)
        same(env, tr, A, B, scale)
    return fn


ALL = ["order", "columns", "index", "dup-index", "names", "perm-ids", "calendar", "inf", "const", "shock", "unitfe", "scale", "negate"]


def cases(tier):
    out = []

    def add(est, tr, co, T, opts, tag="", **k):
        out.append(Case("%s%s-%s" % (est, tag, tr), make(est, co, T, tr, opts, **k),
                        bounds="outcomes in [-3,3], shocks/constants in [-5,5]; transformation %s; cohorts %s, periods %s, options %s" % (tr, co, list(T), opts)))
    C = [(0, 2), (3, 2), (4, 1)]
    for i, tr in enumerate(ALL):
        add("cs", tr, C, range(1, 6), dict(control_group=["never_treated", "not_yet_treated"][i % 2], base_period=["varying", "universal"][i // 2 % 2],
                                          estimation_method=["dr", "reg", "ipw"][i % 3]))
        add("sa", tr, [(0, 3), (3, 2), (4, 2)], range(1, 6), {})
        add("bacon", tr, [(0, 2), (3, 2), (4, 1)], range(1, 6), dict(weights=["approximate", "exact"][i % 2]))
    U = [(0, 3), (3, 3), (4, 2)]
    D = [(0, 2), (3, 2), (4, 4), (6, 3)]
    for tr in ("order", "names", "perm-ids", "calendar", "inf", "shock", "unitfe"):
        add("cs", tr, U, range(1, 6), dict(control_group="not_yet_treated"), tag="-unbal", drop=D)
    if tier == "thorough":
        for s, co in enumerate([[(0, 3), (2, 2), (4, 2), (6, 1)], [(0, 2), (3, 3), (5, 2)], [(0, 4), (4, 2), (5, 1), (7, 2)]]):
            for i, tr in enumerate(ALL):
                for c in ("never_treated", "not_yet_treated"):
                    for b in ("varying", "universal"):
                        add("cs", tr, co, range(1, 8), dict(control_group=c, base_period=b, anticipation=s % 2), tag="-T%d%s%s" % (s, c[:3], b[:3]), seed=s + 3)
                add("sa", tr, co, range(1, 7), {}, tag="-T%d" % s, seed=s + 3)
                for w in ("approximate", "exact"):
                    add("bacon", tr, co, range(1, 7), dict(weights=w), tag="-T%d%s" % (s, w[:3]), seed=s + 3)
    return out
