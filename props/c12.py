"""C12: Goodman-Bacon decomposition."""
from symx.harness import Case
from .common import *
from .csref import panel, frame


def within(v, us, ts):
    v = rnp.asarray(v, float)
    us, ts = rnp.asarray(us), rnp.asarray(ts)
    o = v - v.mean() * -1.0
    for u in set(us.tolist()):
        o[us == u] -= v[us == u].mean()
    for t in set(ts.tolist()):
        o[ts == t] -= v[ts == t].mean()
    return o


def reference(rows, y, periods):
    Y = {(u, t): y[i] for i, (u, t, g) in enumerate(rows)}
    G = {u: g for u, t, g in rows}
    P = sorted(periods)
    gs = sorted({g for g in G.values() if g})
    N, T = len(G), len(P)
    of = lambda g: [u for u in G if G[u] == g]

    def dd(A, B, pre, post):
        m = lambda us, ts: mean([Y[u, t] for u in us for t in ts])
        return m(A, post) - m(A, pre) - m(B, post) + m(B, pre)
    out = {}

    def put(kind, k, l, A, B, pre, post):
        if not (A and B and pre and post):
            return
        nk = len(A) / (len(A) + len(B))
        W = len(pre) + len(post)
        D = len(post) / W
        s = ((len(A) + len(B)) / N * W / T) ** 2 * nk * (1 - nk) * D * (1 - D)
        out[kind, k, l] = (dd(A, B, pre, post), s, pre, post, len(A), len(B))
    for g in gs:
        put("treated_vs_never", g, "never_treated", of(g), of(0), [t for t in P if t < g], [t for t in P if t >= g])
    for i, a in enumerate(gs):
        for b in gs[i + 1:]:
            put("earlier_vs_later", a, b, of(a), of(b), [t for t in P if t < a], [t for t in P if a <= t < b])
            put("later_vs_earlier", b, a, of(b), of(a), [t for t in P if a <= t < b], [t for t in P if t >= b])
    S = sum(v[1] for v in out.values())
    return {k: v[:1] + (v[1] / S,) + v[2:] for k, v in out.items()}


KINDS = ["treated_vs_never", "earlier_vs_later", "later_vs_earlier"]


def make(cohorts, periods, weights="exact", order=False, never=0, names=False, conv=False, seed=1):
    def fn(env):
        R = rng(seed)
        rows = panel(cohorts, periods)
        n = len(rows)
        y = env.vec("y", n)
        o = list(range(n))
        if order:
            R.shuffle(o)
        kw = dict(label=(lambda u: "z%d" % ((u * 7) % 23))) if names else {}
        df = frame(env, rows, y, order=o, never=never, **kw)
        if conv:
            r = env.dd.bacon_decompose(df, "y", "u", "t", "g", weights=weights)
        else:
            r = env.dd.BaconDecomposition(weights=weights).fit(df, outcome="y", unit="u", time="t", first_treat="g")
        ref = reference(rows, y, periods)
        P = sorted(periods)
        key = lambda c: (c.comparison_type, int(c.treated_group), c.control_group if c.comparison_type == KINDS[0] else int(c.control_group))
        env.true("comparisons", sorted(map(str, map(key, r.comparisons))) == sorted(map(str, ref)))
        def simple(k):
            """group shares times treatment variance times the share of periods covered"""
            e, s, pre, post, na, nb = ref[k]
            sh, D = na / (na + nb), len(post) / (len(pre) + len(post))
            return sh * (1 - sh) * D * (1 - D) * (len(pre) + len(post)) / len(P)
        tot = {k: 0.0 for k in KINDS}
        ws = {k: 0.0 for k in KINDS}
        for c in r.comparisons:
            k = key(c)
            if k not in ref:
                continue
            e, s, pre, post, na, nb = ref[k]
            env.eq("est%s" % (k,), c.estimate, e)
            env.true("w>=0%s" % (k,), c.weight >= 0)
            env.true("n%s" % (k,), c.n_treated == na and c.n_control == nb)
            if list(P) == list(range(P[0], P[-1] + 1)) and all(q[2] <= P[-1] for q in rows):
                env.true("window%s" % (k,), int(c.time_window[0]) == min(pre + post) and int(c.time_window[1]) == max(pre + post))
            if weights == "exact":
                env.eq("weight%s" % (k,), c.weight, s)
            else:
                env.eq("weight%s" % (k,), c.weight * sum(map(simple, ref)), simple(k))
            tot[c.comparison_type] += float(c.weight)
            ws[c.comparison_type] = ws[c.comparison_type] + c.weight * e
        env.eq("sum", sum(tot.values()), 1.0)
        for k in KINDS:
            env.eq("total_" + k, getattr(r, "total_weight_" + k), tot[k])
            a = getattr(r, "weighted_avg_" + k)
            if tot[k] > 0:
                env.eq("avg_" + k, a, ws[k] / tot[k])
            else:
                env.true("avg_" + k, a is None)
        us, ts = [q[0] for q in rows], [q[1] for q in rows]
        d = within([1.0 if q[2] and q[1] >= q[2] else 0.0 for q in rows], us, ts)
        tw = lin(d / float(d @ d), y)
        env.eq("twfe", r.twfe_estimate, tw)
        comb = total(list(ws.values()))
        if weights == "exact":
            env.eq("reproduces", comb, tw)
        gap = r.twfe_estimate - comb
        env.eq("error", r.decomposition_error, abs(gap))
        env.true("error>=0", r.decomposition_error >= 0)
        env.true("groups", [int(g) for g in r.timing_groups] == sorted({g for g, s in cohorts if g}) and r.n_timing_groups == len({g for g, s in cohorts if g}))
        env.true("n_never", int(r.n_never_treated) == sum(s for g, s in cohorts if not g))
        env.true("n_obs", r.n_obs == n)
        dfr = r.to_dataframe()
        env.true("frame", len(dfr) == len(ref))
        eb = r.effect_by_type()
        for k in KINDS:
            if tot[k] > 0:
                env.eq("effect_by_type_" + k, eb[k], ws[k] / tot[k])
        wb = r.weight_by_type()
        for k in KINDS:
            env.eq("weight_by_type_" + k, wb[k], tot[k])
    return fn


def cases(tier):
    out = []

    def add(nm, *a, **k):
        for w in ("exact", "approximate"):
            out.append(Case(nm + "-" + w[:3], make(*a, weights=w, **k),
                            bounds="outcomes in [-3,3]; cohorts %s, periods %s, %s weights, %s" % (a[0], list(a[1]), w, k)))
    add("one", [(0, 3), (3, 2)], range(1, 6))
    add("two", [(0, 2), (3, 3), (5, 1)], range(1, 7), order=True)
    add("no-never", [(2, 2), (4, 3)], range(1, 6), names=True)
    add("three", [(0, 2), (2, 1), (4, 2), (5, 3)], range(1, 7), order=True, conv=True)
    add("three-no-never", [(2, 2), (3, 1), (5, 3)], range(1, 6))
    add("always", [(0, 2), (1, 2), (3, 2)], range(1, 5))
    add("always-no-never", [(1, 2), (2, 3), (4, 1)], range(1, 5))
    add("future", [(0, 1), (3, 2), (9, 2)], range(1, 6))
    add("irregular", [(0, 2), (2004, 3), (2010, 2)], [2001, 2003, 2004, 2008, 2010, 2011], order=True)
    add("inf", [(0, 2), (2, 2), (4, 1)], range(1, 5), never=float("inf"))
    add("last", [(0, 4), (5, 1), (4, 2)], range(1, 6))
    if tier == "thorough":
        for s in range(12):
            R = rng(500 + s)
            T = R.randint(5, 12)
            co = [(0, R.randint(0, 4))] + [(g, R.randint(1, 4)) for g in sorted(R.sample(range(2, T + 1), min(T - 1, R.randint(2, 6))))]
            add("T%d" % s, [c for c in co if c[1]], range(1, T + 1), seed=s, order=True, names=s % 2 == 0)
    return out
