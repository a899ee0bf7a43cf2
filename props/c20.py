"""C20: data preparation helpers.  Every measured value is a solver variable; keys, gaps and
options are enumerated."""
import math
from symx.harness import Case
from .common import *


def snap(env, df):
    return ([str(c) for c in df.columns], list(df.index), [[df[c].iloc[i] for i in range(len(df))] for c in df.columns])


def same(env, tag, df, s):
    """the caller's frame is exactly as it was"""
    cols, idx, vals = snap(env, df)
    env.true(tag + "-shape", cols == s[0] and idx == s[1])
    for c, a, b in zip(cols, vals, s[2]):
        for i, (x, y) in enumerate(zip(a, b)):
            if isinstance(x, str) or hasattr(x, "year") or (isinstance(x, float) and math.isinf(x)):
                env.true("%s-%s%d" % (tag, c, i), x == y)
            else:
                env.eq("%s-%s%d" % (tag, c, i), x, y)


def wide(ids, times=None, extra=False, index=None, name=("period", "value"), cols=None, twice=False):
    def fn(env):
        P = env.mod("prep")
        k = len(cols) if cols else 3
        cs = cols or ["y%d" % i for i in range(k)]
        y = {(u, c): env.var("y_%s_%d" % (u, j)) for u in ids for j, c in enumerate(cs)}
        d = {}
        if extra:
            d["grp"] = ["g%s" % u for u in ids]
        for c in (cs if not twice else cs[::-1]):
            d[c] = [y[u, c] for u in ids]
        d["id"] = list(ids)
        z = None
        if extra:
            z = {u: env.var("z_%s" % u) for u in ids}
            d["size"] = [z[u] for u in ids]
        df = env.pd.DataFrame(d, index=index) if index else env.pd.DataFrame(d)
        s = snap(env, df)
        kw = dict(time_name=name[0], value_name=name[1])
        if times:
            kw["time_values"] = list(times)
        r = P.wide_to_long(df, list(cs), "id", **kw)
        ts = list(times) if times else list(range(k))
        env.true("columns", list(r.columns)[:3] == ["id", name[0], name[1]] and set(r.columns) == {"id", name[0], name[1]} | ({"grp", "size"} if extra else set()))
        env.true("rows", len(r) == len(ids) * k and list(r.index) == list(range(len(ids) * k)))
        order = sorted((u, t) for u in ids for t in ts)
        env.true("keys", [(r["id"].iloc[i], r[name[0]].iloc[i]) for i in range(len(r))] == order)
        for i, (u, t) in enumerate(order):
            env.eq("v_%s_%s" % (u, t), r[name[1]].iloc[i], y[u, cs[ts.index(t)]])
            if extra:
                env.eq("z_%s_%s" % (u, t), r["size"].iloc[i], z[u])
                env.true("g_%s_%s" % (u, t), r["grp"].iloc[i] == "g%s" % u)
        same(env, "input", df, s)
    return fn


def unbalanced(env, keep, units, periods, shuffle=None, extra=True):
    rows = [(u, t) for u in units for t in periods if (u, t) in keep]
    if shuffle is not None:
        rng(shuffle).shuffle(rows)
    y = {k: env.var("y_%s_%s" % k) for k in rows}
    x = {k: env.var("x_%s_%s" % k) for k in rows}
    d = {"y": [y[k] for k in rows], "period": [k[1] for k in rows], "unit": [k[0] for k in rows], "x": [x[k] for k in rows]}
    if extra:
        d["name"] = ["n%s" % k[0] for k in rows]
    return env.pd.DataFrame(d, index=list(range(10, 10 + len(rows)))), rows, y, x


def balance(method, missing, units=(1, 2, 3), periods=(1, 2, 3), fill=None, shuffle=None):
    def fn(env):
        P = env.mod("prep")
        keep = {(u, t) for u in units for t in periods} - set(missing)
        df, rows, y, x = unbalanced(env, keep, units, periods, shuffle, extra=method != "fill" or fill is None)
        s = snap(env, df)
        kw = {} if fill is None else {"fill_value": fill if not fill == "sym" else env.var("fill")}
        r = P.balance_panel(df, "unit", "period", method=method, **kw)
        got = {}
        for i in range(len(r)):
            k = (r["unit"].iloc[i], r["period"].iloc[i])
            env.true("once-%s-%s" % k, k not in got)
            got[k] = i
        if method == "inner":
            full = [u for u in units if all((u, t) in keep for t in periods)]
            want = {(u, t) for u in full for t in periods}
        else:
            want = {(u, t) for u in units for t in periods}
        env.true("cells", set(got) == want)
        env.true("columns", set(r.columns) == set(df.columns))
        for k in sorted(want & set(got)):
            i = got[k]
            for nm, v in (("y", y), ("x", x)):
                lab = "%s_%s_%s" % ((nm,) + k)
                if k in keep:
                    env.eq(lab, r[nm].iloc[i], v[k])
                elif method == "outer":
                    env.isnan(lab, r[nm].iloc[i])
                elif fill is not None:
                    env.eq(lab, r[nm].iloc[i], kw["fill_value"])
                else:
                    back = [t for t in periods if t < k[1] and (k[0], t) in keep]
                    fwd = [t for t in periods if t > k[1] and (k[0], t) in keep]
                    env.eq(lab, r[nm].iloc[i], v[k[0], back[-1] if back else fwd[0]])
            if method == "inner" or k in keep:
                if "name" in r.columns:
                    env.true("name_%s_%s" % k, r["name"].iloc[i] == "n%s" % k[0])
        same(env, "input", df, s)
    return fn


def dup_inner(env):
    """repeated rows of one period do not make a unit complete"""
    P = env.mod("prep")
    rows = [(1, 1), (1, 2), (1, 3), (2, 1), (2, 1), (2, 2)]
    y = env.vec("y", len(rows))
    df = env.pd.DataFrame({"unit": [a for a, _ in rows], "period": [b for _, b in rows], "y": y})
    r = P.balance_panel(df, "unit", "period")
    env.true("kept", list(r["unit"]) == [1, 1, 1])
    env.eqs("values", list(r["y"]), y[:3])


NAN = float("nan")


def wide_missing(env):
    """an empty cell of the wide table stays an (empty) row of the long one"""
    P = env.mod("prep")
    y = {(u, j): env.var("y_%d_%d" % (u, j)) for u in (5, 2, 9) for j in range(3)}
    y[5, 1] = y[2, 0] = y[2, 1] = y[2, 2] = NAN
    d = {"id": [5, 2, 9]}
    for j in range(3):
        d["y%d" % j] = [y[u, j] for u in (5, 2, 9)]
    r = P.wide_to_long(env.pd.DataFrame(d), ["y0", "y1", "y2"], "id", time_values=[3, 4, 5])
    keys = [(u, t) for u in (2, 5, 9) for t in (3, 4, 5)]
    env.true("keys", [(r["id"].iloc[i], r["period"].iloc[i]) for i in range(len(r))] == keys)
    for i in range(min(len(keys), len(r))):
        k = (keys[i][0], keys[i][1] - 3)
        v = y[k]
        if k in ((5, 1), (2, 0), (2, 1), (2, 2)):
            env.isnan("empty%d" % i, r["value"].iloc[i])
        else:
            env.eq("v%d" % i, r["value"].iloc[i], v)


def fill_empty(env, value=None):
    """a unit that never has a value in a column borrows none from the others"""
    P = env.mod("prep")
    rows = [(u, t) for u in (4, 1, 3) for t in (1, 2, 3) if (u, t) not in {(1, 1), (4, 3), (3, 2)}]
    y = {k: env.var("y_%d_%d" % k) for k in rows}
    x = {k: (NAN if k[0] == 1 else env.var("x_%d_%d" % k)) for k in rows}
    z = {k: (NAN if k[0] == 4 else env.var("z_%d_%d" % k)) for k in rows}
    df = env.pd.DataFrame({"u": [k[0] for k in rows], "t": [k[1] for k in rows], "y": [y[k] for k in rows], "x": [x[k] for k in rows], "z": [z[k] for k in rows]})
    r = P.balance_panel(df, "u", "t", method="fill")
    env.true("rows", sorted((r["u"].iloc[i], r["t"].iloc[i]) for i in range(len(r))) == [(u, t) for u in (1, 3, 4) for t in (1, 2, 3)])
    src = {(1, 1): (1, 2), (4, 3): (4, 2), (3, 2): (3, 1)}
    for i in range(len(r)):
        k = (r["u"].iloc[i], r["t"].iloc[i])
        q = src.get(k, k)
        env.eq("y%d_%d" % k, r["y"].iloc[i], y[q])
        for nm, v, none in (("x", x, 1), ("z", z, 4)):
            if k[0] == none:
                env.isnan("%s%d_%d" % ((nm,) + k), r[nm].iloc[i])
            else:
                env.eq("%s%d_%d" % ((nm,) + k), r[nm].iloc[i], v[q])


def cohort_repeats(env):
    """several rows of one unit in a period: the mean is over rows, the count over units"""
    P = env.mod("prep")
    rows = [(1, 1, 1), (1, 1, 1), (1, 2, 1), (2, 1, 1), (2, 2, 1), (3, 1, 0), (3, 2, 0), (3, 2, 0), (3, 2, 0), (4, 1, 0)]
    y = env.vec("y", len(rows))
    df = env.pd.DataFrame({"u": [k[0] for k in rows], "t": [k[1] for k in rows], "D": [k[2] for k in rows], "y": y})
    r = P.aggregate_to_cohorts(df, "u", "t", "D", "y")
    cells = sorted({(k[2], k[1]) for k in rows})
    env.true("cells", [(r["D"].iloc[i], r["t"].iloc[i]) for i in range(len(r))] == cells)
    for i, c in enumerate(cells):
        at = [j for j, k in enumerate(rows) if (k[2], k[1]) == c]
        env.true("n%d" % i, int(r["n_units"].iloc[i]) == len({rows[j][0] for j in at}))
        env.eq("mean%d" % i, r["mean_y"].iloc[i], mean([y[j] for j in at]))


def rank_weights(wo, wc, x=(0.0, 3.0, 1.0, 2.0)):
    """the quality score mixes the two scores with weights proportional to the given ones"""
    def fn(env):
        P = env.mod("prep")
        units = ["a", "c0", "c1", "c2"]
        b = [0.0] + [env.var("b%d" % i, 0.1, 2.0) for i in range(3)]
        y = {(u, t): 1.0 * t + b[i] * (1 + 0.5 * t) for i, u in enumerate(units) for t in range(4)}
        rows = [(u, t) for u in units for t in range(4)]
        df = env.pd.DataFrame({"u": [k[0] for k in rows], "t": [k[1] for k in rows], "y": [y[k] for k in rows], "x": [x[units.index(k[0])] for k in rows]})
        env.assume(b[1] + 0.05 < b[2])
        env.assume(b[2] + 0.05 < b[3])
        with weights(env, P):
            r = P.rank_control_units(df, "u", "t", "y", treated_units=["a"], covariates=["x"], outcome_weight=wo, covariate_weight=wc)
        tot = wo + wc
        po, pc = (wo / tot, wc / tot) if tot > 0 else (1.0, 0.0)
        dist = {u: abs(x[i] - x[0]) for i, u in enumerate(units)}
        far, near = max(dist[u] for u in units[1:]), min(dist[u] for u in units[1:])
        for i in range(3):
            u = r["unit"].iloc[i]
            j = units.index(u)
            so = (b[3] - b[j]) / (b[3] - b[1])
            sc = (far - dist[u]) / (far - near)
            env.eq("outcome-" + u, r["outcome_trend_score"].iloc[i], so)
            env.eq("cov-" + u, r["covariate_score"].iloc[i], sc)
            env.le("range-lo" + u, 0.0, r["quality_score"].iloc[i])
            env.le("range-hi" + u, r["quality_score"].iloc[i], 1.0)
            env.eq("mix-" + u, r["quality_score"].iloc[i], po * so + pc * sc)
            if i:
                env.true("order%d" % i, r["quality_score"].iloc[i - 1] >= r["quality_score"].iloc[i])
    return fn


def rank_refuses(env):
    """weights outside 0..1 and contradictory unit lists are refused"""
    P = env.mod("prep")
    v = env.var("y")
    rows = [(u, t) for u in "abc" for t in range(2)]
    df = env.pd.DataFrame({"u": [k[0] for k in rows], "t": [k[1] for k in rows], "y": [v + i for i in range(len(rows))], "D": [int(k[0] == "a") for k in rows]})
    w = env.var("w", -3.0, 3.0)
    env.assume(env.any_of([w < -1e-6, w > 1 + 1e-6]))
    with weights(env, P):
        for nm in ("outcome_weight", "covariate_weight"):
            env.raises(nm, ValueError, P.rank_control_units, df, "u", "t", "y", treated_units=["a"], **{nm: w})
        env.raises("both", ValueError, P.rank_control_units, df, "u", "t", "y", treated_units=["a"], treatment_column="D")
        env.raises("conflict", ValueError, P.rank_control_units, df, "u", "t", "y", treated_units=["a"], require_units=["b"], exclude_units=["b"])
        env.raises("neither", ValueError, P.rank_control_units, df, "u", "t", "y")
        env.raises("none-left", ValueError, P.rank_control_units, df, "u", "t", "y", treated_units=["a"], exclude_units=["b", "c"])


def treat(kind, above=True, new="treated"):
    def fn(env):
        P = env.mod("prep")
        v = env.vec("v", 4)
        y = env.vec("y", 4)
        if kind == "threshold":
            c = env.var("c", -1.0, 1.0)
            df = env.pd.DataFrame({"size": list(v), "y": list(y)}, index=[3, 1, 7, 5])
            s = snap(env, df)
            r = P.make_treatment_indicator(df, "size", threshold=c, above_threshold=above, **({} if new == "treated" else {"new_column": new}))
            want = [bool(env.value((x >= c) if above else (x <= c))) for x in v]
        else:
            vals = {"scalar": "b", "list": ["b", "d"], "set": {"a", "b"}, "tuple": ("c",), "absent": ["zz"]}[kind]
            raw = ["a", "b", "c", "b"]
            df = env.pd.DataFrame({"size": raw, "y": list(y)}, index=[3, 1, 7, 5])
            s = snap(env, df)
            r = P.make_treatment_indicator(df, "size", treated_values=vals, new_column=new)
            want = [x in ([vals] if isinstance(vals, str) else vals) for x in raw]
        env.true("columns", list(r.columns) == ["size", "y", new] and list(r.index) == [3, 1, 7, 5])
        for i in range(4):
            env.true("ind%d" % i, int(r[new].iloc[i]) == int(want[i]))
            env.eq("y%d" % i, r["y"].iloc[i], y[i])
        same(env, "input", df, s)
    return fn


def post(kind, raw=(2003, 2001, 2002, 2004, 2003)):
    def fn(env):
        P = env.mod("prep")
        y = env.vec("y", len(raw))
        if kind == "dates":
            col = env.pd.to_datetime(["%d-06-01" % t for t in raw])
            df = env.pd.DataFrame({"t": col, "y": list(y)})
            r = P.make_post_indicator(df, "t", treatment_start="2003-06-01")
            want = [t >= 2003 for t in raw]
            s = snap(env, df)
        elif kind == "symbolic":
            v = env.vec("t", len(raw))
            c = env.var("start", -1.0, 1.0)
            df = env.pd.DataFrame({"t": list(v), "y": list(y)})
            s = snap(env, df)
            r = P.make_post_indicator(df, "t", treatment_start=c)
            want = [bool(env.value(x >= c)) for x in v]
        else:
            df = env.pd.DataFrame({"t": list(raw), "y": list(y)})
            s = snap(env, df)
            kw, f = {"start": (dict(treatment_start=2003), lambda t: t >= 2003), "list": (dict(post_periods=[2004, 2001]), lambda t: t in (2004, 2001)),
                     "scalar": (dict(post_periods=2003), lambda t: t == 2003), "tuple": (dict(post_periods=(2002,), new_column="after"), lambda t: t == 2002)}[kind]
            r = P.make_post_indicator(df, "t", **kw)
            want = [f(t) for t in raw]
        nm = "after" if kind == "tuple" else "post"
        env.true("columns", list(r.columns) == ["t", "y", nm])
        for i in range(len(raw)):
            env.true("ind%d" % i, int(r[nm].iloc[i]) == int(want[i]))
            env.eq("y%d" % i, r["y"].iloc[i], y[i])
        same(env, "input", df, s)
    return fn


def event(env):
    P = env.mod("prep")
    nan, inf = float("nan"), float("inf")
    t = [1, 2, 3, 1, 2, 3, 2, 2]
    g = [2, 2, 2, 3, 3, 3, inf, nan]
    y = env.vec("y", 8)
    df = env.pd.DataFrame({"y": list(y), "t": t, "g": g}, index=[9, 8, 7, 6, 5, 4, 3, 2])
    s = snap(env, df)
    r = P.create_event_time(df, "t", "g")
    for i in range(8):
        v = r["event_time"].iloc[i]
        if math.isfinite(g[i]):
            env.eq("e%d" % i, v, t[i] - g[i])
        else:
            env.isnan("never%d" % i, v)
        env.eq("y%d" % i, r["y"].iloc[i], y[i])
    same(env, "input", df, s)


def event_sym(env):
    """symbolic calendar and treatment times"""
    P = env.mod("prep")
    t, g = env.vec("t", 4), env.vec("g", 3)
    df = env.pd.DataFrame({"t": list(t), "g": list(g) + [float("nan")]})
    r = P.create_event_time(df, "t", "g", new_column="k")
    for i in range(3):
        env.eq("k%d" % i, r["k"].iloc[i], t[i] - g[i])
    env.isnan("never", r["k"].iloc[3])


def cohorts(tcol, shuffle=0, cov=True, unbalanced_=False):
    def fn(env):
        P = env.mod("prep")
        g = {1: 1, 2: 1, 3: 0, 4: 0, 5: 0} if tcol == "treated" else {1: 2003, 2: 2002, 3: 0, 4: 2002, 5: 0}
        rows = [(u, t) for u in g for t in (1, 2, 3) if not (unbalanced_ and (u, t) in {(3, 2), (1, 1), (5, 3)})]
        rng(shuffle).shuffle(rows)
        y = {k: env.var("y_%d_%d" % k) for k in rows}
        x = {k: env.var("x_%d_%d" % k) for k in rows}
        df = env.pd.DataFrame({"u": [k[0] for k in rows], "t": [k[1] for k in rows], tcol: [g[k[0]] for k in rows], "y": [y[k] for k in rows], "x": [x[k] for k in rows]})
        s = snap(env, df)
        r = P.aggregate_to_cohorts(df, "u", "t", tcol, "y", covariates=["x"] if cov else None)
        cells = sorted({(g[u], t) for u, t in rows})
        env.true("cells", [(r[tcol].iloc[i], r["t"].iloc[i]) for i in range(len(r))] == cells)
        for i, (c, t) in enumerate(cells):
            m = [k for k in rows if g[k[0]] == c and k[1] == t]
            env.eq("mean_%s_%s" % (c, t), r["mean_y"].iloc[i], mean([y[k] for k in m]))
            env.true("n_%s_%s" % (c, t), int(r["n_units"].iloc[i]) == len({k[0] for k in m}))
            if cov:
                env.eq("cov_%s_%s" % (c, t), r["x"].iloc[i], mean([x[k] for k in m]))
        same(env, "input", df, s)
    return fn


def summary(times=(0, 1), T=2):
    """cell means and the double difference of the summary table (means are rounded to 4 places in the cells)"""
    def fn(env):
        P = env.mod("prep")
        rows = [(u, tr, t) for u, tr in ((1, 1), (2, 1), (3, 0), (4, 0), (5, 0)) for t in times]
        rng(4).shuffle(rows)
        y = {k: env.var("y_%d_%d_%d" % k) for k in rows}
        df = env.pd.DataFrame({"treated": [k[1] for k in rows], "t": [k[2] for k in rows], "y": [y[k] for k in rows]})
        s = snap(env, df)
        near = lambda lab, x: env.true(lab, env.all_of([x <= 1e-4, x >= -1e-4]))
        r = P.summarize_did_data(df, "y", "treated", "t")
        cell = lambda tr, t: [y[k] for k in rows if k[1] == tr and k[2] == t]
        for tr in (0, 1):
            for j, t in enumerate(times):
                lab = "%s - %s" % ("Treated" if tr else "Control", (("Pre", "Post")[j] if len(times) == 2 else "Period %s" % t))
                env.true("row-" + lab, lab in list(r.index))
                i = list(r.index).index(lab)
                env.true("n-" + lab, int(r["n"].iloc[i]) == len(cell(tr, t)))
                near("mean-" + lab, r["mean"].iloc[i] - mean(cell(tr, t)))
        if len(times) == 2:
            i = list(r.index).index("DiD Estimate")
            d = lambda tr: mean(cell(tr, times[1])) - mean(cell(tr, times[0]))
            near("did", r["mean"].iloc[i] - (d(1) - d(0)))
        same(env, "input", df, s)
    return fn


def validate(env):
    P = env.mod("prep")
    y = env.vec("y", 8)

    def run(tr, t, u=None, **kw):
        d = {"y": list(y), "tr": tr, "t": t}
        if u:
            d["u"] = u
        return P.validate_did_data(env.pd.DataFrame(d), "y", "tr", "t", unit="u" if u else None, raise_on_error=False)
    r = run([1, 1, 1, 1, 0, 0, 0, 0], [0, 1] * 4, [1, 1, 2, 2, 3, 3, 4, 4])
    env.true("valid", r["valid"] and not r["errors"] and not r["warnings"])
    env.true("summary", (r["summary"]["n_obs"], r["summary"]["n_treated"], r["summary"]["n_control"], r["summary"]["n_periods"], r["summary"]["n_units"]) == (8, 4, 4, 2, 4))
    env.true("cell", not run([1, 1, 1, 1, 0, 0, 0, 0], [0, 1, 0, 1, 0, 0, 0, 0])["valid"])
    env.true("cell2", not run([1, 1, 1, 1, 0, 0, 0, 0], [3, 3, 3, 3, 3, 4, 3, 4])["valid"])
    env.true("binary", not run([1, 2, 1, 1, 0, 0, 0, 0], [0, 1] * 4)["valid"])
    env.true("none", not run([0] * 8, [0, 1] * 4)["valid"])
    env.true("all", not run([1] * 8, [0, 1] * 4)["valid"])
    env.true("missing", not run([1, None, 1, 1, 0, 0, 0, 0], [0, 1] * 4)["valid"])
    w = run([1, 1, 0, 1, 0, 0, 0, 0], [0, 1] * 4, [1, 1, 2, 2, 3, 3, 4, 4])
    env.true("varying", w["valid"] and any("varies" in x for x in w["warnings"]))
    b = run([1, 1, 1, 0, 0, 0, 0, 0], [0, 1, 0, 1, 0, 1, 0, 1], [1, 1, 2, 3, 4, 4, 5, 5])
    env.true("unbalanced", b["valid"] and any("nbalanced" in x for x in b["warnings"]))


class weights:
    """the synthetic-control weight column is not part of the ranking: an arbitrary stand-in on symbols"""

    def __init__(self, env, P):
        self.env, self.P = env, P

    def __enter__(self):
        self.old = getattr(self.P, "compute_synthetic_weights", None)
        if self.env.mode == "sym" and self.old is not None:
            self.P.compute_synthetic_weights = lambda Y, *a, **k: rnp.full(Y.shape[1], 1.0 / Y.shape[1])

    def __exit__(self, *a):
        if self.old is not None:
            self.P.compute_synthetic_weights = self.old


def rank(n_ctrl=3, cov=False, pre=None, exclude=(), require=(), top=None, how="treated_units", two=False, T=4):
    """ranking of controls by closeness of their pre-treatment outcomes"""
    def fn(env):
        P = env.mod("prep")
        tr = ["a", "b"] if two else ["a"]
        ct = ["c%d" % i for i in range(n_ctrl)]
        units = ct[:1] + tr + ct[1:]
        base = {u: [rng(i * 7 + 1).uniform(-1, 1) for _ in range(T)] for i, u in enumerate(units)}
        y = {}
        for u in units:
            for t in range(T):
                y[u, t] = base[u][t]
        m = [mean([y[v, t] for v in tr]) for t in range(T)]
        for i, u in enumerate(ct):
            if i < 3:
                b = env.var("b_" + u, -2.0, 2.0)
                for t in range(T):
                    y[u, t] = m[t] + b * (1.0 + 0.5 * ((t + i) % 3)) * (1.0 if t % 2 else -1.0)
        x = {u: float(i % 3) + 0.5 * i for i, u in enumerate(units)}
        rows = [(u, t) for t in range(T) for u in units]
        d = {"u": [k[0] for k in rows], "t": [k[1] for k in rows], "y": [y[k] for k in rows], "x": [x[k[0]] for k in rows], "D": [int(k[0] in tr) for k in rows]}
        df = env.pd.DataFrame(d)
        s = snap(env, df)
        kw = {"treated_units": tr} if how == "treated_units" else {"treatment_column": "D"}
        if pre is not None:
            kw["pre_periods"] = list(pre)
        if exclude:
            kw["exclude_units"] = list(exclude)
        if require:
            kw["require_units"] = list(require)
        if top is not None:
            kw["n_top"] = top
        if cov:
            kw["covariates"] = ["x"]
        with weights(env, P):
            r = P.rank_control_units(df, "u", "t", "y", **kw)
        pp = list(pre) if pre is not None else list(range(T // 2))
        cand = [u for u in ct if u not in exclude]
        msd = {u: mean([(y[u, t] - mean([y[v, t] for v in tr])) ** 2 for t in pp]) for u in cand}
        names = list(r["unit"])
        env.true("subset", len(set(names)) == len(names) and set(names) <= set(cand))
        env.true("size", len(names) == (len(cand) if top is None else min(len(cand), max(top, len(require)))))
        env.true("required", all(u in names for u in require) and [bool(q) for q in r["is_required"]] == [u in require for u in names])
        for i, u in enumerate(names):
            env.eq("rmse-%d" % i, r["pre_trend_rmse"].iloc[i] * r["pre_trend_rmse"].iloc[i], msd[u])
            if i:
                env.true("order%d" % i, r["quality_score"].iloc[i - 1] >= r["quality_score"].iloc[i])
        if not cov:
            # without covariates the quality order is the order of closeness, also to those cut off
            for i in range(1, len(names)):
                env.le("close%d" % i, msd[names[i - 1]], msd[names[i]])
            for a, u in enumerate([u for u in cand if u not in names]):
                for b, v in enumerate([v for v in names if v not in require]):
                    env.le("cut-%d-%d" % (a, b), msd[v], msd[u])
        else:
            for i, u in enumerate(names):
                env.eq("mix-%d" % i, r["quality_score"].iloc[i], 0.7 * r["outcome_trend_score"].iloc[i] + 0.3 * r["covariate_score"].iloc[i])
        same(env, "input", df, s)
    return fn


def candidates(shuffle=None):
    """treatment candidates: level and slope of each unit's pre-treatment outcomes"""
    def fn(env):
        P = env.mod("prep")
        units, T = [1, 2, 3], 4
        rows = [(u, t) for u in units for t in range(T)]
        tilt = {u: env.var("tilt%d" % u, -2.0, 2.0) for u in units}
        bend = {u: env.var("bend%d" % u, -2.0, 2.0) for u in units}
        lev = env.var("level", 3.5, 4.5)
        y = {(u, t): {1: 0.5, 2: lev, 3: 9.0}[u] + tilt[u] * (t - 1.0) + bend[u] * {0: 1.0, 1: -2.0, 2: 1.0, 3: 5.0}[t] for u, t in rows}
        if shuffle is not None:
            rng(shuffle).shuffle(rows)
        df = env.pd.DataFrame({"u": [k[0] for k in rows], "t": [k[1] for k in rows], "y": [y[k] for k in rows]})
        pp = [0, 1, 2]
        r = P.rank_control_units(df, "u", "t", "y", pre_periods=pp, suggest_treatment_candidates=True)
        env.true("units", sorted(r["unit"]) == units)
        for i in range(len(r)):
            u = r["unit"].iloc[i]
            env.eq("level-%s" % u, r["avg_outcome_level"].iloc[i], mean([y[u, t] for t in pp]))
            env.eq("slope-%s" % u, r["outcome_trend"].iloc[i], (y[u, 2] - y[u, 0]) * 0.5)
    return fn


def cases(tier):
    q = tier == "quick"
    C = []

    def add(nm, fn, desc="", **k):
        k.setdefault("max_paths", 40 if q else 400)
        C.append(Case(nm, fn, desc, **k))
    add("wide", wide([1, 2, 3]), "3 units x 3 periods")
    add("wide-unsorted-ids", wide([7, 2, 5], index=[4, 4, 1]), "unsorted ids, repeated row labels")
    add("wide-times-unsorted", wide([1, 2], times=[2003, 2001, 2002]))
    add("wide-times-str", wide(["q", "b"], times=["t3", "t1", "t2"], name=("when", "sales")))
    add("wide-extra", wide([3, 1], extra=True), "other columns preserved")
    add("wide-extra-cols-reversed", wide([3, 1, 2], extra=True, twice=True, times=[10, 20, 30]), "value columns stored in another order")
    add("wide-int-cols", wide([3, 1], cols=["2001", "2000"], times=[2001, 2000]))
    miss = [(2, 3), (3, 1)]
    for m in ("inner", "outer", "fill"):
        for sh in (None, 5):
            add("balance-%s%s" % (m, "-shuffled" if sh else ""), balance(m, miss, shuffle=sh), "units with a missing first / last period")
    add("balance-fill-value", balance("fill", miss, fill=0.0, shuffle=2))
    add("balance-fill-sym", balance("fill", miss, fill="sym"))
    add("balance-fill-gap", balance("fill", [(1, 2), (2, 1), (2, 2), (3, 4)], periods=(1, 2, 3, 4), shuffle=3), "interior gap, leading gap of two")
    add("balance-outer-gap", balance("outer", [(1, 2), (2, 1), (2, 2), (3, 4)], periods=(1, 2, 3, 4), shuffle=3))
    add("balance-inner-none", balance("inner", [(1, 2), (2, 1), (3, 3)]), "no complete unit")
    add("balance-inner-str", balance("inner", [("b", 2)], units=("b", "a", "c"), shuffle=9))
    add("balance-complete", balance("fill", [], shuffle=1))
    add("balance-duplicates", dup_inner)
    add("wide-missing", wide_missing, "empty cells of the wide table")
    add("balance-fill-empty", fill_empty, "columns without any value for one unit")
    add("cohorts-repeats", cohort_repeats, "repeated rows of a unit")
    for nm, a, b in (("half", 0.5, 0.5), ("none", 0.0, 0.0), ("cov-only", 0.0, 0.4), ("outcome-only", 0.3, 0.0), ("full", 1.0, 1.0)):
        add("rank-weights-" + nm, rank_weights(a, b))
    add("rank-refuses", rank_refuses)
    add("treat-threshold", treat("threshold"), "symbolic values and threshold")
    add("treat-threshold-below", treat("threshold", above=False, new="low"))
    for k in ("scalar", "list", "set", "tuple", "absent"):
        add("treat-" + k, treat(k, new="d" if k == "set" else "treated"))
    for k in ("start", "list", "scalar", "tuple", "dates", "symbolic"):
        add("post-" + k, post(k))
    add("event-time", event)
    add("event-time-symbolic", event_sym)
    add("cohorts-binary", cohorts("treated"))
    add("cohorts-timing-unbalanced", cohorts("first", shuffle=3, unbalanced_=True))
    add("cohorts-no-cov", cohorts("first", cov=False))
    add("summary", summary())
    add("summary-years", summary(times=(2001, 2005)))
    add("summary-3", summary(times=(1, 2, 3)))
    add("validate", validate)
    add("rank", rank())
    add("rank-column-two", rank(how="treatment_column", two=True, pre=[0, 2], T=4))
    add("rank-cov", rank(cov=True))
    add("rank-exclude", rank(n_ctrl=4, exclude=("c1",)))
    add("rank-top", rank(n_ctrl=4, top=2))
    add("rank-require", rank(n_ctrl=4, top=2, require=("c3",)))
    add("rank-require-many", rank(n_ctrl=4, top=1, require=("c3", "c0")))
    add("candidates", candidates())
    add("candidates-shuffled", candidates(shuffle=3))
    return C
