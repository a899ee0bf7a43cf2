"""C24: every results class is built with solver variables for the stored numbers; its dictionaries, data
frames, flags, stars and printed tables must show exactly these numbers under their own names.  A printed
number is a token that resolves to the term that was formatted (symx.harness.Env.numbers)."""
import contextlib
import io
import math
from symx.harness import Case
from .c23 import Bacon, Cs, Ddd, Did, Honest, Multi, Pre, Sa, Sdid, Trop, Twfe, flat, seeded

STARS = (("***", 0.001), ("**", 0.01), ("*", 0.05), (".", 0.1))
ALPHAS = (0.05, 0.1, 0.01, 0.07, 0.025, 0.001, 0.2)


def five(env, tag, lo=-9.0):
    """estimate, se, t, p, interval: unrelated variables, so that no two can be exchanged unnoticed"""
    return dict(effect=env.var(tag + "e", lo, 9), se=env.var(tag + "s", 0.01, 9), t_stat=env.var(tag + "t", -9, 9),
                p_value=env.var(tag + "p", 0.0, 1.0), conf_int=(env.var(tag + "l", -9, 9), env.var(tag + "u", -9, 9)))


def stars(env, tag, got, p):
    env.true(tag + "-known", got in ("", ".", "*", "**", "***"))
    up = 0.0
    for s, c in STARS:
        env.iff("%s-%s" % (tag, s), got == s, env.all_of(p >= up, p < c))
        up = c
    env.iff(tag + "-none", got == "", p >= 0.1)


def line(text, head, nth=0):
    """the text after the nth line that starts with head"""
    rows = [l.strip()[len(head):] for l in text.splitlines() if l.strip().startswith(head)]
    return rows[nth] if nth < len(rows) else ""


def shows(env, tag, text, wants):
    got = env.numbers(text)
    env.true(tag + "-count", len(got) >= len(wants))
    for i, (g, w) in enumerate(zip(got, wants)):
        env.printed("%s-%d" % (tag, i), g, w)


def interval_line(text):
    for l in text.splitlines():
        if "Confidence Interval" in l or "Robust CI" in l or "% CI" in l or "CI (" in l:
            return l
    return ""


def level(env, tag, text, alpha, ci):
    l = interval_line(text)
    got = env.numbers(l.replace("%", " ").replace("(", " ").replace(")", " "))
    env.true(tag + "-parts", len(got) == 3)
    if len(got) == 3:
        x = float(got[0][0])
        env.true(tag + "-level", abs(x - 100 * (1 - alpha)) <= 1e-6)
        env.printed(tag + "-lower", got[1], ci[0])
        env.printed(tag + "-upper", got[2], ci[1])


def same(env, tag, a, b):
    if isinstance(b, str) or b is None or isinstance(b, (bool, int)):
        env.true(tag, a == b)
    else:
        env.eq(tag, a, b)


def exported(env, tag, d, df, want):
    for k, v in want.items():
        env.true("%s-has-%s" % (tag, k), k in d)
        if k in d:
            same(env, "%s-%s" % (tag, k), d[k], v)
    if df is not None:
        env.true(tag + "-frame", len(df) == 1 and sorted(df.columns) == sorted(d))
        for k in d:
            if d[k] is not None:
                same(env, "%s-frame-%s" % (tag, k), df[k].iloc[0], d[k])


def table(env, tag, df, keys, rows, cols):
    """each cell once, with its own numbers; rows: key tuple -> dict"""
    got = [tuple(x if isinstance(x, str) else int(x) for x in (df[k].iloc[i] for k in keys)) for i in range(len(df))]
    env.true(tag + "-cells", sorted(map(str, got)) == sorted(map(str, rows)))
    for i, g in enumerate(got):
        for c, f in cols.items():
            v = df[c].iloc[i]
            w = f(rows[g]) if g in rows else None
            if isinstance(w, float) and w != w:
                env.isnan("%s-%s-%s" % (tag, g, c), v)
            elif w is not None:
                env.eq("%s-%s-%s" % (tag, g, c), v, w) if not isinstance(w, bool) else env.true("%s-%s-%s" % (tag, g, c), bool(v) == w)


CI = {"effect": lambda r: r["effect"], "se": lambda r: r["se"], "t_stat": lambda r: r["t_stat"], "p_value": lambda r: r["p_value"],
      "conf_int_lower": lambda r: r["conf_int"][0], "conf_int_upper": lambda r: r["conf_int"][1]}


# ------------------------------------------------------------------ one estimate per result
def single(kind):
    def make(env, alpha, **over):
        v = five(env, "r")
        k = dict(att=v["effect"], se=v["se"], t_stat=v["t_stat"], p_value=v["p_value"], conf_int=v["conf_int"], alpha=alpha)
        R = env.mod("results")
        extra = {}
        if kind == "did":
            extra = dict(n_obs=40, n_treated=17, n_control=23, r_squared=env.var("r2", 0, 1), inference_method="wild_bootstrap", n_bootstrap=99, n_clusters=7)
            cls = R.DiDResults
            exp = dict(extra)
        elif kind == "ddd":
            extra = dict(n_obs=40, n_treated_eligible=9, n_treated_ineligible=10, n_control_eligible=11, n_control_ineligible=12, estimation_method="ipw", r_squared=env.var("r2", 0, 1),
                         inference_method="analytical", n_clusters=5)
            exp = dict(extra)
            extra.update(group_means={"T,E": env.var("m0", -9, 9), "C,E": env.var("m1", -9, 9)}, pscore_stats={"mean": env.var("ps", 0, 1)})
            cls = env.mod("triple_diff").TripleDifferenceResults
        elif kind == "sdid":
            extra = dict(n_obs=40, n_treated=17, n_control=23, variance_method="bootstrap", n_bootstrap=31, lambda_reg=env.var("lr", 0, 2), pre_treatment_fit=env.var("pf", 0, 2))
            exp = dict(extra, n_pre_periods=3, n_post_periods=2)
            extra.update(pre_periods=[0, 1, 2], post_periods=[3, 4], unit_weights={"a": env.var("ua", 0.1, 1), "b": env.var("ub", 0.1, 1)},
                         time_weights={0: env.var("ta", 0, 1), 1: env.var("tb", 0, 1), 2: env.var("tc", 0, 1)})
            cls = R.SyntheticDiDResults
        else:
            extra = dict(n_obs=40, n_treated=17, n_control=23, n_treated_obs=8, lambda_time=env.var("lt", 0, 2), lambda_unit=env.var("lu", 0, 2), lambda_nn=env.var("ln", 0, 2),
                         effective_rank=env.var("er", 0, 3), loocv_score=env.var("lc", 0, 9), variance_method="bootstrap", n_pre_periods=3, n_post_periods=2)
            exp = dict(extra)
            extra.update(unit_effects={"a": env.var("ua"), "b": env.var("ub")}, time_effects={0: env.var("ta"), 1: env.var("tb")},
                         treatment_effects={("a", 0): env.var("ea"), ("a", 1): env.var("eb"), ("b", 1): env.var("ec")}, factor_matrix=None, n_bootstrap=31)
            cls = env.mod("trop").TROPResults
        extra.update(over)
        r = cls(**k, **extra)
        exp.update(att=v["effect"], se=v["se"], t_stat=v["t_stat"], p_value=v["p_value"], conf_int_lower=v["conf_int"][0], conf_int_upper=v["conf_int"][1])
        return r, v, exp, extra
    return make


def single_export(kind):
    def fn(env):
        alpha = env.var("alpha", 0.0005, 0.5)
        r, v, exp, extra = single(kind)(env, alpha)
        exported(env, "dict", r.to_dict(), r.to_dataframe(), exp)
        if kind == "sdid":
            table(env, "units", r.get_unit_weights_df(), ["unit"], {(u,): {"w": w} for u, w in extra["unit_weights"].items()}, {"weight": lambda x: x["w"]})
            table(env, "times", r.get_time_weights_df(), ["period"], {(u,): {"w": w} for u, w in extra["time_weights"].items()}, {"weight": lambda x: x["w"]})
        if kind == "trop":
            table(env, "units", r.get_unit_effects_df(), ["unit"], {(u,): {"w": w} for u, w in extra["unit_effects"].items()}, {"effect": lambda x: x["w"]})
            table(env, "times", r.get_time_effects_df(), ["time"], {(u,): {"w": w} for u, w in extra["time_effects"].items()}, {"effect": lambda x: x["w"]})
            table(env, "cells", r.get_treatment_effects_df(), ["unit", "time"], {u: {"w": w} for u, w in extra["treatment_effects"].items()}, {"effect": lambda x: x["w"]})
        env.iff("significant", r.is_significant, v["p_value"] < alpha)
        stars(env, "stars", r.significance_stars, v["p_value"])
    return fn


def single_text(kind):
    def fn(env):
        for alpha in ALPHAS:
            r, v, exp, extra = single(kind)(env, alpha)
            t = r.summary()
            row = line(t, "ATT")
            shows(env, "row-%s" % alpha, row, [v["effect"], v["se"], v["t_stat"], v["p_value"]])
            s = row.split()[-1] if row else ""
            env.true("stars-%s" % alpha, (s if set(s) <= set("*.") else "") == r.significance_stars)
            level(env, "ci-%s" % alpha, t, alpha, v["conf_int"])
            env.true("explicit-%s" % alpha, r.summary(alpha) == t)
        shows(env, "n", line(t, "Observations:") or line(t, "Total observations:"), [40])
        if kind in ("did", "ddd"):
            shows(env, "r2", line(t, "R-squared:"), [extra["r_squared"]])
        if kind == "did":
            shows(env, "reps", line(t, "Bootstrap replications:"), [99])
            shows(env, "clusters", line(t, "Number of clusters:"), [7])
            shows(env, "treated", line(t, "Treated units:"), [17])
            shows(env, "control", line(t, "Control units:"), [23])
        if kind == "ddd":
            for h, w in (("Treated group, Eligible:", 9), ("Treated group, Ineligible:", 10), ("Control group, Eligible:", 11), ("Control group, Ineligible:", 12)):
                shows(env, h, line(t, h), [w])
            for c, m in extra["group_means"].items():
                shows(env, "mean-" + c, line(t, c), [m])
            shows(env, "ps", line(t, "mean"), [extra["pscore_stats"]["mean"]])
        if kind == "sdid":
            shows(env, "reg", line(t, "Regularization (lambda):"), [extra["lambda_reg"]])
            shows(env, "fit", line(t, "Pre-treatment fit (RMSE):"), [extra["pre_treatment_fit"]])
            for u, w in extra["unit_weights"].items():
                shows(env, "w-" + u, line(t, "Unit %s:" % u), [w])
        if kind == "trop":
            shows(env, "reps", line(t, "Bootstrap replications:"), [31])
            for h, k in (("Lambda (time decay):", "lambda_time"), ("Lambda (unit distance):", "lambda_unit"), ("Lambda (nuclear norm):", "lambda_nn"), ("Effective rank:", "effective_rank"),
                         ("LOOCV score:", "loocv_score"), ("Treated observations:", "n_treated_obs"), ("Pre-treatment periods:", "n_pre_periods"), ("Post-treatment periods:", "n_post_periods")):
                shows(env, k, line(t, h), [extra[k]])
        rep = repr(r)
        shows(env, "repr", rep.split("ATT=")[1], [v["effect"], v["se"]])
        st = r.significance_stars
        a, b = rep.split("ATT=")[1].split(", ")[0], st
        env.true("repr-stars", a.endswith(b) if b else not a.endswith(("*", ".")))
    return fn


def relabel(make, ci, nm):
    """an interval printed for another level is not the stored one"""
    def fn(env):
        r = make(env)
        for e in getattr(r, "period_effects", {}).values():
            env.assume(e.p_value > 0.2)
        t = interval_line(r.summary(0.1))
        got = env.numbers(t.replace("%", " "))
        env.true("parts", len(got) == 3)
        lab, stored = float(got[0][0]), ci(r)
        if env.issym(stored[0]):
            unchanged = got[1][0] is stored[0] and got[2][0] is stored[1]
        else:
            unchanged = all(abs(g[0] - float(w)) <= 6e-5 for g, w in zip(got[1:], stored))
        env.assume(abs(ci(r)[1] - ci(r)[0]) > 0.01)
        env.true("level-of-stored-interval", not unchanged or lab == 95)
    return fn


# ------------------------------------------------------------------ period and cell tables
def multi(env, alpha=0.05):
    R = env.mod("results")
    v = five(env, "a")
    per = {t: five(env, "q%d" % t) for t in (3, 4)}
    pe = {t: R.PeriodEffect(period=t, **d) for t, d in per.items()}
    r = R.MultiPeriodDiDResults(period_effects=pe, avg_att=v["effect"], avg_se=v["se"], avg_t_stat=v["t_stat"], avg_p_value=v["p_value"], avg_conf_int=v["conf_int"],
                                n_obs=40, n_treated=17, n_control=23, pre_periods=[0, 1, 2], post_periods=[3, 4], alpha=alpha, r_squared=env.var("r2", 0, 1))
    return r, v, per


def multi_export(env):
    alpha = env.var("alpha", 0.0005, 0.5)
    r, v, per = multi(env, alpha)
    d = r.to_dict()
    want = dict(avg_att=v["effect"], avg_se=v["se"], avg_t_stat=v["t_stat"], avg_p_value=v["p_value"], avg_conf_int_lower=v["conf_int"][0], avg_conf_int_upper=v["conf_int"][1],
                n_obs=40, n_treated=17, n_control=23, n_pre_periods=3, n_post_periods=2, r_squared=r.r_squared)
    for t, e in per.items():
        want.update({"effect_period_%d" % t: e["effect"], "se_period_%d" % t: e["se"], "pval_period_%d" % t: e["p_value"]})
    exported(env, "dict", d, None, want)
    env.iff("significant", r.is_significant, v["p_value"] < alpha)
    stars(env, "stars", r.significance_stars, v["p_value"])


def multi_table(env):
    r, v, per = multi(env)
    df = r.to_dataframe()
    table(env, "periods", df, ["period"], {(t,): e for t, e in per.items()}, CI)
    for i in range(len(df)):
        t = df["period"].iloc[i]
        e = r.get_effect(t)
        env.true("get-%d" % t, e.period == t)
        env.eq("get-%d-effect" % t, e.effect, per[t]["effect"])
        env.iff("flag-%d" % t, bool(df["is_significant"].iloc[i]), per[t]["p_value"] < 0.05)
        stars(env, "stars-%d" % t, e.significance_stars, per[t]["p_value"])
        env.iff("object-flag-%d" % t, e.is_significant, per[t]["p_value"] < 0.05)
    env.raises("missing", KeyError, r.get_effect, 99)


def multi_text(env):
    for alpha in ALPHAS:
        r, v, per = multi(env, alpha)
        for e in (r.period_effects[3], r.period_effects[4]):
            env.assume(e.p_value > 0.2)
        t = r.summary()
        row = line(t, "Avg ATT")
        shows(env, "row-%s" % alpha, row, [v["effect"], v["se"], v["t_stat"], v["p_value"]])
        level(env, "ci-%s" % alpha, t, alpha, v["conf_int"])
    for p, e in per.items():
        shows(env, "period-%d" % p, line(t, "%d " % p), [e["effect"], e["se"], e["t_stat"], e["p_value"]])
    for h, w in (("Observations:", 40), ("Treated observations:", 17), ("Control observations:", 23), ("Pre-treatment periods:", 3), ("Post-treatment periods:", 2)):
        shows(env, h, line(t, h), [w])
    shows(env, "repr", repr(r).split("avg_ATT=")[1], [v["effect"], v["se"]])
    shows(env, "repr-period", repr(r.period_effects[3]).split("effect=")[1], [per[3]["effect"], per[3]["se"], per[3]["p_value"]])


def multi_period_stars(env):
    r, v, per = multi(env)
    env.assume(v["p_value"] > 0.2)
    t = r.summary()
    for p, e in per.items():
        row = line(t, "%d " % p).split()
        s = row[-1] if set(row[-1]) <= set("*.") else ""
        env.true("period-stars-%d" % p, s == r.period_effects[p].significance_stars)


def cs(env, alpha=0.05, quiet=True):
    S = env.mod("staggered_results")
    v = five(env, "o")
    gt = {(g, t): dict(five(env, "g%d%d" % (g, t)), n_treated=g, n_control=t) for g, t in ((3, 3), (2, 3), (2, 2))}
    es = {e: dict(five(env, "e%d" % (e + 1)), n_groups=1) for e in (1, -1, 0)}
    gr = {g: dict(five(env, "c%d" % g), n_periods=1) for g in (3, 2)}
    r = S.CallawaySantAnnaResults(group_time_effects=gt, overall_att=v["effect"], overall_se=v["se"], overall_t_stat=v["t_stat"], overall_p_value=v["p_value"], overall_conf_int=v["conf_int"],
                                  groups=[2, 3], time_periods=[1, 2, 3], n_obs=40, n_treated_units=17, n_control_units=23, alpha=alpha, event_study_effects=es, group_effects=gr)
    if quiet:
        for d in list(gt.values()) + list(es.values()) + list(gr.values()):
            env.assume(d["p_value"] > 0.2)
    return r, v, gt, es, gr


def cs_export(env):
    alpha = env.var("alpha", 0.0005, 0.5)
    r, v, gt, es, gr = cs(env, alpha)
    table(env, "gt", r.to_dataframe(), ["group", "time"], gt, CI)
    table(env, "gt2", r.to_dataframe("group_time"), ["group", "time"], gt, CI)
    table(env, "es", r.to_dataframe(level="event_study"), ["relative_period"], {(k,): d for k, d in es.items()}, CI)
    table(env, "group", r.to_dataframe(level="group"), ["group"], {(k,): d for k, d in gr.items()}, CI)
    env.true("order", list(r.to_dataframe("event_study")["relative_period"]) == [-1, 0, 1])
    env.raises("level", ValueError, r.to_dataframe, "cohort")
    env.iff("significant", r.is_significant, v["p_value"] < alpha)
    stars(env, "stars", r.significance_stars, v["p_value"])
    r.event_study_effects = r.group_effects = None
    env.raises("no-es", ValueError, r.to_dataframe, "event_study")
    env.raises("no-group", ValueError, r.to_dataframe, "group")


def cs_text(env):
    for alpha in ALPHAS:
        r, v, gt, es, gr = cs(env, alpha)
        t = r.summary()
        shows(env, "row-%s" % alpha, line(t, "ATT"), [v["effect"], v["se"], v["t_stat"], v["p_value"]])
        level(env, "ci-%s" % alpha, t, alpha, v["conf_int"])
    head, rest = t.split("Event Study")
    ev, grp = rest.split("Effects by Treatment Cohort")
    for e, d in es.items():
        shows(env, "event%d" % e, line(ev, "%d " % e), [d["effect"], d["se"], d["t_stat"], d["p_value"]])
    for g, d in gr.items():
        shows(env, "group%d" % g, line(grp, "%d " % g), [d["effect"], d["se"], d["t_stat"], d["p_value"]])
    for h, w in (("Total observations:", 40), ("Treated units:", 17), ("Control units:", 23), ("Treatment cohorts:", 2), ("Time periods:", 3)):
        shows(env, h, line(t, h), [w])
    shows(env, "repr", repr(r).split("ATT=")[1], [v["effect"], v["se"]])


def cs_stars(env):
    r, v, gt, es, gr = cs(env, quiet=False)
    for x in [v] + [es[k] for k in (1, -1)] + [gr[3]] + list(gt.values()):
        env.assume(x["p_value"] > 0.2)
    t = r.summary()
    ev, grp = t.split("Event Study")[1].split("Effects by Treatment Cohort")
    for nm, part, k, d in (("event", ev, 0, es[0]), ("group", grp, 2, gr[2])):
        row = line(part, "%d " % k).split()
        s = row[-1] if set(row[-1]) <= set("*.") else ""
        stars(env, nm, s, d["p_value"])


def sa(env, alpha=0.05):
    v = five(env, "o")
    es = {e: dict(five(env, "e%d" % (e + 2)), n_groups=1) for e in (1, -2, 0)}
    co = {(g, e): dict(effect=env.var("c%d%d" % (g, e + 2)), se=env.var("d%d%d" % (g, e + 2), 0.1, 2), weight=env.var("w%d%d" % (g, e + 2), 0, 1)) for g, e in ((3, 0), (2, 1), (2, -2), (2, 0))}
    for d in es.values():
        env.assume(d["p_value"] > 0.2)
    r = env.mod("sun_abraham").SunAbrahamResults(event_study_effects=es, overall_att=v["effect"], overall_se=v["se"], overall_t_stat=v["t_stat"], overall_p_value=v["p_value"],
                                                 overall_conf_int=v["conf_int"], cohort_weights={}, groups=[2, 3], time_periods=[0, 1, 2, 3], n_obs=40, n_treated_units=17, n_control_units=23,
                                                 alpha=alpha, cohort_effects=co)
    return r, v, es, co


def sa_export(env):
    alpha = env.var("alpha", 0.0005, 0.5)
    r, v, es, co = sa(env, alpha)
    table(env, "es", r.to_dataframe(), ["relative_period"], {(k,): d for k, d in es.items()}, CI)
    table(env, "cohort", r.to_dataframe(level="cohort"), ["cohort", "relative_period"], co, {k: (lambda x, k=k: x[k]) for k in ("effect", "se", "weight")})
    env.raises("level", ValueError, r.to_dataframe, "group")
    env.iff("significant", r.is_significant, v["p_value"] < alpha)
    stars(env, "stars", r.significance_stars, v["p_value"])
    r.cohort_effects = None
    env.raises("no-cohort", ValueError, r.to_dataframe, "cohort")


def sa_text(env):
    for alpha in ALPHAS:
        r, v, es, co = sa(env, alpha)
        t = r.summary()
        shows(env, "row-%s" % alpha, line(t, "ATT"), [v["effect"], v["se"], v["t_stat"], v["p_value"]])
        level(env, "ci-%s" % alpha, t, alpha, v["conf_int"])
    ev = t.split("Event Study")[1]
    for e, d in es.items():
        shows(env, "event%d" % e, line(ev, "%d " % e), [d["effect"], d["se"], d["t_stat"], d["p_value"]])
    for h, w in (("Total observations:", 40), ("Treated units:", 17), ("Control units:", 23), ("Treatment cohorts:", 2), ("Time periods:", 4)):
        shows(env, h, line(t, h), [w])
    shows(env, "repr", repr(r).split("ATT=")[1], [v["effect"], v["se"]])


def group_time(env):
    S = env.mod("staggered_results")
    d = five(env, "g")
    e = S.GroupTimeEffect(group=2, time=3, n_treated=4, n_control=5, **d)
    env.iff("significant", e.is_significant, d["p_value"] < 0.05)
    stars(env, "stars", e.significance_stars, d["p_value"])


# ------------------------------------------------------------------ sensitivity, power, decomposition, placebo
def honest(env):
    lb, ub, cl, cu = env.var("lb", -5, 5), env.var("ub", -5, 5), env.var("cl", -5, 5), env.var("cu", -5, 5)
    env.assume(cl < cu)
    for alpha in ALPHAS:
        r = env.mod("honest_did").HonestDiDResults(lb=lb, ub=ub, ci_lb=cl, ci_ub=cu, M=env.var("M", 0, 3), method="relative_magnitude", original_estimate=env.var("oe"), original_se=env.var("os", 0.1, 2),
                                                   alpha=alpha, ci_method="C-LF")
        t = r.summary()
        level(env, "ci-%s" % alpha, t, alpha, (cl, cu))
    out = env.any_of(cl > 0, cu < 0)
    env.iff("significant", r.is_significant, out)
    env.true("stars", r.significance_stars == ("*" if r.is_significant else ""))
    env.true("text-robust", line(t, "Effect robust to violations:").strip() == ("Yes" if r.is_significant else "No"))
    env.iff("text-positive", "POSITIVE" in t, cl > 0)
    env.iff("text-negative", "NEGATIVE" in t, cu < 0)
    exported(env, "dict", r.to_dict(), r.to_dataframe(), dict(lb=lb, ub=ub, ci_lb=cl, ci_ub=cu, M=r.M, method="relative_magnitude", original_estimate=r.original_estimate, original_se=r.original_se,
                                                             alpha=alpha, ci_method="C-LF", identified_set_width=ub - lb, ci_width=cu - cl, is_significant=bool(r.is_significant)))
    shows(env, "set", line(t, "Identified set:"), [lb, ub])
    shows(env, "point", line(t, "Point estimate:"), [r.original_estimate])
    shows(env, "se", line(t, "Standard error:"), [r.original_se])
    shows(env, "M", line(t, "Restriction parameter (M):"), [r.M])
    rep = repr(r)
    shows(env, "repr", rep.split("bounds=")[1], [lb, ub, cl, cu, r.M])
    env.true("repr-star", ("]*" in rep) == bool(r.is_significant))


def honest_undefined(env):
    """an undefined interval excludes nothing"""
    n = float("nan")
    k = dict(lb=env.var("lb"), ub=env.var("ub"), M=1.0, method="smoothness", original_estimate=env.var("oe"), original_se=n)
    for nm, a, b in (("both", n, n), ("infinite", -math.inf, math.inf)):
        r = env.mod("honest_did").HonestDiDResults(ci_lb=a, ci_ub=b, **k)
        env.true(nm, not r.is_significant)
        env.true(nm + "-stars", r.significance_stars == "")
        env.true(nm + "-repr", "]*" not in repr(r))
    s = env.mod("honest_did").SensitivityResults(M_values=env.np.array([0.0]), bounds=[(n, n)], robust_cis=[(n, n)], breakdown_M=None, method="smoothness", original_estimate=n, original_se=n)
    env.true("grid", not bool(s.to_dataframe()["is_significant"].iloc[0]))


def sensitivity(env):
    ms = [0.0, 0.5, 1.5]
    b = [(env.var("b%d" % i), env.var("B%d" % i)) for i in range(3)]
    c = [(env.var("c%d" % i, -5, 5), env.var("C%d" % i, -5, 5)) for i in range(3)]
    for x, y in c:
        env.assume(x < y)
    H = env.mod("honest_did")
    bm = env.var("bm", 0, 2)
    r = H.SensitivityResults(M_values=env.np.array(ms), bounds=b, robust_cis=c, breakdown_M=bm, method="relative_magnitude", original_estimate=env.var("oe"), original_se=env.var("os", 0.1, 2))
    df = r.to_dataframe()
    env.true("rows", len(df) == 3 and [float(x) for x in df["M"]] == ms)
    for i in range(3):
        env.eq("lb%d" % i, df["lb"].iloc[i], b[i][0])
        env.eq("ub%d" % i, df["ub"].iloc[i], b[i][1])
        env.eq("ci_lb%d" % i, df["ci_lb"].iloc[i], c[i][0])
        env.eq("ci_ub%d" % i, df["ci_ub"].iloc[i], c[i][1])
        env.iff("flag%d" % i, bool(df["is_significant"].iloc[i]), env.any_of(c[i][0] > 0, c[i][1] < 0))
    t = r.summary()
    for i, m in enumerate(ms):
        shows(env, "row%d" % i, line(t, "%.4f" % m), [b[i][0], b[i][1], c[i][0], c[i][1]])
    shows(env, "breakdown", line(t, "Breakdown value:"), [bm])
    shows(env, "original", line(t, "Original estimate:"), [r.original_estimate])
    shows(env, "original-se", line(t, "Original SE:"), [r.original_se])
    env.true("has", r.has_breakdown)
    for nm, v in (("zero", 0.0), ("some", 0.5), ("sym", bm)):
        q = H.SensitivityResults(M_values=env.np.array(ms), bounds=b, robust_cis=c, breakdown_M=v, method="x", original_estimate=0.1, original_se=0.2)
        env.true("repr-given-" + nm, "breakdown_M=None" not in repr(q))
        shows(env, "repr-" + nm, repr(q).split("breakdown_M=")[1], [v])
        env.true("has-" + nm, q.has_breakdown)
    q = H.SensitivityResults(M_values=env.np.array(ms), bounds=b, robust_cis=c, breakdown_M=None, method="x", original_estimate=0.1, original_se=0.2)
    env.true("none", not q.has_breakdown and "breakdown_M=None" in repr(q) and "None" in line(q.summary(), "Breakdown value:"))


def pretrends(env):
    P = env.mod("pretrends")
    pw, tp, mdv, M = env.var("pw", 0, 1), env.var("tp", 0.5, 0.95), env.var("mdv", 0, 5), env.var("M", 0, 5)
    ses = env.np.array([env.var("s0", 0.1, 2), env.var("s1", 0.1, 2)])
    r = P.PreTrendsPowerResults(power=pw, mdv=mdv, violation_magnitude=M, violation_type="constant", alpha=0.07, target_power=tp, n_pre_periods=2, test_statistic=env.var("ts", 0, 9),
                                critical_value=env.var("cv", 1, 9), noncentrality=env.var("nc", 0, 9), pre_period_effects=env.np.array([0.1, 0.2]), pre_period_ses=ses, vcov=env.np.eye(2))
    env.iff("adequate", r.power_adequate, pw >= tp)
    env.iff("informative", r.is_informative, env.any_of(mdv < 2 * ses[0], mdv < 2 * ses[1]))
    exported(env, "dict", r.to_dict(), r.to_dataframe(), dict(power=pw, mdv=mdv, violation_magnitude=M, violation_type="constant", alpha=0.07, target_power=tp, n_pre_periods=2,
                                                             test_statistic=r.test_statistic, critical_value=r.critical_value, noncentrality=r.noncentrality,
                                                             is_informative=bool(r.is_informative), power_adequate=bool(r.power_adequate)))
    t = r.summary()
    for h, w in (("Significance level (alpha):", 0.07), ("Target power:", 100 * tp), ("Violation magnitude (M):", M), ("Power to detect this violation:", 100 * pw), ("Minimum detectable violation:", mdv),
                 ("Test statistic (expected):", r.test_statistic), ("Critical value:", r.critical_value), ("Non-centrality parameter:", r.noncentrality), ("Number of pre-periods:", 2)):
        shows(env, h, line(t, h), [w])
    env.iff("text-meets", "meets target" in t, pw >= tp)
    env.true("one-verdict", ("meets target" in t) != ("below target" in t))
    c = P.PreTrendsPowerCurve(M_values=env.np.array([0.0, 1.0]), powers=env.np.array([env.var("p0", 0, 1), pw]), mdv=mdv, alpha=0.05, target_power=0.8, violation_type="linear")
    df = c.to_dataframe()
    env.true("curve-M", [float(x) for x in df["M"]] == [0.0, 1.0])
    env.eqs("curve", df["power"], c.powers)


def power(env):
    P = env.mod("power")
    k = dict(power=env.var("pw", 0, 1), mde=env.var("mde", 0, 5), required_n=37, effect_size=env.var("es", -3, 3), alpha=env.var("al", 0.01, 0.2), alternative="two-sided", n_treated=11, n_control=13,
             n_pre=2, n_post=3, sigma=env.var("sg", 0.1, 3), rho=env.var("rho", 0, 0.9), design="panel")
    r = P.PowerResults(**k)
    exported(env, "dict", r.to_dict(), r.to_dataframe(), k)
    t = r.summary()
    for h, w in (("Significance level (alpha):", k["alpha"]), ("Treated units:", 11), ("Control units:", 13), ("Total units:", 24), ("Pre-treatment periods:", 2), ("Post-treatment periods:", 3),
                 ("Residual SD (sigma):", k["sigma"]), ("Intra-cluster correlation:", k["rho"]), ("Effect size:", k["effect_size"]), ("Power:", 100 * k["power"]),
                 ("Minimum detectable effect:", k["mde"]), ("Required sample size:", 37)):
        shows(env, h, line(t, h), [w])
    n = {x: env.var(x, 0, 1) for x in ("power", "power_se", "rejection_rate", "mean_estimate", "std_estimate", "mean_se", "coverage", "true_effect")}
    lo, hi = env.var("lo", 0, 1), env.var("hi", 0, 1)
    k = dict(n)
    k.update(power_ci=(lo, hi), n_simulations=50, effect_sizes=[0.5, 1.0], powers=[env.var("p0", 0, 1), env.var("p1", 0, 1)], alpha=0.03, estimator_name="X")
    r = P.SimulationPowerResults(**k)
    want = {x: v for x, v in k.items() if x not in ("power_ci", "effect_sizes", "powers")}
    want.update(power_ci_lower=lo, power_ci_upper=hi)
    exported(env, "sim", r.to_dict(), r.to_dataframe(), want)
    t = r.summary()
    env.eq("bias", r.bias, n["mean_estimate"] - n["true_effect"])
    env.eq("rmse", r.rmse * r.rmse, (n["mean_estimate"] - n["true_effect"]) ** 2 + n["std_estimate"] ** 2)
    for h, w in (("Number of simulations:", [50]), ("True treatment effect:", [n["true_effect"]]), ("Power (rejection rate):", [100 * n["power"]]), ("Standard error:", [n["power_se"]]), ("95% CI:", [lo, hi]),
                 ("Mean estimate:", [n["mean_estimate"]]), ("Bias:", [r.bias]), ("Std. deviation of estimates:", [n["std_estimate"]]), ("RMSE:", [r.rmse]), ("Mean standard error:", [n["mean_se"]]),
                 ("Coverage (CI contains true):", [100 * n["coverage"]]), ("Significance level (alpha):", [0.03])):
        shows(env, "sim-" + h, line(t, h), w)
    df = r.power_curve_df()
    env.true("curve-x", [float(x) for x in df["effect_size"]] == [0.5, 1.0])
    env.eqs("curve", df["power"], k["powers"])


def bacon(env):
    B = env.mod("bacon")
    kinds = [("treated_vs_never", 2, "never_treated"), ("treated_vs_never", 3, "never_treated"), ("earlier_vs_later", 2, 3), ("later_vs_earlier", 3, 2)]
    cs = [B.Comparison2x2(treated_group=a, control_group=b, comparison_type=k, estimate=env.var("e%d" % i), weight=env.var("w%d" % i, 0.05, 0.4), n_treated=3 + i, n_control=7 + i, time_window=(i, i + 2))
          for i, (k, a, b) in enumerate(kinds)]
    tot = {k: env.var("t" + k, 0.05, 1) for k in ("treated_vs_never", "earlier_vs_later", "later_vs_earlier")}
    avg = {k: env.var("a" + k, 0.1, 3) for k in tot}
    r = B.BaconDecompositionResults(twfe_estimate=env.var("tw"), comparisons=cs, **{"total_weight_" + k: v for k, v in tot.items()}, **{"weighted_avg_" + k: v for k, v in avg.items()},
                                    n_timing_groups=2, n_never_treated=5, timing_groups=[2, 3], n_obs=40, decomposition_error=env.var("de", 0, 1))
    table(env, "cells", r.to_dataframe(), ["treated_group", "control_group", "comparison_type", "n_treated", "n_control", "time_start", "time_end"],
          {(a, b, k, 3 + i, 7 + i, i, i + 2): {"e": cs[i].estimate, "w": cs[i].weight} for i, (k, a, b) in enumerate(kinds)}, {"estimate": lambda x: x["e"], "weight": lambda x: x["w"]})
    w, e = r.weight_by_type(), r.effect_by_type()
    env.true("kinds", sorted(w) == sorted(tot) and sorted(e) == sorted(tot))
    t = r.summary()
    for k, h in (("treated_vs_never", "Treated vs Never-treated"), ("earlier_vs_later", "Earlier vs Later treated"), ("later_vs_earlier", "Later vs Earlier (forbidden)")):
        env.eq("w-" + k, w[k], tot[k])
        env.eq("e-" + k, e[k], avg[k])
        shows(env, "row-" + k, line(t, h), [tot[k], avg[k], tot[k] * avg[k]])
    shows(env, "twfe", line(t, "TWFE Estimate:"), [r.twfe_estimate])
    s = env.value(sum(c.weight * c.estimate for c in cs))
    shows(env, "sum", line(t, "Weighted Sum of 2x2 Estimates:"), [s])
    shows(env, "total", line(t, "Total  "), [env.value(sum(c.weight for c in cs)), s])
    shows(env, "error", line(t, "Decomposition Error:"), [r.decomposition_error])
    for h, x in (("Total observations:", 40), ("Treatment timing groups:", 2), ("Never-treated units:", 5), ("Total 2x2 comparisons:", 4)):
        shows(env, h, line(t, h), [x])
    shows(env, "repr", repr(cs[0]).split("\u03b2=")[1], [cs[0].estimate, cs[0].weight])


def placebo(env):
    P = env.mod("diagnostics").PlaceboTestResults
    v = five(env, "r")
    loo = {"u": env.var("l0"), "v": env.var("l1"), "w": env.var("l2")}
    for alpha in ALPHAS:
        for sig in (True, False):
            k = dict(test_type="permutation", placebo_effect=v["effect"], se=v["se"], t_stat=v["t_stat"], p_value=v["p_value"], conf_int=v["conf_int"], n_obs=40, is_significant=sig, alpha=alpha,
                     original_effect=env.var("oe"), original_se=env.var("os", 0.1, 2), n_permutations=77, leave_one_out_effects=None if alpha != 0.2 else loo)
            r = P(**k)
            t = r.summary()
            n = "%s-%s" % (alpha, sig)
            level(env, "ci-" + n, t, alpha, v["conf_int"])
            verdict = [l for l in t.splitlines() if "placebo effect detected" in l]
            env.true("verdict-" + n, len(verdict) == 1 and verdict[0].strip().startswith("WARNING") == sig)
            got = env.numbers(verdict[0].replace(")", " ").rstrip(". ")) if verdict else []
            env.true("threshold-" + n, len(got) == 1 and abs(float(got[0][0]) - alpha) < 1e-9)
    for h, w in (("Placebo effect:", v["effect"]), ("Standard error:", v["se"]), ("T-statistic:", v["t_stat"]), ("P-value:", v["p_value"]), ("Observations:", 40), ("Original ATT:", k["original_effect"]),
                 ("Original SE:", k["original_se"]), ("Number of permutations:", 77), ("Units analyzed:", 3)):
        shows(env, h, line(t, h), [w])
    m = env.value(sum(loo.values())) / 3.0
    shows(env, "loo-mean", line(t, "Mean effect:"), [m])
    lo, hi = env.numbers(line(t, "Min effect:")), env.numbers(line(t, "Max effect:"))
    for x in loo.values():
        env.true("loo-min", lo[0][0] <= x + 6e-5)
        env.true("loo-max", x <= hi[0][0] + 6e-5)
    stars(env, "stars", r.significance_stars, v["p_value"])
    exported(env, "dict", r.to_dict(), r.to_dataframe(), dict(test_type="permutation", placebo_effect=v["effect"], se=v["se"], t_stat=v["t_stat"], p_value=v["p_value"], conf_int_lower=v["conf_int"][0],
                                                             conf_int_upper=v["conf_int"][1], n_obs=40, is_significant=False, original_effect=k["original_effect"], original_se=k["original_se"], n_permutations=77))


def wild(env):
    W = env.mod("utils").WildBootstrapResults
    se, p, t0, l, u = env.var("se", 0.1, 3), env.var("p", 0, 1), env.var("t", -5, 5), env.var("l", -5, 5), env.var("u", -5, 5)
    for alpha in ALPHAS:
        r = W(se=se, p_value=p, t_stat_original=t0, ci_lower=l, ci_upper=u, n_clusters=6, n_bootstrap=99, weight_type="webb", alpha=alpha)
        t = r.summary()
        level(env, "ci-%s" % alpha, t, alpha, (l, u))
    for h, w in (("Bootstrap SE:", se), ("Bootstrap p-value:", p), ("Original t-stat:", t0), ("Number of clusters:", 6), ("Bootstrap reps:", 99)):
        shows(env, h, line(t, h), [w])


def undefined(env):
    """undefined p-values are never significant and carry no star; exports keep them undefined"""
    n = float("nan")
    for kind in ("did", "ddd", "sdid", "trop"):
        r = single(kind)(env, 0.05)[0]
        r.p_value = r.se = r.t_stat = n
        env.true(kind + "-flag", not r.is_significant and r.significance_stars == "")
        for k in ("p_value", "se", "t_stat"):
            env.isnan("%s-%s" % (kind, k), r.to_dict()[k])
        row = line(r.summary(), "ATT").split()
        env.true(kind + "-row", row[1:4] == ["nan"] * 3 and len(row) == 4)
    S = env.mod("staggered_results").GroupTimeEffect(group=1, time=2, effect=env.var("x"), se=n, t_stat=n, p_value=n, conf_int=(n, n), n_treated=1, n_control=1)
    env.true("cell", not S.is_significant and S.significance_stars == "")
    P = env.mod("results").PeriodEffect(period=1, effect=env.var("x"), se=n, t_stat=n, p_value=n, conf_int=(n, n))
    env.true("period", not P.is_significant and P.significance_stars == "")


UNDEF = ({"t_stat", "p_value", "conf_int"}, {"se", "t_stat", "p_value", "conf_int"}, {"p_value"}, {"conf_int"}, {"effect", "se", "t_stat", "p_value", "conf_int"})


def blank(d, what):
    n = float("nan")
    for k in what:
        d[k] = (n, n) if k == "conf_int" else n
    return d


def undefined_cells(what):
    """an undefined entry of one cell stays undefined in every export of it; the other cells keep their numbers"""
    def fn(env):
        n = float("nan")
        # period tables
        r, v, per = multi(env)
        blank(per[3], what)
        e = r.period_effects[3]
        for k in what:
            setattr(e, k, (n, n) if k == "conf_int" else n)
        df = r.to_dataframe()
        table(env, "periods", df, ["period"], {(t,): e for t, e in per.items()}, CI)
        d = r.to_dict()
        for k, q in (("effect", "effect"), ("se", "se"), ("pval", "p_value")):
            if q in what:
                env.isnan("dict-" + k, d["%s_period_3" % k])
            env.eq("dict4-" + k, d["%s_period_4" % k], per[4][q])
        i = [int(x) for x in df["period"]].index(3)
        if "p_value" in what:
            env.true("flag", not bool(df["is_significant"].iloc[i]) and not e.is_significant and e.significance_stars == "")
        # staggered tables
        r, v, gt, es, gr = cs(env, quiet=False)
        for q in (gt[2, 3], es[-1], gr[3]):
            blank(q, what)
        table(env, "gt", r.to_dataframe("group_time"), ["group", "time"], gt, CI)
        table(env, "es", r.to_dataframe("event_study"), ["relative_period"], {(k,): q for k, q in es.items()}, CI)
        table(env, "group", r.to_dataframe("group"), ["group"], {(k,): q for k, q in gr.items()}, CI)
        if "p_value" in what:
            for q in list(es.values()) + list(gr.values()):
                if env.issym(q["p_value"]):
                    env.assume(q["p_value"] > 0.2)
            env.assume(v["p_value"] > 0.2)
            ev, grp = r.summary().split("Event Study")[1].split("Effects by Treatment Cohort")
            for nm, row in (("event", line(ev, "-1 ")), ("group", line(grp, "3 "))):
                row = row.split()
                env.true(nm + "-row", row[3] == "nan" and (len(row) == 4 or row[4] in ("nan",) or "=" in row[4]))
        r, v, es, co = sa(env)
        blank(es[-2], what)
        if "effect" in what:
            co[2, -2].update(effect=n, se=n)
        table(env, "sa-es", r.to_dataframe(), ["relative_period"], {(k,): q for k, q in es.items()}, CI)
        table(env, "sa-cohort", r.to_dataframe("cohort"), ["cohort", "relative_period"], co, {k: (lambda x, k=k: x[k]) for k in ("effect", "se", "weight")})
    return fn


def inference_result(env):
    """a single regression coefficient: flag at any level, documented stars, dictionary"""
    L = env.mod("linalg")
    c, se, p, lo, hi = env.var("c", -5, 5), env.var("se", 0.01, 3), env.var("p", 0, 1), env.var("lo", -9, 9), env.var("hi", -9, 9)
    al, b = env.var("al", 0.0005, 0.5), env.var("b", 0.0005, 0.5)
    r = L.InferenceResult(coefficient=c, se=se, t_stat=c / se, p_value=p, conf_int=(lo, hi), df=17, alpha=al)
    env.iff("flag", r.is_significant(), p < al, margin=p - al)
    env.iff("flag-at", r.is_significant(alpha=b), p < b, margin=p - b)
    env.iff("flag-zero", r.is_significant(alpha=0), p < 0, margin=p + 1)
    stars(env, "stars", r.significance_stars(), p)
    d = r.to_dict()
    for k, v in (("coefficient", c), ("se", se), ("t_stat", c / se), ("p_value", p), ("alpha", al)):
        env.eq("dict-" + k, d[k], v)
    env.eq("dict-lo", d["conf_int"][0], lo)
    env.eq("dict-hi", d["conf_int"][1], hi)
    env.true("dict-df", d["df"] == 17)
    n = float("nan")
    r = L.InferenceResult(coefficient=n, se=n, t_stat=n, p_value=n, conf_int=(n, n))
    env.true("undefined", not r.is_significant() and not r.is_significant(0.99) and r.significance_stars() == "")


# ------------------------------------------------------------------ fitted estimators hand out the same text and numbers
def fitted(rig, ctor):
    def fn(env):
        seeded(env, False)
        est = rig.make(env, **ctor)
        d = rig.data(env, "A")
        r = rig.fit(env, est, d)
        f = flat(r)
        text = r.summary()
        env.true("again", r.summary() == text)
        if hasattr(est, "summary"):
            env.true("estimator-summary", est.summary() == text)
        for o in (r, est):
            if hasattr(o, "print_summary"):
                b = io.StringIO()
                with contextlib.redirect_stdout(b):
                    o.print_summary()
                env.true("printed-" + type(o).__name__, b.getvalue().rstrip("\n") == text.rstrip("\n"))
        if hasattr(r, "to_dict"):
            r.to_dict()
        if hasattr(r, "to_dataframe"):
            r.to_dataframe()
        g = flat(r)
        env.true("unchanged", sorted(f) == sorted(g))
        with contextlib.suppress(Exception):
            new = rig.make(env, **ctor)
        if hasattr(new, "summary"):
            env.raises("unfitted", RuntimeError, new.summary)
    return fn


def cases(tier):
    out = []
    for k in ("did", "ddd", "sdid", "trop"):
        out.append(Case("export-" + k, single_export(k), bounds="all stored numbers; alpha in (0.0005,0.5)"))
        out.append(Case("text-" + k, single_text(k), bounds="all stored numbers; alpha in %s" % (ALPHAS,)))
        out.append(Case("relabel-" + k, relabel(lambda env, k=k: single(k)(env, 0.05)[0], lambda r: r.conf_int, k), bounds="fitted at 0.05, printed at 0.1"))
    out += [Case("export-multi", multi_export), Case("table-multi", multi_table), Case("text-multi", multi_text), Case("stars-multi", multi_period_stars),
            Case("relabel-multi", relabel(lambda env: multi(env)[0], lambda r: r.avg_conf_int, "multi")),
            Case("export-cs", cs_export), Case("text-cs", cs_text), Case("stars-cs", cs_stars), Case("relabel-cs", relabel(lambda env: cs(env)[0], lambda r: r.overall_conf_int, "cs")),
            Case("export-sa", sa_export), Case("text-sa", sa_text), Case("relabel-sa", relabel(lambda env: sa(env)[0], lambda r: r.overall_conf_int, "sa")),
            Case("cell-effect", group_time), Case("coefficient", inference_result), Case("honest", honest), Case("honest-undefined", honest_undefined), Case("sensitivity", sensitivity), Case("pretrends", pretrends), Case("power", power),
            Case("bacon", bacon), Case("placebo", placebo), Case("wild", wild), Case("undefined", undefined)]
    out += [Case("undefined-cells-%d" % i, undefined_cells(w), bounds="undefined: %s" % sorted(w)) for i, w in enumerate(UNDEF)]
    L = {"lazy": True}
    rigs = [("did", Did(), {}), ("twfe", Twfe(), {}), ("multi", Multi(), {}), ("sdid", Sdid(), {"variance_method": "placebo"}), ("cs", Cs(), {}), ("sa", Sa(), {}), ("ddd", Ddd(), {}),
            ("trop", Trop(), {}), ("bacon", Bacon(), {}), ("honest", Honest(), {}), ("pre", Pre(), {})]
    for nm, rig, ctor in rigs:
        rig.free = ()
        out.append(Case("fitted-" + nm, fitted(rig, ctor), opts=L, bounds="one fit"))
    return out
