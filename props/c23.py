"""C23: estimators are pure.  Histories of construct / set-parameter / fit calls are enumerated; the
outcomes of every data set in a history are solver variables (the last data set fully, earlier
ones where the estimator allows it).  Whole result objects are compared, field by field."""
import dataclasses
import math
import numbers
from symx.harness import Case
from .common import *
from . import c14, c15, c16, c17, c18
from .csref import panel as cs_panel, frame as cs_frame


def is_sym(x):
    return type(x).__name__ in ("Sym", "SymBool")


# ------------------------------------------------------------------ whole-object comparison
def flat(o, path="", out=None, depth=0):
    out = {} if out is None else out
    if o is None or isinstance(o, (bool, str)) or is_sym(o) or isinstance(o, numbers.Number):
        out[path] = o
    elif hasattr(o, "columns") and hasattr(o, "iloc"):
        out[path + "#cols"] = [str(c) for c in o.columns]
        out[path + "#n"] = len(o)
        for c in o.columns:
            for i in range(len(o)):
                flat(o[c].iloc[i], "%s[%s,%d]" % (path, c, i), out, depth + 1)
    elif isinstance(o, dict):
        out[path + "#keys"] = sorted(map(repr, o))
        for k in o:
            flat(o[k], "%s[%r]" % (path, k), out, depth + 1)
    elif isinstance(o, (set, frozenset)):
        out[path] = sorted(map(repr, o))
    elif hasattr(o, "tolist") and hasattr(o, "shape"):
        flat(o.tolist() if o.shape != () else o.item(), path, out, depth + 1)
    elif isinstance(o, (list, tuple)):
        out[path + "#len"] = len(o)
        for i, x in enumerate(o):
            flat(x, "%s[%d]" % (path, i), out, depth + 1)
    elif hasattr(o, "__dict__") and depth < 6:
        for k, v in sorted(vars(o).items()):
            flat(v, "%s.%s" % (path, k), out, depth + 1)
    else:
        out[path] = type(o).__name__
    return out


def agree(env, tag, a, b):
    """every stored number, label and flag of two flattened objects is the same"""
    env.true(tag + "-fields", sorted(a) == sorted(b))
    n = 0
    for k in a:
        if k not in b:
            continue
        x, y = a[k], b[k]
        if isinstance(x, (list, str)) or x is None or isinstance(x, bool) or isinstance(y, (list, str)) or y is None or isinstance(y, bool):
            if not (type(x).__name__ == "SymBool" or type(y).__name__ == "SymBool"):
                env.true(tag + k, x == y if not (isinstance(x, bool) and isinstance(y, bool)) else x is y)
                continue
        if not is_sym(x) and not is_sym(y):
            if math.isfinite(x.real) and math.isfinite(y.real) and not isinstance(x, complex) and not isinstance(y, complex):
                env.eq(tag + k, float(x), float(y))
                continue
            x, y = complex(x), complex(y)
            same = x == y or (math.isnan(x.real) and math.isnan(y.real)) or abs(x - y) <= 1e-9 * (1 + abs(x))
            env.true(tag + k, same)
            continue
        env.eq(tag + k, x, y)
        n += 1
    return n


def snap(df):
    return {"cols": [str(c) for c in df.columns], "index": list(df.index), "types": [str(df[c].dtype) for c in df.columns],
            "data": [[df[c].iloc[i] for i in range(len(df))] for c in df.columns]}


def untouched(env, tag, df, s):
    n = snap(df)
    env.true(tag + "-shape", n["cols"] == s["cols"] and n["index"] == s["index"] and n["types"] == s["types"])
    for c, a, b in zip(s["cols"], n["data"], s["data"]):
        for i, (x, y) in enumerate(zip(a, b)):
            if is_sym(x) or is_sym(y) or isinstance(x, float) and math.isfinite(x) and isinstance(y, float):
                env.eq("%s[%s,%d]" % (tag, c, i), x, y)
            else:
                env.true("%s[%s,%d]" % (tag, c, i), x == y or (x != x and y != y))


def params(env, tag, got, want):
    env.true(tag + "-names", set(got) == set(want))
    for k in want:
        x, y = got[k], want[k]
        if hasattr(x, "tolist") or hasattr(y, "tolist"):
            x, y = list(x), list(y)
        env.true("%s-%s" % (tag, k), x is y or bool(x == y))


# ------------------------------------------------------------------ rigs
def noise(tag, n, s=1.0):
    R = rng(sum(ord(c) * (i + 3) for i, c in enumerate(tag)) + 17)
    return [round(R.uniform(-s, s), 2) for _ in range(n)]


class Rig:
    fixed = {}             # constructor arguments always given
    free = ("A", "B", "C")      # data sets whose outcomes are solver variables

    def outcomes(self, env, tag, n):
        return env.vec("y" + tag, n) if tag in self.free else noise(tag, n, 2.0)

    def make(self, env, **k):
        return getattr(env.dd, self.cls)(**dict(self.fixed, **k))

    def fit(self, env, est, d):
        return est.fit(d[0], **d[1])


class Did(Rig):
    cls = "DifferenceInDifferences"

    def __init__(self, fe=None, absorb=None, cov=False, formula=False, free=("A", "B", "C")):
        self.fe, self.ab, self.cov, self.formula, self.free = fe, absorb, cov, formula, free

    def data(self, env, tag):
        nu = 4 if tag != "B" else 5
        rows = [(u, t) for u in range(nu) for t in (0, 1)]
        rng(len(tag) + ord(tag[0])).shuffle(rows)
        n = len(rows)
        y = self.outcomes(env, tag, n)
        x = noise("x" + tag, n)
        df = env.pd.DataFrame({"y": y, "tr": [int(u < 2) if tag != "C" else int(u % 2) for u, _ in rows], "po": [t for _, t in rows], "c": ["k%d" % (u % 3 if tag == "B" else u) for u, _ in rows], "x": x},
                              index=[3 * i + 1 for i in range(n)])
        kw = {"formula": "y ~ tr * po" + (" + x" if self.cov else "")} if self.formula else dict(outcome="y", treatment="tr", time="po")
        if self.cov and not self.formula:
            kw["covariates"] = ["x"]
        if self.fe:
            kw["fixed_effects"] = ["c"]
        if self.ab:
            kw["absorb"] = ["c"]
        return df, kw


class Twfe(Rig):
    cls = "TwoWayFixedEffects"

    def __init__(self, cov=False, free=("A", "B", "C")):
        self.cov, self.free = cov, free

    def data(self, env, tag):
        nu, T = (4, 2) if tag != "B" else (3, 3)
        rows = [(u, t) for u in range(nu) for t in range(T)]
        rng(2 + ord(tag[0])).shuffle(rows)
        n = len(rows)
        y = self.outcomes(env, tag, n)
        df = env.pd.DataFrame({"y": y, "tr": [int(u < 2) if tag != "C" else int(u % 2) for u, _ in rows], "po": [int(t > 0) for _, t in rows], "u": [u for u, _ in rows], "t": [t for _, t in rows],
                               "c": ["k%d" % (u % 2 if nu > 3 else u) for u, _ in rows], "x": noise("x" + tag, n)})
        kw = dict(outcome="y", treatment="tr", time="po", unit="u")
        if self.cov:
            kw["covariates"] = ["x"]
        return df, kw


class Multi(Rig):
    cls = "MultiPeriodDiD"

    def __init__(self, free=("A", "B", "C"), ref=None):
        self.free, self.ref = free, ref

    def data(self, env, tag):
        nu, P = (3, [0, 1, 2]) if tag != "B" else (3, [1, 2, 3, 5])
        rows = [(u, t) for u in range(nu) for t in P]
        rng(5 + ord(tag[0])).shuffle(rows)
        y = self.outcomes(env, tag, len(rows))
        df = env.pd.DataFrame({"y": y, "tr": [int(u < 1) if tag != "C" else int(u == 2) for u, _ in rows], "t": [t for _, t in rows], "c": [u for u, _ in rows]})
        kw = dict(outcome="y", treatment="tr", time="t", post_periods=P[-2:] if tag == "B" else P[-1:])
        if self.ref is not None:
            kw["reference_period"] = P[self.ref]
        return df, kw


class Sdid(Rig):
    """the weights' optimiser runs on numbers: pre-period outcomes are fixed, post-period ones free"""
    cls = "SyntheticDiD"
    fixed = dict(n_bootstrap=2, seed=1)

    def data(self, env, tag):
        nt, nc, P, post = (1, 3, range(1, 5), [4]) if tag != "B" else (2, 4, range(1, 6), [4, 5])
        rows = c14.panel(nt, nc, P, False, ord(tag[0]))
        v = iter(self.outcomes(env, tag, sum(1 for q in rows if q[1] in post)))
        w = iter(noise("pre" + tag, len(rows), 2.0))
        y = [next(v) if q[1] in post else next(w) for q in rows]
        return c14.frame(env, rows, y), dict(outcome="y", treatment="d", unit="u", time="t", post_periods=post)


class Cs(Rig):
    cls = "CallawaySantAnna"

    def __init__(self, cov=False, agg="all", free=("A", "B", "C")):
        self.cov, self.agg, self.free = cov, agg, free

    def data(self, env, tag):
        coh, P = ([(0, 2), (2, 2), (3, 1)], [1, 2, 3]) if tag != "B" else ([(0, 2), (3, 2), (4, 2)], [1, 2, 3, 4])
        if tag == "C":
            coh = [(2, 1), (3, 2), (0, 2)] if not self.cov else [(2, 2), (0, 2)]
        if self.cov:
            coh = [(g, n + 3) for g, n in coh[:2]]
        rows = cs_panel(coh, P)
        y = self.outcomes(env, tag, len(rows))
        ex = {"x": noise("x" + tag, len(rows))} if self.cov else None
        o = list(range(len(rows)))
        rng(9 + ord(tag[0])).shuffle(o)
        kw = dict(outcome="y", unit="u", time="t", first_treat="g")
        if self.agg:
            kw["aggregate"] = self.agg
        if self.cov:
            kw["covariates"] = ["x"]
        return cs_frame(env, rows, y, order=o, extra=ex), kw


class Sa(Rig):
    cls = "SunAbraham"

    def data(self, env, tag):
        coh, P = ([(0, 2), (2, 1), (3, 1)], [1, 2, 3]) if tag != "B" else ([(0, 2), (3, 1), (4, 1)], [1, 2, 3, 4])
        if tag == "C":
            coh = [(3, 1), (2, 1), (0, 2)]
        rows = cs_panel(coh, P)
        y = self.outcomes(env, tag, len(rows))
        o = list(range(len(rows)))
        rng(4 + ord(tag[0])).shuffle(o)
        return cs_frame(env, rows, y, order=o), dict(outcome="y", unit="u", time="t", first_treat="g")


class Ddd(Rig):
    cls = "TripleDifference"

    def __init__(self, cov=False, free=("A", "B", "C")):
        self.cov, self.free = cov, free

    def data(self, env, tag):
        rows = c15.design([2, 1, 2, 1, 1, 2, 2, 2] if tag == "A" else [1, 2, 1, 2, 2, 1, 2, 2] if tag == "C" else [1, 2, 2, 2, 1, 1, 2, 2] if not self.cov else [3, 2, 3, 2, 2, 3, 2, 3], seed=ord(tag[0]))
        n = len(rows)
        y = self.outcomes(env, tag, n)
        df = c15.frame(env, rows, y, x=[noise("x" + tag, n)], cl=["k%d" % (i % 5) for i in range(n)])
        kw = dict(outcome="y", group="g", partition="p", time="t")
        if self.cov:
            kw["covariates"] = ["x0"]
        return df, kw


class Trop(Rig):
    cls = "TROP"
    fixed = dict(lambda_time_grid=[0.0], lambda_unit_grid=[0.0], lambda_nn_grid=[math.inf], variance_method="jackknife", max_iter=26, tol=1e-30, max_loocv_samples=1, seed=1)

    def __init__(self, free=("A", "B", "C"), what="treated"):
        self.free, self.what = free, what

    def data(self, env, tag):
        st, T = ((None, None, 2), 3) if tag != "B" else ((None, None, 2, None), 4)
        if tag == "C":
            st = (None, 2, None)
        rows = c16.panel(st, T, seed=ord(tag[0]))
        base = noise("t" + tag, len(rows), 1.0)
        y = [env.var("y%s%d" % (tag, i)) if tag in self.free and (r[2] or self.what == "all") else base[i] for i, r in enumerate(rows)]
        return c16.frame(env, rows, y), dict(outcome="y", treatment="d", unit="u", time="t")


class Bacon(Rig):
    cls = "BaconDecomposition"

    def data(self, env, tag):
        coh, P = ([(0, 1), (2, 1), (3, 1)], [1, 2, 3]) if tag != "B" else ([(0, 2), (3, 1), (4, 1)], [1, 2, 3, 4])
        if tag == "C":
            coh = [(3, 1), (0, 1), (2, 1)]
        rows = cs_panel(coh, P)
        y = self.outcomes(env, tag, len(rows))
        return cs_frame(env, rows, y), dict(outcome="y", unit="u", time="t", first_treat="g")


class Honest(Rig):
    cls = "HonestDiD"

    def data(self, env, tag):
        npre, npost = (2, 2) if tag != "B" else (3, 1)
        e, s = env.vec("e" + tag, npre + npost), env.vec("s" + tag, npre + npost, 0.3, 1.5)
        es = {t - npre - 1: (e[t], s[t], 1) for t in range(npre)}
        es[-1] = (0.0, float("nan"), 0)
        es.update({t: (e[npre + t], s[npre + t], 1) for t in range(npost)})
        return c17.cs_results(env, es), {}


class Pre(Rig):
    cls = "PreTrendsPower"

    def data(self, env, tag):
        n = 2 if tag != "B" else 3
        e, s = env.vec("e" + tag, n), env.vec("s" + tag, n, 0.3, 1.5)
        es = {t - n - 1: (e[t], s[t], 1) for t in range(n)}
        es[-1] = (0.0, float("nan"), 0)
        es.update({0: (1.0, 0.3, 1), 1: (1.2, 0.4, 1)})
        return c18.sa_results(env, es), {}


# ------------------------------------------------------------------ histories
def seeded(env, concrete=False):
    """generators with equal seeds give equal (symbolic) streams"""
    from symx.harness import FakeRNG
    n = [0]

    def factory(sd=None):
        if sd is None:
            n[0] += 1
        return FakeRNG(env, "w%s_" % ("n%d" % n[0] if sd is None else sd), 3 + (sd or 0), -1.0, 1.0, concrete=concrete)
    env.set_rng(factory)


def check_frame(rig):
    return not isinstance(rig, (Honest, Pre))


def history(rig, ctor, steps, concrete=False, prep=None):
    """steps: {'param': value} sets parameters, 'A'/'B' fits that data set (a repeated name is the same
    frame object).  The last fit must give what a fresh estimator with the current parameters gives."""
    def fn(env):
        seeded(env, concrete)
        est = rig.make(env, **ctor)
        cfg = dict(ctor)
        fresh_params = None
        kept, data = [], {}
        for s in steps:
            if isinstance(s, dict):
                env.true("self", est.set_params(**s) is est)
                cfg.update(s)
                continue
            if s not in data:
                d = rig.data(env, s)
                data[s] = (d, snap(d[0]) if check_frame(rig) else flat(d[0]))
            r = rig.fit(env, est, data[s][0])
            kept.append((s, r, flat(r)))
        other = rig.make(env, **cfg)
        params(env, "params", est.get_params(), other.get_params())
        if kept:
            last = kept[-1]
            d = data[last[0]][0]
            want = flat(rig.fit(env, other, d))
            agree(env, "same", last[2], want)
            for i, (s, r, f) in enumerate(kept[:-1]):
                agree(env, "kept%d" % i, flat(r), f)
            if hasattr(est, "results_"):
                env.true("results_", est.results_ is last[1])
        for s, (d, before) in data.items():
            if check_frame(rig):
                untouched(env, "frame" + s, d[0], before)
            else:
                agree(env, "input" + s, flat(d[0]), before)
    return fn


def setters(rig, values, alias=(), fit=None, concrete=False, roundtrip=True):
    """each parameter is reported back as given, alone; set and constructed agree, also in a fit"""
    def fn(env):
        seeded(env, concrete)
        base = rig.make(env).get_params()
        for k, v in values:
            a = rig.make(env, **{k: v}).get_params()
            e = rig.make(env)
            env.true("returns-self-" + k, e.set_params(**{k: v}) is e)
            b = e.get_params()
            for nm, g in (("ctor", a), ("set", b)):
                x = g[k]
                env.true("%s-%s" % (nm, k), list(x) == list(v) if hasattr(x, "tolist") or isinstance(x, list) else x == v or x is v)
                for o in base:
                    if o == k or (k, o) in alias:
                        continue
                    x, y = g[o], base[o]
                    env.true("%s-%s-keeps-%s" % (nm, k, o), x is y or bool(x == y))
            if roundtrip:
                params(env, "clone-" + k, type(e)(**e.get_params()).get_params(), b)
        env.raises("unknown", ValueError, rig.make(env).set_params, no_such_parameter=1)
        if fit:
            d = rig.data(env, "A")
            for k, v in fit:
                one = rig.fit(env, rig.make(env, **{k: v}), d)
                two = rig.fit(env, rig.make(env).set_params(**{k: v}), d)
                agree(env, "fit-" + k, flat(one), flat(two))
    return fn


def cases(tier):
    out = []
    L = {"lazy": True}

    def H(nm, rig, ctor, steps, **k):
        o = k.pop("opts", {})
        mp = k.pop("max_paths", None)
        out.append(Case(nm, history(rig, ctor, steps, **k), opts=o, bounds="steps %s after %s(%s)" % (steps, rig.cls, ctor), **({"max_paths": mp} if mp else {})))

    def S(nm, rig, values, **k):
        o = k.pop("opts", {})
        out.append(Case(nm, setters(rig, values, **k), opts=o, bounds="parameters %s" % [a for a, _ in values]))
    wild = dict(inference="wild_bootstrap", cluster="c", n_bootstrap=4, seed=5)
    ana = dict(inference="analytical", cluster=None)
    c = Did(free=("B",))
    H("did-refit", Did(), {}, ["A", "B"])
    H("did-repeat", Did(cov=True), {"alpha": 0.1}, ["A", "A"])
    H("did-formula", Did(formula=True, cov=True), {"robust": False}, ["A", "B"])
    H("did-wild-analytical", c, wild, ["A", ana, "B"], concrete=True)
    H("did-wild-cluster", c, wild, ["A", {"inference": "analytical"}, "B"], concrete=True)
    H("did-wild-wild", Did(free=()), wild, ["A", {"n_bootstrap": 3, "bootstrap_weights": "webb"}, "B"], concrete=True)
    H("did-robust-cluster", Did(), {"robust": False}, ["A", {"cluster": "c", "robust": True}, "A", {"cluster": None, "alpha": 0.2}, "B"])
    H("did-absorb", Did(absorb=True), {}, ["A", "B"])
    H("did-absorb-cov", Did(absorb=True, cov=True), {}, ["A", "A"])
    H("did-dummies", Did(fe=True, cov=True), {"rank_deficient_action": "silent"}, ["A", "A"])
    H("twfe-refit", Twfe(), {}, ["A", {"alpha": 0.01}, "B"])
    H("twfe-cov", Twfe(cov=True), {}, ["A", "A"])
    H("twfe-wild-analytical", Twfe(free=("B",)), dict(inference="wild_bootstrap", n_bootstrap=4, seed=5), ["A", {"inference": "analytical"}, "B"], concrete=True)
    H("twfe-cluster", Twfe(), {"cluster": "c"}, ["A", {"cluster": None}, "A"])
    H("multi-refit", Multi(), {}, ["A", "B"])
    H("multi-reference", Multi(ref=0), {"robust": False}, ["A", {"robust": True, "alpha": 0.1}, "A"])
    H("multi-cluster", Multi(), {"cluster": "c"}, ["B", {"cluster": None}, "A"])
    H("sdid-refit", Sdid(), {"variance_method": "placebo"}, ["A", {"alpha": 0.2}, "B"], opts=L)
    H("sdid-methods", Sdid(), {"variance_method": "bootstrap"}, ["B", {"variance_method": "placebo", "zeta": 0.5, "lambda_reg": 0.3}, "B"], opts=L)
    H("sdid-repeat", Sdid(), {"variance_method": "bootstrap"}, ["A", "A"], opts=L)
    H("cs-refit", Cs(), {}, ["A", "B"], opts=L)
    H("cs-config", Cs(), {"control_group": "not_yet_treated", "base_period": "universal"}, ["B", {"control_group": "never_treated", "base_period": "varying", "anticipation": 1}, "B"], opts=L)
    H("cs-bootstrap", Cs(free=("B",)), {"n_bootstrap": 2, "seed": 7}, ["A", {"n_bootstrap": 0}, "B"], opts=L)
    H("cs-weights", Cs(), {"n_bootstrap": 2, "seed": 7}, [{"bootstrap_weights": "mammen"}, "A"], opts=L, concrete=True, max_paths=4)
    H("cs-weights-webb", Cs(free=()), {"n_bootstrap": 3, "seed": 7, "bootstrap_weights": "webb"}, ["A", {"bootstrap_weights": "rademacher"}, "A"], opts=L, concrete=True)
    H("cs-cov", Cs(cov=True, agg=None), {"estimation_method": "reg"}, ["A", {"estimation_method": "dr", "alpha": 0.1}, "A"], opts=L)
    H("cs-noagg", Cs(agg=None), {}, ["B", {"alpha": 0.1}, "A"], opts=L)
    H("sa-refit", Sa(), {}, ["A", {"anticipation": 1}, "B"], opts=L)
    H("sa-anticipation-back", Sa(), {"anticipation": 1}, ["B", {"anticipation": 0, "alpha": 0.1}, "A"], opts=L)
    H("sa-bootstrap", Sa(), {"n_bootstrap": 2, "seed": 3}, ["A", {"n_bootstrap": 0}, "A"], opts=L, max_paths=8)
    H("ddd-refit", Ddd(), {"estimation_method": "reg"}, ["A", {"estimation_method": "ipw"}, "B"])
    H("ddd-cluster", Ddd(), {"cluster": "c", "estimation_method": "dr"}, ["A", {"cluster": None, "robust": False}, "A"])
    H("ddd-cov", Ddd(cov=True), {"estimation_method": "dr"}, ["B", {"pscore_trim": 0.1, "estimation_method": "ipw"}, "B"], opts=L)
    H("trop-refit", Trop(), {}, ["A", {"lambda_unit_grid": [0.5]}, "B"], opts=L)
    H("trop-joint", Trop(), {"method": "joint"}, ["A", {"method": "twostep"}, "A"], opts=L)
    H("trop-twostep-joint", Trop(), {}, ["B", {"method": "joint", "lambda_time_grid": [0.3]}, "A"], opts=L)
    H("trop-bootstrap", Trop(), {"variance_method": "bootstrap", "n_bootstrap": 2}, ["A", {"variance_method": "jackknife"}, "A"], opts=L, concrete=True)
    for nm, g in (("time", dict(lambda_time_grid=[0.4])), ("unit", dict(lambda_unit_grid=[0.6])), ("both", dict(lambda_time_grid=[0.4], lambda_unit_grid=[0.6]))):
        H("trop-same-shape-" + nm, Trop(), g, ["A", "C"], opts=L)
        H("trop-same-shape-joint-" + nm, Trop(), dict(g, method="joint"), ["C", "A"], opts=L)
    H("trop-same-shape-boot", Trop(), dict(lambda_time_grid=[0.4], lambda_unit_grid=[0.6], variance_method="bootstrap", n_bootstrap=2), ["C", "A"], opts=L, concrete=True)
    H("did-same-shape", Did(), {}, ["A", "C"])
    H("did-same-shape-absorb", Did(absorb=True), {"cluster": "c"}, ["C", "A"])
    H("did-same-shape-wild", Did(free=()), wild, ["A", "C"], concrete=True)
    H("twfe-same-shape", Twfe(), {}, ["A", "C"])
    H("twfe-same-shape-wild", Twfe(free=()), dict(inference="wild_bootstrap", n_bootstrap=4, seed=5), ["C", "A"], concrete=True)
    H("multi-same-shape", Multi(), {}, ["A", "C"])
    H("sdid-same-shape", Sdid(), {"variance_method": "placebo"}, ["A", "C"], opts=L)
    H("sdid-same-shape-boot", Sdid(), {"variance_method": "bootstrap"}, ["C", "A"], opts=L)
    H("cs-same-shape", Cs(), {}, ["A", "C"], opts=L)
    H("cs-same-shape-cov", Cs(cov=True, agg=None), {}, ["A", "C"], opts=L)
    H("cs-same-shape-boot", Cs(free=()), {"n_bootstrap": 3, "seed": 7}, ["C", "A"], opts=L, concrete=True)
    H("sa-same-shape", Sa(), {}, ["A", "C"], opts=L)
    H("ddd-same-shape", Ddd(), {"estimation_method": "dr"}, ["A", "C"])
    H("ddd-same-shape-cov", Ddd(cov=True), {"estimation_method": "ipw"}, ["C", "A"], opts=L)
    H("bacon-same-shape", Bacon(), {"weights": "exact"}, ["A", "C"])
    H("honest-same-shape", Honest(), {"M": 1.0}, ["A", "C"], opts=L)
    H("pretrends-same-shape", Pre(), {}, ["A", "C"], opts=L)
    H("bacon-refit", Bacon(), {"weights": "exact"}, ["A", {"weights": "approximate"}, "B"])
    H("bacon-repeat", Bacon(), {"weights": "approximate"}, ["A", {"weights": "exact"}, "A"])
    H("honest-refit", Honest(), {}, ["A", {"M": 0.5, "alpha": 0.1}, "B"], opts=L)
    H("honest-method", Honest(), {"method": "combined", "M": 1.0}, ["A", {"method": "relative_magnitude", "M": 2.0}, "A"], opts=L)
    H("pretrends-refit", Pre(), {}, ["A", {"violation_type": "constant", "alpha": 0.1, "power": 0.9}, "B"], opts=L)
    H("pretrends-custom", Pre(), {"violation_type": "last_period"}, ["A", {"violation_type": "custom", "violation_weights": (1, 2)}, "A"], opts=L)
    # parameters
    common = [("robust", False), ("cluster", "c"), ("alpha", 0.2), ("inference", "wild_bootstrap"), ("n_bootstrap", 7), ("bootstrap_weights", "mammen"), ("seed", 4), ("rank_deficient_action", "error")]
    S("did-params", Did(), common, fit=[("robust", False), ("cluster", "c"), ("alpha", 0.2), ("rank_deficient_action", "error")])
    S("twfe-params", Twfe(), common, fit=[("cluster", "c"), ("alpha", 0.2)])
    S("multi-params", Multi(), common, fit=[("robust", False), ("cluster", "c"), ("alpha", 0.2)])
    S("sdid-params", Sdid(), [("lambda_reg", 0.4), ("zeta", 2.0), ("alpha", 0.1), ("variance_method", "placebo"), ("n_bootstrap", 3), ("seed", 9)], fit=[("lambda_reg", 0.4), ("zeta", 2.0), ("alpha", 0.1)], opts=L)
    S("cs-params", Cs(), [("control_group", "not_yet_treated"), ("anticipation", 1), ("estimation_method", "ipw"), ("alpha", 0.1), ("cluster", "u"), ("n_bootstrap", 5), ("bootstrap_weights", "webb"), ("seed", 2), ("rank_deficient_action", "error"), ("base_period", "universal")],
      alias=[("bootstrap_weights", "bootstrap_weight_type")], fit=[("control_group", "not_yet_treated"), ("anticipation", 1), ("alpha", 0.1), ("base_period", "universal")], opts=L)
    S("sa-params", Sa(), [("control_group", "not_yet_treated"), ("anticipation", 1), ("alpha", 0.1), ("cluster", "u"), ("n_bootstrap", 5), ("seed", 2), ("rank_deficient_action", "error")], fit=[("alpha", 0.1)], opts=L)
    S("ddd-params", Ddd(), [("estimation_method", "reg"), ("robust", False), ("cluster", "c"), ("alpha", 0.1), ("pscore_trim", 0.05), ("rank_deficient_action", "error")], fit=[("estimation_method", "reg"), ("robust", False), ("alpha", 0.1)])
    S("trop-params", Trop(), [("method", "joint"), ("lambda_time_grid", [0.2]), ("lambda_unit_grid", [0.1, 0.2]), ("lambda_nn_grid", [1.0]), ("max_iter", 7), ("tol", 1e-4), ("alpha", 0.1), ("variance_method", "bootstrap"), ("n_bootstrap", 3), ("max_loocv_samples", 5), ("seed", 8)],
      fit=[("method", "joint"), ("alpha", 0.1)], opts=L)
    S("bacon-params", Bacon(), [("weights", "exact")], fit=[("weights", "exact")])
    S("honest-params", Honest(), [("M", 0.25), ("alpha", 0.1), ("l_vec", [0.5, 0.5])], fit=[("M", 0.25), ("alpha", 0.1)], opts=L)
    S("pretrends-params", Pre(), [("alpha", 0.1), ("power", 0.7), ("violation_type", "constant")], fit=[("alpha", 0.1), ("violation_type", "constant")], opts=L)
    return out
