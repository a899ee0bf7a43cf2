"""C25: every plotting function draws on a recording canvas.  The canvas keeps what a reader sees (points, vertical
intervals, curves, lines, bands, bars, texts at coordinates), whatever artists produced it; it is compared with the
results object, whose numbers are solver variables."""
import math
from symx.harness import Case
from .common import zcrit
from .c24 import cs, five, multi, sa


# ------------------------------------------------------------------ canvas
def lst(x):
    if hasattr(x, "tolist"):
        x = x.tolist()
    if isinstance(x, (list, tuple, range)):
        return list(x)
    return None


class Anything:
    def __getattr__(self, k):
        return lambda *a, **k: Anything()


class Bar:
    def __init__(self, i, h):
        self.i, self.h = i, h

    def get_height(self):
        return self.h

    def get_x(self):
        return self.i - 0.4

    def get_width(self):
        return 0.8


class Canvas:
    quiet = ("set_", "get_", "grid", "legend", "tick_params", "margins", "yaxis", "xaxis", "transAxes", "transData", "spines", "figure", "autoscale", "relim", "invert", "add_artist", "title", "name")

    def __init__(self):
        self.pts, self.ivs, self.curves, self.v, self.h, self.bands, self.spans, self.bars, self.texts = [], [], [], [], [], [], [], [], []
        self.ticks, self.labels, self.bad, self.odd, self.ylim, self.calls = None, None, [], [], None, 0

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        if not k.startswith(Canvas.quiet):
            self.odd.append(k)
        if k in ("yaxis", "xaxis", "figure", "transAxes", "transData", "spines"):
            return Anything()
        return lambda *a, **kw: Anything()

    def plot(self, x, y, fmt=None, **k):
        xs, ys = lst(x), lst(y)
        if xs is None:
            xs, ys = [x], [y if ys is None else ys[0]]
        k["fmt"] = fmt
        if len(xs) != len(ys):
            self.bad.append("x and y of different length")
        mark = k.get("marker") not in (None, "None", "none", "") or (fmt and any(c in "o.sDx^*" for c in fmt))
        line = len(xs) > 1 and str(k.get("linestyle", k.get("ls", "-"))).lower() not in ("none", "")
        if mark:
            self.pts += [(a, b, k) for a, b in zip(xs, ys)]
        if line or not mark:
            self.curves.append((xs, ys, k))
        return [Anything()]

    def scatter(self, x, y, *a, **k):
        xs, ys = lst(x), lst(y)
        if xs is None:
            xs, ys = [x], [y]
        if len(xs) != len(ys):
            self.bad.append("x and y of different length")
        self.pts += [(a, b, k) for a, b in zip(xs, ys)]

    def errorbar(self, x, y, yerr=None, xerr=None, fmt="", **k):
        k["fmt"] = fmt
        xs, ys = lst(x), lst(y)
        if xs is None:
            xs, ys = [x], [y]
        if k.get("fmt", "") not in ("none", "None"):
            if k.get("marker") or k.get("fmt"):
                self.pts += [(a, b, k) for a, b in zip(xs, ys)]
            if not k.get("fmt") and len(xs) > 1:
                self.curves.append((xs, ys, k))
        if yerr is None:
            return
        n = lst(yerr)
        if n is None:
            lo = hi = [yerr] * len(xs)
        elif len(n) == 2 and lst(n[0]) is not None:
            lo, hi = lst(n[0]), lst(n[1])
        else:
            lo = hi = n
        if not (len(lo) == len(hi) == len(xs) == len(ys)):
            self.bad.append("errors of another length")
        for a, b, c, d in zip(xs, ys, lo, hi):
            self.ivs.append((a, b - c, b + d, k, (c, d)))

    def vlines(self, x, ymin, ymax, **k):
        lo, hi = ymin, ymax
        xs = lst(x) or [x]
        los, his = lst(lo) or [lo] * len(xs), lst(hi) or [hi] * len(xs)
        self.ivs += [(a, b, c, k, (c - b,)) for a, b, c in zip(xs, los, his)]

    def axvline(self, x=0, *a, **k):
        self.v.append((x, k))

    def axhline(self, y=0, *a, **k):
        self.h.append((y, k))

    def axvspan(self, xmin, xmax, ymin=0, ymax=1, **k):
        self.spans.append((xmin, xmax, k))

    def fill_between(self, x, y1, y2=0, **k):
        self.bands.append((lst(x), lst(y1), lst(y2), k))

    def bar(self, x, height, width=0.8, bottom=None, **k):
        labels, hs = lst(x), lst(height)
        self.bars += list(zip(labels, hs))
        return [Bar(i, h) for i, h in enumerate(hs)]

    def annotate(self, text, xy=None, *a, **k):
        self.texts.append((text, xy))

    def text(self, x, y, s, *a, **k):
        self.texts.append((s, (x, y)))

    def set_xticks(self, ticks, labels=None, **k):
        self.ticks = lst(ticks)
        if labels is not None:
            self.labels = lst(labels)

    def set_xticklabels(self, labels, **k):
        self.labels = lst(labels)

    def set_ylim(self, *a, **k):
        self.ylim = a

    def get_figure(self, *a, **k):
        return Anything()


def drawn(env, tag, f, *a, **k):
    """the picture, or None when it was made with artists the canvas does not model"""
    c = Canvas()
    r = f(*a, ax=c, **k)
    env.true(tag + "-axes", r is c)
    if c.odd:
        env.note("artists not modelled: %s" % sorted(set(c.odd)))
        return None
    env.true(tag + "-wellformed", not c.bad)
    for i, v in enumerate(c.ivs):
        for e in v[4]:
            if not env.nanval(e):
                env.le("%s-drawable%d" % (tag, i), 0.0, e)
    return c


def has_h(env, tag, c, y):
    env.true(tag, any(same_num(env, v, y) for v, _ in c.h))


def same_num(env, a, b):
    """syntactic or numeric equality, no branching"""
    if a is b:
        return True
    try:
        if env.issym(a) or env.issym(b):
            return False
        return abs(float(a) - float(b)) <= 1e-12
    except (TypeError, ValueError):
        return False


def labelled(items, word):
    return [it for it in items if str(it[-1].get("label") or "").startswith(word)]


def points_at(env, tag, c, want):
    """want: x -> (y, ...) exactly one point per x, none elsewhere"""
    env.true(tag + "-n", len(c.pts) == len(want))
    got = {}
    for x, y, k in c.pts:
        got.setdefault(float(x), []).append((y, k))
    env.true(tag + "-where", sorted(got) == sorted(float(x) for x in want))
    for x, y in want.items():
        for g, _ in got.get(float(x), [])[:1]:
            env.eq("%s-y%s" % (tag, x), g, y)


def intervals_at(env, tag, ivs, want):
    ivs = [v for v in ivs if not (env.nanval(v[1]) or env.nanval(v[2]))]
    got = {}
    for v in ivs:
        got.setdefault(float(v[0]), []).append(v)
    env.true(tag + "-where", sorted(got) == sorted(float(x) for x in want) and all(len(v) == 1 for v in got.values()))
    for x, (lo, hi) in want.items():
        for v in got.get(float(x), [])[:1]:
            env.eq("%s-lo%s" % (tag, x), v[1], lo)
            env.eq("%s-hi%s" % (tag, x), v[2], hi)


# ------------------------------------------------------------------ event studies
def axis(env, tag, c, order):
    """tick label -> position; the periods stand in the requested order"""
    env.true(tag + "-ticks", c.ticks is not None and c.labels is not None and len(c.ticks) == len(c.labels))
    if c.ticks is None or c.labels is None:
        return {}
    t = [float(x) for x in c.ticks]
    env.true(tag + "-order", list(c.labels) == [str(p) for p in order] and all(a < b for a, b in zip(t, t[1:])))
    return dict(zip(c.labels, t))


def study(env, tag, c, cells, order, ref=None, pre=None, alpha=0.05, zero=True, refline=True):
    """cells: period -> (effect, se); undefined effects absent"""
    if c is None:
        return
    order = [p for p in order if not env.nanval(cells[p][0])]
    pos = axis(env, tag, c, order)
    if sorted(pos) != sorted(str(p) for p in order):
        return
    z = zcrit(alpha)
    points_at(env, tag, c, {pos[str(p)]: cells[p][0] for p in order})
    intervals_at(env, tag + "-ci", c.ivs, {pos[str(p)]: (cells[p][0] - z * cells[p][1], cells[p][0] + z * cells[p][1]) for p in order if not env.nanval(cells[p][1])})
    hollow = sorted(float(x) for x, y, k in c.pts if k.get("markerfacecolor", k.get("mfc")) in ("white", "none", "w"))
    env.true(tag + "-hollow", hollow == ([pos[str(ref)]] if ref in order else []))
    env.true(tag + "-zero", any(same_num(env, y, 0) for y, _ in c.h) == zero)
    env.true(tag + "-reference-line", [float(x) for x, _ in c.v] == ([pos[str(ref)]] if ref in order and refline else []))
    shaded = [p for p in order if any(a <= pos[str(p)] <= b for a, b, _ in c.spans)]
    env.true(tag + "-shade", shaded == [p for p in order if p in (pre or [])])


def shift(env, cells, ref):
    """normalised at ref"""
    b = cells[ref][0]
    return {p: (e - b, float("nan") if p == ref else s) for p, (e, s) in cells.items()}


def es_multi(env):
    f = env.dd.plot_event_study
    r, v, per = multi(env)
    cells = {t: (d["effect"], d["se"]) for t, d in per.items()}
    for al in (0.05, 0.2):
        study(env, "plain%s" % al, drawn(env, "plain%s" % al, f, r, alpha=al, show=False), cells, [3, 4], alpha=al)
    study(env, "ref", drawn(env, "ref", f, r, reference_period=3, show=False), shift(env, cells, 3), [3, 4], ref=3)
    study(env, "order", drawn(env, "order", f, r, periods=[4, 3], reference_period=4, show=False), shift(env, cells, 4), [4, 3], ref=4)
    study(env, "one", drawn(env, "one", f, r, periods=[4], show=False), cells, [4])
    study(env, "outside", drawn(env, "outside", f, r, reference_period=2, show=False), cells, [3, 4])
    study(env, "pre", drawn(env, "pre", f, r, pre_periods=[3], shade_pre=True, show_zero_line=False, show=False), cells, [3, 4], pre=[3], zero=False)
    study(env, "noshade", drawn(env, "noshade", f, r, pre_periods=[3], shade_pre=False, reference_period=3, show_reference_line=False, show=False), shift(env, cells, 3), [3, 4], ref=3, refline=False)


def es_undefined(env):
    """undefined effects are left out, undefined errors draw no bar, and normalising by an undefined reference is impossible"""
    n = float("nan")
    f = env.dd.plot_event_study
    r, v, per = multi(env)
    e = env.var("x5")
    R = env.mod("results").PeriodEffect
    r.period_effects[5] = R(period=5, effect=e, se=n, t_stat=n, p_value=n, conf_int=(n, n))
    r.period_effects[6] = R(period=6, effect=n, se=0.5, t_stat=n, p_value=n, conf_int=(n, n))
    r.post_periods = [3, 4, 5, 6]
    cells = {t: (d["effect"], d["se"]) for t, d in per.items()}
    cells[5], cells[6] = (e, n), (n, 0.5)
    study(env, "mixed", drawn(env, "mixed", f, r, show=False), cells, [3, 4, 5, 6])
    study(env, "unknown", drawn(env, "unknown", f, r, periods=[3, 9, 5], show=False), {**cells, 9: (n, n)}, [3, 9, 5])
    study(env, "ref-no-se", drawn(env, "ref-no-se", f, r, reference_period=5, show=False), shift(env, cells, 5), [3, 4, 5, 6], ref=5)
    study(env, "ref-undefined", drawn(env, "ref-undefined", f, r, reference_period=6, show=False), cells, [3, 4, 5, 6])
    for q in (5, 3, 4):
        r.period_effects[q].effect = n
    env.raises("nothing", ValueError, f, r, show=False, ax=Canvas())


def es_infinite(env):
    """an infinite standard error has no interval"""
    e = {1: env.var("a"), 2: env.var("b"), 3: env.var("c")}
    s = {1: env.var("s", 0.1, 3), 2: math.inf, 3: env.var("u", 0.1, 3)}
    c = drawn(env, "inf", env.dd.plot_event_study, effects=e, se=s, show=False)
    study(env, "inf", c, {p: (e[p], float("nan") if p == 2 else s[p]) for p in e}, [1, 2, 3])


def es_staggered(which):
    def fn(env):
        f = env.dd.plot_event_study
        if which == "cs":
            r, v, gt, es, gr = cs(env)
            order = [-1, 0, 1]
        else:
            r, v, es, co = sa(env)
            order = [-2, 0, 1]
        cells = {e: (d["effect"], d["se"]) for e, d in es.items()}
        pre = [p for p in order if p < 0]
        # without a request no effect is moved; the usual reference is only marked
        study(env, "plain", drawn(env, "plain", f, r, show=False), cells, order, ref=-1, pre=pre)
        study(env, "explicit0", drawn(env, "explicit0", f, r, reference_period=0, alpha=0.1, show=False), shift(env, cells, 0), order, ref=0, pre=pre, alpha=0.1)
        study(env, "explicit", drawn(env, "explicit", f, r, reference_period=order[0], show=False), shift(env, cells, order[0]), order, ref=order[0], pre=pre)
        study(env, "subset", drawn(env, "subset", f, r, periods=[0, 1], show=False), cells, [0, 1], ref=-1)
        es[1]["n_groups"] = 0
        es[1]["se"] = float("nan")
        cells[1] = (cells[1][0], float("nan"))
        study(env, "marked", drawn(env, "marked", f, r, show=False), cells, order, ref=1, pre=pre)
        study(env, "marked-explicit", drawn(env, "marked-explicit", f, r, reference_period=0, show=False), shift(env, cells, 0), order, ref=0, pre=pre)
        study(env, "pre-given", drawn(env, "pre-given", f, r, pre_periods=[0], show=False), cells, order, ref=1, pre=[0])
        r.event_study_effects = None
        env.raises("no-event-study", TypeError, f, r, show=False, ax=Canvas())
    return fn


def es_frame(env):
    f, n = env.dd.plot_event_study, float("nan")
    ps = [-2, -1, 0, 1]
    cells = {p: (env.var("e%d" % (p + 2)), env.var("s%d" % (p + 2), 0.1, 3)) for p in ps}
    cells[1] = (n, 0.3)
    df = env.pd.DataFrame({"period": ps, "effect": [cells[p][0] for p in ps], "se": [cells[p][1] for p in ps]})
    study(env, "plain", drawn(env, "plain", f, df, show=False), cells, ps)
    study(env, "ref", drawn(env, "ref", f, df, reference_period=-1, pre_periods=[-2, -1], show=False), shift(env, cells, -1), ps, ref=-1, pre=[-2, -1])
    rev = df.iloc[::-1]
    study(env, "as-given", drawn(env, "as-given", f, rev, show=False), cells, ps[::-1])
    study(env, "periods", drawn(env, "periods", f, df, periods=[0, -2], show=False), cells, [0, -2])
    for col in ("period", "effect", "se"):
        env.raises("missing-" + col, ValueError, f, df.drop(columns=[col]), show=False, ax=Canvas())


def es_dicts(env):
    f = env.dd.plot_event_study
    e = {p: env.var("e%d" % p) for p in (10, 2, 7)}
    s = {10: env.var("s10", 0.1, 3), 2: env.var("s2", 0.1, 3)}
    cells = {p: (e[p], s.get(p, float("nan"))) for p in e}
    study(env, "sorted", drawn(env, "sorted", f, effects=e, se=s, show=False), cells, [2, 7, 10])
    study(env, "ref", drawn(env, "ref", f, effects=e, se=s, reference_period=10, show=False), shift(env, cells, 10), [2, 7, 10], ref=10)
    study(env, "zero-key", drawn(env, "zero-key", f, effects={0: e[2], 1: e[7]}, se={0: s[2], 1: s[10]}, reference_period=0, show=False),
          shift(env, {0: (e[2], s[2]), 1: (e[7], s[10])}, 0), [0, 1], ref=0)
    names = {"pre": e[2], "post": e[7]}
    study(env, "names", drawn(env, "names", f, effects=names, se={"pre": s[2], "post": s[10]}, periods=["pre", "post"], reference_period="pre", show=False),
          shift(env, {"pre": (e[2], s[2]), "post": (e[7], s[10])}, "pre"), ["pre", "post"], ref="pre")
    env.true("untouched", sorted(e) == [2, 7, 10] and sorted(s) == [2, 10])
    env.raises("nothing", ValueError, f, show=False, ax=Canvas())
    env.raises("no-se", ValueError, f, effects=e, show=False, ax=Canvas())
    env.raises("not-dict", TypeError, f, effects=[1.0], se=[1.0], show=False, ax=Canvas())
    env.raises("not-results", TypeError, f, object(), show=False, ax=Canvas())


def groups(env):
    f = env.dd.plot_group_effects
    r, v, gt, es, gr = cs(env)
    for al, sel in ((0.05, None), (0.1, [3]), (0.05, [3, 2])):
        tag = "%s-%s" % (al, sel)
        c = drawn(env, tag, f, r, alpha=al, groups=sel, show=False)
        if c is None:
            continue
        z = zcrit(al)
        for g in (2, 3):
            mine = [p for p in c.pts if str(p[2].get("label", "")).endswith(str(g))]
            ivs = [p for p in c.ivs if str(p[3].get("label", "")).endswith(str(g))]
            shown = sel is None or g in sel
            want = {t: d for (h, t), d in gt.items() if h == g} if shown else {}
            env.true("%s-where%d" % (tag, g), sorted(float(p[0]) for p in mine) == sorted(map(float, want)))
            for x, y, k in mine:
                if int(x) in want:
                    env.eq("%s-y%d-%d" % (tag, g, x), y, want[int(x)]["effect"])
            intervals_at(env, "%s-ci%d" % (tag, g), ivs, {t: (d["effect"] - z * d["se"], d["effect"] + z * d["se"]) for t, d in want.items()})
        env.true(tag + "-all", len(c.pts) == sum(1 for (h, t) in gt if sel is None or h in sel))
        has_h(env, tag + "-zero", c, 0)
    env.raises("type", TypeError, f, object(), show=False, ax=Canvas())


# ------------------------------------------------------------------ sensitivity
def sens(env, breakdown=True):
    b = [(env.var("b%d" % i), env.var("B%d" % i)) for i in range(3)]
    ci = [(env.var("c%d" % i), env.var("C%d" % i)) for i in range(3)]
    bm = env.var("bm", 0, 2) if breakdown is True else breakdown
    r = env.mod("honest_did").SensitivityResults(M_values=env.np.array([0.0, 0.5, 1.5]), bounds=b, robust_cis=ci, breakdown_M=bm, method="relative_magnitude", original_estimate=env.var("oe"),
                                                 original_se=env.var("os", 0.1, 2))
    return r, b, ci, bm


def grid_picture(env, tag, c, b, ci, bm, est):
    if c is None:
        return
    ms = [0.0, 0.5, 1.5]
    if b is not None:
        env.true(tag + "-band", len(c.bands) == 1 and [float(x) for x in c.bands[0][0]] == ms)
        for i in range(3):
            env.eq("%s-lb%d" % (tag, i), c.bands[0][1][i], b[i][0])
            env.eq("%s-ub%d" % (tag, i), c.bands[0][2][i], b[i][1])
    else:
        env.true(tag + "-band", not c.bands)
    env.true(tag + "-curves", len(c.curves) == (2 if ci is not None else 0))
    if ci is not None and len(c.curves) == 2:
        # either curve may be the lower one; which is which is fixed by the first point
        lo, hi = c.curves
        for nm, cur, k in (("lo", lo, 0), ("hi", hi, 1)):
            env.true("%s-%s-x" % (tag, nm), [float(x) for x in cur[0]] == ms)
            for i in range(3):
                env.eq("%s-%s%d" % (tag, nm, i), cur[1][i], ci[i][k])
    env.true(tag + "-zero", any(same_num(env, y, 0) for y, _ in c.h))
    other = [y for y, _ in c.h if not same_num(env, y, 0)]
    env.true(tag + "-lines", len(other) == 1)
    if len(other) == 1:
        env.eq(tag + "-estimate", other[0], est)
    env.true(tag + "-breakdown-n", len(c.v) == (0 if bm is None else 1))
    if bm is not None and c.v:
        env.eq(tag + "-breakdown", c.v[0][0], bm)
        got = env.numbers(c.v[0][1]["label"].replace("=", " ").replace(")", " "))
        env.true(tag + "-breakdown-label", len(got) == 1)
        env.printed(tag + "-breakdown-printed", got[0], bm)


def sensitivity(env):
    f = env.dd.plot_sensitivity
    r, b, ci, bm = sens(env)
    env.assume(abs(r.original_estimate) > 0.001)
    for nm, call, kw in (("function", lambda **k: f(r, show=False, **k), "breakdown_line"), ("method", lambda **k: r.plot(**k), "breakdown_line")):
        grid_picture(env, nm, drawn(env, nm, call), b, ci, bm, r.original_estimate)
        grid_picture(env, nm + "-nobounds", drawn(env, nm + "-nobounds", call, show_bounds=False), None, ci, bm, r.original_estimate)
        grid_picture(env, nm + "-noci", drawn(env, nm + "-noci", call, show_ci=False), b, None, bm, r.original_estimate)
        grid_picture(env, nm + "-noline", drawn(env, nm + "-noline", call, **{kw: False}), b, ci, None, r.original_estimate)
    for v in (None, 0.0):
        q, b, ci, _ = sens(env, v)
        for nm, call in (("function-%s" % v, lambda **k: f(q, show=False, **k)), ("method-%s" % v, lambda **k: q.plot(**k))):
            grid_picture(env, nm, drawn(env, nm, call), b, ci, v, q.original_estimate)


def honest_cells(env, kind):
    if kind == "multi":
        r, v, per = multi(env)
        cells = {t: (d["effect"], d["se"]) for t, d in per.items()}
    elif kind == "cs":
        r, v, gt, es, gr = cs(env)
        cells = {t: (d["effect"], d["se"]) for t, d in es.items()}
    else:
        r, v, es, co = sa(env)
        cells = {t: (d["effect"], d["se"]) for t, d in es.items()}
    return r, cells


def honest_study(kind, per_period):
    def fn(env):
        f = env.dd.plot_honest_event_study
        r, cells = honest_cells(env, kind)
        order = sorted(cells)
        lo, hi = env.var("cl", -5, 5), env.var("cu", -5, 5)
        env.assume(lo < hi)
        k = {}
        bounds = {p: (lo, hi) for p in order}
        if per_period:
            bounds = {}
            for p in order:
                a, b = env.var("L%d" % (p + 3), -5, 5), env.var("U%d" % (p + 3), -5, 5)
                env.assume(a < b)
                bounds[p] = (a, b)
            k["event_study_bounds"] = {p: {"ci_lb": a, "ci_ub": b, "lb": a, "ub": b} for p, (a, b) in bounds.items()}
        M = env.var("M", 0, 3)
        for al in (0.05, 0.1):
            h = env.mod("honest_did").HonestDiDResults(lb=env.var("lb"), ub=env.var("ub"), ci_lb=lo, ci_ub=hi, M=M, method="relative_magnitude", original_estimate=env.var("oe"),
                                                       original_se=env.var("os", 0.1, 2), alpha=al, original_results=r, **k)
            for tag, kw in (("all%s" % al, {}), ("some%s" % al, dict(periods=order[::-1][:2], reference_period=order[-1]))):
                c = drawn(env, tag, f, h, show=False, **kw)
                if c is None:
                    continue
                ps = kw.get("periods", order)
                pos = axis(env, tag, c, ps if kw else (sorted(cells) if kind != "multi" else list(cells)))
                if sorted(pos) != sorted(map(str, ps)):
                    continue
                points_at(env, tag, c, {pos[str(p)]: cells[p][0] for p in ps})
                z = zcrit(al)
                std = [v for v in c.ivs if str(v[3].get("label", "")).startswith("Standard")]
                hon = [v for v in c.ivs if str(v[3].get("label", "")).startswith("Honest")]
                env.true(tag + "-kinds", len(std) + len(hon) == len(c.ivs))
                intervals_at(env, tag + "-standard", std, {pos[str(p)]: (cells[p][0] - z * cells[p][1], cells[p][0] + z * cells[p][1]) for p in ps})
                intervals_at(env, tag + "-honest", hon, {pos[str(p)]: bounds[p] for p in ps})
                got = env.numbers(hon[0][3]["label"].replace("=", " ").replace(")", " ")) if hon else []
                env.true(tag + "-M", len(got) == 1)
                if got:
                    env.printed(tag + "-M-printed", got[0], M)
                hollow = [float(x) for x, y, s in c.pts if s.get("markerfacecolor") == "white"]
                env.true(tag + "-hollow", hollow == ([pos[str(order[-1])]] if kw else []))
                has_h(env, tag + "-zero", c, 0)
        h.original_results = None
        env.raises("no-original", ValueError, f, h, show=False, ax=Canvas())
    return fn


def sens_of_fit(env):
    """the one-call sensitivity plot shows the analysis it announces"""
    H = env.mod("honest_did")
    r, v, per = multi(env)
    env.assume(r.period_effects[3].effect > 0.3)
    r.period_effects[4].effect = 0.25
    r.period_effects[3].se, r.period_effects[4].se, r.avg_se = 0.05, 0.0625, 0.25
    grid = [0.0, 0.5, 1.5]
    for method in ("smoothness", "relative_magnitude"):
        if method == "relative_magnitude":
            # its breakdown value is found by bisection: one concrete effect
            r.period_effects[3].effect = 0.5
        for al in (0.05, 0.1):
            try:
                s = H.HonestDiD(method=method, alpha=al).sensitivity_analysis(r, M_grid=grid)
            except ValueError:
                continue
            tag = "%s-%s" % (method, al)
            c = drawn(env, tag, H.sensitivity_plot, r, method=method, M_grid=grid, alpha=al)
            grid_picture(env, tag, c, s.bounds, s.robust_cis, s.breakdown_M, s.original_estimate)


# ------------------------------------------------------------------ decomposition
KINDS = ("treated_vs_never", "earlier_vs_later", "later_vs_earlier")
HEAD = {"treated_vs_never": "Treated vs Never", "earlier_vs_later": "Earlier vs Later", "later_vs_earlier": "Later vs Earlier"}


def bacon(env, missing=()):
    B = env.mod("bacon")
    kinds = [k for k in (("treated_vs_never", 2, "never_treated"), ("treated_vs_never", 3, "never_treated"), ("earlier_vs_later", 2, 3), ("later_vs_earlier", 3, 2)) if k[0] not in missing]
    cs_ = [B.Comparison2x2(treated_group=a, control_group=b, comparison_type=k, estimate=env.var("e%d" % i), weight=env.var("w%d" % i, 0.05, 0.4), n_treated=3 + i, n_control=7 + i, time_window=(i, i + 2))
           for i, (k, a, b) in enumerate(kinds)]
    tot = {k: 0.0 if k in missing else env.var("t" + k, 0.02, 1) for k in KINDS}
    avg = {k: None if k in missing else env.var("a" + k, 0.1, 3) for k in KINDS}
    r = B.BaconDecompositionResults(twfe_estimate=env.var("tw", 0.1, 3), comparisons=cs_, **{"total_weight_" + k: v for k, v in tot.items()}, **{"weighted_avg_" + k: v for k, v in avg.items()},
                                    n_timing_groups=2, n_never_treated=5, timing_groups=[2, 3], n_obs=40, decomposition_error=0.0)
    return r, cs_, tot, avg


COL = {"treated_vs_never": "green", "earlier_vs_later": "blue", "later_vs_earlier": "crimson"}


def bacon_scatter(missing):
    def fn(env):
        r, comps, tot, avg = bacon(env, missing)
        f = env.dd.plot_bacon
        for tag, kw in (("all", {}), ("nolines", dict(show_weighted_avg=False, show_twfe_line=False))):
            c = drawn(env, tag, f, r, colors=COL, show=False, **kw)
            if c is None:
                continue
            env.true(tag + "-n", len(c.pts) == len(comps))
            for k in KINDS:
                pts = [p for p in c.pts if str(p[2].get("label", "")).startswith(HEAD[k])]
                mine = [x for x in comps if x.comparison_type == k]
                env.true("%s-n-%s" % (tag, k), len(pts) == len(mine))
                env.true("%s-colour-%s" % (tag, k), all(p[2].get("c", p[2].get("color")) == COL[k] for p in pts))
                for i, (p, m) in enumerate(zip(pts, mine)):
                    env.eq("%s-x-%s%d" % (tag, k, i), p[0], m.estimate)
                    env.eq("%s-y-%s%d" % (tag, k, i), p[1], m.weight)
                lines = [v for v in c.v if v[1].get("color") == COL[k]]
                env.true("%s-avg-n-%s" % (tag, k), len(lines) == (1 if mine and not kw else 0))
                for v in lines[:1]:
                    env.eq("%s-avg-%s" % (tag, k), v[0], avg[k])
            rest = [v for v in c.v if v[1].get("color") not in COL.values()]
            zero = [v for v in rest if same_num(env, v[0], 0)]
            tw = [v for v in rest if not same_num(env, v[0], 0)]
            env.true(tag + "-zero", len(zero) == 1)
            env.true(tag + "-twfe-n", len(tw) == (0 if kw else 1))
            for v in tw[:1]:
                env.eq(tag + "-twfe", v[0], r.twfe_estimate)
                got = env.numbers(v[1]["label"])
                env.true(tag + "-twfe-label", len(got) == 1)
                env.printed(tag + "-twfe-printed", got[0], r.twfe_estimate)
        env.raises("kind", ValueError, f, r, plot_type="pie", show=False, ax=Canvas())
    return fn


def bacon_bar(missing):
    def fn(env):
        r, comps, tot, avg = bacon(env, missing)
        c = drawn(env, "bar", env.dd.plot_bacon, r, plot_type="bar", show=False)
        if c is None:
            return
        env.true("n", len(c.bars) == 3)
        for k in KINDS:
            i = [j for j, (l, _) in enumerate(c.bars) if l.startswith(HEAD[k])]
            env.true("one-" + k, len(i) == 1)
            if len(i) != 1:
                continue
            env.eq("height-" + k, c.bars[i[0]][1], tot[k])
            said = [t for t, xy in c.texts if xy is not None and same_num(env, xy[0], i[0])]
            pct = [t for t in said if t.endswith("%")]
            eff = [t for t in said if "=" in t]
            env.true("labels-" + k, len(pct) == len(eff) == (0 if k in missing else 1))
            for t in pct:
                g = env.numbers(t.replace("%", " "))
                env.true("pct-n-" + k, len(g) == 1)
                env.printed("pct-" + k, g[0], 100 * tot[k])
            for t in eff:
                g = env.numbers(t)
                env.true("eff-n-" + k, len(g) == 1)
                env.printed("eff-" + k, g[0], avg[k])
        tw = [t for t, xy in c.texts if t.startswith("TWFE")]
        env.true("twfe", len(tw) == 1)
        for t in tw:
            env.printed("twfe-printed", env.numbers(t)[0], r.twfe_estimate)
        has_h(env, "one", c, 1)
    return fn


# ------------------------------------------------------------------ power curves
def between(env, xs, ys, x):
    """value of the piecewise linear curve through the points at x; xs concrete"""
    o = sorted(range(len(xs)), key=lambda i: xs[i])
    xs, ys = [xs[i] for i in o], [ys[i] for i in o]
    for i in range(len(xs) - 1):
        if env.value(x <= xs[i + 1]):
            t = (x - xs[i]) / (xs[i + 1] - xs[i])
            return ys[i] + t * (ys[i + 1] - ys[i])


def curve(env, tag, c, xs, ys, mark, target, word, dots=True):
    if c is None:
        return
    if ys is None:
        env.true(tag + "-nocurve", not c.curves)
    else:
        env.true(tag + "-curve", len(c.curves) == 1)
        if len(c.curves) == 1:
            got = sorted(zip([float(x) for x in c.curves[0][0]], range(len(xs))), key=lambda p: p[0])
            want = sorted(zip(xs, range(len(xs))), key=lambda p: p[0])
            env.true(tag + "-x", [g[0] for g in got] == [w[0] for w in want])
            for g, w in zip(got, want):
                env.eq("%s-y%s" % (tag, w[0]), c.curves[0][1][g[1]], ys[w[1]])
    env.true(tag + "-target-n", len(c.h) == (0 if target is None else 1))
    for y, k in c.h:
        env.eq(tag + "-target", y, target)
        g = env.numbers(k["label"].replace("(", " ").replace("%", " "))
        env.true(tag + "-target-label", len(g) == 1)
        env.printed(tag + "-target-printed", g[0], 100 * target)
    env.true(tag + "-mark-n", len(c.v) == (0 if mark is None else 1))
    for x, k in c.v:
        env.eq(tag + "-mark", x, mark)
        env.true(tag + "-mark-word", k["label"].startswith(word))
        g = env.numbers(k["label"].split("=")[1])
        env.true(tag + "-mark-label", len(g) == 1)
        env.printed(tag + "-mark-printed", g[0], mark)
    if mark is None or ys is None or not dots:
        env.true(tag + "-nodot", not c.pts)
        return
    inside = env.value(mark >= min(xs)) and env.value(mark <= max(xs))
    env.true(tag + "-dot", len(c.pts) == (1 if inside else 0))
    for x, y, k in c.pts:
        env.eq(tag + "-dot-x", x, mark)
        env.eq(tag + "-dot-y", y, between(env, xs, ys, mark))


XS = ([1.0, 2.0, 4.0], [4.0, 1.0, 2.0])


def power_manual(env):
    f = env.dd.plot_power_curve
    p = [env.var("p%d" % i, 0, 1) for i in range(3)]
    m, t = env.var("m", 0.0, 5.0), env.var("t", 0.5, 0.99)
    for i, xs in enumerate(XS):
        for nm, mark in (("sym", m), ("exact", 2.0), ("none", None)):
            c = drawn(env, "%s%d" % (nm, i), f, effect_sizes=xs, powers=p, mde=mark, target_power=t, show=False)
            curve(env, "%s%d" % (nm, i), c, xs, p, mark, t, "MDE")
    c = drawn(env, "off", f, effect_sizes=XS[0], powers=p, mde=m, show_mde_line=False, show_target_line=False, show=False)
    curve(env, "off", c, XS[0], p, None, None, "MDE")
    env.raises("nothing", ValueError, f, show=False, ax=Canvas())
    env.raises("half", ValueError, f, effect_sizes=[1.0], show=False, ax=Canvas())


def power_results(env):
    f = env.dd.plot_power_curve
    p = [env.var("p%d" % i, 0, 1) for i in range(3)]
    m, te = env.var("m", 0.0, 5.0), env.var("te", 0.0, 5.0)
    for col in ("effect_size", "sample_size"):
        df = env.pd.DataFrame({col: XS[0], "power": p})
        curve(env, col, drawn(env, col, f, df, mde=m, show=False), XS[0], p, m, 0.8, "MDE")
    env.raises("columns", ValueError, f, env.pd.DataFrame({"x": XS[0], "power": p}), show=False, ax=Canvas())
    P = env.mod("power")
    k = dict(power=p[0], power_se=0.1, power_ci=(0.0, 1.0), rejection_rate=p[0], mean_estimate=0.1, std_estimate=0.2, mean_se=0.3, coverage=0.9, n_simulations=5, effect_sizes=list(XS[0]), powers=p,
             true_effect=te, alpha=0.05, estimator_name="X")
    r = P.SimulationPowerResults(**k)
    curve(env, "sim", drawn(env, "sim", f, r, show=False), XS[0], p, te, 0.8, "True effect")
    curve(env, "sim-mde", drawn(env, "sim-mde", f, r, mde=m, show=False), XS[0], p, m, 0.8, "MDE")
    r = P.PowerResults(power=0.8, mde=m, required_n=3, effect_size=1.0, alpha=0.05, alternative="two-sided", n_treated=2, n_control=2, n_pre=1, n_post=1, sigma=1.0, rho=0.0, design="did")
    env.raises("not-a-curve", ValueError, f, r, show=False, ax=Canvas())
    env.raises("type", TypeError, f, object(), show=False, ax=Canvas())


def pretrends(env):
    f = env.dd.plot_pretrends_power
    p = [env.var("p%d" % i, 0, 1) for i in range(3)]
    m, t = env.var("m", 0.0, 5.0), env.var("t", 0.5, 0.99)
    for i, xs in enumerate(XS):
        curve(env, "manual%d" % i, drawn(env, "manual%d" % i, f, M_values=xs, powers=p, mdv=m, target_power=t, show=False), xs, p, m, t, "MDV")
    curve(env, "default", drawn(env, "default", f, M_values=XS[0], powers=p, show=False), XS[0], p, None, 0.8, "MDV")
    df = env.pd.DataFrame({"M": XS[0], "power": p})
    curve(env, "frame", drawn(env, "frame", f, df, mdv=math.inf, show=False), XS[0], p, None, 0.8, "MDV")
    P = env.mod("pretrends")
    c = P.PreTrendsPowerCurve(M_values=env.np.array(XS[0]), powers=env.np.array(p), mdv=m, alpha=0.05, target_power=t, violation_type="linear")
    curve(env, "curve", drawn(env, "curve", f, c, show=False), XS[0], p, m, t, "MDV")
    curve(env, "curve-own", drawn(env, "curve-own", f, c, mdv=2.0, target_power=0.6, show=False), XS[0], p, 2.0, 0.6, "MDV")
    curve(env, "curve-off", drawn(env, "curve-off", f, c, show_mdv_line=False, show_target_line=False, show=False), XS[0], p, None, None, "MDV")
    curve(env, "method", drawn(env, "method", c.plot), XS[0], p, m, t, "MDV", dots=False)
    curve(env, "method-off", drawn(env, "method-off", c.plot, show_mdv=False, show_target=False), XS[0], p, None, None, "MDV", dots=False)
    c.mdv = math.inf
    curve(env, "method-inf", drawn(env, "method-inf", c.plot), XS[0], p, None, t, "MDV", dots=False)
    curve(env, "curve-inf", drawn(env, "curve-inf", f, c, show=False), XS[0], p, None, t, "MDV")
    r = P.PreTrendsPowerResults(power=p[0], mdv=m, violation_magnitude=1.0, violation_type="constant", alpha=0.07, target_power=t, n_pre_periods=2, test_statistic=1.0, critical_value=2.0,
                                noncentrality=1.0, pre_period_effects=env.np.array([0.1, 0.2]), pre_period_ses=env.np.array([0.1, 0.2]), vcov=env.np.eye(2))
    curve(env, "single", drawn(env, "single", f, r, show=False), None, None, m, t, "MDV")
    env.raises("nothing", ValueError, f, show=False, ax=Canvas())
    env.raises("columns", ValueError, f, env.pd.DataFrame({"M": XS[0]}), show=False, ax=Canvas())
    env.raises("type", TypeError, f, object(), show=False, ax=Canvas())


def cases(tier):
    out = [Case("event-multi", es_multi, bounds="2 periods; all effects/errors; references, orders, levels"), Case("event-undefined", es_undefined), Case("event-infinite", es_infinite),
           Case("event-cs", es_staggered("cs")), Case("event-sa", es_staggered("sa")), Case("event-frame", es_frame), Case("event-dicts", es_dicts), Case("groups", groups),
           Case("sensitivity", sensitivity), Case("sensitivity-of-fit", sens_of_fit, max_paths=150),
           Case("power-manual", power_manual, bounds="3-point curves, sorted and unsorted; all marks in (0,5)"), Case("power-results", power_results), Case("pretrends", pretrends)]
    for k in ("multi", "cs", "sa"):
        for b in (False, True):
            out.append(Case("honest-%s-%s" % (k, "own" if b else "scalar"), honest_study(k, b)))
    for nm, miss in (("all", ()), ("no-never", ("treated_vs_never",)), ("one-cohort", ("earlier_vs_later", "later_vs_earlier"))):
        out.append(Case("bacon-scatter-" + nm, bacon_scatter(miss)))
        out.append(Case("bacon-bar-" + nm, bacon_bar(miss)))
    return out
