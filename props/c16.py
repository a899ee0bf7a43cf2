"""C16: panel factor estimator (TROP).  Treated outcomes are always solver variables; with
unit-distance weighting or a finite nuclear-norm penalty the untreated outcomes are one
matrix per case (the code's singular-value decomposition then runs on numbers), otherwise
all outcomes are solver variables."""
import math
from symx.harness import Case
from .common import *

INF = math.inf


def panel(starts, T, miss=(), names=False, seed=0, sh=True):
    """starts: first treated period per unit (None = never); miss: (unit, period) absent"""
    R = rng(seed)
    lab = (lambda u: "s%02d" % (u * 7 % 31)) if names else (lambda u: 3 * u + 1)
    rows = [(lab(u), t, int(g is not None and t >= g), u) for u, g in enumerate(starts) for t in range(T) if (u, t) not in miss]
    if sh:
        R.shuffle(rows)
    return rows


def frame(env, rows, y, order=None, index=None, shift=0):
    o = order or list(range(len(rows)))
    d = env.pd.DataFrame({"y": [y[i] for i in o], "d": [rows[i][2] for i in o], "u": [rows[i][0] for i in o], "t": [rows[i][1] + shift for i in o]})
    if index is not None:
        d.index = index
    return d


def model(lt=0.0, lu=0.0, ln=INF, **k):
    f = lambda v: list(v) if isinstance(v, (list, tuple)) else [v]
    kw = dict(lambda_time_grid=f(lt), lambda_unit_grid=f(lu), lambda_nn_grid=f(ln), variance_method="jackknife", max_iter=26, tol=1e-30, max_loocv_samples=1, seed=1)
    kw.update(k)
    return kw


def fit(env, df, **k):
    return env.dd.TROP(**k).fit(df, outcome="y", treatment="d", unit="u", time="t")


class Panel:
    """outcome table by (unit, period); everything below is the documented estimator with the
    factor part switched off, computed by weighted least squares"""

    def __init__(self, rows, y, units=None):
        self.Y, self.D = {}, {}
        us = units if units is not None else sorted({r[0] for r in rows})
        for k, u in enumerate(us):
            for r, v in zip(rows, y):
                if r[0] == u:
                    self.Y[k, r[1]] = v
                    self.D[k, r[1]] = r[2]
        self.N, self.us = len(us), us
        self.T = sorted({r[1] for r in rows})
        self.treated = sorted(c for c in self.Y if self.D[c] == 1)

    def dist(self, i, j, t):
        s = [s for s in self.T if s != t and all((k, s) in self.Y and self.D[k, s] == 0 for k in (i, j))]
        if not s:
            return INF
        return math.sqrt(sum((self.Y[i, q] - self.Y[j, q]) ** 2 for q in s) / len(s))

    def effect(self, i, t, lt, lu, exclude=None):
        w = {}
        for j in range(self.N):
            if j == i:
                w[j] = 1.0
            elif self.D.get((j, t), 0) == 0:
                w[j] = 1.0 if lu == 0 else (0.0 if math.isinf(self.dist(i, j, t)) else math.exp(-lu * self.dist(i, j, t)))
        pos = {s: k for k, s in enumerate(self.T)}
        cells = [c for c in self.Y if self.D[c] == 0 and c[0] in w and c != exclude and w[c[0]] > 0]
        us = sorted({c[0] for c in cells})
        X = rnp.zeros((len(cells), len(us) + len(self.T)))
        sw = rnp.zeros(len(cells))
        for k, (j, s) in enumerate(cells):
            X[k, us.index(j)] = 1.0
            X[k, len(us) + pos[s]] = 1.0
            sw[k] = math.sqrt(w[j] * math.exp(-lt * abs(pos[s] - pos[t])))
        P = rnp.linalg.pinv(X * sw[:, None]) * sw[None, :]
        g = P[us.index(i)] + P[len(us) + pos[t]]
        return self.Y[i, t] - lin(g, [self.Y[c] for c in cells])

    def effects(self, lt, lu):
        return {(self.us[i], t): self.effect(i, t, lt, lu) for i, t in self.treated}

    def score(self, lt, lu):
        r = 0.0
        for (i, t) in self.Y:
            if self.D[i, t] == 0:
                e = self.effect(i, t, lt, lu, exclude=(i, t))
                r = r + e * e
        return r

    def drop(self, k):
        q = Panel.__new__(Panel)
        q.us, q.T = [u for j, u in enumerate(self.us) if j != k], self.T
        q.N = len(q.us)
        q.Y = {(j - (j > k), t): v for (j, t), v in self.Y.items() if j != k}
        q.D = {(j - (j > k), t): v for (j, t), v in self.D.items() if j != k}
        q.treated = sorted(c for c in q.Y if q.D[c] == 1)
        return q

    def joint(self, lt, lu, exclude=None, start=None):
        T = len(self.T)
        pos = {s: k for k, s in enumerate(self.T)}
        tr = sorted({i for i, t in self.treated})
        k0 = min(pos[t] for i, t in self.treated) if start is None else start
        post = T - k0
        center = T - post / 2.0
        dl = {}
        for j in range(self.N):
            if lu == 0:
                dl[j] = 1.0
                continue
            d2, n = 0.0, 0
            for s in self.T[:k0]:
                a = [self.Y[i, s] for i in tr if (i, s) in self.Y]
                if a and (j, s) in self.Y:
                    d2, n = d2 + (sum(a) / len(a) - self.Y[j, s]) ** 2, n + 1
            dl[j] = math.exp(-lu * math.sqrt(d2 / n)) if n else 0.0
        cells = [c for c in sorted(self.Y) if c != exclude]
        X = rnp.zeros((len(cells), self.N + T + 1))
        sw = rnp.zeros(len(cells))
        for k, (j, s) in enumerate(cells):
            X[k, j] = X[k, self.N + pos[s]] = 1.0
            X[k, -1] = self.D[j, s]
            sw[k] = math.sqrt(dl[j] * math.exp(-lt * abs(pos[s] - center)))
        P = rnp.linalg.pinv(X * sw[:, None]) * sw[None, :]
        ys = [self.Y[c] for c in cells]
        if exclude is None:
            return lin(P[-1], ys)
        j, s = exclude
        return self.Y[exclude] - lin(P[j] + P[self.N + pos[s]], ys)

    def joint_score(self, lt, lu):
        k0 = [k for k, s in enumerate(self.T) if any(t == s for i, t in self.treated)][0]
        r = 0.0
        for c in self.Y:
            if self.D[c] == 0:
                e = self.joint(lt, lu, exclude=c, start=k0)
                r = r + e * e
        return r


def outcomes(env, rows, seed, free):
    """free: 'all', 'post' (all outcomes of post-treatment periods) or 'treated'"""
    R = rng(seed + 31)
    first = min(r[1] for r in rows if r[2])
    return [env.var("y%d" % i, -3, 3) if free == "all" or r[2] or (free == "post" and r[1] >= first)
            else round(R.uniform(-1, 1) + 0.3 * r[3] % 1 + 0.2 * r[1], 2) for i, r in enumerate(rows)]


def conv(v):
    return 0.0 if math.isinf(v) else v


def meta(env, r, rows, starts):
    env.true("counts", r.n_obs == len(rows) and r.n_treated == len({q[0] for q in rows if q[2]}) and r.n_control == len({q[0] for q in rows}) - r.n_treated
             and r.n_treated_obs == sum(q[2] for q in rows))
    first = min(q[1] for q in rows if q[2])
    env.true("periods", r.n_pre_periods == len({q[1] for q in rows if q[1] < first}) and r.n_post_periods == len({q[1] for q in rows if q[2]}))


def twostep(starts, T, lt=0.0, lu=0.0, free="all", miss=(), names=False, seed=0, index=None, jack=True, score=False, grid=None):
    def fn(env):
        rows = panel(starts, T, miss, names, seed)
        y = outcomes(env, rows, seed, free)
        k = model(lt, lu) if grid is None else model(*grid)
        if score or grid:
            k["max_loocv_samples"] = 10000
        n = len(rows)
        r = fit(env, frame(env, rows, y, index=None if index is None else [7] * n if index == "dup" else ["r%d" % (5 * i % n) for i in range(n)]), **k)
        P = Panel(rows, y)
        l1, l2 = lt, lu
        if grid:
            l1, l2 = float(r.lambda_time), float(r.lambda_unit)
            S = {(a, b): P.score(conv(a), conv(b)) for a in grid[0] for b in grid[1]}
            # the search cycles over one parameter at a time
            env.true("selected", S[l1, l2] <= min([S[a, l2] for a in grid[0]] + [S[l1, b] for b in grid[1]]) + 1e-7)
            env.eq("loocv", r.loocv_score, S[l1, l2], tol=1e-4)
        E = P.effects(conv(l1), conv(l2))
        got = dict(r.treatment_effects)
        env.true("cells", sorted(got, key=str) == sorted(E, key=str))
        for c in E:
            env.eq("effect.%s.%s" % c, got[c], E[c], tol=1e-5)
        att = mean(list(E.values()))
        env.eq("att", r.att, att, tol=1e-5)
        meta(env, r, rows, starts)
        env.true("lambda", (r.lambda_time, r.lambda_unit, r.lambda_nn) == (l1, l2, INF))
        L = r.factor_matrix
        env.true("no-factor", all((not env.issym(v)) and float(v) == 0.0 for v in env.np.asarray(L).ravel()))
        if score:
            env.eq("loocv", r.loocv_score, P.score(conv(lt), conv(lu)), tol=1e-4)
        tr = sorted({i for i, t in P.treated})
        if jack:
            J = [mean(list(P.drop(i).effects(conv(l1), conv(l2)).values())) for i in tr] if len(tr) > 1 else []
            D = [] if r.bootstrap_distribution is None else list(r.bootstrap_distribution)
            env.eqs("jackknife", D, J, tol=1e-5)
            if J:
                m = mean(J)
                env.eq("se2", r.se * r.se, total([(v - m) * (v - m) for v in J]) * ((len(J) - 1) / len(J)), tol=1e-4)
            else:
                env.eq("se0", r.se, 0.0)
                for v in (r.t_stat, r.p_value, r.conf_int[0], r.conf_int[1]):
                    env.isnan("nan", v)
    return fn


def twostep_boot(starts, T, lt=0.0, lu=0.0, free="all", B=2, names=False, seed=0, joint=False):
    """every replicate is the estimate on the panel of the resampled units, treated and
    never-treated units drawn separately"""
    def fn(env):
        rows = panel(starts, T, (), names, seed)
        y = outcomes(env, rows, seed, free)
        made = env.fake_rng("w", seed=seed)
        r = fit(env, frame(env, rows, y), **model(lt, lu, variance_method="bootstrap", n_bootstrap=B, method="joint" if joint else "twostep", max_loocv_samples=10000 if joint else 1))
        picks = []
        for m in made:
            ch = [e for e in m.log if e[0] == "choice"]
            # draws with replacement are the resamples; the others pick validation cells
            picks += [list(p) for e, p in zip(ch, m.picks) if e[3]] if len(ch) == len(m.picks) else [list(p) for p in m.picks]
        lab = {str(q[0]): q[0] for q in rows}
        tr = sorted({q[0] for q in rows if q[2]}, key=str)
        co = sorted({q[0] for q in rows} - set(tr), key=str)
        draws = [p for p in picks]
        want, cur = [], []
        for p in draws:
            p = [lab[str(v)] for v in p]
            cur.append(p)
            if len(cur) == 2:
                a, b = cur
                if set(a) <= set(tr):
                    a, b = b, a
                env.true("strata", len(a) == len(co) and set(a) <= set(co) and len(b) == len(tr) and set(b) <= set(tr))
                want.append(a + b)
                cur = []
        # one draw list may also contain a cross-validation subsample; those are not unit labels
        env.true("replications", len(want) == B)
        P = [Panel(rows, y, units=w) for w in want]
        k0 = min(q[1] for q in rows if q[2])
        ref = [(p.joint(conv(lt), conv(lu)) if joint else mean(list(p_effects(p, conv(lt), conv(lu))))) for p in P]
        env.eqs("replicates", list(r.bootstrap_distribution), ref, tol=1e-5)
        m = mean(ref)
        env.eq("se2", r.se * r.se, total([(v - m) * (v - m) for v in ref]) / (len(ref) - 1), tol=1e-4)
    return fn


def p_effects(p, lt, lu):
    return [p.effect(i, t, lt, lu) for i, t in p.treated]


def nonint(starts, T, grids, seed=0, miss=(), names=False, maxit=25):
    """treated outcomes are arbitrary: tuning, counterfactuals, factors do not depend on them"""
    def fn(env):
        rows = panel(starts, T, miss, names, seed)
        y = outcomes(env, rows, seed, "treated")
        z = [env.var("z%d" % i, -3, 3) if r[2] else v for i, (r, v) in enumerate(zip(rows, y))]
        k = model(*grids, max_iter=maxit, tol=1e-6, max_loocv_samples=6)
        a = fit(env, frame(env, rows, y), **k)
        b = fit(env, frame(env, rows, z), **k)
        env.true("tuning", (a.lambda_time, a.lambda_unit, a.lambda_nn) == (b.lambda_time, b.lambda_unit, b.lambda_nn))
        env.eq("score", a.loocv_score, b.loocv_score)
        ea, eb = dict(a.treatment_effects), dict(b.treatment_effects)
        own = {(q[0], q[1]): (u, v) for q, u, v in zip(rows, y, z) if q[2]}
        env.true("cells", sorted(ea, key=str) == sorted(own, key=str) == sorted(eb, key=str))
        for c, (u, v) in own.items():
            env.eq("counterfactual.%s.%s" % c, u - ea[c], v - eb[c])
        for nm in ("unit_effects", "time_effects"):
            x, w = getattr(a, nm), getattr(b, nm)
            env.eqs(nm, [x[q] for q in x], [w[q] for q in x])
        env.eqs("factors", list(env.np.asarray(a.factor_matrix).ravel()), list(env.np.asarray(b.factor_matrix).ravel()))
        env.eq("att", a.att, mean(list(ea.values())))
        meta(env, a, rows, starts)
        # order of rows and their labels
        o = list(range(len(rows)))
        rng(seed + 9).shuffle(o)
        c = fit(env, frame(env, rows, y, order=o, index=[3] * len(o), shift=10), **k)
        env.eq("order", c.att, a.att)
    return fn


def joint(starts, T, lt=0.0, lu=0.0, free="all", miss=(), names=False, seed=0, score=False, grid=False, jack=True):
    def fn(env):
        rows = panel(starts, T, miss, names, seed)
        y = outcomes(env, rows, seed, free)
        P = Panel(rows, y)
        k = model(lt, lu, method="joint", max_loocv_samples=10000 if score or grid else 1)
        if grid:
            k["lambda_time_grid"], k["lambda_unit_grid"] = list(grid[0]), list(grid[1])
        r = fit(env, frame(env, rows, y), **k)
        sel = (conv(float(r.lambda_time)), conv(float(r.lambda_unit)))
        if grid:
            S = {(conv(a), conv(b)): P.joint_score(conv(a), conv(b)) for a in grid[0] for b in grid[1]}
            best = min(S.values())
            env.true("selected", S[sel] <= best + 1e-7)
            env.eq("loocv", r.loocv_score, best, tol=1e-5)
        elif score:
            env.eq("loocv", r.loocv_score, P.joint_score(*sel), tol=1e-5)
        att = P.joint(*sel)
        env.eq("att", r.att, att, tol=1e-5)
        for c, v in r.treatment_effects.items():
            env.eq("effect.%s.%s" % c, v, att, tol=1e-5)
        env.true("cells", sorted(r.treatment_effects, key=str) == sorted(((P.us[i], t) for i, t in P.treated), key=str))
        meta(env, r, rows, starts)
        if sel == (0.0, 0.0) and not miss and free == "all":
            tr = {q[0] for q in rows if q[2]}
            k0 = min(q[1] for q in rows if q[2])
            m = lambda a, b: mean([v for q, v in zip(rows, y) if (q[0] in tr) == a and (q[1] >= k0) == b])
            env.eq("twfe", r.att, m(True, True) - m(True, False) - m(False, True) + m(False, False), tol=1e-5)
        tr = sorted({i for i, t in P.treated})
        if jack and len(tr) > 1:
            k0 = [s for s in P.T].index(min(t for i, t in P.treated))
            if conv(lu) == 0 and not grid:
                J = [P.drop(i).joint(*sel) for i in tr]
                env.eqs("jackknife", list(r.bootstrap_distribution), J, tol=1e-5)
                m = mean(J)
                env.eq("se2", r.se * r.se, total([(v - m) * (v - m) for v in J]) * ((len(J) - 1) / len(J)), tol=1e-4)
    return fn


def coherent(method, alpha, var):
    """estimate, standard error, t, p and interval use one reference distribution"""
    from .inf import check_inf

    def fn(env):
        rows = panel([2, 2, None, None], 4, seed=2)
        R = rng(4)
        a, s = env.var("a", -3, 3), env.var("s", 0.05, 2)
        y = [round(R.uniform(-1, 1), 2) * s + a * q[2] for q in rows]
        env.fake_rng("w", seed=3)
        r = fit(env, frame(env, rows, y), **model(0.0, 0.0, method=method, alpha=alpha, variance_method=var, n_bootstrap=3, max_iter=26))
        check_inf(env, "trop", r.att, r.se, r.t_stat, r.p_value, r.conf_int, alpha, 3)
    return fn


def validation(T, nmiss, method="twostep", start=None):
    """every 0/1 treatment path of one unit (with absent periods) next to fixed units"""
    def fn(env):
        cs = T - 1 if start is None else start
        d = [1 if env.var("d%d" % t, 0.0, 1.0) > 0.5 else 0 for t in range(T)]
        m = [t for t in range(T) if t not in nmiss]
        rows = [("a", t, d[t], 0) for t in m] + [("b", t, 0, 1) for t in range(T)] + [("c", t, int(t >= cs), 2) for t in range(T)] + [("e", t, 0, 3) for t in range(T)]
        y = [round(rng(i).uniform(-1, 1), 2) for i in range(len(rows))]
        seq = [d[t] for t in m]
        starts = [t for t in m if d[t]]
        ok = all(x <= z for x, z in zip(seq, seq[1:]))
        first = min(starts + [cs])
        if method == "joint":
            ok = ok and (not starts or starts[0] == cs)
        run = lambda: fit(env, frame(env, rows, y), **model(0.0, 0.0, max_iter=3, method=method))
        if ok and first >= 2:
            r = run()
            env.true("accepted", r.n_treated_obs == sum(seq) + T - cs)
        else:
            env.raises("rejected", ValueError, run)
    return fn


def cases(tier):
    out = []
    L = {"lazy": True}

    def add(nm, fn, b, **o):
        out.append(Case(nm, fn, bounds=b, opts=dict(L, **o), max_paths=200 if nm.startswith("valid") else None))
    A = "all outcomes in [-3,3]"
    TR = "treated outcomes in [-3,3], one matrix of untreated outcomes"
    N = None
    add("two-block", twostep([3, 3, N, N], 5, seed=1), A)
    add("two-inf", twostep([3, N, 3, N], 5, lt=INF, lu=INF, seed=2, names=True), A)
    add("two-stag", twostep([2, N, N, 3], 4, seed=3, index="dup"), A + ", staggered")
    add("two-time", twostep([3, 3, N, N], 5, lt=0.7, seed=4, index="str"), A + ", time weights")
    add("two-miss", twostep([3, 2, N, N], 5, lt=0.3, miss=((0, 4), (2, 1), (3, 3)), seed=5), A + ", missing cells")
    add("two-single", twostep([3, N, N], 5, seed=6), A + ", one treated unit")
    add("two-unit", twostep([3, 3, N, N, N], 5, lt=0.2, lu=0.8, free="treated", seed=7, score=True), TR + ", unit and time weights")
    add("two-unit-stag", twostep([2, 3, N, N, 4], 6, lu=1.5, free="treated", seed=8, score=True, names=True), TR + ", staggered, unit weights")
    add("two-score", twostep([3, 3, N, N], 5, lt=INF, lu=INF, free="treated", seed=9, score=True), TR + ", disabled weights")
    add("two-unit-miss", twostep([3, 4, N, N, N], 6, lu=0.5, free="treated", miss=((0, 1), (2, 3), (4, 5), (1, 5)), seed=10, score=True), TR + ", missing cells")
    add("two-unit-one", twostep([3, 3, N, N, N], 5, lu=0.7, free="treated", miss=((4, 0), (4, 1)), seed=11, score=True), TR + ", one period in common")
    add("boot-two", twostep_boot([3, 3, N, N], 5, seed=1, B=3, free="treated"), TR)
    add("boot-stag", twostep_boot([2, 3, N, N, N], 5, lt=0.4, seed=2, B=3, names=True, free="treated"), TR + ", staggered")
    add("boot-unit", twostep_boot([3, 2, N, N, N, 4], 5, lu=0.8, free="treated", seed=3, B=4), TR)
    add("boot-joint", twostep_boot([3, 3, N, N, N], 5, seed=4, B=3, joint=True), A)
    add("boot-joint-w", twostep_boot([3, 3, 3, N, N], 5, lt=0.3, lu=0.5, free="treated", seed=5, B=3, joint=True, names=True), TR)
    G = [([0.0, 0.5], [0.0, 1.0], [0.1]), ([0.0], [0.0], [0.0]), ([0.3], [0.6], [0.05, 1.0, INF]), ([0.0, INF], [INF], [0.5])]
    for i, g in enumerate(G):
        add("free-%d" % i, nonint([3, 4, N, N], 6, g, seed=i), TR + ", grids %s" % (g,))
    add("free-miss", nonint([3, 4, N, N, N], 6, ([0.2], [0.4], [0.2]), seed=5, miss=((0, 4), (3, 2), (2, 5)), names=True), TR + ", missing cells")
    add("joint", joint([3, 3, N, N], 5, seed=1, score=True), A)
    add("joint-inf", joint([3, N, 3, N, N], 5, lt=INF, lu=INF, seed=2, names=True), A)
    add("joint-time", joint([2, 2, N, N], 5, lt=0.6, seed=3), A + ", time weights")
    add("joint-miss", joint([3, 3, N, N, N], 5, lt=0.2, miss=((0, 4), (2, 1), (3, 3)), seed=4), A + ", missing cells")
    add("joint-unit", joint([3, 3, N, N, N], 5, lt=0.3, lu=0.8, free="post", seed=5), "post-treatment outcomes in [-3,3], one pre-treatment matrix")
    add("joint-unit-miss", joint([3, 3, N, N, N], 6, lu=0.8, free="post", miss=((0, 1), (2, 2), (4, 4)), seed=6), "post-treatment outcomes in [-3,3], missing cells")
    for i, g in enumerate((([0.0, 0.5, 1.5], [0.0, 1.0]), ([1.0, INF, 0.3], [0.4]), ([INF, 2.0], [INF, 0.5]))):
        add("joint-grid-%d" % i, joint([4, N, N, N], 5, free="treated", seed=20 + i, grid=g), "one treated cell in [-3,3], grids %s" % (g,))
        add("two-grid-%d" % i, twostep([4, N, N, N], 5, free="treated", seed=20 + i, grid=g), "one treated cell in [-3,3], grids %s" % (g,))
    for m in ("twostep", "joint"):
        add("inf-" + m, coherent(m, 0.05, "jackknife"), "all effects and noise scales")
        add("inf-boot-" + m, coherent(m, 0.2, "bootstrap"), "all effects and noise scales")
    add("valid-5", validation(5, ()), "all 0/1 treatment paths of length 5")
    add("valid-gap", validation(6, (3, 4)), "all 0/1 treatment paths of length 6, two absent periods")
    add("valid-joint", validation(5, (3,), "joint"), "all 0/1 treatment paths of length 5, one absent period")
    for i, (T, nm, st) in enumerate(((6, (4,), 3), (6, (3,), 2), (6, (3, 4), 2), (6, (), 3))):
        add("valid-joint-%d" % i, validation(T, nm, "joint", st), "all 0/1 treatment paths of length %d, absent periods %s, common start %d" % (T, nm, st))
        add("valid-two-%d" % i, validation(T, nm, "twostep", st), "all 0/1 treatment paths of length %d, absent periods %s" % (T, nm))
    if tier == "thorough":
        for s in range(8):
            R = rng(70 + s)
            T = R.randint(5, 7)
            st = [R.choice([N, N, R.randint(2, T - 1)]) for _ in range(R.randint(4, 6))] + [N, 2 + s % 2, T - 1]
            add("T-two-%d" % s, twostep(st, T, lt=R.choice([0.0, 0.3, 1.0]), seed=s, names=s % 2 == 0), A + ", %s" % (st,))
            add("T-unit-%d" % s, twostep(st, T, lt=R.choice([0.0, 0.3]), lu=R.choice([0.4, 1.0]), free="treated", seed=s, score=True), TR + ", %s" % (st,))
            add("T-boot-%d" % s, twostep_boot(st, T, lt=R.choice([0.0, 0.3]), seed=s, B=4), A + ", %s" % (st,))
            add("T-free-%d" % s, nonint(st, T, ([0.0, R.uniform(0, 1)], [R.uniform(0, 1)], [R.uniform(0, 1), 0.0]), seed=s), TR)
            b = [R.choice([N, 3]) for _ in range(4)] + [N, N, 3, 3]
            add("T-joint-%d" % s, joint(b, T, lt=R.choice([0.0, 0.3]), seed=s, score=s % 2 == 0), A)
            add("T-jgrid-%d" % s, joint(b, T, free="post", lu=0.5, lt=0.2, seed=s), "post outcomes")
        add("T-valid-7", validation(7, (2, 5)), "all paths of length 7")
    return out
