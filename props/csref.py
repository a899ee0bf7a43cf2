"""Reference for the staggered estimators, written from the documentation: group-time
effects, influence contributions and their aggregates.  Outcomes may be symbolic."""
import numpy as rnp
from .common import *


def panel(cohorts, periods, drop=()):
    """rows (unit, time, cohort) for cohorts [(g, size)]; `drop`: {(unit, time)} missing"""
    rows, u = [], 0
    for g, size in cohorts:
        for _ in range(size):
            rows += [(u, t, g) for t in periods if (u, t) not in drop]
            u += 1
    return rows


def frame(env, rows, y, label=lambda u: u, extra=None, never=0, order=None, index=None, shift=0, names=("y", "u", "t", "g")):
    ix = list(range(len(rows))) if order is None else list(order)
    fl = never == float("inf")
    d = {names[0]: [y[i] for i in ix], names[1]: [label(rows[i][0]) for i in ix],
         names[2]: [rows[i][1] + shift for i in ix],
         names[3]: [(rows[i][2] + shift if rows[i][2] else never) * (1.0 if fl else 1) for i in ix]}
    for k, v in (extra or {}).items():
        d[k] = [v[i] for i in ix]
    df = env.pd.DataFrame(d)
    if index is not None:
        df.index = [index(i) for i in range(len(ix))]
    return df


def base_of(g, t, ant, base):
    if base == "universal" or t >= g - ant:
        return g - 1 - ant
    return t - 1


class Cells:
    """ATT(g,t) and influence contributions, no covariates"""

    def __init__(self, rows, y, control="never_treated", ant=0, base="varying"):
        Y = {}
        G = {}
        for i, (u, t, g) in enumerate(rows):
            Y[u, t] = y[i]
            G[u] = g
        self.Y, self.G, self.ant = Y, G, ant
        P = sorted({r[1] for r in rows})
        self.P = P
        self.units = sorted(G)
        self.cohorts = sorted({g for g in G.values() if g})
        self.cells = {}
        for g in self.cohorts:
            for t in P:
                b = base_of(g, t, ant, base)
                if b not in P or b == t:
                    continue
                tr = [u for u in self.units if G[u] == g and (u, t) in Y and (u, b) in Y]
                co = [u for u in self.units if (G[u] == 0 or (control == "not_yet_treated" and G[u] > t and G[u] != g))
                      and (u, t) in Y and (u, b) in Y]
                if not tr or not co:
                    continue
                dt = [Y[u, t] - Y[u, b] for u in tr]
                dc = [Y[u, t] - Y[u, b] for u in co]
                mt, mc = mean(dt), mean(dc)
                psi = {u: (d - mt) / len(tr) for u, d in zip(tr, dt)}
                psi.update({u: (mc - d) / len(co) for u, d in zip(co, dc)})
                v = (total([(d - mt) * (d - mt) for d in dt]) / (len(tr) * max(len(tr) - 1, 1))
                     + total([(d - mc) * (d - mc) for d in dc]) / (len(co) * max(len(co) - 1, 1)))
                self.cells[g, t] = dict(effect=mt - mc, nt=len(tr), nc=len(co), psi=psi, se2=v)

    def combine(self, pairs, w):
        e = total([self.cells[k]["effect"] * x for k, x in zip(pairs, w)])
        psi = {}
        for k, x in zip(pairs, w):
            for u, p in self.cells[k]["psi"].items():
                psi[u] = psi.get(u, 0.0) + p * x
        return e, psi

    def simple(self):
        pr = [k for k in self.cells if k[1] >= k[0] - self.ant]
        if not pr:
            return None
        n = [self.cells[k]["nt"] for k in pr]
        w = [x / sum(n) for x in n]
        e, psi = self.combine(pr, w)
        # estimated-weight term: derivative of sum_k pg_k ATT_k / sum_k pg_k in the cohort shares
        us = sorted(psi)
        N = len(us)
        pg = {g: sum(1 for u in self.units if self.G[u] == g) / N for g in {k[0] for k in pr}}
        S = sum(pg[k[0]] for k in pr)
        tot = {u: psi[u] for u in us}
        for u in us:
            ind = [(1.0 if self.G[u] == k[0] else 0.0) - pg[k[0]] for k in pr]
            c = [(a / S - sum(ind) * pg[k[0]] / S ** 2) / N for a, k in zip(ind, pr)]
            tot[u] = tot[u] + lin(c, [self.cells[k]["effect"] for k in pr])
        return e, psi, tot

    def event(self, balance=None):
        out = {}
        keep = None if balance is None else {k[0] for k in self.cells if k[1] - k[0] == balance}
        for e in sorted({k[1] - k[0] for k in self.cells}):
            pr = [k for k in self.cells if k[1] - k[0] == e and (keep is None or k[0] in keep)]
            if not pr:
                continue
            n = [self.cells[k]["nt"] for k in pr]
            out[e] = (pr,) + self.combine(pr, [x / sum(n) for x in n])
        return out

    def group(self):
        out = {}
        for g in self.cohorts:
            pr = [k for k in self.cells if k[0] == g and k[1] >= g - self.ant]
            if pr:
                out[g] = (pr,) + self.combine(pr, [1.0 / len(pr)] * len(pr))
        return out


def ssq(psi):
    return total([p * p for p in psi.values()])


def logit(X, D, it=50):
    """maximum-likelihood logistic regression with intercept (Newton)"""
    X = rnp.column_stack([rnp.ones(len(D)), rnp.asarray(X, float)])
    D = rnp.asarray(D, float)
    b = rnp.zeros(X.shape[1])
    for _ in range(it):
        p = 1 / (1 + rnp.exp(-X @ b))
        b = b + rnp.linalg.solve((X * (p * (1 - p))[:, None]).T @ X, X.T @ (D - p))
    return 1 / (1 + rnp.exp(-X @ b))


def spread(v, m, n):
    """variance of a mean of n values (0 for a single one)"""
    return total([(e - m) * (e - m) for e in v]) / (n * (n - 1)) if n > 1 else 0.0


class CovCells(Cells):
    """with covariates X[unit, period]: base-period covariates, comparison-group regression
    (reg), logit odds weights clipped to [0.01, 0.99] (ipw), or both (dr)"""

    def __init__(self, rows, y, X, method, control="never_treated", ant=0, base="varying", missing=None):
        super().__init__(rows, y, control, ant, base)
        self.plain = dict(self.cells)
        for (g, t), c in self.plain.items():
            b = base_of(g, t, ant, base)
            Y = self.Y
            tr = [u for u in self.units if self.G[u] == g and u in c["psi"]]
            co = [u for u in self.units if self.G[u] != g and u in c["psi"]]
            if missing and missing[1] == b and missing[0] in tr + co:
                continue                # incomplete covariates: unconditional estimate
            dt = [Y[u, t] - Y[u, b] for u in tr]
            dc = [Y[u, t] - Y[u, b] for u in co]
            nt, nc = len(tr), len(co)
            if method in ("reg", "dr"):
                beta, res = ols([[1.0] + list(X[u, b]) for u in co], dc)
                rt = [d - lin([1.0] + list(X[u, b]), beta) for u, d in zip(tr, dt)]
            if method in ("ipw", "dr"):
                p = rnp.clip(logit([X[u, b] for u in tr + co], [1] * nt + [0] * nc)[nt:], 0.01, 0.99)
                w = p / (1 - p)
            if method == "reg":
                att = mean(rt)
                se2 = spread(rt, att, nt) + total([e * e for e in res]) / (nc * (nc - 1))
                pt = [(e - att) / nt for e in rt]
                pc = [e * (-1.0 / nc) for e in res]
            elif method == "ipw":
                w = w / w.sum()
                mc, mt = lin(w, dc), mean(dt)
                att = mt - mc
                pt = [(d - mt) / nt for d in dt]
                pc = [(mc - d) * float(q) for q, d in zip(w, dc)]
                se2 = spread(dt, mt, nt) + total([q * q for q in pc])
            else:
                att = mean(rt) - lin(w / nt, res)
                pt = [(e - att) / nt for e in rt]
                pc = [e * float(-q / nt) for q, e in zip(w, res)]
                se2 = total([q * q for q in pt + pc])
            self.cells[g, t] = dict(effect=att, nt=nt, nc=nc, psi=dict(zip(tr + co, pt + pc)), se2=se2)


def covariates(R, rows, ncov=1, varying=True):
    X, first = {}, {}
    for u, t, g in rows:
        if varying or u not in first:
            first[u] = [round(R.uniform(-1, 1) + 0.2 * (g > 0), 2) for _ in range(ncov)]
        X[u, t] = list(first[u])
    return X
