"""Shared: coherence of one reported (estimate, se, t, p, ci) tuple."""
from .common import *


def plain(x):
    return x


def check_inf(env, nm, est, se, t, p, ci, alpha, df=None, ref=True):
    """est/se finite and se>0; df: None=normal, a number=t(df), 'any' = only coherence"""
    from scipy import stats
    if se is None or env.nanval(se):
        env.isnan(nm + ".t", t)
        env.isnan(nm + ".p", p)
        return
    env.eq(nm + ".t*se", t * se, est)
    env.eq(nm + ".mid", ci[0] + ci[1], est + est)
    if df != "any":
        c = tcrit(alpha, df) if df is not None else zcrit(alpha)
        env.eq(nm + ".ci_lo", ci[0], est - se * c)
        env.eq(nm + ".ci_hi", ci[1], est + se * c)
    # margin: distance of the nearest bound from zero, and of p from alpha
    env.iff(nm + ".sig", p < alpha, env.any_of(ci[0] > 0, ci[1] < 0), margin=ci[0] * ci[1])
    env.le(nm + ".p>=0", 0.0, p)
    env.le(nm + ".p<=1", p, 1.0)


def pval(env, t, df=None):
    """two-sided p-value reference, on floats and symbols"""
    import numpy
    if env.mode == "sym":
        from symx import stubs
        D = stubs.STATS
    else:
        from scipy import stats as D
    a = abs(t)
    return D.norm.sf(a) * 2 if df is None else D.t.sf(a, df) * 2
