"""Path exploration of one Case and the SMT queries that decide its assertions."""
import json
import math
import os
import random
import subprocess
import sys
import time
import traceback
import warnings
import z3
from . import sym, nd
from .sym import Sym, SymBool, Unsupported, PathAbort, BudgetExceeded, p_eval
from .harness import Skip, sym_env

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
DEN_MIN = 1e-3


class NumWorker:
    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ)
        env.update({"PYTHONPATH": os.environ.get("SYMX_REPO", "/repo") + ":" + ROOT, "DIFF_DIFF_BACKEND": "python", "MPLBACKEND": "Agg",
                    "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1"})
        self.p = subprocess.Popen([PY, "-m", "symx.numworker"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True, env=env, cwd=ROOT)

    def run(self, prop, tier, case, values):
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.p.stdin.write(json.dumps({"prop": prop, "tier": tier, "case": case, "values": values}) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            self.p = None
            return {"checks": [], "exc": "replay process died", "tb": None, "skipped": False, "died": True}
        return json.loads(line)

    def stop(self):
        if self.p is not None:
            self.p.kill()


# ---------------------------------------------------------------- intervals
def iv_poly(p, bounds):
    lo = hi = 0.0
    for m, c in p.items():
        l, h = iv_mono(m, bounds)
        if c >= 0:
            a, b = c * l if l != -math.inf else -math.inf, c * h if h != math.inf else math.inf
        else:
            a, b = c * h if h != math.inf else -math.inf, c * l if l != -math.inf else math.inf
        lo += a
        hi += b
    return lo, hi


def iv_mono(m, bounds):
    l, h = 1.0, 1.0
    i = 0
    while i < len(m):
        v = m[i]
        k = 1
        while i + k < len(m) and m[i + k] == v:
            k += 1
        bl, bh = bounds.get(v, (None, None))
        bl = -math.inf if bl is None else bl
        bh = math.inf if bh is None else bh
        if k % 2 == 0:
            cands = [abs(bl), abs(bh)]
            pl = 0.0 if bl <= 0 <= bh else min(cands)
            ph = max(cands)
            pl, ph = pl ** k, ph ** k
        else:
            def pw(x):
                return x if math.isinf(x) else x ** k
            pl, ph = pw(bl), pw(bh)
        c = []
        for a in (l, h):
            for b in (pl, ph):
                c.append(0.0 if (a == 0 or b == 0) else a * b)
        l, h = min(c), max(c)
        i += k
    return l, h


def atom_bounds(ctx):
    b = {}
    for i in range(len(ctx.names)):
        lo, hi = ctx.bounds[i]
        k = ctx.kind[i]
        if k in ("sqrt", "abs"):
            q = ctx.square_rules.get(i)
            if q is not None:
                h = iv_poly(q, b)[1]
                hi = math.sqrt(max(h, 0.0)) if h != math.inf else None
        b[i] = (lo, hi)
    return b


# ---------------------------------------------------------------- queries
class Q:
    """solver statistics"""

    def __init__(self):
        self.n = 0
        self.t = 0.0
        self.kinds = {}

    def add(self, kind, dt):
        self.n += 1
        self.t += dt
        self.kinds[kind] = self.kinds.get(kind, 0) + 1


def lin_relax(ctx, p, bounds, tol, side, q, den=None):
    """exists an assignment with |p| > tol (* den)?  monomials abstracted by their interval"""
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", 4000)
    mv = {}

    def lin(p):
        ts = []
        for m, c in p.items():
            cv = z3.RealVal(repr(float(c)))
            if not m:
                ts.append(cv)
                continue
            if m not in mv:
                x = z3.Real("m%d" % len(mv))
                mv[m] = x
                l, h = iv_mono(m, bounds)
                if l != -math.inf:
                    s.add(x >= z3.RealVal(repr(l)))
                if h != math.inf:
                    s.add(x <= z3.RealVal(repr(h)))
            ts.append(cv * mv[m])
        return z3.Sum(ts) if ts else z3.RealVal(0)
    e = lin(p)
    T = z3.RealVal(repr(tol))
    if side == "abs":
        s.add(z3.Or(e > T, e < -T))
    else:
        s.add(e > T)
    r = s.check()
    q.add("lra", time.time() - t0)
    return str(r)


def diff_poly(a, b):
    """numerator, denominator of a-b with relative noise removed"""
    A = a if isinstance(a, Sym) else None
    B = b if isinstance(b, Sym) else None
    an, ad = (A.num, A.d) if A is not None else (sym.p_const(float(a)), sym.ONE)
    bn, bd = (B.num, B.d) if B is not None else (sym.p_const(float(b)), sym.ONE)
    if ad is sym.ONE and bd is sym.ONE:
        l, r, d = an, bn, None
    elif sym.p_key(ad) == sym.p_key(bd):
        l, r, d = an, bn, ad
    else:
        l, r, d = sym.p_mul(an, bd), sym.p_mul(bn, ad), sym.p_mul(ad, bd)
    n = sym.p_add(l, r, -1.0)
    M = max([abs(c) for c in l.values()] + [abs(c) for c in r.values()] + [0.0])
    n = {m: c for m, c in n.items() if abs(c) > 1e-9 * M}
    return n, d


def pin_solver(ctx, vals):
    return [ctx.z[ctx.inputs[k]] == z3.RealVal(repr(float(v))) for k, v in vals.items()]


def model_values(ctx, model):
    out = {}
    for name, i in ctx.inputs.items():
        v = model.eval(ctx.z[i], model_completion=True)
        try:
            if z3.is_rational_value(v):
                f = float(v.as_fraction())
            else:
                f = float(v.approx(20).as_fraction())
        except Exception:
            lo, hi = ctx.bounds[i]
            f = ((lo if lo is not None else -1) + (hi if hi is not None else 1)) / 2
        lo, hi = ctx.bounds[i]
        if lo is not None:
            f = max(f, lo)
        if hi is not None:
            f = min(f, hi)
        out[name] = f
    return out


def path_ok(ctx, env, margin=True):
    for b, d in ctx.path_py:
        try:
            if bool(b.num(env)) is not d:
                return False
        except Exception:
            return False
    return True


def more_envs(ctx, n, seed0=0):
    for k in range(n):
        rng = random.Random(777 + 13 * k + seed0)
        vals = {}
        for name, i in ctx.inputs.items():
            lo, hi = ctx.bounds[i]
            lo = -10.0 if lo is None else lo
            hi = 10.0 if hi is None else hi
            vals[i] = round(lo + (hi - lo) * rng.random(), 6)
        yield ctx.evaluate_atoms(vals)


def _nra_model(ctx, extra, q, kind, timeout):
    """models of the path + extra.  yields candidate value dicts, then a verdict string"""
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", int(timeout * 1000))
    s.add(ctx.zall())
    s.add(extra)
    r = s.check()
    q.add(kind, time.time() - t0)
    if r == z3.sat:
        return "sat", model_values(ctx, s.model())
    return str(r), None


def find_violation(ctx, neg_expr, neg_num, q, timeout):
    """verdict for: exists values on this path with neg.  Returns (verdict, candidates)"""
    # a pinned query: cheap when generic points already violate
    cands = []
    for env in list(ctx.sample_envs()) + list(more_envs(ctx, 20)):
        try:
            if path_ok(ctx, env) and neg_num(env):
                vals = {k: env[i] for k, i in ctx.inputs.items()}
                v, m = _nra_model(ctx, [neg_expr] + pin_solver(ctx, vals), q, "pinned", min(timeout, 5))
                if v == "sat":
                    cands.append(m)
                elif v == "unknown":
                    cands.append(vals)
                if len(cands) >= 2:
                    break
        except Exception:
            continue
    if cands:
        return "sat", cands
    t0 = time.time()
    con = ctx.cone([neg_expr])
    if ctx.is_linear(neg_expr):
        easy = [e for e in con if ctx.is_linear(e)]
        if len(easy) < len(con):
            s = z3.Solver()
            s.set("timeout", 3000)
            s.add(easy)
            s.add(neg_expr)
            r = str(s.check())
            q.add("linear", time.time() - t0)
            if r == "unsat":
                return "unsat", []
            t0 = time.time()
    try:
        s = z3.Solver()
        s.set("timeout", int(min(timeout, 8) * 1000))
        s.add(con)
        s.add(neg_expr)
        r = str(s.check())
    finally:
        q.add("sliced", time.time() - t0)
    if r == "unsat":
        return "unsat", []
    if r == "sat":
        c = model_values(ctx, s.model())
        e = ctx.evaluate_atoms({ctx.inputs[k]: v for k, v in c.items()})
        try:
            if path_ok(ctx, e) and neg_num(e):
                return "sat", [c]
        except Exception:
            pass
    v, m = _nra_model(ctx, [neg_expr], q, "nra", timeout)
    if v == "sat":
        return "sat", [m]
    return v, []


def decide(ctx, chk, bounds, q, timeout):
    """-> (status, candidates); status in holds / sat / unknown / fails"""
    k = chk["kind"]
    if k == "cond":
        c = chk["cond"]
        if isinstance(c, bool):
            return ("holds" if c else "fails"), []
        return _v(*find_violation(ctx, z3.Not(c.expr), lambda e: not c.num(e), q, timeout))
    a, b, tol = chk["a"], chk["b"], chk["tol"]
    fa = a if isinstance(a, Sym) else float(a)
    fb = b if isinstance(b, Sym) else float(b)
    if not isinstance(fa, Sym) and not isinstance(fb, Sym):
        if k == "eq":
            if math.isnan(fa) or math.isnan(fb):
                ok = math.isnan(fa) and math.isnan(fb)
            elif math.isinf(fa) or math.isinf(fb):
                ok = fa == fb
            else:
                ok = abs(fa - fb) <= tol * (1 + max(abs(fa), abs(fb)))
        else:
            ok = not math.isnan(fa) and not math.isnan(fb) and fa <= fb + tol * (1 + (max(abs(fa), abs(fb)) if math.isfinite(fa) and math.isfinite(fb) else 0))
        q.add("constant", 0.0)
        return ("holds" if ok else "fails"), []
    for f, other in ((fa, fb), (fb, fa)):
        if not isinstance(f, Sym) and not math.isfinite(f):
            if k == "le" and not math.isnan(f) and ((f is fb and f > 0) or (f is fa and f < 0)):
                return "holds", []
            return "fails", []
    n, d = diff_poly(fa, fb)
    away = chk.get("away")
    if k == "eq":
        if d is None:
            r = lin_relax(ctx, n, bounds, tol, "abs", q)
        else:
            # |n/d| > tol with |d| >= DEN_MIN
            r = lin_relax(ctx, n, bounds, tol * DEN_MIN, "abs", q)
        if r == "unsat":
            return "holds", []
        zn = ctx.zpoly(n)
        if d is None:
            mk = lambda t: z3.Or(zn > z3.RealVal(repr(t)), zn < -z3.RealVal(repr(t)))
            nm = lambda t: (lambda e: abs(p_eval(n, e)) > t)
        else:
            zd = ctx.zpoly(d)
            ad = z3.If(zd >= 0, zd, -zd)
            mk = lambda t: z3.And(ad >= z3.RealVal(repr(DEN_MIN)), z3.Or(zn > z3.RealVal(repr(t)) * ad, zn < -z3.RealVal(repr(t)) * ad))
            nm = lambda t: (lambda e: abs(p_eval(d, e)) >= DEN_MIN and abs(p_eval(n, e)) > t * abs(p_eval(d, e)))
        if away:
            mk0, nm0 = mk, nm
            far = [z3.Or((x > AWAY).expr, (x < -AWAY).expr) for x in away if isinstance((x > AWAY), SymBool) and isinstance((x < -AWAY), SymBool)]
            mk = lambda t: z3.And([mk0(t)] + far)
            nm = lambda t: (lambda e: is_away(away, e) and nm0(t)(e))
        v, c = find_violation(ctx, mk(1e-2), nm(1e-2), q, timeout)
        if v == "sat":
            return "sat", c
        v2, c2 = find_violation(ctx, mk(max(tol * 10, 1e-5)), nm(max(tol * 10, 1e-5)), q, timeout)
        return _v(v2, c2)
    # le: a <= b ; violated when n/d > tol
    if d is None:
        if lin_relax(ctx, n, bounds, tol, "pos", q) == "unsat":
            return "holds", []
        zn = ctx.zpoly(n)
        mk = lambda t: zn > z3.RealVal(repr(t))
        nm = lambda t: (lambda e: p_eval(n, e) > t)
    else:
        zn, zd = ctx.zpoly(n), ctx.zpoly(d)
        mk = lambda t: z3.Or(z3.And(zd >= DEN_MIN, zn > z3.RealVal(repr(t)) * zd), z3.And(zd <= -DEN_MIN, zn < z3.RealVal(repr(t)) * zd))
        nm = lambda t: (lambda e: abs(p_eval(d, e)) >= DEN_MIN and p_eval(n, e) / p_eval(d, e) > t)
    v, c = find_violation(ctx, mk(1e-2), nm(1e-2), q, timeout)
    if v == "sat":
        return "sat", c
    v2, c2 = find_violation(ctx, mk(max(tol * 10, 1e-5)), nm(max(tol * 10, 1e-5)), q, timeout)
    return _v(v2, c2)


AWAY = 2e-5


def is_away(xs, e):
    return all(abs(x.eval(e) if isinstance(x, Sym) else x) > AWAY for x in xs)


def _v(v, c):
    return {"unsat": "holds", "sat": "sat"}.get(v, "unknown"), c


# ---------------------------------------------------------------- functions encoded
_FUNCS = set()


def start_monitor():
    mon = sys.monitoring
    tid = 3
    try:
        mon.use_tool_id(tid, "symx")
    except ValueError:
        return
    repo = os.environ.get("SYMX_REPO", "/repo")

    def start(code, off):
        if code.co_filename.startswith(repo) and code.co_name != "<module>":
            _FUNCS.add(os.path.basename(code.co_filename)[:-3] + "." + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, start)
    mon.set_events(tid, mon.events.PY_START)


# ---------------------------------------------------------------- exploration
def run_case(prop, tier, case, numw, budget=60.0, max_paths=200, seed=1, beat=None, skip=()):
    t_start = time.time()
    deadline = t_start + budget
    res = {"case": case.name, "paths": 0, "decisions": 0, "checks": 0, "holds": 0, "unknown": 0, "violations": [],
           "unsupported": [], "replays": 0, "mismatch": [], "assumptions": set(), "unreproduced": [], "budget": False,
           "infeasible": 0, "samples": [], "reach": 0, "crash_paths": 0, "queries": 0, "solver_s": 0.0, "qkinds": {}, "wall": 0.0,
           "functions": [], "pending": 0}
    q = Q()

    def hb(where):
        if beat is not None:
            res.update(queries=q.n, solver_s=q.t, qkinds=dict(q.kinds), wall=time.time() - t_start, functions=sorted(_FUNCS), pending=len(stack))
            beat(res, where)
    stack = [[]]
    timeout = case.opts.get("query_timeout", 10.0 if tier == "quick" else 60.0)
    seen_viol = set()
    while stack:
        if time.time() > deadline or res["paths"] >= max_paths:
            res["budget"] = True
            break
        prefix = stack.pop()
        o = dict(case.opts)
        o["deadline"] = deadline
        hb("path")
        ctx = sym.Ctx(prefix, o)
        sym.set_ctx(ctx)
        exc = tb = None
        env = sym_env(ctx)
        end = "ok"
        nd._ACTIVE.clear()
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                case.fn(env)
        except Skip:
            end = "skip"
        except PathAbort:
            end = "abort"
            res["infeasible"] += 1
        except BudgetExceeded as e:
            end = "budget"
            res["budget"] = True
        except Unsupported as e:
            end = "unsupported"
            tbs = traceback.extract_tb(e.__traceback__)
            site = [f for f in tbs if "/diff_diff/" in f.filename]
            res["unsupported"].append("%s @ %s" % (e, ("%s:%d" % (os.path.basename(site[-1].filename), site[-1].lineno)) if site else "harness"))
            if os.environ.get("SYMX_DEBUG"):
                traceback.print_exc()
        except RecursionError as e:
            end = "unsupported"
            res["unsupported"].append("recursion")
        except Exception as e:
            end = "exc"
            exc = "%s: %s" % (type(e).__name__, str(e)[:300])
            tb = traceback.format_exc()
            if os.environ.get("SYMX_DEBUG"):
                traceback.print_exc()
        stack.extend(ctx.pending)
        res["decisions"] += len(ctx.taken)
        q.n += ctx.queries
        q.t += ctx.solver_time
        if ctx.queries:
            q.kinds["branch"] = q.kinds.get("branch", 0) + ctx.queries
        for a in ctx.assumptions:
            if a:
                res["assumptions"].add(a)
        if end == "unsupported" and res.get("prefix_replays", 0) < 3:
            # the encoding stopped here: a witness of the explored prefix is still
            # replayed (this decides nothing, but a failing replay is a real violation)
            for e in list(ctx.sample_envs()):
                if path_ok(ctx, e):
                    res["prefix_replays"] = res.get("prefix_replays", 0) + 1
                    p0 = {k: e[i] for k, i in ctx.inputs.items()}
                    rep = numw.run(prop, tier, case.name, p0)
                    res["replays"] += 1
                    _numeric_violation(rep, case, p0, res, seen_viol)
                    break
        if end in ("skip", "abort", "budget", "unsupported"):
            continue
        res["paths"] += 1
        # witness of the path (reachability of every assertion on it)
        wit = None
        for e in list(ctx.sample_envs()) + list(more_envs(ctx, 10)):
            if path_ok(ctx, e):
                wit = {k: e[i] for k, i in ctx.inputs.items()}
                break
        if wit is None:
            pt = ctx.linear_point()
            if pt is not None:
                for w in (0.999, 0.9, 1.0):
                    g = list(ctx.sample_envs())[0]
                    e = ctx.evaluate_atoms({i: w * x + (1 - w) * g[i] for i, x in pt.items()})
                    if path_ok(ctx, e):
                        wit = {k: e[i] for k, i in ctx.inputs.items()}
                        if w == 1.0:
                            wit = _interior(ctx, wit)
                        break
        # the reachability query is the solver's: pinned when a point is known
        t0 = time.time()
        if wit is not None and ctx.opts.get("lazy"):
            pass        # the point was evaluated through every definition and path condition
        elif wit is not None:
            v, m = _nra_model(ctx, pin_solver(ctx, wit), q, "reach", 5)
            if v == "unsat" and not _has_fn(ctx):
                wit = None if not path_ok(ctx, ctx.evaluate_atoms({ctx.inputs[k]: x for k, x in wit.items()})) else wit
        else:
            v, m = _nra_model(ctx, [], q, "reach", 5)
            if v == "unsat":
                res["infeasible"] += 1
                res["paths"] -= 1
                continue
            wit = _interior(ctx, m)
        if wit is not None:
            res["reach"] += 1
        if end == "exc":
            res["crash_paths"] += 1
            rep = numw.run(prop, tier, case.name, wit) if wit is not None else None
            res["replays"] += 1
            if rep and rep["exc"] and not rep.get("died") and rep["exc"].split(":")[0] == exc.split(":")[0]:
                key = ("exception", rep["exc"].split(":")[0])
                if key not in seen_viol:
                    seen_viol.add(key)
                    res["violations"].append({"case": case.name, "label": "no-exception", "values": wit, "detail": rep["exc"], "tb": rep["tb"]})
            else:
                res["unsupported"].append("encoder exception %s :: %s" % (exc, tb.strip().splitlines()[-3:] if tb else ""))
                if rep:
                    _numeric_violation(rep, case, wit, res, seen_viol)
            continue
        bounds = atom_bounds(ctx)
        memo = ctx.checks
        for chk in memo:
            res["checks"] += 1
            if (chk["label"],) in seen_viol:
                continue
            if chk["label"] in skip:
                res["unknown"] += 1
                res.setdefault("unknown_labels", []).append(chk["label"])
                continue
            hb(chk["label"])
            if time.time() > deadline + timeout:
                res["budget"] = True
                res["unknown"] += 1
                continue
            try:
                st, cands = decide(ctx, chk, bounds, q, timeout)
            except Unsupported as e:
                st, cands = "unknown", []
                res["unsupported"].append("query: %s" % e)
            except z3.Z3Exception as e:
                st, cands = "unknown", []
            if st == "holds":
                res["holds"] += 1
                continue
            if st == "unknown":
                res["unknown"] += 1
                res.setdefault("unknown_labels", []).append(chk["label"])
                continue
            if st == "fails":
                cands = [wit] if wit is not None else []
            okrep = False
            for c in cands:
                rep = numw.run(prop, tier, case.name, c)
                res["replays"] += 1
                bad = [x for x in rep["checks"] if x[0] == chk["label"] and not x[1]]
                if bad or (rep["exc"] and not rep.get("died")):
                    okrep = True
                    key = (chk["label"],)
                    if key not in seen_viol:
                        seen_viol.add(key)
                        res["violations"].append({"case": case.name, "label": chk["label"], "values": c,
                                                  "detail": ("lhs=%r rhs=%r" % (bad[0][2], bad[0][3])) if bad else rep["exc"]})
                    break
            if not okrep:
                res["unknown"] += 1
                res["unreproduced"].append({"label": chk["label"], "values": cands[:1]})
        # concrete replay of the witness against the stock code
        if wit is not None and (res["replays"] < case.opts.get("max_replays", 12) or tier == "thorough"):
            rep = numw.run(prop, tier, case.name, wit)
            res["replays"] += 1
            _numeric_violation(rep, case, wit, res, seen_viol)
            if not rep["exc"] and not rep["skipped"]:
                e = ctx.evaluate_atoms({ctx.inputs[k]: x for k, x in wit.items()})
                if not getattr(ctx, "thin", False):
                    _compare(ctx, rep, e, res, case)
        if len(res["samples"]) < 2 and wit is not None:
            res["samples"].append({"case": case.name, "values": {k: round(v, 6) for k, v in list(wit.items())[:12]}, "decisions": len(ctx.taken),
                                   "assertions": [c["label"] for c in ctx.checks[:6]]})
    res["queries"] = q.n
    res["solver_s"] = q.t
    res["qkinds"] = q.kinds
    res["wall"] = time.time() - t_start
    res["assumptions"] = sorted(res["assumptions"])
    res["functions"] = sorted(_FUNCS)
    res["pending"] = len(stack)
    return res


def _interior(ctx, wit):
    """a solver model often lies on the boundary of its path, where rounding decides:
    prefer a nearby point of the path"""
    if not wit or not all(k in wit for k in ctx.inputs):
        return wit
    R = random.Random(5)
    for eps in (1e-3, 1e-4, 1e-5, 1e-6):
        for _ in range(4):
            c = {}
            for k, i in ctx.inputs.items():
                lo, hi = ctx.bounds[i]
                d = eps * R.uniform(0.5, 1.0) * R.choice((-1, 1))
                x = wit[k] + d
                if (lo is not None and x < lo) or (hi is not None and x > hi):
                    x = wit[k] - d
                c[k] = min(max(x, lo if lo is not None else x), hi if hi is not None else x)
            try:
                if path_ok(ctx, ctx.evaluate_atoms({ctx.inputs[k]: x for k, x in c.items()})):
                    return c
            except Exception:
                return wit
    ctx.thin = True         # only boundary points found: exact ties, where floating-point rounding decides
    return wit


def _has_fn(ctx):
    return any(k == "fn" or "." in k for k in ctx.kind)


def _numeric_violation(rep, case, wit, res, seen):
    if rep.get("skipped"):
        return
    for lab, ok, a, b in rep["checks"]:
        if not ok and (lab,) not in seen:
            seen.add((lab,))
            res["violations"].append({"case": case.name, "label": lab, "values": wit, "detail": "lhs=%r rhs=%r" % (a, b)})
    if rep.get("died"):
        res["mismatch"].append("replay process died")
        return
    if rep["exc"] and ("exc",) not in seen:
        seen.add(("exc",))
        res["violations"].append({"case": case.name, "label": "no-exception", "values": wit, "detail": rep["exc"], "tb": rep["tb"]})


def _compare(ctx, rep, env, res, case):
    num = {}
    for lab, ok, a, b in rep["checks"]:
        num.setdefault(lab, []).append((a, b))
    seen = {}
    for c in ctx.checks:
        if c["kind"] == "cond":
            continue
        k = seen.get(c["label"], 0)
        seen[c["label"]] = k + 1
        if c["label"] not in num or k >= len(num[c["label"]]):
            res["mismatch"].append("%s: assertion not reached by the replay" % c["label"])
            continue
        if c.get("away") and not is_away(c["away"], env):
            continue
        for s, x in ((c["a"], num[c["label"]][k][0]), (c["b"], num[c["label"]][k][1])):
            v = s.eval(env) if isinstance(s, Sym) else float(s)
            if math.isnan(v) and math.isnan(x):
                continue
            if v == x:
                continue
            if not abs(v - x) <= (case.opts.get("anchor_tol") or 1e-5) * (1 + max(abs(v), abs(x))):
                res["mismatch"].append("%s: encoded %r, real %r" % (c["label"], v, x))
                if os.environ.get("SYMX_DEBUG"):
                    print("MISMATCH", c["label"], v, x, {k: env.get(i) for k, i in ctx.inputs.items()}, file=sys.stderr)
                break
