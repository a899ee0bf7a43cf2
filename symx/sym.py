"""Symbolic reals in rational normal form, with the path explorer.

A Sym is num/den, both polynomials over variables.  A variable is either a
harness input (a box-bounded real) or an *atom*: a value defined by a constraint
(sqrt, abs, max, an uninterpreted monotone distribution function, ...).
Coefficients are doubles; |coefficient| < EPS is treated as 0 (the encoding is
over the reals, the tolerance of every query is far above that).
"""
import math
import random
import time as _time
import z3

EPS = 1e-12


class Unsupported(Exception):
    """The code left the fragment the encoder covers: inconclusive, never an alarm."""


class PathAbort(BaseException):
    """The current path is infeasible or outside the stated bounds."""


class BudgetExceeded(BaseException):
    pass


# ----------------------------------------------------------------------------
# polynomials: dict {tuple(sorted var ids): float}

def p_const(c):
    return {(): float(c)} if abs(c) > 0 else {}


def p_clean(p):
    return {m: c for m, c in p.items() if abs(c) > EPS}


def p_add(a, b, s=1.0):
    if len(b) > len(a) and s == 1.0:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0.0) + s * c
        if abs(v) <= EPS:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def p_scale(a, k):
    if k == 1:
        return a
    if k == 0:
        return {}
    return {m: c * k for m, c in a.items() if abs(c * k) > EPS}


def p_isconst(a):
    return not a or (len(a) == 1 and () in a)


def p_cval(a):
    return a.get((), 0.0)


def p_mul(a, b):
    if not a or not b:
        return {}
    if p_isconst(a):
        return p_scale(b, a[()])
    if p_isconst(b):
        return p_scale(a, b[()])
    rules = CTX.square_rules if CTX is not None and not CTX.opts.get("no_square") else {}
    r = {}
    pend = []
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            if not m1:
                m = m2
            elif not m2:
                m = m1
            else:
                m = tuple(sorted(m1 + m2))
                if rules:
                    hit = None
                    for i in range(len(m) - 1):
                        if m[i] == m[i + 1] and m[i] in rules:
                            hit = i
                            break
                    if hit is not None:
                        pend.append((m, c1 * c2))
                        continue
            r[m] = r.get(m, 0.0) + c1 * c2
    r = p_clean(r)
    if pend:
        # group: reduce s*s -> rule
        byrule = {}
        for m, c in pend:
            for i in range(len(m) - 1):
                if m[i] == m[i + 1] and m[i] in rules:
                    v = m[i]
                    rest = m[:i] + m[i + 2:]
                    break
            byrule.setdefault(v, {})
            byrule[v][rest] = byrule[v].get(rest, 0.0) + c
        for v, q in byrule.items():
            r = p_add(r, p_mul(p_clean(q), rules[v]))
    return r


def p_key(a):
    return tuple(sorted((m, float("%.9g" % c)) for m, c in a.items()))


def p_content(a):
    """positive scale c such that a/c has largest |coef| 1 on a canonical monomial"""
    m = max(a.items(), key=lambda t: (round(math.log(abs(t[1])), 6), t[0]))
    return abs(m[1])


def p_div_exact(a, b):
    """a/b if b divides a exactly (graded-lex long division), else None"""
    if not b:
        return None
    if p_isconst(b):
        return p_scale(a, 1.0 / b[()])
    if len(b) > 40 or len(a) > 400:
        # only try proportionality
        if len(a) != len(b):
            return None
        k = None
        for m, c in b.items():
            if m not in a:
                return None
            q = a[m] / c
            if k is None:
                k = q
            elif abs(q - k) > 1e-9 * max(1, abs(k)):
                return None
        return p_const(k)
    key = lambda m: (len(m), tuple(-v for v in m))
    lb = max(b, key=key)
    lbl = list(lb)
    r = dict(a)
    q = {}
    amax = max((abs(c) for c in a.values()), default=0)
    it = 0
    while r:
        it += 1
        if it > 300:
            return None
        la = max(r, key=key)
        rest = list(la)
        ok = True
        for v in lbl:
            if v in rest:
                rest.remove(v)
            else:
                ok = False
                break
        if not ok:
            return None
        k = r[la] / b[lb]
        t = {tuple(rest): k}
        q[tuple(rest)] = q.get(tuple(rest), 0.0) + k
        sub = p_mul(t, b)
        r = p_add(r, sub, -1.0)
        r.pop(la, None)
        r = {m: c for m, c in r.items() if abs(c) > 1e-10 * max(1.0, amax)}
    return q


# ----------------------------------------------------------------------------

CTX = None


class Ctx:
    """One symbolic execution (one path)."""

    def __init__(self, prefix=(), opts=None):
        self.names = []          # var id -> name
        self.kind = []           # 'input' | atom kind
        self.bounds = {}         # id -> (lo, hi) or None
        self.evals = {}          # id -> callable(env)->float  for atoms
        self.z = []              # z3 vars
        self.square_rules = {}
        self.atom_cache = {}
        self.inputs = {}         # name -> id
        self.defs = []           # z3 constraints defining atoms: (ids, expr)
        self.path = []           # z3 constraints of decisions
        self.path_py = []        # python evaluators of decisions, for quick witness
        self.prefix = list(prefix)
        self.taken = []
        self.pending = []        # alternative prefixes discovered
        self.assumptions = []
        self.fn_insts = {}       # (fname, params) -> list of (argSym, valueSym)
        self.opts = opts or {}
        self.solver_time = 0.0
        self.queries = 0
        self.checks = []         # recorded assertions
        self.notes = []
        self.deadline = self.opts.get("deadline")
        self._solver = None
        self._pushed = 0
        self._vc = {}
        self._lc = {}

    # -- variables -----------------------------------------------------------
    def newvar(self, name, kind, lo=None, hi=None):
        i = len(self.names)
        self.names.append(name)
        self.kind.append(kind)
        self.z.append(z3.Real("v%d_%s" % (i, kind if kind != "input" else name)))
        self.bounds[i] = (lo, hi)
        return i

    def input(self, name, lo=-10.0, hi=10.0):
        if name in self.inputs:
            return Sym({(self.inputs[name],): 1.0})
        i = self.newvar(name, "input", lo, hi)
        self.inputs[name] = i
        return Sym({(i,): 1.0})

    # -- z3 translation ------------------------------------------------------
    def zpoly(self, p):
        ts = []
        for m, c in p.items():
            cv = z3.RealVal(repr(c)) if not float(c).is_integer() else z3.RealVal(int(c))
            t = cv
            if m:
                prod = self.z[m[0]]
                for v in m[1:]:
                    prod = prod * self.z[v]
                t = cv * prod if c != 1 else prod
            ts.append(t)
        if not ts:
            return z3.RealVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def box(self):
        r = []
        for i, (lo, hi) in self.bounds.items():
            if lo is not None:
                r.append(self.z[i] >= z3.RealVal(repr(float(lo))))
            if hi is not None:
                r.append(self.z[i] <= z3.RealVal(repr(float(hi))))
        return r

    def zall(self):
        return self.box() + [e for e in self.defs] + [e for e in self.path]

    def zvars(self, e):
        """ids of the solver variables occurring in a z3 expression"""
        c = self._vc
        k = e.get_id()
        if k in c:
            return c[k][1]
        seen, out, st = set(), set(), [e]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_const(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    nm = x.decl().name()
                    if nm[0] == "v":
                        out.add(int(nm[1:].split("_", 1)[0]))
            else:
                st.extend(x.children())
        r = frozenset(out)
        c[k] = (e, r)
        return r

    def cone(self, exprs, paths=True):
        """box + the definitions of the atoms the expressions depend on + the path
        conditions over the same atoms (dropping constraints keeps `unsat` sound)"""
        need = set()
        for e in exprs:
            need |= self.zvars(e)
        dv = [(d, self.zvars(d)) for d in self.defs]
        used = [False] * len(dv)
        ch = True
        atoms = {i for i in need if self.kind[i] != "input"}
        while ch:
            ch = False
            for j, (d, v) in enumerate(dv):
                if used[j]:
                    continue
                a = [i for i in v if self.kind[i] != "input"]
                # a definition belongs to the newest atom in it
                if a and max(a) in atoms:
                    used[j] = True
                    need |= v
                    n = {i for i in a}
                    if not n <= atoms:
                        atoms |= n
                    ch = True
        r = [d for j, (d, v) in enumerate(dv) if used[j]]
        if paths:
            r += [e for e in self.path if all(self.kind[i] == "input" or i in atoms for i in self.zvars(e))]
        for i in need:
            lo, hi = self.bounds[i]
            if lo is not None:
                r.append(self.z[i] >= z3.RealVal(repr(float(lo))))
            if hi is not None:
                r.append(self.z[i] <= z3.RealVal(repr(float(hi))))
        for i in self.inputs.values():
            if i not in need:
                lo, hi = self.bounds[i]
                if lo is not None:
                    r.append(self.z[i] >= z3.RealVal(repr(float(lo))))
                if hi is not None:
                    r.append(self.z[i] <= z3.RealVal(repr(float(hi))))
        return r

    def is_linear(self, e):
        c = self._lc
        k = e.get_id()
        if k in c:
            return c[k][1]
        ok, st, seen = True, [e], set()
        while st and ok:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            kd = x.decl().kind() if z3.is_app(x) else None
            if kd == z3.Z3_OP_MUL:
                if sum(0 if z3.is_rational_value(a) or z3.is_int_value(a) else 1 for a in x.children()) > 1:
                    ok = False
            elif kd in (z3.Z3_OP_DIV, z3.Z3_OP_POWER):
                ok = False
            st.extend(x.children())
        c[k] = (e, ok)
        return ok

    def linear_point(self, timeout=2000):
        """input values satisfying the linear path conditions over the inputs"""
        s = z3.Solver()
        s.set("timeout", timeout)
        for e in self.path:
            if self.is_linear(e) and all(self.kind[i] == "input" for i in self.zvars(e)):
                s.add(e)
        for name, i in self.inputs.items():
            lo, hi = self.bounds[i]
            if lo is not None:
                s.add(self.z[i] >= z3.RealVal(repr(float(lo))))
            if hi is not None:
                s.add(self.z[i] <= z3.RealVal(repr(float(hi))))
        self.queries += 1
        if s.check() != z3.sat:
            return None
        m = s.model()
        return {i: float(m.eval(self.z[i], model_completion=True).as_fraction()) for i in self.inputs.values()}

    def sat_cone(self, expr, timeout=2000, linear=False):
        """(verdict, numeric env or None) on the sliced problem"""
        t0 = _time.time()
        self.queries += 1
        s = z3.Solver()
        s.set("timeout", timeout)
        con = self.cone([expr])
        if linear:
            con = [e for e in con if self.is_linear(e)]
        s.add(con)
        s.add(expr)
        r = s.check()
        env = None
        if r == z3.sat:
            m = s.model()
            vals = {}
            for name, i in self.inputs.items():
                v = m.eval(self.z[i], model_completion=True)
                try:
                    vals[i] = float(v.as_fraction()) if z3.is_rational_value(v) else float(v.approx(20).as_fraction())
                except Exception:
                    vals[i] = 0.0
            env = self.evaluate_atoms(vals)
        self.solver_time += _time.time() - t0
        return str(r), env

    def sat(self, extra, timeout=3000):
        """feasibility of path + extra: 'sat' / 'unsat' / 'unknown'"""
        t0 = _time.time()
        self.queries += 1
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(self.zall())
        s.add(extra)
        r = s.check()
        self.solver_time += _time.time() - t0
        return str(r), (s.model() if r == z3.sat else None)

    # -- numeric evaluation --------------------------------------------------
    def evaluate_atoms(self, vals):
        """vals: dict id->float for inputs; fills atoms in creation order"""
        env = dict(vals)
        for i in range(len(self.names)):
            if i in env:
                continue
            f = self.evals.get(i)
            if f is None:
                lo, hi = self.bounds[i]
                env[i] = 0.0 if lo is None else float(lo)
            else:
                try:
                    env[i] = float(f(env))
                except Exception:
                    env[i] = float("nan")
        return env

    # -- branching -----------------------------------------------------------
    def branch(self, b):
        """b: SymBool. Decide and record."""
        if self.deadline and _time.time() > self.deadline:
            raise BudgetExceeded("time")
        k = len(self.taken)
        if k < len(self.prefix):
            d = self.prefix[k]
            self.taken.append(d)
            self.path.append(b.expr if d else z3.Not(b.expr))
            self.path_py.append((b, d))
            return d
        if k >= self.opts.get("max_decisions", 4000):
            raise BudgetExceeded("decisions")
        pol = b.pref
        quick = None
        if pol is not None:
            # generic-position assumption: take the preferred side only
            self.taken.append(pol)
            self.path.append(b.expr if pol else z3.Not(b.expr))
            self.path_py.append((b, pol))
            self.assumptions.append(b.why)
            return pol
        t = self.opts.get("branch_timeout", 2000)
        rt = self._feasible(b, True, t)
        rf = self._feasible(b, False, t)
        if rt == "unsat" and rf == "unsat":
            raise PathAbort("infeasible path")
        if rt == "unsat":
            d = False
        elif rf == "unsat":
            d = True
        else:
            d = True
            self.pending.append(self.taken + [False])
        self.taken.append(d)
        self.path.append(b.expr if d else z3.Not(b.expr))
        self.path_py.append((b, d))
        return d

    def _feasible(self, b, side, t):
        # a quick numeric witness first (sound for 'sat')
        for env in self.sample_envs():
            try:
                v = b.num(env)
            except Exception:
                continue
            if v is side:
                ok = True
                for (pb, pd) in self.path_py:
                    try:
                        if pb.num(env) is not pd:
                            ok = False
                            break
                    except Exception:
                        ok = False
                        break
                if ok:
                    self.queries += 0
                    return "sat"
        ex = b.expr if side else z3.Not(b.expr)
        if self.is_linear(ex):
            r, env = self.sat_cone(ex, t, linear=True)
            if r == "unsat":
                return r
            if env is not None:
                try:
                    if b.num(env) is side and all(pb.num(env) is pd for pb, pd in self.path_py):
                        return "sat"
                except Exception:
                    pass
        r, env = self.sat_cone(ex, t)
        if r == "unsat":
            return r
        if env is not None:
            try:
                if b.num(env) is side and all(pb.num(env) is pd for pb, pd in self.path_py):
                    return "sat"
            except Exception:
                pass
        if self.opts.get("lazy"):
            return r
        r, _ = self.sat([ex], t)
        return r

    def sample_envs(self):
        out = []
        n = len(self.names)
        for seed in range(self.opts.get("n_samples", 6)):
            key = (seed, n)
            c = getattr(self, "_samp", {})
            if key in c:
                out.append(c[key])
                continue
            rng = random.Random(1000 + seed)
            vals = {}
            for name, i in self.inputs.items():
                lo, hi = self.bounds[i]
                lo = -10.0 if lo is None else lo
                hi = 10.0 if hi is None else hi
                vals[i] = lo + (hi - lo) * rng.random()
            e = self.evaluate_atoms(vals)
            c[key] = e
            self._samp = c
            out.append(e)
        return out

    def assume(self, b, why=None):
        """constrain the path (harness precondition / stub contract)"""
        if isinstance(b, bool):
            if not b:
                raise PathAbort(why or "assumption false")
            return
        self.path.append(b.expr)
        self.path_py.append((b, True))
        if why:
            self.assumptions.append(why)


_NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}
_MIR = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}


class SymBool:
    __slots__ = ("expr", "num", "pref", "why", "key")
    __array_ufunc__ = None

    def __init__(self, expr, num, pref=None, why=None, key=None):
        self.expr, self.num, self.pref, self.why, self.key = expr, num, pref, why, key

    def __bool__(self):
        return CTX.branch(self)

    def __and__(self, o):
        if isinstance(o, SymBool):
            return SymBool(z3.And(self.expr, o.expr), lambda e: self.num(e) and o.num(e))
        return self if bool(o) else False
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool):
            return SymBool(z3.Or(self.expr, o.expr), lambda e: self.num(e) or o.num(e))
        return True if bool(o) else self
    __ror__ = __or__

    def __add__(self, o):
        return mk_ind(self) + (mk_ind(o) if isinstance(o, SymBool) else o)
    __radd__ = __add__

    def __sub__(self, o):
        return mk_ind(self) - (mk_ind(o) if isinstance(o, SymBool) else o)

    def __rsub__(self, o):
        return o - mk_ind(self)

    def __mul__(self, o):
        return mk_ind(self) * (mk_ind(o) if isinstance(o, SymBool) else o)
    __rmul__ = __mul__

    def __invert__(self):
        return SymBool(z3.Not(self.expr), lambda e: not self.num(e),
                       None if self.pref is None else (not self.pref), self.why,
                       None if self.key is None else (_NEG[self.key[0]], self.key[1]))

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return "SymBool"


def snap(x):
    return float(x)


def p_eval(p, env):
    t = 0.0
    for m, c in p.items():
        v = c
        for i in m:
            v *= env[i]
        t += v
    return t


ONE = {(): 1.0}


def _isnum(x):
    import numpy as np
    return isinstance(x, (int, float, np.integer, np.floating, np.bool_, bool))


FORMATS, _FORMAT_IDS = [], {}


class Sym:
    __slots__ = ("num", "den")
    __array_ufunc__ = None
    __array_priority__ = 1e6

    def __init__(self, num, den=None):
        self.num = num
        self.den = den     # None means 1

    # construction helpers
    @staticmethod
    def mk(num, den=None):
        """returns float when constant"""
        if den is not None:
            if p_isconst(den):
                k = p_cval(den)
                if k == 0:
                    return float("nan")
                num, den = p_scale(num, 1.0 / k), None
            elif not num:
                return 0.0
            else:
                q = p_div_exact(num, den)
                if q is not None:
                    num, den = q, None
                else:
                    # strip common variables
                    com = None
                    for m in list(num) + list(den):
                        s = set(m)
                        com = s if com is None else (com & s)
                        if not com:
                            break
                    if com:
                        for v in com:
                            def strip(p):
                                r = {}
                                for m, c in p.items():
                                    l = list(m)
                                    l.remove(v)
                                    r[tuple(l)] = c
                                return r
                            num, den = strip(num), strip(den)
                        if p_isconst(den):
                            num, den = p_scale(num, 1.0 / p_cval(den)), None
                    if den is not None:
                        k = p_content(den)
                        num, den = p_scale(num, 1.0 / k), p_scale(den, 1.0 / k)
        if den is None and p_isconst(num):
            return p_cval(num)
        return Sym(num, den)

    @property
    def d(self):
        return ONE if self.den is None else self.den

    def is_linear(self):
        return self.den is None and all(len(m) <= 1 for m in self.num)

    # arithmetic -------------------------------------------------------------
    def _lift(self, o):
        if type(o) is SymBool:
            return mk_ind(o) if CTX.opts.get("lazy") else (1.0 if bool(o) else 0.0)
        if isinstance(o, Sym):
            return o
        if isinstance(o, SymBool):
            return bool(o) * 1.0
        if _isnum(o):
            return float(o)
        return None

    def _arr(self, o, f):
        import numpy as np
        from . import nd
        if isinstance(o, np.ndarray):
            out = np.empty(o.shape, dtype=object)
            fo = o.ravel()
            fl = [f(x) for x in fo]
            flat = out.ravel()
            for i, v in enumerate(fl):
                flat[i] = v
            return flat.reshape(o.shape).view(nd.SymNd)
        return NotImplemented

    def __add__(self, o):
        b = self._lift(o)
        if b is None:
            return self._arr(o, lambda x: self + x)
        if isinstance(b, float):
            if b == 0:
                return self
            if not math.isfinite(b):
                return b
            if self.den is None:
                return Sym.mk(p_add(self.num, p_const(b)))
            return Sym.mk(p_add(self.num, p_scale(self.den, b)), self.den)
        if self.den is None and b.den is None:
            return Sym.mk(p_add(self.num, b.num))
        if self.den is not None and b.den is not None and (self.den is b.den or p_key(self.den) == p_key(b.den)):
            return Sym.mk(p_add(self.num, b.num), self.den)
        return Sym.mk(p_add(p_mul(self.num, b.d), p_mul(b.num, self.d)), p_mul(self.d, b.d))
    __radd__ = __add__

    def __neg__(self):
        return Sym(p_scale(self.num, -1.0), self.den)

    def __pos__(self):
        return self

    def __sub__(self, o):
        b = self._lift(o)
        if b is None:
            return self._arr(o, lambda x: self - x)
        return self + (-b)

    def __rsub__(self, o):
        b = self._lift(o)
        if b is None:
            return self._arr(o, lambda x: x - self)
        return (-self) + b

    def __mul__(self, o):
        b = self._lift(o)
        if b is None:
            return self._arr(o, lambda x: self * x)
        if isinstance(b, float):
            if b == 0:
                return 0.0
            if not math.isfinite(b):
                if math.isnan(b):
                    return b
                return b if bool(self > 0) else -b
            return Sym.mk(p_scale(self.num, b), self.den)
        if self.den is None and b.den is None:
            return Sym.mk(p_mul(self.num, b.num))
        # cheap cancellation
        n1, d1, n2, d2 = self.num, self.d, b.num, b.d
        if d2 is not ONE:
            q = p_div_exact(n1, d2) if len(d2) <= 60 else None
            if q is not None:
                n1, d2 = q, ONE
        if d1 is not ONE:
            q = p_div_exact(n2, d1) if len(d1) <= 60 else None
            if q is not None:
                n2, d1 = q, ONE
        return Sym.mk(p_mul(n1, n2), p_mul(d1, d2) if not (d1 is ONE and d2 is ONE) else None)
    __rmul__ = __mul__

    def __truediv__(self, o):
        b = self._lift(o)
        if b is None:
            return self._arr(o, lambda x: self / x)
        if isinstance(b, float):
            if b == 0:
                import numpy as np
                if isinstance(o, (np.floating, np.integer)):
                    # numpy semantics: inf with the sign of self, nan at 0
                    if bool(self == 0):
                        return float("nan")
                    return float("inf") if bool(self > 0) else float("-inf")
                raise ZeroDivisionError("float division by zero")
            if math.isinf(b):
                return 0.0
            return self * (1.0 / b)
        inv = b._inv()
        if isinstance(inv, float):     # division by symbolic zero on this path
            return inv
        return self * inv

    def _inv(self):
        """1/self; the path must have self != 0 (else numpy would give inf/nan)"""
        z = (self == 0)
        if z is True:
            return float("nan")
        if z is not False:
            z.pref = False
            z.why = "symbolic divisor nonzero"
            if bool(z):
                return float("nan")
        # 1/(c*atom^..): use square rule to keep polynomials:  1/s = s/s^2
        return Sym.mk(self.d, self.num)

    def __rtruediv__(self, o):
        b = self._lift(o)
        if b is None:
            return self._arr(o, lambda x: x / self)
        inv = self._inv()
        return inv * b

    def __floordiv__(self, o):
        return floor(self / o)

    def __mod__(self, o):
        raise Unsupported("mod")

    def __pow__(self, e):
        if isinstance(e, Sym):
            raise Unsupported("symbolic exponent")
        e = float(e)
        if e == 2:
            return self * self
        if e == 0.5:
            return self.sqrt()
        if e == int(e):
            e = int(e)
            if e == 0:
                return 1.0
            r = self
            for _ in range(abs(e) - 1):
                r = r * self
            return r if e > 0 else 1.0 / r
        raise Unsupported("power %r" % e)

    def __rpow__(self, b):
        return (self * math.log(float(b))).exp()

    # functions --------------------------------------------------------------
    def sqrt(self):
        return mk_sqrt(self)

    def __abs__(self):
        return mk_abs(self)

    def exp(self):
        return mk_fn("exp", (), self)

    def log(self):
        return mk_fn("log", (), self)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def T(self):
        return self

    def copy(self):
        return self

    def item(self):
        return self

    def astype(self, *_a, **_k):
        return self

    def __float__(self):
        raise Unsupported("float(symbolic)")

    def __int__(self):
        return trunc(self)

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return -floor(-self)

    def __index__(self):
        raise TypeError("symbolic index")

    def __format__(self, spec):
        """a token standing for the printed number; Env.numbers resolves it"""
        k = (id(self), spec)
        if k not in _FORMAT_IDS:
            _FORMAT_IDS[k] = len(FORMATS)
            FORMATS.append((self, spec))
        return "\u27e8%d\u27e9%s" % (_FORMAT_IDS[k], "%" if spec.endswith("%") else "")

    def __repr__(self):
        return "Sym(%d terms%s)" % (len(self.num), "" if self.den is None else "/%d" % len(self.den))

    def __hash__(self):
        return hash((p_key(self.num), p_key(self.d)))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __round__(self, n=None):
        return self

    def __reduce__(self):
        raise Unsupported("pickle")

    # comparisons ------------------------------------------------------------
    def _cmp(self, o, op):
        b = self._lift(o)
        if b is None:
            import numpy as np
            if isinstance(o, np.ndarray):
                fo = o.ravel()
                if CTX.opts.get("lazy"):
                    r = np.empty(o.shape, dtype=object)
                    r.ravel()[:] = [_OPS[op](self, x) for x in fo]
                    if any(isinstance(x, SymBool) for x in r.ravel()):
                        from . import nd
                        return nd.wrap(r)
                    return r.astype(bool)
                out = np.empty(o.shape, dtype=bool)
                out.ravel()[:] = [bool(_OPS[op](self, x)) for x in fo]
                return out
            if op == "==":
                return False
            if op == "!=":
                return True
            return NotImplemented
        if isinstance(b, float):
            if math.isnan(b):
                return op == "!="
            if math.isinf(b):
                return {"<": b > 0, "<=": b > 0, ">": b < 0, ">=": b < 0, "==": False, "!=": True}[op]
        diff = self - b
        if not isinstance(diff, Sym):
            return {"<": diff < 0, "<=": diff <= 0, ">": diff > 0, ">=": diff >= 0,
                    "==": abs(diff) <= EPS, "!=": abs(diff) > EPS}[op]
        n = diff.num
        if diff.den is not None:
            if op in ("==", "!="):
                pass
            else:
                sg = p_sign(diff.den)
                if sg == 0:
                    n = p_mul(n, diff.den)
                elif sg < 0:
                    n = p_scale(n, -1.0)
        # strip a nonneg single-sqrt-atom monomial for readability of queries
        sgn = p_sign(n)
        if sgn == 2:   # provably > 0
            return op in (">", ">=", "!=")
        if sgn == -2:
            return op in ("<", "<=", "!=")
        if sgn == 1 and op in (">=", "<"):    # >= 0
            return op == ">="
        if sgn == -1 and op in ("<=", ">"):
            return op == "<="
        k = p_content(n)
        n = p_scale(n, 1.0 / k)
        zp = CTX.zpoly(n)
        ex = {"<": zp < 0, "<=": zp <= 0, ">": zp > 0, ">=": zp >= 0, "==": zp == 0, "!=": zp != 0}[op]

        def num(env, n=n, op=op):
            v = p_eval(n, env)
            return {"<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0, "==": v == 0, "!=": v != 0}[op]
        pref = why = None
        if CTX.opts.get("generic", True):
            # x == 0 for a non-constant x is a measure-zero event: outside the bound
            # unless the harness asks for it
            if op == "==":
                pref, why = False, "generic position: no exact ties"
            elif op == "!=":
                pref, why = True, "generic position: no exact ties"
            elif op in (">", "<=") and sgn == 1:
                pref, why = (op == ">"), "generic position: nonnegative quantity is nonzero"
            elif op in ("<", ">=") and sgn == -1:
                pref, why = (op == "<"), "generic position: nonnegative quantity is nonzero"
        return SymBool(ex, num, pref, why, (op, n))

    def __lt__(self, o): return self._cmp(o, "<")
    def __le__(self, o): return self._cmp(o, "<=")
    def __gt__(self, o): return self._cmp(o, ">")
    def __ge__(self, o): return self._cmp(o, ">=")
    def __eq__(self, o): return self._cmp(o, "==")
    def __ne__(self, o): return self._cmp(o, "!=")

    def __bool__(self):
        r = (self != 0)
        return bool(r)

    def eval(self, env):
        v = p_eval(self.num, env)
        if self.den is not None:
            dv = p_eval(self.den, env)
            if dv == 0:
                return float("nan")
            v /= dv
        return v


import operator as _op
_OPS = {"<": _op.lt, "<=": _op.le, ">": _op.gt, ">=": _op.ge, "==": _op.eq, "!=": _op.ne}


def psd_sign(p):
    """sign of a quadratic polynomial from the eigenvalues of its (homogenised) Gram matrix:
    1 if positive semidefinite up to rounding, -1 if negative semidefinite, else 0"""
    import numpy as np
    if len(p) < 3 or len(p) > 4000 or any(len(m) > 2 for m in p):
        return 0
    ids = {}
    for m in p:
        for v in m:
            ids.setdefault(v, len(ids))
    h = any(len(m) < 2 for m in p)
    n = len(ids) + (1 if h else 0)
    A = np.zeros((n, n))
    for m, c in p.items():
        if len(m) == 2:
            i, j = ids[m[0]], ids[m[1]]
        elif len(m) == 1:
            i, j = ids[m[0]], n - 1
        else:
            i = j = n - 1
        A[i, j] += c / 2
        A[j, i] += c / 2
    d = A.diagonal()
    if not ((d >= -1e-12).all() or (d <= 1e-12).all()):
        return 0
    w = np.linalg.eigvalsh(A)
    t = 1e-10 * max(abs(w[0]), abs(w[-1]))
    if w[0] >= -t:
        return 1
    if w[-1] <= t:
        return -1
    return 0


def p_sign(p):
    r = p_sign0(p)
    return r if r else psd_sign(p)


def p_range_sign(p):
    """sign from interval arithmetic over the variable bounds (0: undecided)"""
    lo = hi = sc = 0.0
    for m, c in p.items():
        a = b = c
        for v in m:
            l, h = CTX.bounds[v]
            if l is None or h is None:
                return 0
            q = (a * l, a * h, b * l, b * h)
            a, b = min(q), max(q)
        lo += a
        hi += b
        sc += max(abs(a), abs(b))
        if lo < 0 < hi and len(m) == 0:
            pass
    if lo > 1e-9 * sc:
        return 2
    if hi < -1e-9 * sc:
        return -2
    return 0


def p_sign0(p):
    """structural sign, then intervals"""
    r = p_sign1(p)
    return r if r or len(p) > 60 else p_range_sign(p)


def p_sign1(p):
    """2: >0, 1: >=0, 0: unknown, -1: <=0, -2: <0  (cheap structural sign from bounds)"""
    if not p:
        return 1
    pos = neg = True
    strict = False
    for m, c in p.items():
        s = 2
        i = 0
        mm = list(m)
        while i < len(mm):
            v = mm[i]
            if i + 1 < len(mm) and mm[i + 1] == v:
                s = min(s, 1)
                lo, hi = CTX.bounds[v]
                if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                    pass
                i += 2
                continue
            lo, hi = CTX.bounds[v]
            if lo is not None and lo > 0:
                pass
            elif lo is not None and lo >= 0:
                s = min(s, 1)
            else:
                return 0
            i += 1
        if c > 0:
            neg = False
            if s == 2:
                strict = True
        else:
            pos = False
            if s == 2:
                strict = True
    if pos:
        return 2 if strict else 1
    if neg:
        return -2 if strict else -1
    return 0


# ----------------------------------------------------------------------------
# atoms

def _zsym(s):
    """z3 expression pair (num, den)"""
    return CTX.zpoly(s.num), (None if s.den is None else CTX.zpoly(s.den))


def mk_sqrt(x):
    if not isinstance(x, Sym):
        x = float(x)
        if x < 0:
            return float("nan") if x < -1e-12 else 0.0
        return math.sqrt(x)
    if x.den is not None:
        # sqrt(n/d) = sqrt(n*d)/|d|
        sg = p_sign(x.den)
        dd = Sym.mk(x.den)
        r = mk_sqrt(Sym.mk(p_mul(x.num, x.den)))
        return r / (dd if sg > 0 else abs(dd))
    n = x.num
    # monomial perfect square
    if len(n) == 1:
        (m, c), = n.items()
        if c > 0 and len(m) % 2 == 0 and all(m[i] == m[i + 1] for i in range(0, len(m), 2)):
            r = math.sqrt(c)
            out = {tuple(m[::2]): r}
            y = Sym(out)
            return y if p_sign(out) > 0 else abs(y)
    k = p_content(n)
    q = p_scale(n, 1.0 / k)
    key = ("sqrt", p_key(q))
    if key not in CTX.atom_cache:
        i = CTX.newvar("sqrt", "sqrt", 0.0, None)
        CTX.square_rules[i] = q
        CTX.defs.append(CTX.z[i] * CTX.z[i] == CTX.zpoly(q))
        CTX.evals[i] = lambda env, q=q: math.sqrt(max(p_eval(q, env), 0.0))
        CTX.atom_cache[key] = i
    i = CTX.atom_cache[key]
    return Sym({(i,): math.sqrt(k)})


def mk_abs(x):
    if not isinstance(x, Sym):
        return abs(x)
    if x.den is not None:
        sg = p_sign(x.den)
        if sg > 0:
            return Sym.mk(x.den, ONE)._absnum(x) if False else mk_abs(Sym.mk(x.num)) / Sym.mk(x.den)
        return mk_abs(Sym.mk(x.num)) / mk_abs(Sym.mk(x.den))
    n = x.num
    s = p_sign(n)
    if s > 0:
        return x
    if s < 0:
        return -x
    if len(n) == 1:
        (m, c), = n.items()
        # split off nonneg atoms
        pos = [v for v in m if CTX.bounds[v][0] is not None and CTX.bounds[v][0] >= 0]
        rest = [v for v in m if v not in pos]
        if pos and rest:
            return Sym({tuple(pos): 1.0}) * mk_abs(Sym({tuple(rest): c}))
    else:
        common = None
        for m in n:
            s_ = set(v for v in m if CTX.bounds[v][0] is not None and CTX.bounds[v][0] >= 0)
            common = s_ if common is None else common & s_
            if not common:
                break
        if common:
            v = sorted(common)[0]
            r = {}
            for m, c in n.items():
                l = list(m); l.remove(v); r[tuple(l)] = c
            return Sym({(v,): 1.0}) * mk_abs(Sym.mk(r))
    k = p_content(n)
    lead = max(n.items(), key=lambda t: (round(math.log(abs(t[1])), 6), t[0]))[1]
    q = p_scale(n, (1.0 if lead > 0 else -1.0) / k)
    key = ("abs", p_key(q))
    if key not in CTX.atom_cache:
        i = CTX.newvar("abs", "abs", 0.0, None)
        if len(q) <= 40:
            CTX.square_rules[i] = p_mul(q, q)
        zq = CTX.zpoly(q)
        CTX.defs.append(CTX.z[i] == z3.If(zq >= 0, zq, -zq))
        CTX.evals[i] = lambda env, q=q: abs(p_eval(q, env))
        CTX.atom_cache[key] = i
    return Sym({(CTX.atom_cache[key],): k})


def mk_ext(xs, which):
    """max / min of a list of Sym/floats as one atom"""
    xs = list(xs)
    if any(isinstance(x, float) and math.isnan(x) for x in xs):
        return float("nan")
    conc = [float(x) for x in xs if not isinstance(x, Sym)]
    syms = []
    keys = set()
    for x in xs:
        if isinstance(x, Sym):
            k = (p_key(x.num), p_key(x.d))
            if k not in keys:
                keys.add(k)
                syms.append(x)
    if conc:
        c = max(conc) if which == "max" else min(conc)
        if not math.isfinite(c):
            if (c > 0) == (which == "max"):
                return c
            conc = []
        # structural pruning
        elif syms:
            keep = []
            for s in syms:
                r = (s - c)
                sg = p_sign(r.num) if isinstance(r, Sym) and r.den is None else 0
                if which == "min":
                    sg = -sg
                if sg < 0:
                    continue           # s <= c: irrelevant for max
                if sg > 0:
                    conc = []
                keep.append(s)
            syms = keep
    if not syms:
        return c
    if len(syms) == 1 and not conc:
        return syms[0]
    items = syms + ([c] if conc else [])
    key = (which, tuple(sorted(keys)), c if conc else None)
    key = (which, tuple(sorted((p_key(s.num), p_key(s.d)) for s in syms)), c if conc else None)
    if key not in CTX.atom_cache:
        lo = None
        if which == "max":
            los = [c] if conc else []
            for s in syms:
                if s.den is None and p_sign(s.num) > 0:
                    los.append(0.0)
            lo = max(los) if los else None
        else:
            if all((isinstance(s, Sym) and s.den is None and p_sign(s.num) > 0) or (not isinstance(s, Sym) and s >= 0) for s in items):
                lo = 0.0
        i = CTX.newvar(which, which, lo, None)
        v = CTX.z[i]
        ors = []
        for s in items:
            if isinstance(s, Sym):
                if s.den is None:
                    e = CTX.zpoly(s.num)
                else:
                    raise Unsupported("max of rational")
            else:
                e = z3.RealVal(repr(s))
            CTX.defs.append(v >= e if which == "max" else v <= e)
            ors.append(v == e)
        CTX.defs.append(z3.Or(ors))
        f = max if which == "max" else min
        CTX.evals[i] = lambda env, items=items: f((s.eval(env) if isinstance(s, Sym) else s) for s in items)
        CTX.atom_cache[key] = i
    return Sym({(CTX.atom_cache[key],): 1.0})


def mk_ind(b):
    """0/1 indicator of a condition as an atom (no fork)"""
    if not isinstance(b, SymBool):
        return 1.0 if b else 0.0
    flip = False
    if b.key is not None:
        # one atom per half-space: rounding differences between two renderings of
        # the same comparison must not create two indicators
        op, n = b.key
        lead = max(n.items(), key=lambda t: (round(abs(t[1]), 5), t[0]))
        sc = 1.0 / lead[1]
        if sc < 0:
            op = _MIR[op]
        key = ("ind", op, tuple(sorted((m, round(c * sc, 10) + 0.0) for m, c in n.items() if abs(c * sc) > 1e-10)))
        nk = ("ind", _NEG[op], key[2])
        if nk in CTX.atom_cache:
            key, flip = nk, True
    else:
        key = ("ind", b.expr.get_id())
    if key not in CTX.atom_cache:
        i = CTX.newvar("ind", "ind", 0.0, 1.0)
        CTX.square_rules[i] = {(i,): 1.0}
        CTX.defs.append(CTX.z[i] == z3.If(b.expr, z3.RealVal(1), z3.RealVal(0)))
        CTX.evals[i] = lambda env, b=b: 1.0 if b.num(env) else 0.0
        CTX.atom_cache[key] = i
        CTX.keep = getattr(CTX, "keep", [])
        CTX.keep.append(b)
    r = Sym({(CTX.atom_cache[key],): 1.0})
    return 1.0 - r if flip else r


def mk_ostat(k, xs):
    """k-th smallest (0-based) of a list as an atom: no fork on the ordering"""
    n = len(xs)
    if not any(isinstance(x, Sym) for x in xs):
        return sorted(float(x) for x in xs)[k]
    if k == 0 or k == n - 1:
        return mk_ext(xs, "min" if k == 0 else "max")
    if any(isinstance(x, Sym) and x.den is not None for x in xs):
        raise Unsupported("order statistic of rationals")
    key = ("ostat", k, tuple(sorted(((p_key(x.num), p_key(x.d)) if isinstance(x, Sym) else ((), ("c", float(x)))) for x in xs)))
    if key not in CTX.atom_cache:
        i = CTX.newvar("ostat", "ostat", None, None)
        v = CTX.z[i]
        es = [CTX.zpoly(x.num) if isinstance(x, Sym) else z3.RealVal(repr(float(x))) for x in xs]
        CTX.defs.append(z3.Or([v == e for e in es]))
        one, zero = z3.IntVal(1), z3.IntVal(0)
        CTX.defs.append(z3.Sum([z3.If(e < v, one, zero) for e in es]) <= k)
        CTX.defs.append(z3.Sum([z3.If(e <= v, one, zero) for e in es]) >= k + 1)
        CTX.evals[i] = lambda env, xs=xs, k=k: sorted((x.eval(env) if isinstance(x, Sym) else float(x)) for x in xs)[k]
        CTX.atom_cache[key] = i
    return Sym({(CTX.atom_cache[key],): 1.0})


class Param:
    """a distribution parameter that is itself symbolic: one function family per parameter term"""

    def __init__(self, x):
        self.x = x
        self.k = (p_key(x.num), p_key(x.d))

    def __eq__(self, o):
        return isinstance(o, Param) and o.k == self.k

    def __hash__(self):
        return hash(self.k)


def _fn_eval_env(name, params):
    import scipy.stats as st
    d, f = name.split(".")
    dist = getattr(st, d)
    return lambda x, env: float(getattr(dist, f)(x, *[p.x.eval(env) if isinstance(p, Param) else p for p in params]))


def _fn_eval(name, params):
    import scipy.stats as st
    if name == "exp":
        return lambda x: math.exp(min(x, 700))
    if name == "log":
        return lambda x: math.log(x)
    if name == "ncx2nc":
        # power of a chi-square test as a function of its noncentrality
        c, df = params
        return lambda x: float(st.ncx2.sf(c, df, x)) if x > 0 else float(st.chi2.sf(c, df))
    d, f = name.split(".")
    dist = getattr(st, d)
    return lambda x: float(getattr(dist, f)(x, *params))


def floor(x, top=1 << 20):
    """integer part.  opts['floor']='atom': a bracketed atom; otherwise the path forks on the value"""
    if not isinstance(x, Sym):
        return math.floor(x)
    if all(CTX.kind[i] == "floor" for m in x.num for i in m) and x.den is None and all(float(c).is_integer() for c in x.num.values()):
        return x
    if CTX.opts.get("floor") == "atom":
        key = ("floor", p_key(x.num), p_key(x.d))
        if key not in CTX.atom_cache:
            i = CTX.newvar("floor", "floor")
            me = Sym({(i,): 1.0})
            CTX.atom_cache[key] = i
            CTX.evals[i] = lambda env, x=x: float(math.floor(x.eval(env)))
            CTX.defs.append(z3.IsInt(CTX.z[i]) if CTX.opts.get("floor_int") else z3.BoolVal(True))
            for c in ((me <= x), (x < me + 1)):
                if isinstance(c, SymBool):
                    CTX.defs.append(c.expr)
        return Sym({(CTX.atom_cache[key],): 1.0})
    if x < 0:
        k = 1
        while not (x >= -k):
            k *= 2
            if k > top:
                raise Unsupported("integer part out of range")
        lo, hi = -k, -(k // 2)
    else:
        k = 1
        while not (x < k):
            k *= 2
            if k > top:
                raise Unsupported("integer part out of range")
        lo, hi = k // 2 if k > 1 else 0, k
    while hi - lo > 1:                       # invariant lo <= x < hi
        m = (lo + hi) // 2
        if x < m:
            hi = m
        else:
            lo = m
    return lo


def trunc(x):
    if all(CTX.kind[i] == "floor" for m in x.num for i in m) and x.den is None:
        return floor(x)
    return -floor(-x) if x < 0 else floor(x)


# monotone functions: name -> (direction, lo, hi, strict lower/upper open)
MONO = {
    "exp": (+1, 0.0, None),
    "log": (+1, None, None),
    "ncx2nc": (+1, 0.0, 1.0),
}


def mk_fn(name, params, x, canon=True):
    """uninterpreted strictly monotone function atom with pairwise axioms.
    cdf is rewritten to 1 - sf, symmetric laws to the positive argument."""
    if not isinstance(x, Sym):
        return _fn_eval(name, params)(float(x))
    if name.endswith(".cdf"):
        return 1.0 - mk_fn(name[:-4] + ".sf", params, x)
    if name in ("t.sf", "norm.sf"):
        # symmetric: keep canonical orientation  sf(-x) = 1 - sf(x)
        lead = max(x.num.items(), key=lambda t: (round(math.log(abs(t[1])), 6), t[0]))[1]
        if lead < 0:
            return 1.0 - mk_fn(name, params, -x)
    if name == "exp":
        # exp(-x) kept distinct; exp(x)>0
        pass
    key = (name, params, p_key(x.num), p_key(x.d))
    if key in CTX.atom_cache:
        return Sym({(CTX.atom_cache[key],): 1.0})
    if name in MONO:
        direction, lo, hi = MONO[name]
    elif name.endswith(".sf"):
        direction, lo, hi = -1, 0.0, 1.0
    elif name.endswith(".ppf"):
        direction, lo, hi = +1, None, None
    elif name.endswith(".isf"):
        direction, lo, hi = -1, None, None
    else:
        raise Unsupported("function " + name)
    i = CTX.newvar(name, "fn", lo, hi)
    z = CTX.z[i]
    if name.endswith(".sf"):
        CTX.defs.append(z > 0)
        CTX.defs.append(z < 1)
    if name == "exp":
        CTX.defs.append(z > 0)
    if any(isinstance(p, Param) for p in params):
        f = _fn_eval_env(name, params)
        CTX.evals[i] = lambda env, x=x, f=f: f(x.eval(env), env)
    else:
        f = _fn_eval(name, params)
        CTX.evals[i] = lambda env, x=x, f=f: f(x.eval(env))
    CTX.atom_cache[key] = i
    me = Sym({(i,): 1.0})
    fam = (name.rsplit(".", 1)[0] if "." in name else name, params)
    insts = CTX.fn_insts.setdefault(fam, [])

    def zcmp(a, b):
        """z3 exprs for a<b, a==b of Sym|float"""
        d_ = a - b
        if not isinstance(d_, Sym):
            return z3.BoolVal(d_ < -1e-12), z3.BoolVal(abs(d_) <= 1e-12)
        zn = CTX.zpoly(d_.num)
        if d_.den is not None:
            sg = p_sign(d_.den)
            if sg == 0:
                zn2 = zn * CTX.zpoly(d_.den)
            else:
                zn2 = zn if sg > 0 else -zn
        else:
            zn2 = zn
        return zn2 < 0, zn == 0
    # normalise to graph points (arg, sfvalue, increasing?)
    if name.endswith(".ppf"):
        pt = (me, 1.0 - x)         # arg = me, sf(me) = 1-x
    elif name.endswith(".isf"):
        pt = (me, x)
    else:
        pt = (x, me)
    gdir = -1 if "." in name else direction
    if not insts:
        insts_anchor = []
        if name in ("exp",):
            insts_anchor = [(0.0, 1.0)]
        if fam[0] in ("t", "norm"):
            insts_anchor = std_anchors(fam)
        if name == "log":
            insts_anchor = [(1.0, 0.0)]
        if name == "ncx2nc":
            insts_anchor = [(0.0, float("%.13g" % f(0.0)))]
        insts.extend(insts_anchor)
    for (a, v) in insts:
        lt, eq = zcmp(pt[0], a)
        vlt, veq = zcmp(pt[1], v)
        gt = z3.And(z3.Not(lt), z3.Not(eq))
        vgt = z3.And(z3.Not(vlt), z3.Not(veq))
        CTX.defs.append(eq == veq)
        if gdir > 0:
            CTX.defs.append(lt == vlt)
        else:
            CTX.defs.append(lt == vgt)
    insts.append(pt)
    return me


def std_anchors(fam):
    """graph points of the tail function known in advance: 0 and the normal critical values"""
    import scipy.stats as st
    dist = getattr(st, fam[0])
    r = [(0.0, 0.5)]
    if any(isinstance(p, Param) for p in fam[1]):
        return r
    if not any(math.isnan(p) or p <= 0 for p in fam[1]):
        for a in (0.2, 0.1, 0.05, 0.01):
            c = float(st.norm.ppf(1 - a / 2))
            r.append((c, float("%.13g" % float(dist.sf(c, *fam[1])))))
    return r


def fn_anchor(name, params, arg, sfval):
    """tell the family about a concrete graph point (e.g. a concrete critical value)"""
    fam = (name.rsplit(".", 1)[0], params)
    insts = CTX.fn_insts.setdefault(fam, [])
    sfval = float("%.13g" % sfval)
    if arg > 0 and fam[0] in ("t", "norm") and CTX.opts.get("mirror_anchor"):
        fn_anchor(name, params, -arg, 1.0 - sfval)
    if not insts and fam[0] in ("t", "norm"):
        insts.extend(std_anchors(fam))
    for (a, v) in insts:
        if not isinstance(a, Sym) and abs(a - arg) < 1e-12:
            return
    for (a, v) in list(insts):
        if isinstance(a, Sym) or isinstance(v, Sym):
            lt = (a < arg) if isinstance(a, Sym) else z3.BoolVal(a < arg)
            va = v
            e1 = lt.expr if isinstance(lt, SymBool) else (lt if not isinstance(lt, bool) else z3.BoolVal(lt))
            g = (va > sfval)
            e2 = g.expr if isinstance(g, SymBool) else z3.BoolVal(bool(g))
            CTX.defs.append(e1 == e2)
            zx = lambda b: b.expr if isinstance(b, SymBool) else (b if not isinstance(b, bool) else z3.BoolVal(b))
            CTX.defs.append(zx(a > arg) == zx(va < sfval))
    insts.append((arg, sfval))


def fresh(kind, lo=None, hi=None, evalf=None):
    i = CTX.newvar(kind, kind, lo, hi)
    if evalf is not None:
        CTX.evals[i] = evalf
    return Sym({(i,): 1.0})


def lincomb(coefs, xs):
    """sum_i coefs[i]*xs[i], coefs floats, xs Sym|float; fast path for polynomials"""
    acc = {}
    rest = None
    const = 0.0
    for c, x in zip(coefs, xs):
        if c == 0:
            if not isinstance(x, Sym) and not math.isfinite(x):
                const += c * x
            continue
        if isinstance(x, Sym):
            if x.den is None:
                for m, k in x.num.items():
                    acc[m] = acc.get(m, 0.0) + c * k
            else:
                t = x * float(c)
                rest = t if rest is None else rest + t
        else:
            const += c * float(x)
    if not math.isfinite(const):
        return const
    if const:
        acc[()] = acc.get((), 0.0) + const
    r = Sym.mk(p_clean(acc))
    return r if rest is None else rest + r


def dot(a, b):
    """sum a_i*b_i with either side symbolic"""
    sa = [isinstance(x, Sym) for x in a]
    sb = [isinstance(x, Sym) for x in b]
    if not any(sa):
        return lincomb([float(x) for x in a], b)
    if not any(sb):
        return lincomb([float(x) for x in b], a)
    acc = {}
    rest = None
    for x, y in zip(a, b):
        t = x * y
        if isinstance(t, Sym) and t.den is None:
            for m, k in t.num.items():
                acc[m] = acc.get(m, 0.0) + k
        elif isinstance(t, Sym):
            rest = t if rest is None else rest + t
        else:
            acc[()] = acc.get((), 0.0) + float(t)
    c = acc.get((), 0.0)
    if not math.isfinite(c):
        return c
    r = Sym.mk(p_clean(acc))
    return r if rest is None else rest + r


def set_ctx(c):
    global CTX
    CTX = c
