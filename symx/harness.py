"""What a property harness sees: the same harness runs symbolically (SymEnv) and,
for replay, on the stock code with numbers (NumEnv)."""
import importlib
import math
import re

_NUM = r"\u27e8\d+\u27e9|(?<![\w.])[-+]?(?:\d+(?:\.\d+)?(?:[eE][-+]?\d+)?|nan|inf)"


class Case:
    """one harness instance: fn(env), executed for all values of its env.var inputs"""

    def __init__(self, name, fn, bounds="", opts=None, budget=None, max_paths=None, functions=()):
        self.name, self.fn, self.bounds = name, fn, bounds
        self.opts = opts or {}
        self.budget = budget
        self.max_paths = max_paths


class Skip(BaseException):
    """the harness decided this path is out of scope (documented precondition)"""


class _EnvBase:
    def mod(self, name):
        return importlib.import_module("diff_diff." + name)

    @property
    def dd(self):
        return importlib.import_module("diff_diff")

    def vec(self, name, n, lo=-3.0, hi=3.0):
        return [self.var("%s%d" % (name, i), lo, hi) for i in range(n)]

    def eqs(self, label, xs, ys, tol=1e-6):
        xs, ys = list(xs), list(ys)
        self.true(label + ".len", len(xs) == len(ys))
        for i, (a, b) in enumerate(zip(xs, ys)):
            self.eq("%s[%d]" % (label, i), a, b, tol)

    def raises(self, label, exc, f, *a, **k):
        """f must raise exc"""
        try:
            f(*a, **k)
        except exc:
            self.true(label, True)
        else:
            self.true(label, False)

    def numbers(self, text):
        """the numbers printed in a text, in order: (value, decimals).  Percentages count as printed."""
        out = []
        for m in re.finditer(_NUM, text):
            w = m.group(0)
            if w[0] == "\u27e8":
                x, spec = self._token(int(w[1:-1]))
                d = re.search(r"\.(\d+)([f%eg]?)", spec)
                out.append((x * 100 if spec.endswith("%") else x, int(d.group(1)) if d else None))
            else:
                out.append((float(w), len(w.split(".")[1]) if "." in w else 0))
        return out

    def printed(self, label, item, want):
        """the printed number is the stored one, up to its last digit"""
        x, d = item
        if self.issym(x):
            return self.eq(label, x, want, tol=1e-4)
        if self.issym(want):
            return self.eq(label, x, want, tol=1e-4)
        want = float(want)
        if want != want or x != x or abs(want) == math.inf:
            return self.true(label, (x != x and want != want) or x == want)
        ok = abs(x - want) <= 0.5000001 * 10.0 ** -(d or 0) + 1e-9
        self.eq(label, want if ok else x + 1.0, want)

    def isnan(self, label, x):
        self.true(label, (not self.issym(x)) and x is not None and math.isnan(float(x)))

    def fake_rng(self, tag="w", seed=0, lo=-2.0, hi=2.0, concrete=False):
        """every generator the code creates from here on has symbolic float draws"""
        made = []

        def factory(sd=None):
            r = FakeRNG(self, "%s%d_" % (tag, len(made)), seed + len(made), lo, hi, concrete=concrete)
            r.seed_arg = sd
            made.append(r)
            return r
        self.set_rng(factory)
        return made

    def count(self, conds):
        """number of true conditions, without forking"""
        t = 0.0
        for c in conds:
            t = t + c
        return t

    def close(self):
        pass

    def finite(self, label, x):
        self.true(label, self.issym(x) or (x is not None and math.isfinite(float(x))))

    def nanval(self, x):
        return (not self.issym(x)) and math.isnan(float(x))


class NumEnv(_EnvBase):
    mode = "num"

    def __init__(self, values):
        import numpy
        import pandas
        self.np, self.pd = numpy, pandas
        self.values = values
        self.checks = []
        self.reached = 0

    def issym(self, x):
        return False

    def var(self, name, lo=-3.0, hi=3.0):
        v = self.values.get(name)
        if v is None:
            v = (lo + hi) / 2.0
        return float(v)

    def eq(self, label, a, b, tol=1e-6, away=()):
        """a == b; away: quantities whose sign decides a discontinuity, points where
        one of them is within 1e-5 of zero are outside the claim"""
        a, b = float(a), float(b)
        if any(abs(float(x)) < 1e-5 for x in away):
            self.checks.append((label, True, a, b))
            return
        if math.isnan(a) or math.isnan(b):
            ok = math.isnan(a) and math.isnan(b)
        elif math.isinf(a) or math.isinf(b):
            ok = a == b
        else:
            ok = abs(a - b) <= max(tol, 1e-6) * (1.0 + max(abs(a), abs(b)))
        self.checks.append((label, bool(ok), a, b))

    def le(self, label, a, b, tol=1e-6):
        a, b = float(a), float(b)
        ok = not math.isnan(a) and not math.isnan(b) and a <= b + max(tol, 1e-6) * (1.0 + max(abs(a), abs(b)) if math.isfinite(a) and math.isfinite(b) else 1)
        self.checks.append((label, bool(ok), a, b))

    def lt(self, label, a, b):
        a, b = float(a), float(b)
        self.checks.append((label, bool(a < b), a, b))

    def true(self, label, cond):
        self.checks.append((label, bool(cond), float(bool(cond)), 1.0))

    def iff(self, label, p, q, margin=None):
        # margin: |quantity| below which both sides are on the decision boundary
        if margin is not None and abs(float(margin)) < 1e-7:
            return
        self.checks.append((label, bool(p) == bool(q), float(bool(p)), float(bool(q))))

    def assume(self, cond, why=""):
        if not bool(cond):
            raise Skip(why)

    def gt(self, a, b):
        return a > b

    def any_of(self, *cs):
        cs = cs[0] if len(cs) == 1 and isinstance(cs[0], (list, tuple)) else cs
        return any(bool(c) for c in cs)

    def all_of(self, *cs):
        cs = cs[0] if len(cs) == 1 and isinstance(cs[0], (list, tuple)) else cs
        return all(bool(c) for c in cs)

    def value(self, x):
        return float(x)

    def rat(self, x):
        return float(x)

    def concrete(self, x):
        return float(x)

    def note(self, s):
        pass

    def opts(self, **k):
        pass

    def ostat(self, xs, q):
        import numpy
        return float(numpy.percentile([float(x) for x in xs], q * 100))

    def set_rng(self, factory):
        import numpy
        if not hasattr(self, "_saved_rng"):
            self._saved_rng = numpy.random.default_rng
        numpy.random.default_rng = factory

    def close(self):
        if hasattr(self, "_saved_rng"):
            import numpy
            numpy.random.default_rng = self._saved_rng


class FakeRNG:
    """random generator whose float-valued draws are solver variables (or a script);
    integer draws (resampling) come from a concrete seeded generator"""

    def __init__(self, env, tag, seed=0, lo=-2.0, hi=2.0, log=None, concrete=False):
        import numpy
        self.concrete, self.drawn, self.picks = concrete, [], []
        self.env, self.tag, self.k = env, tag, 0
        self.lo, self.hi = lo, hi
        self.real = numpy.random.Generator(numpy.random.PCG64(seed))
        self.log = log if log is not None else []

    def _draw(self, size, lo=None, hi=None):
        import numpy
        lo = self.lo if lo is None else lo
        hi = self.hi if hi is None else hi
        if size is None:
            self.k += 1
            return self.env.var("%s%d" % (self.tag, self.k - 1), lo, hi)
        shape = (int(size),) if not isinstance(size, tuple) else tuple(int(x) for x in size)
        n = 1
        for x in shape:
            n *= x
        xs = [self.env.var("%s%d" % (self.tag, self.k + i), lo, hi) for i in range(n)]
        self.k += n
        self.drawn.extend(xs)
        a = self.env.np.array(xs)
        return a.reshape(shape)

    def choice(self, a, size=None, replace=True, p=None, **k):
        import numpy
        self.log.append(("choice", a, size, replace, p))
        arr = numpy.asarray(a) if not numpy.isscalar(a) else None
        if self.concrete:
            r = self.real.choice(a, size=size, replace=replace, p=p)
            if arr is not None and arr.dtype.kind == "f":
                self.drawn.extend(numpy.ravel(r))
            return r
        if arr is not None and arr.dtype.kind == "f" and replace:
            return self._draw(size, float(arr.min()), float(arr.max()))
        r = self.real.choice(a, size=size, replace=replace, p=p)
        self.picks.append(r)
        return r

    def permutation(self, x, **k):
        r = self.real.permutation(x, **k)
        self.picks.append(r)
        return r

    def normal(self, loc=0.0, scale=1.0, size=None):
        self.log.append(("normal", loc, scale, size))
        return self._draw(size) * scale + loc

    def standard_normal(self, size=None, **k):
        return self.normal(0.0, 1.0, size)

    def uniform(self, low=0.0, high=1.0, size=None):
        self.log.append(("uniform", low, high, size))
        return self._draw(size, 0.0, 1.0) * (high - low) + low

    def random(self, size=None):
        return self._draw(size, 0.0, 1.0)

    def __getattr__(self, n):
        return getattr(self.real, n)


def sym_env(ctx):
    from . import nd, sym
    import pandas

    class SymEnv(_EnvBase):
        mode = "sym"

        def __init__(self):
            self.np, self.pd = nd.NP, pandas
            self.ctx = ctx

        def _token(self, k):
            return sym.FORMATS[k]

        def issym(self, x):
            return isinstance(x, (sym.Sym, sym.SymBool))

        def var(self, name, lo=-3.0, hi=3.0):
            return ctx.input(name, lo, hi)

        def _sc(self, x):
            import numpy as np
            if isinstance(x, np.ndarray):
                if x.size != 1:
                    raise ValueError("scalar expected")
                x = x.ravel()[0]
            if isinstance(x, sym.SymBool):
                return 1.0 if bool(x) else 0.0
            return x if isinstance(x, sym.Sym) else float(x)

        def eq(self, label, a, b, tol=1e-6, away=()):
            away = [x for x in (self._sc(x) for x in away) if isinstance(x, sym.Sym) or abs(x) < 1e-5]
            ctx.checks.append({"label": label, "kind": "eq", "a": self._sc(a), "b": self._sc(b), "tol": max(tol, 1e-6), "away": away})

        def le(self, label, a, b, tol=1e-6):
            ctx.checks.append({"label": label, "kind": "le", "a": self._sc(a), "b": self._sc(b), "tol": max(tol, 1e-6)})

        def lt(self, label, a, b):
            self.true(label, a < b)

        def true(self, label, cond):
            ctx.checks.append({"label": label, "kind": "cond", "cond": cond if isinstance(cond, sym.SymBool) else bool(cond)})

        def iff(self, label, p, q, margin=None):
            import z3
            zp = p.expr if isinstance(p, sym.SymBool) else z3.BoolVal(bool(p))
            zq = q.expr if isinstance(q, sym.SymBool) else z3.BoolVal(bool(q))

            def num(e):
                a = p.num(e) if isinstance(p, sym.SymBool) else bool(p)
                b = q.num(e) if isinstance(q, sym.SymBool) else bool(q)
                return a == b
            ex = zp == zq
            if margin is not None:
                m = margin
                if isinstance(m, sym.Sym):
                    big = (m > 1e-6)
                    sml = (m < -1e-6)
                    def zz(v):
                        return v.expr if isinstance(v, sym.SymBool) else z3.BoolVal(bool(v))
                    ex = z3.Or(ex, z3.Not(z3.Or(zz(big), zz(sml))))
                    n0 = num
                    num = lambda e: n0(e) or abs(m.eval(e)) <= 1e-6
            ctx.checks.append({"label": label, "kind": "cond", "cond": sym.SymBool(ex, num)})

        def assume(self, cond, why=""):
            if isinstance(cond, sym.SymBool):
                ctx.assume(cond, why)
                if getattr(self, "_nofeas", None) is None:
                    pass
            elif not bool(cond):
                raise Skip(why)

        def any_of(self, *cs):
            cs = cs[0] if len(cs) == 1 and isinstance(cs[0], (list, tuple)) else cs
            r = False
            for c in cs:
                r = c | r if isinstance(c, sym.SymBool) else (r | c if isinstance(r, sym.SymBool) else (bool(r) or bool(c)))
            return r

        def all_of(self, *cs):
            cs = cs[0] if len(cs) == 1 and isinstance(cs[0], (list, tuple)) else cs
            r = True
            for c in cs:
                r = c & r if isinstance(c, sym.SymBool) else (r & c if isinstance(r, sym.SymBool) else (bool(r) and bool(c)))
            return r

        def value(self, x):
            return self._sc(x)

        def note(self, s):
            ctx.notes.append(s)

        def ostat(self, xs, q):
            return nd.percentile_list(q)(list(xs))

        def set_rng(self, factory):
            ctx.opts["rng_factory"] = factory

        def opts(self, **k):
            ctx.opts.update(k)

    return SymEnv()
