"""scipy stand-ins.  Concrete arguments go to the real scipy; symbolic ones become
uninterpreted-function atoms or contract stubs (listed in the evidence)."""
import math
import types
import numpy as rnp
import scipy
import scipy.linalg
import scipy.optimize
import scipy.special
import scipy.stats
from . import sym, nd
from .sym import Sym, SymBool, Unsupported
from .nd import is_sym, SymNd, deobj, has_sym, to_obj, emap


def sym_int(x):
    h = sym.CTX.opts.get("int_stub")
    if h is not None:
        return h(x)
    return sym.trunc(x)


def _c(x):
    """concrete view of an argument (float array / scalar)"""
    if isinstance(x, rnp.ndarray):
        return deobj(x)
    return x


def _syms(*a):
    return any(is_sym(x) or (isinstance(x, rnp.ndarray) and x.dtype == nd.OBJ and has_sym(x)) or
               type(x).__name__ in ("Series", "SymArray") and str(getattr(x, "dtype", "")) == "sym" for x in a)


class Dist:
    """norm / t with sf, cdf, ppf, isf"""

    def __init__(self, name, nparams):
        self._n = name
        self._np = nparams
        self._real = getattr(scipy.stats, name)

    def _call(self, f, x, *params, **kw):
        if kw:
            if "df" in kw:
                params = (kw.pop("df"),) + params
            loc = kw.pop("loc", 0)
            scale = kw.pop("scale", 1)
            if kw:
                raise Unsupported("stats.%s.%s(%s)" % (self._n, f, list(kw)))
        else:
            loc, scale = 0, 1
            if len(params) > self._np:
                rest = params[self._np:]
                params = params[:self._np]
                loc = rest[0]
                scale = rest[1] if len(rest) > 1 else 1
        if any(is_sym(p) for p in params):
            # one uninterpreted tail function per parameter term (tail functions only)
            if f not in ("cdf", "sf") or self._n != "t" or not is_sym(x):
                raise Unsupported("symbolic distribution parameter")
            sym.CTX.assumptions.append("symbolic degrees of freedom are positive")
            params = tuple(sym.Param(p) if is_sym(p) else float(p) for p in params)
        else:
            params = tuple(float(p) for p in params)

        def one(x):
            if f in ("cdf", "sf"):
                y = (x - loc) / scale if (is_sym(loc) or is_sym(scale) or loc != 0 or scale != 1) else x
                if not is_sym(y):
                    return float(getattr(self._real, f)(float(y), *params))
                if any(not isinstance(p, sym.Param) and (math.isnan(p) or p <= 0) for p in params):
                    return float("nan")
                return sym.mk_fn("%s.%s" % (self._n, f), params, y)
            if f in ("ppf", "isf"):
                if not is_sym(x):
                    v = float(getattr(self._real, f)(float(x), *params))
                    if math.isfinite(v):
                        sym.fn_anchor("%s.sf" % self._n, params, v, (1.0 - float(x)) if f == "ppf" else float(x))
                else:
                    v = sym.mk_fn("%s.%s" % (self._n, f), params, x)
                return v * scale + loc if (is_sym(loc) or is_sym(scale) or loc != 0 or scale != 1) else v
            if f == "pdf" and not is_sym(x):
                return float(self._real.pdf(float(x), *params, loc=loc, scale=scale))
            raise Unsupported("stats.%s.%s" % (self._n, f))
        if hasattr(x, "to_numpy"):
            x = x.to_numpy()
        if isinstance(x, (rnp.ndarray, list)):
            return emap(one, nd.to_obj(x)) if _syms(x) or isinstance(x, SymNd) else getattr(self._real, f)(x, *params, loc=loc, scale=scale)
        return one(x)

    def __getattr__(self, f):
        if f in ("sf", "cdf", "ppf", "isf", "pdf"):
            return lambda x, *p, **k: self._call(f, x, *p, **k)
        real = getattr(self._real, f)
        return _guard(real, "stats.%s.%s" % (self._n, f))

    def interval(self, confidence, *a, **k):
        lo, hi = (1.0 - confidence) / 2, (1.0 + confidence) / 2
        return self.ppf(lo, *a, **k), self.ppf(hi, *a, **k)

    def __call__(self, *a, **k):
        return Frozen(self, a, k)


class Frozen:
    """a distribution with its parameters fixed"""

    def __init__(self, dist, a, k):
        self._d, self._a, self._k = dist, a, k

    def __getattr__(self, f):
        if f.startswith("__"):
            raise AttributeError(f)
        if f in ("sf", "cdf", "ppf", "isf", "pdf", "interval"):
            return lambda x: getattr(self._d, f)(x, *self._a, **self._k)
        if _syms(*self._a, *self._k.values()):
            raise Unsupported("frozen distribution")
        return _guard(getattr(self._d._real(*self._a, **self._k), f), "stats.%s.%s" % (self._d._n, f))


def _guard(real, name):
    if not callable(real) or isinstance(real, type):
        return real

    def f(*a, **k):
        if _syms(*a) or _syms(*k.values()):
            h = sym.CTX.opts.get("stub:" + name) if sym.CTX is not None else None
            if h is not None:
                return h(*a, **k)
            raise Unsupported(name)
        return real(*[_c(x) for x in a], **{q: _c(v) for q, v in k.items()})
    return f


class _Mod(types.ModuleType):
    def __init__(self, name, real, over):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        r = getattr(self._real, n)
        if isinstance(r, (scipy.stats.rv_continuous,)):
            return Dist(n, r.numargs)
        return _guard(r, self.__name__.replace("scipy.", "") + "." + n)


class NoncentralChi2:
    """ncx2 with a concrete quantile and degrees of freedom; symbolic noncentrality"""

    def _tail(self, x, df, nc):
        if not _syms(x, df, nc):
            return float(scipy.stats.ncx2.sf(float(x), float(df), float(nc)))
        if _syms(x, df):
            raise Unsupported("ncx2 with symbolic quantile")
        return sym.mk_fn("ncx2nc", (float(x), float(df)), nc)

    def sf(self, x, df, nc):
        return self._tail(x, df, nc)

    def cdf(self, x, df, nc):
        return 1.0 - self._tail(x, df, nc) if _syms(nc) else float(scipy.stats.ncx2.cdf(float(x), float(df), float(nc)))

    def __getattr__(self, f):
        return _guard(getattr(scipy.stats.ncx2, f), "stats.ncx2." + f)


STATS = _Mod("scipy.stats", scipy.stats, {"norm": Dist("norm", 0), "t": Dist("t", 1), "ncx2": NoncentralChi2()})


def s_lstsq(a, b, cond=None, *x, **k):
    ca, cb = deobj(nd.to_obj(a)), deobj(nd.to_obj(b))
    if not isinstance(ca, SymNd) and not isinstance(cb, SymNd):
        return scipy.linalg.lstsq(ca, cb, cond, *x, **k)
    if not isinstance(ca, SymNd):
        A = rnp.asarray(ca, dtype=float)
        if cond is None:
            cond = rnp.finfo(float).eps * max(A.shape)
        s = scipy.linalg.svdvals(A)
        P = rnp.linalg.pinv(A, rcond=max(cond, 1e-13))
        P[abs(P) < 1e-13] = 0
        return nd.matmul(P, cb), rnp.array([]), int((s > cond * s[0]).sum()), s
    return nd.LINALG.lstsq(ca, cb)


def s_qr(a, *x, **k):
    ca = deobj(nd.to_obj(a))
    if isinstance(ca, SymNd):
        if not k.get("pivoting"):
            raise Unsupported("qr symbolic")
        sym.CTX.assumptions.append("generic position: rank of a symbolic design decided at a generic point")
        return scipy.linalg.qr(nd.generic_point(ca), *x, **k)
    return scipy.linalg.qr(rnp.asarray(ca, dtype=float), *x, **k)


def s_solve(a, b, *x, **k):
    return nd.LINALG.solve(a, b)


SLINALG = _Mod("scipy.linalg", scipy.linalg, {"lstsq": s_lstsq, "qr": s_qr, "solve": s_solve,
                                               "inv": lambda a, *x, **k: nd.LINALG.inv(a),
                                               "pinv": lambda a, *x, **k: nd.LINALG.pinv(a)})


def _hook(name, real):
    def f(*a, **k):
        h = sym.CTX.opts.get("stub:optimize." + name) if sym.CTX is not None else None
        if h is not None:
            return h(*a, **k)
        try:
            return real(*[_c(x) for x in a], **{q: _c(v) for q, v in k.items()})
        except Unsupported:
            raise
        except (TypeError, ValueError) as e:
            if "symbolic" in str(e) or "Sym" in str(e):
                raise Unsupported("optimize." + name)
            raise
    return f


OPTIMIZE = _Mod("scipy.optimize", scipy.optimize, {n: _hook(n, getattr(scipy.optimize, n)) for n in
                                                    ("linprog", "brentq", "minimize", "minimize_scalar", "root_scalar", "bisect", "fsolve")})
SPECIAL = _Mod("scipy.special", scipy.special, {
    "ndtr": lambda x: STATS.norm.cdf(x), "ndtri": lambda p: STATS.norm.ppf(p),
    "stdtr": lambda df, x: STATS.t.cdf(x, df), "stdtrit": lambda df, p: STATS.t.ppf(p, df)})
SCIPY = _Mod("scipy", scipy, {"stats": STATS, "linalg": SLINALG, "optimize": OPTIMIZE, "special": SPECIAL})
