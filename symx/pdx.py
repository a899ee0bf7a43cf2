"""Symbolic columns for pandas: an ExtensionArray of Sym plus process-local adaptations.

Only the checking process loads this; the replay process uses stock pandas.
"""
import numbers
import numpy as np
import pandas as pd
from pandas.api.extensions import ExtensionArray, ExtensionDtype, register_extension_dtype
from pandas.core.dtypes.common import is_list_like
from . import sym
from .sym import Sym, SymBool, Unsupported
from . import nd
from .nd import SymNd, is_sym, has_sym, to_obj


@register_extension_dtype
class SymDtype(ExtensionDtype):
    name = "sym"
    type = object
    kind = "O"
    na_value = float("nan")
    _is_numeric = True

    @classmethod
    def construct_array_type(cls):
        return SymArray

    @classmethod
    def construct_from_string(cls, s):
        if s == "sym":
            return cls()
        raise TypeError("not sym")

    def _get_common_dtype(self, dtypes):
        ok = all(isinstance(d, SymDtype) or (isinstance(d, np.dtype) and d.kind in "iufb") for d in dtypes)
        return self if ok else None


def _obj1(xs):
    out = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        out[i] = float("nan") if x is None or x is pd.NA else x
    return out


class SymArray(ExtensionArray):
    __array_priority__ = 2000

    def __init__(self, d):
        self._d = np.asarray(d, dtype=object).view(np.ndarray)

    @classmethod
    def _from_sequence(cls, scalars, dtype=None, copy=False):
        if isinstance(scalars, SymArray):
            return cls(scalars._d.copy() if copy else scalars._d)
        if isinstance(scalars, np.ndarray):
            return cls(scalars.astype(object))
        return cls(_obj1(list(scalars)))

    @classmethod
    def _from_factorized(cls, values, original):
        return cls(values)

    @property
    def dtype(self):
        return SymDtype()

    @property
    def nbytes(self):
        return self._d.nbytes

    def __len__(self):
        return len(self._d)

    def __getitem__(self, item):
        item = pd.api.indexers.check_array_indexer(self, item) if not isinstance(item, (int, np.integer, slice, tuple, type(Ellipsis))) else item
        if isinstance(item, tuple):
            item = tuple(i for i in item if i is not Ellipsis)
            item = item[0] if len(item) == 1 else item
            if isinstance(item, tuple) and not item:
                return SymArray(self._d)
        if item is Ellipsis:
            return SymArray(self._d)
        r = self._d[item]
        return SymArray(r) if isinstance(r, np.ndarray) else r

    def __setitem__(self, key, value):
        if isinstance(key, (SymArray,)):
            raise Unsupported("symbolic key")
        key = pd.api.indexers.check_array_indexer(self, key)
        if isinstance(value, SymArray):
            value = value._d
        elif is_list_like(value):
            value = _obj1(list(value))
        elif value is None or value is pd.NA:
            value = float("nan")
        if is_sym(value) and isinstance(key, np.ndarray):
            for i in np.arange(len(self._d))[key]:
                self._d[i] = value
        else:
            self._d[key] = value

    def isna(self):
        return np.array([False if is_sym(x) else bool(np.isnan(x)) for x in self._d], dtype=bool)

    def take(self, indices, allow_fill=False, fill_value=None):
        from pandas.api.extensions import take
        if allow_fill and (fill_value is None or fill_value is pd.NA):
            fill_value = float("nan")
        return SymArray(take(self._d, np.asarray(indices), fill_value=fill_value, allow_fill=allow_fill))

    def copy(self):
        return SymArray(self._d.copy())

    @classmethod
    def _concat_same_type(cls, arrs):
        return cls(np.concatenate([a._d for a in arrs]))

    def astype(self, dtype, copy=True):
        dt = pd.api.types.pandas_dtype(dtype)
        if isinstance(dt, SymDtype):
            return self.copy() if copy else self
        if isinstance(dt, np.dtype):
            if not has_sym(self._d):
                return self._d.astype(float).astype(dt)
            if dt.kind in "fO":
                # keeps the symbolic column: a float column with unknown values
                return self.copy() if dt.kind == "f" else self._d.copy()
            if dt.kind == "b":
                return np.array([bool(x) for x in self._d])
            if dt.kind in "iu":
                raise Unsupported("integer cast of a symbolic column")
        return super().astype(dtype, copy)

    def to_numpy(self, dtype=None, copy=False, na_value=None):
        if dtype is not None and np.dtype(dtype).kind == "f" and not has_sym(self._d):
            return self._d.astype(dtype)
        return self._d.copy().view(SymNd)

    def __array__(self, dtype=None, copy=None):
        if dtype is not None and np.dtype(dtype).kind == "f" and not has_sym(self._d):
            return self._d.astype(dtype)
        return self._d.copy()

    def _formatter(self, boxed=False):
        return lambda x: repr(x)

    def unique(self):
        raise Unsupported("unique of a symbolic column")

    def factorize(self, use_na_sentinel=True):
        if has_sym(self._d):
            raise Unsupported("factorize of a symbolic column")
        codes, u = pd.factorize(self._d.astype(float), use_na_sentinel=use_na_sentinel)
        return codes, SymArray(u.astype(object))

    def _values_for_argsort(self):
        return self._d

    def argsort(self, *, ascending=True, kind="quicksort", na_position="last", **k):
        idx = nd.argsort_list(list(self._d))
        if not ascending:
            nn = int(self.isna().sum())
            body = idx[:len(idx) - nn][::-1]
            idx = body + idx[len(idx) - nn:]
        return np.array(idx, dtype=np.intp)

    # arithmetic -------------------------------------------------------------
    def _bin(self, o, f, cmp=False):
        if isinstance(o, (pd.Series, pd.DataFrame, pd.Index)):
            return NotImplemented
        if isinstance(o, SymArray):
            ol = list(o._d)
        elif isinstance(o, np.ndarray) and o.ndim == 1:
            ol = list(o)
        elif isinstance(o, ExtensionArray):
            ol = [float("nan") if x is pd.NA else x for x in o]
        elif is_list_like(o) and not is_sym(o):
            ol = list(o)
        else:
            ol = [o] * len(self._d)
        if len(ol) != len(self._d):
            raise ValueError("Lengths must match")
        out = [f(a, b) for a, b in zip(self._d, ol)]
        if cmp:
            return np.array([bool(x) for x in out], dtype=bool)
        return SymArray(_obj1(out))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._bin(o, nd._div)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: nd._div(b, a))
    def __pow__(self, o): return self._bin(o, nd.BIN["power"])
    def __neg__(self): return SymArray(_obj1([-x for x in self._d]))
    def __abs__(self): return SymArray(_obj1([abs(x) for x in self._d]))
    def __lt__(self, o): return self._bin(o, lambda a, b: a < b, True)
    def __le__(self, o): return self._bin(o, lambda a, b: a <= b, True)
    def __gt__(self, o): return self._bin(o, lambda a, b: a > b, True)
    def __ge__(self, o): return self._bin(o, lambda a, b: a >= b, True)
    def __eq__(self, o): return self._bin(o, lambda a, b: a == b, True)
    def __ne__(self, o): return self._bin(o, lambda a, b: a != b, True)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        for x in inputs:
            if isinstance(x, (pd.Series, pd.DataFrame, pd.Index)):
                return NotImplemented
        ins = [x._d.view(SymNd) if isinstance(x, SymArray) else x for x in inputs]
        ins = [to_obj(x) if isinstance(x, np.ndarray) else x for x in ins]
        r = SymNd.__array_ufunc__(ins[0], ufunc, method, *ins, **kw)
        if isinstance(r, np.ndarray) and r.dtype == nd.OBJ and r.ndim == 1:
            return SymArray(r)
        return r

    # reductions ---------------------------------------------------------------
    def _red(self, name, xs, skipna=True, ddof=1, min_count=0, **kw):
        if skipna:
            xs = nd.drop_nan(list(xs))
        elif any(nd._s_isnan(x) for x in xs):
            return float("nan")
        n = len(xs)
        if name == "sum":
            return nd._sum_list(xs) if n >= min_count else float("nan")
        if name == "count":
            return n
        if name == "mean":
            return nd._mean_list(xs)
        if name == "var":
            return nd._var_list(ddof)(xs)
        if name == "std":
            return nd._s_sqrt(nd._var_list(ddof)(xs))
        if name == "sem":
            v = nd._var_list(ddof)(xs)
            return nd._s_sqrt(v / n) if n else float("nan")
        if name in ("min", "max"):
            if not n:
                return float("nan")
            return nd._max_list(xs) if name == "max" else nd._min_list(xs)
        if name == "median":
            return nd.percentile_list(0.5)(xs) if n else float("nan")
        if name == "any":
            return any(bool(x) for x in xs)
        if name == "all":
            return all(bool(x) for x in xs)
        if name == "prod":
            return nd._prod_list(xs)
        raise Unsupported("reduction " + name)

    def _reduce(self, name, *, skipna=True, keepdims=False, **kw):
        kw.pop("numeric_only", None)
        r = self._red(name, list(self._d), skipna=skipna, **kw)
        if keepdims:
            return SymArray(_obj1([r]))
        return r

    def _quantile(self, qs, interpolation):
        xs = nd.drop_nan(list(self._d))
        return SymArray(_obj1([nd.percentile_list(float(q))(xs) if xs else float("nan") for q in qs]))

    def _accumulate(self, name, *, skipna=True, **kw):
        if name == "cumsum":
            out, acc = [], 0.0
            for x in self._d:
                if nd._s_isnan(x):
                    out.append(float("nan"))
                else:
                    acc = acc + x
                    out.append(acc)
            return SymArray(_obj1(out))
        raise Unsupported("accumulate " + name)

    def _groupby_op(self, *, how, has_dropped_na, min_count, ngroups, ids, **kw):
        ids = np.asarray(ids)
        groups = [[] for _ in range(ngroups)]
        for i, g in enumerate(ids):
            if g >= 0:
                groups[g].append(self._d[i])
        if how in ("sum", "mean", "var", "std", "sem", "min", "max", "median", "prod"):
            ddof = kw.get("ddof", 1)
            mc = min_count if min_count is not None and min_count > 0 else 0
            vals = [self._red(how, g, ddof=ddof, min_count=mc) for g in groups]
            return SymArray(_obj1(vals))
        if how in ("first", "last"):
            vals = []
            for g in groups:
                g = nd.drop_nan(g)
                vals.append(float("nan") if not g else (g[0] if how == "first" else g[-1]))
            return SymArray(_obj1(vals))
        if how in ("any", "all"):
            f = any if how == "any" else all
            return np.array([f(bool(x) for x in nd.drop_nan(g)) for g in groups])
        if how == "cumsum":
            acc = {}
            out = []
            for i, g in enumerate(ids):
                x = self._d[i]
                if nd._s_isnan(x):
                    out.append(float("nan"))
                    continue
                acc[g] = acc.get(g, 0.0) + x
                out.append(acc[g])
            return SymArray(_obj1(out))
        raise Unsupported("groupby " + how)

    def map(self, mapper, na_action=None):
        vals = [mapper(x) if callable(mapper) else mapper[x] for x in self._d]
        return _box(vals)

    def value_counts(self, dropna=True):
        raise Unsupported("value_counts of symbolic")

    def isin(self, values):
        return np.array([any(bool(x == v) for v in values) for x in self._d])


def _box(vals):
    if any(is_sym(v) for v in vals):
        return SymArray(_obj1(list(vals)))
    return np.asarray(vals)


def _numericlike(x):
    return is_sym(x) or x is None or x is pd.NA or isinstance(x, (numbers.Number, np.bool_))


def arrayify(data):
    """object data that contains Sym and only numbers -> SymArray; else unchanged"""
    if isinstance(data, SymArray):
        return data
    if isinstance(data, np.ndarray):
        if data.dtype == nd.OBJ and data.ndim == 1:
            l = list(data)
            if type(data) is SymNd and l and all(_numericlike(x) for x in l):
                if not any(is_sym(x) for x in l) and not all(isinstance(x, float) for x in l):
                    return data
                return SymArray(_obj1([float(x) if isinstance(x, SymBool) else x for x in l]))
            if any(is_sym(x) for x in l) and all(_numericlike(x) for x in l):
                return SymArray(_obj1(l))
        return data
    if isinstance(data, (list, tuple)) and any(is_sym(x) for x in data) and all(_numericlike(x) for x in data):
        return SymArray(_obj1(list(data)))
    return data


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import pandas.core.construction as con
    import pandas.core.internals.construction as icon
    import pandas.core.series as ser
    import pandas.core.frame as fr
    orig = con.sanitize_array

    def sanitize_array(data, index, dtype=None, copy=False, **k):
        d2 = arrayify(data)
        if is_sym(data) and index is not None:
            d2 = SymArray(_obj1([data] * len(index)))
        if isinstance(d2, SymArray):
            if dtype is not None and not isinstance(dtype, SymDtype):
                dtype = None if np.dtype(dtype).kind in "fO" else dtype
            if index is not None and len(d2) == 1 and len(index) != 1:
                d2 = SymArray(_obj1([d2._d[0]] * len(index)))
            if isinstance(dtype, np.dtype) or dtype is None:
                return d2.copy() if copy else d2
        return orig(data, index, dtype=dtype, copy=copy, **k)
    import sys
    for mname in list(sys.modules):
        if mname.startswith("pandas."):
            m = sys.modules[mname]
            if getattr(m, "sanitize_array", None) is orig:
                m.sanitize_array = sanitize_array

    # 2-D symbolic arrays in the DataFrame constructor
    oinit = pd.DataFrame.__init__

    def init(self, data=None, index=None, columns=None, dtype=None, copy=None):
        if isinstance(data, np.ndarray) and data.dtype == nd.OBJ and data.ndim == 2 and (type(data) is SymNd or has_sym(data)):
            cols = columns if columns is not None else range(data.shape[1])
            cols = list(cols)
            dct = {i: arrayify(np.asarray(data[:, i]).view(SymNd)) for i in range(data.shape[1])}
            oinit(self, dct, index=index)
            self.columns = pd.Index(cols) if not isinstance(columns, pd.Index) else columns
            return
        if isinstance(data, list) and data and isinstance(data[0], dict) and any(is_sym(v) for r in data for v in r.values()):
            keys = []
            for r in data:
                for k in r:
                    if k not in keys:
                        keys.append(k)
            dct = {k: [r.get(k, float("nan")) for r in data] for k in keys}
            for k in keys:
                if any(is_sym(v) for v in dct[k]):
                    dct[k] = arrayify(dct[k])
            oinit(self, dct, index=index, columns=columns)
            return
        if isinstance(data, dict):
            data = {k: (SymArray(_obj1([v])) if is_sym(v) and index is None and all(is_list_like(x) is False for x in data.values()) else v) for k, v in data.items()}
        oinit(self, data, index=index, columns=columns, dtype=dtype, copy=copy)
    pd.DataFrame.__init__ = init

    # .values / .to_numpy give SymNd
    oval = pd.Series.values.fget

    def sval(self):
        v = oval(self)
        if isinstance(v, SymArray):
            return v.to_numpy()
        return v
    pd.Series.values = property(sval)
    ofv = pd.DataFrame.values.fget

    def fval(self):
        v = ofv(self)
        if isinstance(v, np.ndarray) and v.dtype == nd.OBJ and has_sym(v):
            return v.copy().view(SymNd)
        return v
    pd.DataFrame.values = property(fval)
    oton = pd.DataFrame.to_numpy

    def fton(self, dtype=None, copy=False, na_value=None):
        if any(isinstance(dt, SymDtype) for dt in self.dtypes):
            v = ofv(self)
            return v.copy().view(SymNd)
        if na_value is None:
            return oton(self, dtype=dtype, copy=copy)
        return oton(self, dtype=dtype, copy=copy, na_value=na_value)
    pd.DataFrame.to_numpy = fton

    # a cell assignment of a Sym into a float column upgrades the column
    import pandas.core.internals.blocks as blocks
    osi = blocks.Block.setitem

    def setitem(self, indexer, value):
        if has_sym(value) or isinstance(value, SymArray):
            if self.values.ndim == 2 and self.values.shape[0] == 1 and isinstance(self.values, np.ndarray):
                raise _NeedUpgrade()
        return osi(self, indexer, value)

    import pandas.core.indexing as pidx
    osetloc = pidx._LocIndexer.__setitem__

    def _upgrade(obj, key, value):
        if not (is_sym(value) or isinstance(value, SymArray) or (isinstance(value, pd.Series) and isinstance(value.dtype, SymDtype))
                or (isinstance(value, np.ndarray) and has_sym(value))):
            return
        if isinstance(obj, pd.DataFrame) and isinstance(key, tuple) and len(key) == 2:
            cols = key[1] if isinstance(key[1], (list, pd.Index)) else [key[1]]
            for c in cols:
                try:
                    if c in obj.columns and not isinstance(obj[c].dtype, SymDtype):
                        obj[c] = SymArray(_obj1(list(obj[c])))
                    elif c not in obj.columns:
                        obj[c] = SymArray(_obj1([float("nan")] * len(obj)))
                except TypeError:
                    pass

    def setloc(self, key, value):
        _upgrade(self.obj, key, value)
        return osetloc(self, key, value)
    pidx._LocIndexer.__setitem__ = setloc
    if "__setitem__" in pidx._AtIndexer.__dict__:
        osetat = pidx._AtIndexer.__setitem__

        def setat(self, key, value):
            _upgrade(self.obj, key, value)
            return osetat(self, key, value)
        pidx._AtIndexer.__setitem__ = setat

    # groupby.diff / Series.diff etc. work on object arrays through shift
    def sdiff(self, periods=1):
        if isinstance(self.dtype, SymDtype):
            return self - self.shift(periods)
        return osdiff(self, periods)
    osdiff = pd.Series.diff
    pd.Series.diff = sdiff

    import pandas.core.groupby.generic as gg
    import pandas.core.groupby.groupby as g0
    ogdiff = g0.GroupBy.diff

    def gdiff(self, periods=1):
        if isinstance(self, gg.SeriesGroupBy) and isinstance(self.obj.dtype, SymDtype):
            return self.obj - self.shift(periods)
        return ogdiff(self, periods)
    g0.GroupBy.diff = gdiff

    # abs/ sqrt on Series
    oround = pd.Series.round

    def rnd(self, decimals=0, *a, **k):
        if isinstance(self.dtype, SymDtype):
            return self
        return oround(self, decimals, *a, **k)
    pd.Series.round = rnd

    # is_numeric / float tests go through the dtype flags
