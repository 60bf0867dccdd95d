"""Symbolic execution environment: how the real bilby modules see numpy/builtins while a contract runs symbolically.

Nothing in /repo is edited and no code is extracted: the very code objects CPython runs are executed.  The only
substitutions are module-global name bindings (np, math, isinstance, len and scipy callables) for the duration of
one symbolic run.
"""
import builtins
import math
import numbers
import sys
import types

import numpy as np

from . import sym as S
from . import terms as tm
from .sym import (LenToken, PArr, SymBool, SymComplex, SymNd, SymReal, Unsupported, as_nd, has_sym, scalar_sym)

_real_isinstance = builtins.isinstance
_real_len = builtins.len


def sym_isinstance(x, cls):
    if _real_isinstance(x, (SymReal, SymBool, SymComplex, PArr)) or getattr(x, "_pydv_array", False) or \
            _real_isinstance(x, FnProxy) or (_real_isinstance(cls, tuple) or _real_isinstance(cls, FnProxy)):
        cl = cls if _real_isinstance(cls, tuple) else (cls,)
        flat = []
        for c in cl:
            flat.extend(c if _real_isinstance(c, tuple) else (c,))
        flat = [c._pydv_real if _real_isinstance(c, FnProxy) else c for c in flat]
        flat = [float if c is SymFloat else int if c is SymInt else c for c in flat]
        if _real_isinstance(x, SymReal):
            if x.t.op == "v" and x.t.args[1] == "I":
                return any(c in (int, numbers.Number, numbers.Real, numbers.Integral, np.integer) for c in flat)
            return any(c in (float, np.floating, np.float64, numbers.Number, numbers.Real, np.number, SymReal)
                       for c in flat)
        if _real_isinstance(x, SymBool):
            return any(c in (bool, np.bool_, int, SymBool) for c in flat)
        if _real_isinstance(x, SymComplex):
            return any(c in (complex, np.complexfloating, numbers.Number) for c in flat)
        if _real_isinstance(x, PArr) or getattr(x, "_pydv_array", False):
            return any(c in (np.ndarray, PArr) for c in flat) or _real_isinstance(x, tuple(flat))
        return _real_isinstance(x, tuple(flat))
    return _real_isinstance(x, cls)


def sym_len(x):
    if _real_isinstance(x, PArr):
        return x.n
    if getattr(x, "_pydv_array", False):
        return x._len()
    return _real_len(x)


class SymFloat(float):
    def __new__(cls, x=0.0):
        if scalar_sym(x):
            return S._unbool(x) if _real_isinstance(x, SymReal) else S.SymReal(S.tterm(x))
        if _real_isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return SymFloat(x.reshape(-1)[0])
        return float(x)


class SymInt(int):
    def __new__(cls, x=0, *a):
        if scalar_sym(x):
            return S.s_trunc(x)
        return int(x, *a)


class FnProxy(object):
    """wraps one numpy callable"""

    def __init__(self, real, name):
        self._pydv_real = real
        self._name = name

    def __call__(self, *args, **kw):
        name = self._name
        real = self._pydv_real
        if any(type(a).__name__ == "Series" for a in args):
            args = tuple(as_nd(a.to_numpy()) if type(a).__name__ == "Series" and a.dtype == object else a for a in args)
        o = OVERRIDE.get(name)
        if o is not None:
            return o(real, *args, **kw)
        if has_sym(args) or has_sym(tuple(kw.values())):
            if _real_isinstance(real, np.ufunc):
                args = [S._arr(a) if _real_isinstance(a, (list, tuple)) else
                        (as_nd(a) if _real_isinstance(a, np.ndarray) and a.dtype == object else a) for a in args]
                r = S.array_ufunc(None, real, "__call__", tuple(args), kw)
                return np.bool_(r) if r is True or r is False else r
            h = S.FUNC.get(name)
            if h is None:
                raise Unsupported("numpy function " + name)
            return h(*args, **kw)
        return real(*args, **kw)

    def __getattr__(self, n):
        if n == "reduce":
            def red(x, *a, **k):
                if has_sym(x):
                    return S.nd_reduce(self._name, S._arr(x), *a, **k)
                return self._pydv_real.reduce(x, *a, **k)
            return red
        return getattr(self._pydv_real, n)


OBJ = {"on": True}


def _creator(fill):
    def f(real, shape, *a, **k):
        fv = fill
        if fv is None:
            fv = k.pop("fill_value") if "fill_value" in k else a[0]
            a = a[1:]
        if _real_isinstance(shape, tuple) and _real_len(shape) == 1 and _real_isinstance(shape[0], LenToken):
            shape = shape[0]
        if _real_isinstance(shape, LenToken):
            return PArr(fv, shape)
        if getattr(shape, "_pydv_len", False):
            return shape._make(fv)
        dt = k.get("dtype", a[0] if a else None)
        if has_sym(shape):
            shape = int(shape)
        if dt in (int, bool, np.int64, np.int32, str) or not OBJ["on"]:
            return real(shape, *([fill] if fill is None else []), *a, **k) if fill is not None else real(shape, fv)
        out = np.empty(shape, dtype=object).view(SymNd)
        if fill is not None and dt in (complex, np.complex128, "complex"):
            fv = complex(fv)
        np.ndarray.__setitem__(out, Ellipsis, fv)
        return out
    return f


def _array(real, x, *a, **k):
    if _real_isinstance(x, PArr) or getattr(x, "_pydv_array", False):
        return x.copy() if real is np.array else x
    if scalar_sym(x):
        return as_nd(S._box(x))
    if has_sym(x):
        if _real_isinstance(x, np.ndarray):
            return as_nd(x.copy() if real is np.array else x)
        return S._arr(x)
    if _real_isinstance(x, SymNd):
        return x.copy() if real is np.array else x
    return real(x, *a, **k)


def _pass_like(nm):
    def f(real, x, *a, **k):
        if has_sym(x):
            return S.FUNC[nm](x, *a, **k)
        r = real(x, *a, **k)
        if OBJ["on"] and _real_isinstance(r, np.ndarray) and r.dtype.kind == "f" and r.ndim:
            return as_nd(r)
        return r
    return f


def _arange(real, *a, **k):
    if has_sym(a):
        raise Unsupported("arange of symbols")
    return real(*a, **k)


def _isin(real, x, test, **k):
    if has_sym(x):
        return S.FUNC["isin"](x, test, **k)
    return real(x, test, **k)


OVERRIDE = {
    "zeros": _creator(0.0), "ones": _creator(1.0), "empty": _creator(0.0), "full": _creator(None),
    "array": _array, "asarray": _array, "asanyarray": _array, "atleast_1d": None, "arange": _arange, "isin": _isin,
    "zeros_like": _pass_like("zeros_like"), "ones_like": _pass_like("ones_like"),
    "empty_like": _pass_like("empty_like"), "full_like": None,
}
OVERRIDE = {k: v for k, v in OVERRIDE.items() if v is not None}


class NpProxy(types.ModuleType):
    def __init__(self, real):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__["_cache"] = {}

    def __getattr__(self, name):
        c = self._cache.get(name)
        if c is None:
            r = getattr(self._real, name)
            if _real_isinstance(r, type) or not callable(r):
                c = r
            else:
                c = FnProxy(r, name)
            self._cache[name] = c
        return c


class MathProxy(types.ModuleType):
    def __init__(self):
        super().__init__("math")

    def __getattr__(self, name):
        r = getattr(math, name)
        if not callable(r):
            return r
        nm = {"asin": "arcsin", "acos": "arccos", "atan": "arctan", "atan2": "arctan2", "pow": "power",
              "fabs": "absolute"}.get(name, name)

        def f(*args, **kw):
            if kw and any(scalar_sym(a) for a in args):
                if nm != "isclose":
                    raise S.Unsupported("math.%s with keywords" % name)
                a, b = args
                big = S.s_max(S.s_abs(a), S.s_abs(b))
                tol = S.s_max(S.s_mul(kw.get("rel_tol", 1e-9), big), kw.get("abs_tol", 0.0))
                return bool(S.cmp_le(S.s_abs(S.s_sub(a, b)), tol))
            if any(scalar_sym(a) for a in args):
                if nm in ("log",) and len(args) == 2:
                    return S.s_div(S.s_log(args[0]), S.s_log(args[1]))
                if nm in ("log", "sqrt"):
                    a = args[0]
                    bad = tm.le(S.tterm(a), tm.ZERO) if nm == "log" else tm.lt(S.tterm(a), tm.ZERO)
                    if S.fork(bad):
                        raise ValueError("math domain error")
                return S.apply_ufunc(nm, *args)
            return r(*args, **kw)
        return f


def logsumexp_sym(real):
    def f(a, axis=None, b=None, **k):
        if not has_sym(a) and not has_sym(b):
            plain = lambda x: x if x is None or np.asarray(x).dtype != object else np.array(np.asarray(x).tolist(), dtype=float)
            return real(plain(a), axis=axis, b=plain(b), **k)
        if getattr(a, "_pydv_array", False):
            raise Unsupported("logsumexp over symbolic-length array")
        a = S._arr(a)
        e = S.objmap("exp", a) if np.ndim(a) else S.s_exp(a.item())
        if b is not None:
            e = S.objmap("multiply", as_nd(e), S._arr(b))
        s = S.nd_reduce("add", as_nd(e), axis=axis)
        return S.objmap("log", s) if isinstance(s, np.ndarray) else S.s_log(s)
    return f


class Patch(object):
    """bind replacement globals in the bilby modules"""

    def __init__(self, modules=None, extra=None, floats=()):
        self.saved = []
        self.modules = modules
        self.extra = extra or []
        self.floats = floats

    def setattr(self, obj, name, val):
        d = vars(obj)
        self.saved.append((obj, name, d[name] if name in d else _MISSING))
        setattr(obj, name, val)

    def __enter__(self):
        npp = NpProxy(np)
        mathp = MathProxy()
        mods = [m for n, m in list(sys.modules.items())
                if m is not None and (n == "bilby" or n.startswith("bilby.")) and _real_isinstance(m, types.ModuleType)]
        for m in mods:
            g = vars(m)
            for k, v in list(g.items()):
                if v is np:
                    self.setattr(m, k, npp)
                elif v is math:
                    self.setattr(m, k, mathp)
                elif callable(v) and getattr(v, "__name__", None) == "logsumexp":
                    self.setattr(m, k, logsumexp_sym(v))
                elif _real_isinstance(v, types.FunctionType) and getattr(v, "__module__", "").startswith("numpy"):
                    self.setattr(m, k, FnProxy(v, v.__name__))
            self.setattr(m, "isinstance", sym_isinstance)
            self.setattr(m, "len", sym_len)
            if m.__name__ in self.floats:
                self.setattr(m, "float", SymFloat)
                self.setattr(m, "int", SymInt)
        for obj, name, val in self.extra:
            self.setattr(obj, name, val)
        return self

    def __exit__(self, *a):
        for obj, name, val in reversed(self.saved):
            if val is _MISSING:
                delattr(obj, name)
            else:
                setattr(obj, name, val)
        self.saved = []


_MISSING = object()
