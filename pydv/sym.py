"""Symbolic scalars executed by the real CPython code, and the path explorer."""
import math
import numbers
import operator
from fractions import Fraction as F

import numpy as np

from . import terms as tm
from .terms import T

INF = float("inf")
NAN = float("nan")


class Unsupported(Exception):
    """the code did something the verifier does not model"""


class InfeasiblePath(Exception):
    pass


class Skip(Exception):
    """concrete sample violates the precondition"""


class State(object):
    path = None          # current Path (symbolic mode) or None


STATE = State()


def is_sym(x):
    return isinstance(x, (SymReal, SymBool, SymComplex, PArr)) or \
        (isinstance(x, np.ndarray) and x.dtype == object)


def scalar_sym(x):
    return isinstance(x, (SymReal, SymBool, SymComplex))


def fork(cond):
    """cond: Bool term -> python bool, forking the path"""
    if cond is tm.TRUE:
        return True
    if cond is tm.FALSE:
        return False
    return STATE.path.fork(cond)


def tterm(x):
    """number-like -> real term (finite)"""
    if isinstance(x, SymReal):
        return x.t
    if isinstance(x, SymBool):
        return tm.ONE if x.__bool__() else tm.ZERO
    if isinstance(x, (bool, np.bool_)):
        return tm.ONE if x else tm.ZERO
    if isinstance(x, (int, np.integer)):
        return tm.const(int(x))
    if isinstance(x, (float, np.floating)):
        return tm.lift(float(x))
    if isinstance(x, F):
        return tm.const(x)
    if isinstance(x, T):
        return x
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return tterm(x.item())
    raise Unsupported("not a scalar: %r" % type(x))


def is_num(x):
    return isinstance(x, (SymReal, SymBool, bool, int, float, np.number, np.bool_, F))


def nonfinite(x):
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


def wrap(t):
    if t.isbool:
        return SymBool(t) if t not in (tm.TRUE, tm.FALSE) else (t is tm.TRUE)
    if t.op == "c":
        v = t.args[0]
        # keep exact rationals symbolic: a constant SymReal
        return SymReal(t)
    return SymReal(t)


def sgn(x):
    """sign of a symbolic real by forking: -1, 0, 1"""
    t = tterm(x)
    if fork(tm.lt(tm.ZERO, t)):
        return 1
    if fork(tm.eq(t, tm.ZERO)):
        return 0
    return -1


def _unbool(x):
    if isinstance(x, SymBool):
        if STATE.path.weights and tm.tokens(x.t):
            return SymReal(tm.ite(x.t, tm.ONE, tm.ZERO))
        return 1 if x.__bool__() else 0
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    return x


# ------------------------------------------------------------------------- scalar operations
def s_add(a, b):
    a, b = _unbool(a), _unbool(b)
    if isinstance(a, complex) or isinstance(b, complex) or isinstance(a, SymComplex) or isinstance(b, SymComplex):
        return SymComplex.of(a).add(SymComplex.of(b))
    if nonfinite(a) or nonfinite(b):
        x = a if nonfinite(a) else 0.0
        y = b if nonfinite(b) else 0.0
        return float(x) + float(y)
    return SymReal(tm.add(tterm(a), tterm(b)))


def s_neg(a):
    a = _unbool(a)
    if isinstance(a, (complex, SymComplex)):
        a = SymComplex.of(a)
        return SymComplex(s_neg(a.re), s_neg(a.im))
    if nonfinite(a):
        return -a
    return SymReal(tm.neg(tterm(a)))


def s_sub(a, b):
    return s_add(a, s_neg(b))


def s_mul(a, b):
    a, b = _unbool(a), _unbool(b)
    if isinstance(a, (complex, SymComplex)) or isinstance(b, (complex, SymComplex)):
        return SymComplex.of(a).mul(SymComplex.of(b))
    if nonfinite(a) or nonfinite(b):
        if (nonfinite(a) and math.isnan(a)) or (nonfinite(b) and math.isnan(b)):
            return NAN
        if not nonfinite(a):
            a, b = b, a
        if nonfinite(b):
            return a * b
        s = sgn(b)
        return NAN if s == 0 else a * s
    return SymReal(tm.mul(tterm(a), tterm(b)))


def s_div(a, b):
    a, b = _unbool(a), _unbool(b)
    if isinstance(a, (complex, SymComplex)) or isinstance(b, (complex, SymComplex)):
        return SymComplex.of(a).div(SymComplex.of(b))
    if nonfinite(b):
        if math.isnan(b) or nonfinite(a):
            return NAN
        return SymReal(tm.ZERO)
    tb = tterm(b)
    if fork(tm.eq(tb, tm.ZERO)):
        if nonfinite(a):
            return a
        s = sgn(a)
        return NAN if s == 0 else s * INF
    if nonfinite(a):
        if math.isnan(a):
            return NAN
        return a * sgn(b)
    return SymReal(tm.div(tterm(a), tb))


def s_floor(a):
    if nonfinite(a):
        return a
    return SymReal(tm.fn("floor", tterm(_unbool(a))))


def s_floordiv(a, b):
    q = s_div(a, b)
    return s_floor(q)


def s_mod(a, b):
    q = s_floordiv(a, b)
    if nonfinite(q):
        return NAN
    return s_sub(a, s_mul(q, b))


def s_pow(a, b):
    a, b = _unbool(a), _unbool(b)
    if isinstance(a, (complex, SymComplex)) or isinstance(b, (complex, SymComplex)):
        if isinstance(a, SymComplex) and not isinstance(b, (int, complex, SymComplex)):
            if isinstance(a.im, SymReal) and STATE.path.facts.nf.is_zero(STATE.path.facts.nf.of(a.im.t)) and not fork(tm.lt(tterm(a.re), tm.ZERO)):
                return SymComplex.of(s_pow(a.re, b))        # a non-negative real number
        n = b if isinstance(b, int) else int(b)
        if n != b or n < 0 or n > 8:
            raise Unsupported("complex power")
        r = SymComplex.of(1)
        for _ in range(n):
            r = r.mul(SymComplex.of(a))
        return r
    if not isinstance(b, SymReal) or b.t.op == "c":
        if nonfinite(b):
            raise Unsupported("power inf")
        if nonfinite(a):
            q = tterm(b).args[0]
            return float(a) ** float(q)
        tb = tterm(b)
        if tb.op != "c":
            return _pow_general(tterm(a), tb)
        q = tb.args[0]
        ta = tterm(a)
        if q == 0:
            return SymReal(tm.ONE)
        if q.denominator == 1:
            if q < 0:
                if fork(tm.eq(ta, tm.ZERO)):
                    return INF
            return SymReal(tm.powc(ta, q))
        if fork(tm.lt(ta, tm.ZERO)):
            return NAN
        if q < 0 and fork(tm.eq(ta, tm.ZERO)):
            return INF
        return SymReal(tm.powc(ta, q))
    if nonfinite(a):
        if math.isnan(a):
            return NAN
        s = sgn(b)
        if s == 0:
            return SymReal(tm.ONE)
        if a > 0:
            return INF if s > 0 else SymReal(tm.ZERO)
        raise Unsupported("(-inf)**sym")
    return _pow_general(tterm(a), b.t)


def _pow_general(ta, tb):
    if fork(tm.lt(tm.ZERO, ta)):
        return SymReal(tm.fn("exp", tm.mul(tb, tm.fn("log", ta))))
    if fork(tm.eq(ta, tm.ZERO)):
        if fork(tm.lt(tm.ZERO, tb)):
            return SymReal(tm.ZERO)
        if fork(tm.eq(tb, tm.ZERO)):
            return SymReal(tm.ONE)
        return INF
    # negative base, symbolic exponent: integer exponents are real, others nan; undecided
    return SymReal(tm.uf("negpow", ta, tb))


def s_abs(a):
    a = _unbool(a)
    if isinstance(a, (complex, SymComplex)):
        a = SymComplex.of(a)
        return s_sqrt(s_add(s_mul(a.re, a.re), s_mul(a.im, a.im)))
    if nonfinite(a):
        return abs(a)
    t = tterm(a)
    if fork(tm.le(tm.ZERO, t)):
        return SymReal(t)
    return SymReal(tm.neg(t))


def s_exp(a):
    a = _unbool(a)
    if isinstance(a, (complex, SymComplex)):
        a = SymComplex.of(a)
        r = s_exp(a.re)
        return SymComplex(s_mul(r, s_cos(a.im)), s_mul(r, s_sin(a.im)))
    if nonfinite(a):
        return NAN if math.isnan(a) else (INF if a > 0 else SymReal(tm.ZERO))
    return SymReal(tm.fn("exp", tterm(a)))


def s_log(a):
    a = _unbool(a)
    if isinstance(a, (complex, SymComplex)):
        raise Unsupported("complex log")
    if nonfinite(a):
        return INF if a == INF else NAN
    t = tterm(a)
    if fork(tm.lt(tm.ZERO, t)):
        return SymReal(tm.fn("log", t))
    if fork(tm.eq(t, tm.ZERO)):
        return -INF
    return NAN


def s_sqrt(a):
    a = _unbool(a)
    if nonfinite(a):
        return INF if a == INF else NAN
    return s_pow(a, F(1, 2))


def s_log1p(a):
    return s_log(s_add(1, a))


def s_expm1(a):
    return s_sub(s_exp(a), 1)


def _trig(name):
    def f(a):
        a = _unbool(a)
        if nonfinite(a):
            return NAN
        return SymReal(tm.fn(name, tterm(a)))
    return f


s_sin = _trig("sin")
s_cos = _trig("cos")


def s_tan(a):
    return s_div(s_sin(a), s_cos(a))


def _inv(name):
    def f(a):
        a = _unbool(a)
        if nonfinite(a):
            return NAN
        t = tterm(a)
        if fork(tm.or_(tm.lt(tm.ONE, t), tm.lt(t, tm.const(-1)))):
            return NAN
        return SymReal(tm.fn(name, t))
    return f


s_asin = _inv("asin")
s_acos = _inv("acos")


def s_atan(a):
    a = _unbool(a)
    if nonfinite(a):
        if math.isnan(a):
            return NAN
        return SymReal(tm.mul(tm.const(F(1 if a > 0 else -1, 2)), tm.PI))
    return SymReal(tm.fn("atan", tterm(a)))


def s_atan2(y, x):
    ty, tx = tterm(y), tterm(x)
    if fork(tm.lt(tm.ZERO, tx)):
        return SymReal(tm.fn("atan", tm.div(ty, tx)))
    if fork(tm.eq(tx, tm.ZERO)):
        s = sgn(y)
        return SymReal(tm.mul(tm.const(F(s, 2)), tm.PI))
    base = tm.fn("atan", tm.div(ty, tx))
    if fork(tm.le(tm.ZERO, ty)):
        return SymReal(tm.add(base, tm.PI))
    return SymReal(tm.sub(base, tm.PI))


def s_sinh(a):
    return s_div(s_sub(s_exp(a), s_exp(s_neg(a))), 2)


def s_cosh(a):
    return s_div(s_add(s_exp(a), s_exp(s_neg(a))), 2)


def s_acosh(a):
    if nonfinite(a):
        return INF if a == INF else NAN
    if fork(tm.lt(tterm(a), tm.ONE)):
        return NAN
    return s_log(s_add(a, s_sqrt(s_sub(s_mul(a, a), 1))))


def s_asinh(a):
    if nonfinite(a):
        return a
    return s_log(s_add(a, s_sqrt(s_add(s_mul(a, a), 1))))


def s_tanh(a):
    e = s_exp(s_mul(2, a))
    return s_div(s_sub(e, 1), s_add(e, 1))


def s_erf(a):
    a = _unbool(a)
    if nonfinite(a):
        return NAN if math.isnan(a) else SymReal(tm.const(1 if a > 0 else -1))
    return SymReal(tm.fn("erf", tterm(a)))


def s_erfc(a):
    return s_sub(1, s_erf(a))


def s_cbrt(a):
    if nonfinite(a):
        return a
    if sgn(a) < 0:
        return s_neg(s_pow(s_neg(a), SymReal(tm.const(F(1, 3)))))
    return s_pow(a, SymReal(tm.const(F(1, 3))))


def s_erfinv(a):
    if nonfinite(a):
        return NAN
    t = tterm(a)
    if fork(tm.and_(tm.lt(t, tm.ONE), tm.lt(tm.const(-1), t))):
        return SymReal(tm.fn("erfinv", t))
    if fork(tm.eq(t, tm.ONE)):
        return INF
    if fork(tm.eq(t, tm.const(-1))):
        return -INF
    return NAN


def s_gammaln(a):
    if nonfinite(a):
        return INF if a > 0 else NAN
    return SymReal(tm.fn("gammaln", tterm(a)))


def s_betaln(a, b):
    return SymReal(tm.betaln(tterm(a), tterm(b)))


def s_xlogy(x, y):
    """scipy: 0 if x == 0 (and y not nan) else x*log(y)"""
    if isinstance(y, SymBool) or isinstance(y, bool):
        y = _unbool(y)
    tx = tterm(_unbool(x))
    if nonfinite(y) and math.isnan(y):
        return NAN
    if fork(tm.eq(tx, tm.ZERO)):
        return SymReal(tm.ZERO)
    return s_mul(x, s_log(y))


def s_xlog1py(x, y):
    return s_xlogy(x, s_add(1, y))


def _special(name, dom, lo=None, hi=None):
    """monotone cdf-like special function of the last argument"""
    def f(*args):
        ts = [tterm(a) if not nonfinite(a) else a for a in args]
        for p in ts[:-1]:
            if not isinstance(p, T):
                raise Unsupported(name + " at non-finite parameter")
        x = ts[-1]
        if not isinstance(x, T):
            if math.isnan(x):
                return NAN
            if name == "stdtr":
                return SymReal(tm.ONE if x > 0 else tm.ZERO)
            if name == "gammainc":
                return SymReal(tm.ONE) if x > 0 else NAN
            raise Unsupported(name)
        if dom == "01":       # btdtr: scipy returns nan outside [0,1]
            if fork(tm.or_(tm.lt(x, tm.ZERO), tm.lt(tm.ONE, x))):
                return NAN
            if fork(tm.eq(x, tm.ZERO)):
                return SymReal(tm.ZERO)
            if fork(tm.eq(x, tm.ONE)):
                return SymReal(tm.ONE)
        if dom == "pos":
            if fork(tm.lt(x, tm.ZERO)):
                return NAN
            if fork(tm.eq(x, tm.ZERO)):
                return SymReal(tm.ZERO)
        return SymReal(tm.uf(name, *ts))
    return f


def _special_inv(name, base):
    def f(*args):
        ts = [tterm(a) for a in args]
        u = ts[-1]
        if fork(tm.or_(tm.lt(u, tm.ZERO), tm.lt(tm.ONE, u))):
            return NAN
        if fork(tm.eq(u, tm.ZERO)):
            return SymReal(tm.ZERO) if base != "stdtr" else NAN_OR(-INF)
        if fork(tm.eq(u, tm.ONE)):
            return {"btdtr": SymReal(tm.ONE), "gammainc": INF, "stdtr": NAN_OR(INF)}[base]
        return SymReal(tm.uf(name, *ts))
    return f


def NAN_OR(x):
    return x


def cmp_lt(a, b):
    a, b = _unbool(a), _unbool(b)
    if nonfinite(a) or nonfinite(b):
        if (nonfinite(a) and math.isnan(a)) or (nonfinite(b) and math.isnan(b)):
            return False
        x = a if nonfinite(a) else 0.0
        y = b if nonfinite(b) else 0.0
        return bool(x < y)
    return wrap(tm.lt(tterm(a), tterm(b)))


def cmp_le(a, b):
    a, b = _unbool(a), _unbool(b)
    if nonfinite(a) or nonfinite(b):
        if (nonfinite(a) and math.isnan(a)) or (nonfinite(b) and math.isnan(b)):
            return False
        x = a if nonfinite(a) else 0.0
        y = b if nonfinite(b) else 0.0
        return bool(x <= y)
    return wrap(tm.le(tterm(a), tterm(b)))


def cmp_eq(a, b):
    if isinstance(a, SymBool) and isinstance(b, (SymBool, bool, np.bool_)):
        bt = b.t if isinstance(b, SymBool) else (tm.TRUE if b else tm.FALSE)
        return wrap(tm.or_(tm.and_(a.t, bt), tm.and_(tm.not_(a.t), tm.not_(bt))))
    if not is_num(a) or not is_num(b):
        return False
    a, b = _unbool(a), _unbool(b)
    if nonfinite(a) or nonfinite(b):
        return bool(nonfinite(a) and nonfinite(b) and a == b)
    return wrap(tm.eq(tterm(a), tterm(b)))


def s_min(a, b):
    if _isnan(a) or _isnan(b):
        return NAN
    return a if bool(cmp_le(a, b)) else b


def s_max(a, b):
    if _isnan(a) or _isnan(b):
        return NAN
    return a if bool(cmp_le(b, a)) else b


def _isnan(a):
    return isinstance(a, (float, np.floating)) and math.isnan(a)


def boolterm(x):
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, (bool, np.bool_)):
        return tm.TRUE if x else tm.FALSE
    if isinstance(x, SymReal):
        return tm.not_(tm.eq(x.t, tm.ZERO))
    if isinstance(x, (int, float, np.number)):
        return tm.TRUE if x else tm.FALSE
    if isinstance(x, np.ndarray) and x.size == 1:
        return boolterm(x.reshape(-1)[0])
    if isinstance(x, PArr):
        return boolterm(x.elem)
    raise Unsupported("bool of %r" % type(x))


def b_and(a, b):
    return wrap(tm.and_(boolterm(a), boolterm(b)))


def b_or(a, b):
    return wrap(tm.or_(boolterm(a), boolterm(b)))


def b_not(a):
    return wrap(tm.not_(boolterm(a)))


def b_xor(a, b):
    x, y = boolterm(a), boolterm(b)
    return wrap(tm.or_(tm.and_(x, tm.not_(y)), tm.and_(tm.not_(x), y)))


def s_nan_to_num(a, nan=0.0, posinf=None, neginf=None):
    if nonfinite(a):
        if math.isnan(a):
            return nan
        big = np.finfo(float).max
        return (big if posinf is None else posinf) if a > 0 else (-big if neginf is None else neginf)
    return a


def s_isnan(a):
    return nonfinite(a) and math.isnan(a)


def s_isinf(a):
    return nonfinite(a) and math.isinf(a)


def s_isfinite(a):
    return not nonfinite(a)


def s_sign(a):
    if nonfinite(a):
        return math.copysign(1.0, a) if not math.isnan(a) else NAN
    return SymReal(tm.const(sgn(a)))


def s_logaddexp(a, b):
    if nonfinite(a) and a == -INF:
        return b
    if nonfinite(b) and b == -INF:
        return a
    if nonfinite(a) or nonfinite(b):
        return s_add(a, b) if (_isnan(a) or _isnan(b)) else INF
    return s_log(s_add(s_exp(a), s_exp(b)))


def known_const(t):
    """the rational number a closed term (n * x / x, ...) is equal to, else None"""
    if t.op == "c":
        return t.args[0]
    nf = STATE.path.facts.nf
    try:
        p = nf.canon(nf.of(t))
    except Exception:
        return None
    if not p:
        return F(0)
    if len(p) == 1 and () in p:
        return p[()]
    return None


def s_rint(a):
    """nearest integer (ties unconstrained within 1/2): sound for round-half-even"""
    if nonfinite(a):
        return a
    t = tterm(a)
    kc = known_const(t)
    if kc is not None:
        return SymReal(tm.const(round(kc)))
    k = STATE.path.fresh("rint", "I", key=("rint", t.id))
    half = tm.const(F(1, 2))
    STATE.path.know(tm.and_(tm.le(tm.sub(t, half), k), tm.le(k, tm.add(t, half))))
    return SymReal(k)


def s_ceil(a):
    return s_neg(s_floor(s_neg(a)))


def s_trunc(a):
    t = tterm(a)
    if fork(tm.le(tm.ZERO, t)):
        return s_floor(a)
    return s_ceil(a)


def s_i0e(a):
    if nonfinite(a):
        return NAN if math.isnan(a) else SymReal(tm.ZERO)
    r = tm.uf("i0e", tterm(a))
    STATE.path.know(tm.lt(tm.ZERO, r))
    return SymReal(r)


SCALAR = {
    "add": s_add, "subtract": s_sub, "multiply": s_mul, "divide": s_div, "true_divide": s_div,
    "floor_divide": s_floordiv, "remainder": s_mod, "mod": s_mod, "power": s_pow, "float_power": s_pow,
    "negative": s_neg, "positive": lambda a: a,
    "absolute": s_abs, "fabs": s_abs, "exp": s_exp, "log": s_log, "log1p": s_log1p, "expm1": s_expm1,
    "log10": lambda a: s_div(s_log(a), SymReal(tm.fn("log", tm.const(10)))),
    "log2": lambda a: s_div(s_log(a), SymReal(tm.fn("log", tm.const(2)))),
    "exp2": lambda a: s_pow(2, a),
    "sqrt": s_sqrt, "square": lambda a: s_mul(a, a), "reciprocal": lambda a: s_div(1, a),
    "sin": s_sin, "cos": s_cos, "tan": s_tan, "arcsin": s_asin, "arccos": s_acos, "arctan": s_atan,
    "arctan2": s_atan2, "sinh": s_sinh, "cosh": s_cosh, "tanh": s_tanh, "arccosh": s_acosh, "arcsinh": s_asinh,
    "less": cmp_lt, "less_equal": cmp_le, "greater": lambda a, b: cmp_lt(b, a),
    "greater_equal": lambda a, b: cmp_le(b, a), "equal": cmp_eq, "not_equal": lambda a, b: b_not(cmp_eq(a, b)),
    "logical_and": b_and, "logical_or": b_or, "logical_not": b_not, "logical_xor": b_xor,
    "bitwise_and": b_and, "bitwise_or": b_or, "invert": b_not, "bitwise_xor": b_xor,
    "minimum": s_min, "maximum": s_max, "fmin": s_min, "fmax": s_max,
    "isnan": s_isnan, "isinf": s_isinf, "isfinite": s_isfinite, "sign": s_sign,
    "floor": s_floor, "ceil": s_ceil, "rint": s_rint, "trunc": s_trunc,
    "logaddexp": s_logaddexp,
    "conjugate": lambda a: a.conjugate() if isinstance(a, (SymComplex, complex)) else a,
    "degrees": lambda a: s_mul(a, SymReal(tm.div(tm.const(180), tm.PI))),
    "radians": lambda a: s_mul(a, SymReal(tm.div(tm.PI, tm.const(180)))),
    "deg2rad": lambda a: s_mul(a, SymReal(tm.div(tm.PI, tm.const(180)))),
    "rad2deg": lambda a: s_mul(a, SymReal(tm.div(tm.const(180), tm.PI))),
    # scipy.special ufuncs
    "cbrt": lambda a: s_cbrt(a),
    "erf": s_erf, "erfc": s_erfc, "erfinv": s_erfinv, "gammaln": s_gammaln, "betaln": s_betaln,
    "xlogy": s_xlogy, "xlog1py": s_xlog1py, "i0e": s_i0e,
    "btdtr": _special("btdtr", "01"), "betainc": _special("btdtr", "01"),
    "gammainc": _special("gammainc", "pos"), "stdtr": _special("stdtr", "R"),
    "btdtri": _special_inv("btdtri", "btdtr"), "betaincinv": _special_inv("btdtri", "btdtr"),
    "gammaincinv": _special_inv("gammaincinv", "gammainc"), "stdtrit": _special_inv("stdtrit", "stdtr"),
}


def apply_ufunc(name, *args):
    f = SCALAR.get(name)
    if f is None:
        raise Unsupported("ufunc " + name)
    return f(*args)


# ------------------------------------------------------------------------- classes
def _binop(name, swap=False):
    def m(self, other):
        if isinstance(other, PArr):
            return other._uf(name, (other, self) if swap else (self, other))
        if isinstance(other, np.ndarray) and not isinstance(other, np.generic):
            return objmap(name, *((other, self) if swap else (self, other)))
        if getattr(other, "_pydv_array", False):
            return NotImplemented
        if not (is_num(other) or isinstance(other, (complex, SymComplex))):
            return NotImplemented
        return SCALAR[name](other, self) if swap else SCALAR[name](self, other)
    return m


def objmap(name, *args):
    """broadcasted elementwise application over (object) arrays"""
    f = SCALAR.get(name)
    if f is None:
        raise Unsupported("ufunc " + name)
    arrs = [a if isinstance(a, np.ndarray) else _box(a) for a in args]
    b = np.broadcast(*arrs) if len(arrs) > 1 else None
    shape = b.shape if b is not None else arrs[0].shape
    out = np.empty(shape, dtype=object).view(SymNd)
    bs = [np.broadcast_to(np.asarray(a).view(np.ndarray), shape) for a in arrs]
    for ix in np.ndindex(*shape):
        vals = [x[ix] for x in bs]
        if any(scalar_sym(v) for v in vals):
            r = f(*vals)
        elif name in ("divide", "true_divide", "log", "power", "sqrt") or any(nonfinite(v) for v in vals):
            with np.errstate(all="ignore"):
                r = _conc(name, vals)
        else:
            r = _conc(name, vals)
        np.ndarray.__setitem__(out, ix, r)
    if shape == ():
        return np.ndarray.__getitem__(out, ())
    return out


def _conc(name, vals):
    u = getattr(np, name, None)
    if u is None:
        import scipy.special as sp
        u = getattr(sp, name)
    return u(*[np.float64(v) if isinstance(v, float) else v for v in vals])


def _box(a):
    x = np.empty((), dtype=object)
    x[()] = a
    return x


class _Num(object):
    __array_priority__ = 10000
    _pydv = True

    __add__ = _binop("add")
    __radd__ = _binop("add", True)
    __sub__ = _binop("subtract")
    __rsub__ = _binop("subtract", True)
    __mul__ = _binop("multiply")
    __rmul__ = _binop("multiply", True)
    __truediv__ = _binop("divide")
    __rtruediv__ = _binop("divide", True)
    __pow__ = _binop("power")
    __rpow__ = _binop("power", True)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(self, ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kw):
        return array_function(func, args, kw)


def array_ufunc(self, ufunc, method, inputs, kw):
    out = kw.pop("out", None)
    kw.pop("dtype", None)
    kw.pop("casting", None)
    where = kw.pop("where", True)
    if where is not True or kw:
        raise Unsupported("ufunc kwargs %s" % list(kw))
    name = ufunc.__name__
    if method == "reduce":
        raise Unsupported("reduce")
    if method != "__call__":
        raise Unsupported("ufunc method " + method)
    inputs = [x.item() if isinstance(x, np.ndarray) and x.ndim == 0 else x for x in inputs]
    if any(isinstance(x, PArr) for x in inputs):
        r = PArr._uf(None, name, inputs)
    elif any(getattr(x, "_pydv_array", False) for x in inputs):
        x = [x for x in inputs if getattr(x, "_pydv_array", False)][0]
        r = x._ufunc(name, inputs)
    elif any(isinstance(x, (np.ndarray, list, tuple)) for x in inputs):
        r = objmap(name, *[np.asarray(x) if isinstance(x, (list, tuple)) else x for x in inputs])
    else:
        r = apply_ufunc(name, *inputs)
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if isinstance(o, PArr):
            o.elem = r.elem if isinstance(r, PArr) else r
            return o
        if hasattr(o, "_assign"):
            o._assign(r)
            return o
        if isinstance(o, np.ndarray) and o.dtype == object:
            np.ndarray.__setitem__(o, Ellipsis, r)
            return o
        if isinstance(o, np.ndarray) and o.dtype == bool and o.ndim and isinstance(r, np.ndarray):
            if r.shape != o.shape:
                raise Unsupported('in-place broadcast')
            for i in np.ndindex(o.shape):
                o[i] = bool(r[i])       # one path per truth value
            return o
        raise Unsupported("out= on concrete array")
    return r


class SymReal(_Num):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "<%s>" % tm.show(self.t, 6)

    __floordiv__ = _binop("floor_divide")
    __rfloordiv__ = _binop("floor_divide", True)
    __mod__ = _binop("remainder")
    __rmod__ = _binop("remainder", True)
    __lt__ = _binop("less")
    __le__ = _binop("less_equal")
    __gt__ = _binop("greater")
    __ge__ = _binop("greater_equal")

    def __eq__(self, other):
        if other is None or isinstance(other, (str, list, tuple, dict)):
            return False
        if isinstance(other, np.ndarray) and other.ndim:
            return objmap("equal", self, other)
        if isinstance(other, PArr):
            return PArr._uf(None, "equal", (self, other))
        return cmp_eq(self, other)

    def __ne__(self, other):
        r = self.__eq__(other)
        if isinstance(r, SymBool):
            return wrap(tm.not_(r.t))
        if isinstance(r, (np.ndarray, PArr)):
            return ~r
        return not r

    def __hash__(self):
        return hash(("SymReal", self.t.id))

    def __neg__(self):
        return s_neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return s_abs(self)

    def __bool__(self):
        return fork(tm.not_(tm.eq(self.t, tm.ZERO)))

    def __float__(self):
        if self.t.op == "c":
            return float(self.t.args[0])
        raise Unsupported("float() of a symbolic real")

    def __int__(self):
        if self.t.op == "c":
            return int(self.t.args[0])
        k = known_const(self.t)
        if k is None:
            raise Unsupported("int() of a symbolic real")
        return int(k)

    def __index__(self):
        k = known_const(self.t)
        if k is not None and k.denominator == 1:
            return int(k)
        raise Unsupported("symbolic index")

    def __round__(self, n=None):
        if n:
            # used for messages only: some real within the rounding error
            r = SymReal(STATE.path.fresh("round"))
            d = s_abs(s_sub(r, self))
            STATE.path.know(tm.le(tterm(d), tm.const(F(1, 2 * 10 ** int(n)))))
            return r
        return s_rint(self)

    def __floor__(self):
        return s_floor(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __format__(self, spec):
        return repr(self)

    # numpy object-dtype ufunc method protocol
    def exp(self): return s_exp(self)
    def log(self): return s_log(self)
    def log10(self): return SCALAR["log10"](self)
    def log1p(self): return s_log1p(self)
    def sqrt(self): return s_sqrt(self)
    def sin(self): return s_sin(self)
    def cos(self): return s_cos(self)
    def tan(self): return s_tan(self)
    def arcsin(self): return s_asin(self)
    def arccos(self): return s_acos(self)
    def arctan(self): return s_atan(self)
    def tanh(self): return s_tanh(self)
    def cosh(self): return s_cosh(self)
    def sinh(self): return s_sinh(self)
    def floor(self): return s_floor(self)
    def rint(self): return s_rint(self)
    def conjugate(self): return self
    def is_integer(self):
        raise Unsupported("is_integer")

    @property
    def real(self): return self
    @property
    def imag(self): return SymReal(tm.ZERO)
    @property
    def size(self): return 1
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    @property
    def dtype(self): return np.dtype(float)

    def item(self):
        return self

    def astype(self, *a, **k):
        return self

    def copy(self):
        return self


class SymBool(object):
    __slots__ = ("t",)
    __array_priority__ = 10000
    _pydv = True

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "<bool %s>" % tm.show(self.t, 6)

    def __bool__(self):
        return fork(self.t)

    def __hash__(self):
        return hash(("SymBool", self.t.id))

    def __and__(self, o):
        return self._b(b_and, o, "bitwise_and")

    __rand__ = __and__

    def __or__(self, o):
        return self._b(b_or, o, "bitwise_or")

    __ror__ = __or__

    def __xor__(self, o):
        return self._b(b_xor, o, "bitwise_xor")

    __rxor__ = __xor__

    def _b(self, f, o, name):
        if isinstance(o, PArr):
            return PArr._uf(None, name, (self, o))
        if isinstance(o, np.ndarray) and o.ndim:
            return objmap(name, self, o)
        if getattr(o, "_pydv_array", False):
            return NotImplemented
        return f(self, o)

    def __invert__(self):
        return b_not(self)

    def __eq__(self, o):
        return cmp_eq(self, o)

    def __ne__(self, o):
        return b_not(cmp_eq(self, o))

    __add__ = _binop("add")
    __radd__ = _binop("add", True)
    __sub__ = _binop("subtract")
    __rsub__ = _binop("subtract", True)
    __mul__ = _binop("multiply")
    __rmul__ = _binop("multiply", True)
    __truediv__ = _binop("divide")
    __rtruediv__ = _binop("divide", True)
    __pow__ = _binop("power")
    __lt__ = _binop("less")
    __gt__ = _binop("greater")
    __le__ = _binop("less_equal")
    __ge__ = _binop("greater_equal")

    def __neg__(self):
        return s_neg(self)

    def __int__(self):
        return int(self.__bool__())

    __index__ = __int__

    def __float__(self):
        return float(self.__bool__())

    def __deepcopy__(self, memo):
        return self

    __array_ufunc__ = _Num.__array_ufunc__
    __array_function__ = _Num.__array_function__

    def astype(self, *a, **k):
        return self

    @property
    def ndim(self): return 0
    @property
    def shape(self): return ()
    @property
    def size(self): return 1

    def all(self):
        return self

    def any(self):
        return self


class SymComplex(_Num):
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re = re
        self.im = im

    @staticmethod
    def of(a):
        if isinstance(a, SymComplex):
            return a
        if isinstance(a, (complex, np.complexfloating)):
            return SymComplex(SymReal(tm.lift(a.real)), SymReal(tm.lift(a.imag)))
        return SymComplex(a if isinstance(a, SymReal) or nonfinite(a) else SymReal(tterm(a)), SymReal(tm.ZERO))

    def __repr__(self):
        return "<%r + i %r>" % (self.re, self.im)

    def add(self, o):
        return SymComplex(s_add(self.re, o.re), s_add(self.im, o.im))

    def mul(self, o):
        return SymComplex(s_sub(s_mul(self.re, o.re), s_mul(self.im, o.im)),
                          s_add(s_mul(self.re, o.im), s_mul(self.im, o.re)))

    def div(self, o):
        if isinstance(o.im, SymReal) and o.im.t is tm.ZERO:
            return SymComplex(s_div(self.re, o.re), s_div(self.im, o.re))
        d = s_add(s_mul(o.re, o.re), s_mul(o.im, o.im))
        n = self.mul(o.conjugate())
        return SymComplex(s_div(n.re, d), s_div(n.im, d))

    def conjugate(self):
        return SymComplex(self.re, s_neg(self.im))

    conj = conjugate

    def __neg__(self):
        return s_neg(self)

    def __abs__(self):
        return s_abs(self)

    def exp(self):
        return s_exp(self)

    @property
    def real(self): return self.re
    @property
    def imag(self): return self.im
    @property
    def ndim(self): return 0
    @property
    def shape(self): return ()
    @property
    def size(self): return 1
    @property
    def dtype(self): return np.dtype(complex)

    def __deepcopy__(self, memo):
        return self

    def __eq__(self, o):
        o = SymComplex.of(o)
        return b_and(cmp_eq(self.re, o.re), cmp_eq(self.im, o.im))

    def __ne__(self, o):
        return b_not(self == o)

    def __hash__(self):
        return 0


# ------------------------------------------------------------------------- generic-element arrays
class LenToken(object):
    """the (arbitrary) length of a PArr"""

    def __init__(self, name):
        self.name = name
        self.t = tm.length(name)
        if STATE.path is not None:
            STATE.path.know(tm.le(tm.ONE, self.t))

    def __repr__(self):
        return "len(%s)" % self.name

    @property
    def sym(self):
        return SymReal(self.t)

    def __eq__(self, o):
        if isinstance(o, LenToken):
            return self is o or bool(cmp_eq(self.sym, o.sym))
        if is_num(o):
            return cmp_eq(self.sym, o)
        return False

    def __ne__(self, o):
        return b_not(self == o)

    def __hash__(self):
        return id(self)

    def __gt__(self, o):
        if isinstance(o, int) and o == 0:
            return True
        return self.sym > o

    def __bool__(self):
        return True

    def __index__(self):
        raise Unsupported("length of an arbitrary array used as an index")

    def __deepcopy__(self, memo):
        return self


def _lenop(n):
    def m(self, o):
        return getattr(self.sym, n)(o.sym if isinstance(o, LenToken) else o)
    return m


class Hole(object):
    """element removed by a boolean mask: the generic element is not there"""

    def __repr__(self):
        return "<hole>"


HOLE = Hole()


class Masked(object):
    """np.where(mask)[0] of a generic array"""

    def __init__(self, present):
        self.present = present


class PArr(object):
    """One generic element of an array of arbitrary length; all operations elementwise."""
    __array_priority__ = 20000
    _pydv = True

    def __init__(self, elem, n, w=None):
        self.elem = elem
        self.n = n
        self.w = w              # Bool term: this is the sub-array of the elements where w holds (None: all)

    def __repr__(self):
        return "PArr(%r)" % (self.elem,)

    @property
    def size(self): return self.n if self.w is None else PArr(1, self.n, self.w).sum()
    @property
    def shape(self): return (self.size,)
    @property
    def ndim(self): return 1
    @property
    def T(self): return self
    @property
    def real(self): return self._map(lambda a: a.real)
    @property
    def imag(self): return self._map(lambda a: a.imag)

    @property
    def dtype(self):
        if isinstance(self.elem, (SymBool, bool, np.bool_)):
            return np.dtype(bool)
        if isinstance(self.elem, SymReal) and self.elem.t.op == "v" and self.elem.t.args[1] == "I" or \
                type(self.elem) is int:
            return np.dtype(int)
        if isinstance(self.elem, (SymComplex, complex)):
            return np.dtype(complex)
        return np.dtype(float)

    def _map(self, f):
        return PArr(HOLE if self.elem is HOLE else f(self.elem), self.n, self.w)

    def at(self, k):
        """element at a fixed position"""
        if self.w is not None or self.elem is HOLE:
            raise Unsupported("fixed index into a masked array")
        kt = tm.const(k) if k >= 0 else tm.add(self.n.t, tm.const(k))
        m = {}
        tok = self.n.name
        path = STATE.path
        key = ("inst", tok, k)
        if key not in path.keyed:
            path.keyed[key] = True
            for t in list(path.facts.terms):
                if tok in tm.tokens(t):
                    path.know(tm.at_index(t, tok, kt))
        def one(x):
            if isinstance(x, SymReal):
                return SymReal(tm.at_index(x.t, tok, kt, m))
            if isinstance(x, SymBool):
                return SymBool(tm.at_index(x.t, tok, kt, m))
            if isinstance(x, SymComplex):
                return SymComplex(one(x.re), one(x.im))
            return x
        return one(self.elem)

    def sum(self, *a, **k):
        return lin_reduce("sum", self)

    def mean(self, *a, **k):
        if self.w is not None:
            return s_div(self.sum(), PArr(1, self.n, self.w).sum())
        return s_div(self.sum(), self.n.sym)

    def max(self, *a, **k): return f_max(self)
    def min(self, *a, **k): return f_min(self)
    def conjugate(self): return self._map(lambda a: a.conjugate() if hasattr(a, "conjugate") else a)
    conj = conjugate
    def dot(self, o): return (self * o).sum()

    @staticmethod
    def _uf(self, name, inputs=None):
        if inputs is None:
            name, inputs = self, name
        n = None
        w = None
        vals = []
        for x in inputs:
            if isinstance(x, PArr):
                if n is not None and (x.n is not n or x.w is not w):
                    raise Unsupported("generic arrays of different length")
                n = x.n
                w = x.w
                vals.append(x.elem)
            elif isinstance(x, np.ndarray):
                if x.size == 1:
                    vals.append(x.reshape(-1)[0])
                else:
                    raise Unsupported("PArr with concrete array")
            else:
                vals.append(x)
        if any(v is HOLE for v in vals):
            return PArr(HOLE, n)
        if not any(scalar_sym(v) for v in vals):
            with np.errstate(all="ignore"):
                r = _conc(name, vals)
        else:
            r = apply_ufunc(name, *vals)
        return PArr(r, n, w)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(self, ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kw):
        return array_function(func, args, kw)

    def __neg__(self): return PArr._uf(None, "negative", (self,))
    def __abs__(self): return PArr._uf(None, "absolute", (self,))
    def __invert__(self): return PArr._uf(None, "invert", (self,))
    def __pos__(self): return self

    def __getitem__(self, ix):
        if isinstance(ix, PArr):
            if isinstance(ix.elem, Masked):
                return PArr(self.elem if ix.elem.present else HOLE, self.n)
            if ix.elem is HOLE:
                return PArr(HOLE, self.n)
            if STATE.path.weights:
                t = boolterm(ix.elem)
                return self if t is tm.TRUE else PArr(self.elem, self.n, t if self.w is None else tm.and_(self.w, t))
            return PArr(self.elem if bool(ix.elem) else HOLE, self.n)
        if isinstance(ix, (int, np.integer)) and not isinstance(ix, bool):
            return self.at(int(ix))
        if isinstance(ix, slice) and ix == slice(None):
            return PArr(self.elem, self.n, self.w)
        if isinstance(ix, tuple) and len(ix) == 1:
            return self[ix[0]]
        if ix is Ellipsis or isinstance(ix, tuple) and not ix:
            return self
        if isinstance(ix, (bool, np.bool_)) or isinstance(ix, np.ndarray) and ix.ndim == 0 and ix.dtype == bool:
            return self if ix else PArr(HOLE, self.n)
        raise Unsupported("index %r of a generic array" % (ix,))

    def __setitem__(self, ix, v):
        if isinstance(v, PArr):
            v = v.elem
        elif isinstance(v, np.ndarray):
            if v.size != 1:
                raise Unsupported("set from array")
            v = v.reshape(-1)[0]
        if isinstance(ix, tuple) and len(ix) == 1:
            ix = ix[0]
        if isinstance(ix, PArr) and STATE.path.weights and not isinstance(ix.elem, Masked):
            self.elem = s_ite(boolterm(ix.elem), v, self.elem)
            return
        if isinstance(ix, PArr):
            present = ix.elem.present if isinstance(ix.elem, Masked) else bool(ix.elem)
            if present:
                if v is HOLE:
                    raise Unsupported("mask mismatch")
                self.elem = v
            return
        if ix is Ellipsis or (isinstance(ix, slice) and ix == slice(None)):
            self.elem = v
            return
        if isinstance(ix, (bool, np.bool_)) or isinstance(ix, np.ndarray) and ix.ndim == 0 and ix.dtype == bool:
            if ix:
                self.elem = v
            return
        raise Unsupported("set index")

    def __len__(self):
        raise Unsupported("len() of a generic array outside a shimmed module")

    def __iter__(self):
        raise Unsupported("iteration over a generic array")

    def __bool__(self):
        raise ValueError("The truth value of an array is ambiguous")

    def copy(self): return PArr(self.elem, self.n, self.w)
    def flatten(self): return self
    def astype(self, dt, **k):
        if dt in (int, np.int64):
            return self._map(s_trunc)
        return PArr(self.elem, self.n, self.w)
    def any(self, *a, **k): return array_function(np.any, (self,), {})
    def all(self, *a, **k): return array_function(np.all, (self,), {})

    def __deepcopy__(self, memo):
        return PArr(self.elem, self.n, self.w)


def s_ite(c, a, b):
    """value-level conditional without forking"""
    if c is tm.TRUE:
        return a
    if c is tm.FALSE:
        return b
    if isinstance(a, (SymComplex, complex)) or isinstance(b, (SymComplex, complex)):
        a, b = SymComplex.of(a), SymComplex.of(b)
        return SymComplex(s_ite(c, a.re, b.re), s_ite(c, a.im, b.im))
    if isinstance(a, (bool, np.bool_, SymBool)) and isinstance(b, (bool, np.bool_, SymBool)):
        ta, tb = boolterm(a), boolterm(b)
        return wrap(tm.or_(tm.and_(c, ta), tm.and_(tm.not_(c), tb)))
    if nonfinite(a) or nonfinite(b):
        return a if fork(c) else b
    return SymReal(tm.ite(c, tterm(a), tterm(b)))


def lin_reduce(name, x, *extra):
    """linear functional of a generic array; the element must be the same expression for every index"""
    e = x.elem
    if e is HOLE:
        raise Unsupported("reduction of a masked generic array")
    tok = x.n.name
    path = STATE.path
    if tok in path.elemforked:
        raise Unsupported("reduction over an array after a case distinction on its generic element")
    path.reduced.add(tok)
    if isinstance(e, (SymBool, bool, np.bool_)):
        e = SymReal(tm.ite(boolterm(e), tm.ONE, tm.ZERO))
    if nonfinite(e):
        raise Unsupported("reduction of non-finite elements")
    if isinstance(e, (SymComplex, complex)):
        e = SymComplex.of(e)
        return SymComplex(lin_reduce(name, PArr(e.re, x.n, x.w), *extra), lin_reduce(name, PArr(e.im, x.n, x.w), *extra))
    t = tterm(e)
    if x.w is not None:
        t = tm.mul(t, tm.ite(x.w, tm.ONE, tm.ZERO))
    if name == "sum" and tok not in tm.tokens(t):
        return SymReal(tm.mul(t, x.n.t))
    return SymReal(tm.lin(name, tok, t, *extra))


def agg_reduce(name, x):
    e = x.elem
    tok = x.n.name
    path = STATE.path
    if e is HOLE or x.w is not None or tok in path.elemforked or isinstance(e, SymComplex):
        raise Unsupported("extremum of a masked generic array")
    if not scalar_sym(e):
        return e
    path.reduced.add(tok)
    t = tterm(e)
    if tok not in tm.tokens(t):
        return e
    r = tm.mk("agg", name, tok, t)
    path.know(tm.le(t, r) if name == "max" else tm.le(r, t))
    return SymReal(r)


def _mk(name, swap=False):
    def m(self, other):
        return PArr._uf(None, name, (other, self) if swap else (self, other))
    return m


for _n, _u in (("add", "add"), ("sub", "subtract"), ("mul", "multiply"), ("truediv", "divide"), ("pow", "power"),
               ("floordiv", "floor_divide"), ("mod", "remainder"), ("and", "bitwise_and"), ("or", "bitwise_or"),
               ("xor", "bitwise_xor")):
    setattr(PArr, "__%s__" % _n, _mk(_u))
    setattr(PArr, "__r%s__" % _n, _mk(_u, True))


def _iop(u):
    def m(self, other):
        r = PArr._uf(None, u, (self, other))
        self.elem = r.elem
        return self
    return m


for _n, _u in (("add", "add"), ("sub", "subtract"), ("mul", "multiply"), ("truediv", "divide")):
    setattr(PArr, "__i%s__" % _n, _iop(_u))
for _n, _u in (("lt", "less"), ("le", "less_equal"), ("gt", "greater"), ("ge", "greater_equal"), ("eq", "equal"),
               ("ne", "not_equal")):
    setattr(PArr, "__%s__" % _n, _mk(_u))
PArr.__hash__ = lambda self: id(self)


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "pow", "rpow", "floordiv", "mod", "lt",
           "le", "ge"):
    setattr(LenToken, "__%s__" % _n, _lenop("__%s__" % _n))
LenToken.__neg__ = lambda self: -self.sym
LenToken.__float__ = lambda self: (_ for _ in ()).throw(Unsupported("float(length)"))


class SymNd(np.ndarray):
    """object ndarray of symbolic scalars (fixed shape)"""
    __array_priority__ = 15000

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method == "reduce":
            return nd_reduce(ufunc.__name__, inputs[0], **kw)
        return array_ufunc(self, ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kw):
        return array_function(func, args, kw)

    def __getitem__(self, ix):
        if isinstance(ix, PArr) and not isinstance(boolish(ix.elem), bool) and self.ndim == 1:
            return PArr(self[concretise(ix.elem, len(self))], ix.n, ix.w)      # gather: one element per index
        if isinstance(ix, SymReal):
            ix = concretise(ix, len(self))
        r = np.ndarray.__getitem__(self, conc_index(ix, self.shape[0] if self.ndim else None))
        return r

    def __setitem__(self, ix, v):
        np.ndarray.__setitem__(self, conc_index(ix), v)

    @property
    def real(self):
        return mapobj(lambda a: a.real, self)

    @property
    def imag(self):
        return mapobj(lambda a: a.imag if scalar_sym(a) or isinstance(a, (complex, np.number)) else 0.0, self)

    def sum(self, axis=None, **k):
        return nd_reduce("add", self, axis=axis)

    def prod(self, axis=None, **k):
        return nd_reduce("multiply", self, axis=axis)

    def any(self, axis=None, **k):
        return nd_reduce("logical_or", self, axis=axis)

    def all(self, axis=None, **k):
        return nd_reduce("logical_and", self, axis=axis)

    def max(self, axis=None, **k):
        return nd_reduce("maximum", self, axis=axis)

    def min(self, axis=None, **k):
        return nd_reduce("minimum", self, axis=axis)

    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis=axis) / n

    def astype(self, dt, **k):
        return self.copy()

    def conjugate(self):
        return objmap("conjugate", self)

    conj = conjugate


def mapobj(f, a):
    out = np.empty(a.shape, dtype=object).view(SymNd)
    b = np.asarray(a).view(np.ndarray)
    for ix in np.ndindex(*a.shape):
        np.ndarray.__setitem__(out, ix, f(b[ix]))
    return out


def nd_reduce(name, a, axis=0, out=None, keepdims=False, initial=None, **kw):
    a = np.asarray(a).view(np.ndarray)
    ident = {"add": 0, "multiply": 1, "logical_or": False, "logical_and": True}.get(name)

    def red(vals):
        vals = list(vals)
        if not vals:
            if ident is None:
                raise ValueError("empty reduction")
            return ident
        r = vals[0]
        for v in vals[1:]:
            r = SCALAR[name](r, v) if (scalar_sym(r) or scalar_sym(v)) else _conc(name, [r, v])
        if name in ("logical_or", "logical_and") and len(vals) == 1:
            return wrap(boolterm(r))
        return r
    if axis is None or (a.ndim == 1 and axis in (0, -1)):
        return red(a.reshape(-1))
    ax = axis % a.ndim if isinstance(axis, int) else axis
    if not isinstance(ax, int):
        raise Unsupported("axis tuple")
    m = np.moveaxis(a, ax, -1)
    res = np.empty(m.shape[:-1], dtype=object).view(SymNd)
    for ix in np.ndindex(*m.shape[:-1]):
        np.ndarray.__setitem__(res, ix, red(m[ix]))
    return res


def boolish(x):
    return True if isinstance(x, (SymBool, bool, np.bool_, Masked)) or x is HOLE else x


def concretise(x, n):
    """a symbolic index into n entries: one case per entry"""
    if not isinstance(x, SymReal):
        return int(x)
    k = known_const(x.t)
    if k is not None:
        return int(k)
    for i in range(n):
        if fork(tm.eq(x.t, tm.const(i))):
            return i
    raise Unsupported("symbolic index outside the array")


def conc_index(ix, n=None):
    if isinstance(ix, tuple):
        return tuple(conc_index(i) for i in ix)
    if isinstance(ix, SymBool):
        return bool(ix)
    if isinstance(ix, np.ndarray) and ix.dtype == object:
        flat = [x for x in ix.reshape(-1)]
        if all(isinstance(x, (SymBool, bool, np.bool_)) for x in flat):
            return np.array([bool(x) for x in flat], dtype=bool).reshape(ix.shape)
        return np.array([int(x) if n is None else concretise(x, n) for x in flat]).reshape(ix.shape)
    if isinstance(ix, list) and ix and all(isinstance(x, (SymBool, bool, np.bool_)) for x in ix):
        return [bool(x) for x in ix]
    return ix


def as_nd(x):
    """to SymNd if it contains symbols"""
    if isinstance(x, SymNd):
        return x
    a = np.asarray(x, dtype=object) if not isinstance(x, np.ndarray) else x
    return a.astype(object).view(SymNd)


def has_sym(x, depth=4):
    if scalar_sym(x) or isinstance(x, PArr) or getattr(x, "_pydv_array", False):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(scalar_sym(v) for v in x.reshape(-1))
    if isinstance(x, (list, tuple)) and depth:
        return any(has_sym(v, depth - 1) for v in x)
    return False


def first_parr(args):
    for a in args:
        if isinstance(a, PArr):
            return a
        if isinstance(a, (list, tuple)):
            r = first_parr(a)
            if r is not None:
                return r
    return None


# ------------------------------------------------------------------------- __array_function__
FUNC = {}


def handles(name):
    def deco(f):
        FUNC[name] = f
        return f
    return deco


def array_function(func, args, kw):
    name = func.__name__
    h = FUNC.get(name)
    if h is None:
        raise Unsupported("numpy function " + name)
    return h(*args, **kw)


def _arr(x):
    if isinstance(x, (PArr, SymNd)) or getattr(x, "_pydv_array", False):
        return x
    if isinstance(x, (list, tuple)):
        if any(isinstance(v, PArr) for v in x):
            raise Unsupported("array of generic arrays")
        if any(isinstance(v, np.ndarray) for v in x):
            return np.array([as_nd(v) if not isinstance(v, np.ndarray) or v.dtype != object else v.view(np.ndarray)
                             for v in x], dtype=object).view(SymNd)
        return as_nd(x)
    if isinstance(x, np.ndarray):
        return as_nd(x)
    return as_nd(_box(x))


@handles("where")
def f_where(c, a=None, b=None):
    if a is None and b is None:
        if isinstance(c, PArr):
            return (PArr(Masked(bool(c.elem)), c.n),)
        if isinstance(c, np.ndarray):
            return np.where(conc_index(c))
        if scalar_sym(c):
            return np.where(np.atleast_1d(bool(c)))
        raise Unsupported("where(cond)")
    if any(isinstance(x, PArr) for x in (c, a, b)):
        n = first_parr((c, a, b)).n
        ce = c.elem if isinstance(c, PArr) else c
        if ce is HOLE:
            return PArr(HOLE, n)
        if STATE.path.weights:
            return PArr(s_ite(boolterm(ce), a.elem if isinstance(a, PArr) else a, b.elem if isinstance(b, PArr) else b),
                        n)
        pick = a if bool(ce) else b
        return PArr(pick.elem if isinstance(pick, PArr) else pick, n)
    if any(getattr(x, "_pydv_array", False) for x in (c, a, b)):
        x = [x for x in (c, a, b) if getattr(x, "_pydv_array", False)][0]
        return x._where(c, a, b)
    if any(isinstance(x, (np.ndarray, list, tuple)) and np.ndim(x) for x in (c, a, b)):
        arrs = [np.asarray(x if not scalar_sym(x) else _box(x)) for x in (c, a, b)]
        shape = np.broadcast(*arrs).shape
        bs = [np.broadcast_to(x, shape) for x in arrs]
        out = np.empty(shape, dtype=object).view(SymNd)
        for ix in np.ndindex(*shape):
            np.ndarray.__setitem__(out, ix, bs[1][ix] if bool(bs[0][ix]) else bs[2][ix])
        return out
    if isinstance(c, np.ndarray):
        c = c.item()
    r = a if bool(c) else b
    return np.asarray(r)[()] if isinstance(r, (bool, int, float, complex)) else r


@handles("nan_to_num")
def f_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    f = lambda a: s_nan_to_num(a, nan, posinf, neginf)
    if isinstance(x, PArr):
        return x._map(f)
    if isinstance(x, np.ndarray):
        return mapobj(f, x)
    return f(x)


@handles("any")
def f_any(x, axis=None, **k):
    if isinstance(x, PArr):
        # exists i. x_i : fresh Boolean, unless decided for every element by universal facts
        if x.elem is not HOLE:
            r = STATE.path.facts.implied(boolterm(x.elem))
            if r is not None:
                return r
        b = STATE.path.freshbool("any")
        t = tm.bvar(b)
        if bool(SymBool(t)):
            return True
        STATE.path.know(tm.not_(boolterm(x.elem))) if x.elem is not HOLE else None
        return False
    if getattr(x, "_pydv_array", False):
        return x._any()
    return nd_reduce("logical_or", _arr(x), axis=axis)


@handles("all")
def f_all(x, axis=None, **k):
    if isinstance(x, PArr):
        if x.elem is not HOLE:
            r = STATE.path.facts.implied(boolterm(x.elem))
            if r is not None:
                return r
        b = STATE.path.freshbool("all")
        t = tm.bvar(b)
        if bool(SymBool(t)):
            if x.elem is not HOLE:
                STATE.path.know(boolterm(x.elem))
            return True
        return False
    if getattr(x, "_pydv_array", False):
        return x._all()
    return nd_reduce("logical_and", _arr(x), axis=axis)


@handles("sum")
def f_sum(x, axis=None, **k):
    if getattr(x, "_pydv_array", False):
        return x.sum()
    if isinstance(x, PArr):
        return x.sum()
    if isinstance(x, (list, tuple)) and any(isinstance(v, PArr) for v in x):
        if axis == 0:
            r = x[0]
            for v in x[1:]:
                r = r + v
            return r
        if axis in (1, -1):
            return as_nd([v.sum() for v in x])
        if axis is None:
            r = 0
            for v in x:
                r = r + v.sum()
            return r
    if isinstance(x, (list, tuple)) and any(getattr(v, "_pydv_array", False) for v in x):
        raise Unsupported("sum of arrays")
    return nd_reduce("add", _arr(x), axis=axis)


@handles("prod")
def f_prod(x, axis=None, **k):
    if isinstance(x, (list, tuple)) and any(isinstance(v, PArr) for v in x) and axis == 0:
        r = x[0]
        for v in x[1:]:
            r = r * v
        return r
    if isinstance(x, PArr):
        raise Unsupported("prod of a generic array")
    return nd_reduce("multiply", _arr(x), axis=axis)


@handles("mean")
def f_mean(x, axis=None, **k):
    if isinstance(x, PArr) or getattr(x, "_pydv_array", False):
        return x.mean()
    a = _arr(x)
    return a.mean(axis=axis)


@handles("var")
def f_var(x, axis=None, ddof=0, **k):
    if axis is not None or k:
        raise Unsupported("var with axis")
    a = _arr(x).reshape(-1)
    n = len(a)
    m = sum(a) / n
    return sum((v - m) * (v - m) for v in a) / (n - ddof)


@handles("std")
def f_std(x, axis=None, ddof=0, **k):
    return s_sqrt(f_var(x, axis, ddof, **k))


@handles("cov")
def f_cov(m, **k):
    if k:
        raise Unsupported("cov with options")
    a = _arr(m)
    if a.ndim != 2:
        raise Unsupported("cov of 1d data")
    n = a.shape[1]
    d = [[v - sum(r) / n for v in r] for r in a]
    out = np.empty((len(d), len(d)), dtype=object)
    for i, r in enumerate(d):
        for j, q in enumerate(d):
            out[i, j] = sum(x * y for x, y in zip(r, q)) / (n - 1)
    return as_nd(out.reshape(())) if len(d) == 1 else as_nd(out)


@handles("max")
def f_max(x, axis=None, **k):
    if isinstance(x, PArr):
        return agg_reduce("max", x)
    if getattr(x, "_pydv_array", False):
        return x.max()
    return nd_reduce("maximum", _arr(x), axis=axis)


FUNC["amax"] = f_max


@handles("min")
def f_min(x, axis=None, **k):
    if isinstance(x, PArr):
        return agg_reduce("min", x)
    if getattr(x, "_pydv_array", False):
        return x.min()
    return nd_reduce("minimum", _arr(x), axis=axis)


FUNC["amin"] = f_min


def _argbest(x, better):
    """first position of the best element of an explicit array (the path forks at undecided comparisons)"""
    if isinstance(x, PArr) or getattr(x, "_pydv_array", False):
        raise Unsupported("argmax of a generic array")
    v = list(_arr(x).reshape(-1))
    if not v:
        raise ValueError("attempt to get argmax of an empty sequence")
    bools = all(isinstance(a, (bool, np.bool_, SymBool)) for a in v)
    best = 0
    for i in range(len(v)):
        if bools:
            if bool(v[i]) == better:
                return i
        elif _isnan(v[i]):
            return i
        elif i and bool(cmp_lt(v[best], v[i]) if better else cmp_lt(v[i], v[best])):
            best = i
    return best


@handles("argmax")
def f_argmax(x, axis=None, **k):
    if axis not in (None, 0, -1) or (axis is not None and np.ndim(x) > 1):
        raise Unsupported("argmax along an axis")
    return _argbest(x, True)


@handles("sort")
def f_sort(x, axis=-1, **k):
    """explicit arrays: one path per order of the elements"""
    a = _arr(x)
    if isinstance(a, PArr) or getattr(a, "_pydv_array", False) or a.ndim != 1:
        raise Unsupported("sort of this array")
    out = []
    for v in a:
        i = len(out)
        while i and bool(cmp_lt(v, out[i - 1])):
            i -= 1
        out.insert(i, v)
    return as_nd(out)


@handles("percentile")
def f_percentile(x, q, **k):
    qs = [v / 100. for v in np.atleast_1d(np.asarray(q, dtype=float))]
    r = f_quantile(x, qs, **k)
    return r if np.ndim(q) else r[0]


@handles("quantile")
def f_quantile(x, q, **k):
    if k:
        raise Unsupported("quantile with options")
    if has_sym(q):
        raise Unsupported("quantile at a symbol")
    a = f_sort(x)
    out = []
    for v in np.atleast_1d(np.asarray(q, dtype=float)):
        h = float(v) * (len(a) - 1)
        i = min(int(math.floor(h)), len(a) - 1)
        lo, hi = np.ndarray.__getitem__(a, i), np.ndarray.__getitem__(a, min(i + 1, len(a) - 1))
        out.append(s_add(lo, s_mul(h - i, s_sub(hi, lo))))
    return as_nd(out) if np.ndim(q) else out[0]


@handles("median")
def f_median(x, axis=None, **k):
    return f_quantile(_arr(x).reshape(-1), 0.5)


@handles("argmin")
def f_argmin(x, axis=None, **k):
    if axis not in (None, 0, -1) or (axis is not None and np.ndim(x) > 1):
        raise Unsupported("argmin along an axis")
    return _argbest(x, False)


@handles("cumsum")
def f_cumsum(x, axis=None, **k):
    a = _arr(x).reshape(-1)
    out = np.empty(a.shape, dtype=object).view(SymNd)
    r = 0
    for i in range(len(a)):
        r = s_add(r, np.ndarray.__getitem__(a, i))
        np.ndarray.__setitem__(out, i, r)
    return out


def _like(val):
    def f(x, fill=None, dtype=None, **k):
        v = val if fill is None else fill
        if getattr(x, "_pydv_array", False):
            return x._full(v)
        if isinstance(x, PArr):
            return PArr(v, x.n)
        if isinstance(x, np.ndarray) and x.ndim:
            out = np.empty(x.shape, dtype=object).view(SymNd)
            out[...] = v
            return out
        return np.float64(v) if not scalar_sym(v) else v
    return f


FUNC["zeros_like"] = lambda x, dtype=None, **k: _like(0.0)(x)
FUNC["ones_like"] = lambda x, dtype=None, **k: _like(1.0)(x)
FUNC["empty_like"] = lambda x, dtype=None, **k: _like(0.0)(x)
FUNC["full_like"] = lambda x, fill_value, dtype=None, **k: _like(None)(x, fill_value)


@handles("atleast_1d")
def f_atleast_1d(x):
    if isinstance(x, (PArr, SymNd)) and np.ndim(x):
        return x
    if getattr(x, "_pydv_array", False):
        return x
    a = _arr(x)
    return a.reshape(1) if a.ndim == 0 else a


@handles("isin")
def f_isin(x, test, **k):
    test = [float(v) for v in np.asarray(test).reshape(-1)]

    def one(v):
        r = False
        for t in test:
            r = b_or(r, cmp_eq(v, t))
        return r
    if isinstance(x, PArr):
        return x._map(one)
    if isinstance(x, np.ndarray):
        return mapobj(one, x)
    return one(x)


@handles("ndim")
def f_ndim(x):
    return x.ndim


@handles("shape")
def f_shape(x):
    return _arr(x).shape


@handles("size")
def f_size(x, axis=None):
    return _arr(x).size


@handles("copy")
def f_copy(x, **k):
    return x.copy() if hasattr(x, "copy") else x


for _n in ("real", "imag"):
    FUNC[_n] = (lambda nm: (lambda x: getattr(_arr(x) if isinstance(x, (list, tuple)) else x, nm)))(_n)
def s_round(a, n):
    """round to n decimals: some real within half a unit of the last decimal"""
    if nonfinite(a):
        return a
    t = tterm(a)
    r = STATE.path.fresh("round", key=("round", t.id, n))
    h = tm.const(F(1, 2) / F(10) ** int(n))
    STATE.path.know(tm.and_(tm.le(tm.sub(t, h), r), tm.le(r, tm.add(t, h))))
    return SymReal(r)


@handles("around")
def f_around(x, decimals=0, **k):
    f = s_rint if not decimals else lambda v: s_round(v, decimals)
    if isinstance(x, PArr):
        return x._map(f)
    if isinstance(x, np.ndarray):
        return mapobj(f, x)
    return f(x)


@handles("ptp")
def f_ptp(x, **k):
    return s_sub(FUNC["max"](x), FUNC["min"](x))


FUNC["round"] = FUNC["around"]
FUNC["round_"] = FUNC["around"]


def _unsup(m):
    raise Unsupported(m)


@handles("vdot")
def f_vdot(a, b):
    return f_dot(np.conjugate(a), b)


@handles("dot")
def f_dot(a, b, out=None):
    if isinstance(a, PArr) and isinstance(b, PArr):
        return (a * b).sum()
    if isinstance(a, PArr) or isinstance(b, PArr):
        return a * b
    A, B = _arr(a), _arr(b)
    if A.ndim == 0 or B.ndim == 0:
        return A * B
    return f_matmul(A, B)


def f_matmul(a, b):
    A = np.asarray(a).view(np.ndarray)
    B = np.asarray(b).view(np.ndarray)
    a1, b1 = A.ndim == 1, B.ndim == 1
    A2 = A.reshape(1, -1) if a1 else A
    B2 = B.reshape(-1, 1) if b1 else B
    if A2.ndim != 2 or B2.ndim != 2:
        raise Unsupported("matmul ndim")
    out = np.empty((A2.shape[0], B2.shape[1]), dtype=object).view(SymNd)
    for i in range(A2.shape[0]):
        for j in range(B2.shape[1]):
            r = 0
            for k in range(A2.shape[1]):
                r = _sc("add", r, _sc("multiply", A2[i, k], B2[k, j]))
            np.ndarray.__setitem__(out, (i, j), r)
    if a1 and b1:
        return np.ndarray.__getitem__(out, (0, 0))
    if a1:
        return out[0]
    if b1:
        return out[:, 0]
    return out


SCALAR_MATMUL = f_matmul


def _sc(name, *vals):
    if any(scalar_sym(v) for v in vals):
        return SCALAR[name](*vals)
    return _conc(name, list(vals))


@handles("einsum")
def f_einsum(spec, *ops, **k):
    ins, out = spec.replace(" ", "").split("->")
    ins = ins.split(",")
    arrs = [np.asarray(o).view(np.ndarray) for o in ops]
    if any(getattr(o, "_pydv_array", False) or isinstance(o, PArr) for o in ops):
        raise Unsupported("einsum over generic arrays")
    dims = {}
    for s, a in zip(ins, arrs):
        if len(s) != a.ndim:
            raise Unsupported("einsum ellipsis")
        for c, n in zip(s, a.shape):
            dims[c] = n
    red = [c for c in dims if c not in out]
    res = np.empty([dims[c] for c in out], dtype=object).view(SymNd)
    for ix in np.ndindex(*[dims[c] for c in out]):
        env = dict(zip(out, ix))
        tot = 0
        for rx in np.ndindex(*[dims[c] for c in red]):
            env.update(zip(red, rx))
            p = 1
            for s, a in zip(ins, arrs):
                p = _sc("multiply", p, a[tuple(env[c] for c in s)])
            tot = _sc("add", tot, p)
        np.ndarray.__setitem__(res, ix, tot)
    if not out:
        return np.ndarray.__getitem__(res, ())
    return res


@handles("diag")
def f_diag(a, **k):
    a = np.asarray(a).view(np.ndarray)
    return np.diag(a).view(SymNd)


FUNC["diagonal"] = f_diag


@handles("atleast_2d")
def f_atleast_2d(a):
    return np.atleast_2d(np.asarray(_arr(a)).view(np.ndarray)).view(SymNd)


@handles("outer")
def f_outer(a, b):
    return f_einsum("i,j->ij", a, b)


@handles("cross")
def f_cross(a, b, **k):
    a, b = _arr(a), _arr(b)
    r = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    return as_nd(r)


@handles("linspace")
def f_linspace(start, stop, num=50, **k):
    a, b, n = start, stop, int(num)
    if n == 1:
        return as_nd([a])
    return as_nd([s_add(a, s_mul(s_div(s_sub(b, a), n - 1), i)) for i in range(n)])


@handles("append")
def f_append(a, b, **k):
    return as_nd(list(_arr(a).reshape(-1)) + list(_arr(b).reshape(-1)))


@handles("concatenate")
def f_concatenate(xs, axis=0, **k):
    return np.concatenate([as_nd(x).view(np.ndarray) for x in xs], axis=axis).view(SymNd)


FUNC["hstack"] = lambda xs, **k: f_concatenate([np.atleast_1d(_arr(x)) for x in xs])


@handles("vstack")
def f_vstack(xs, **k):
    return np.vstack([np.asarray(_arr(x)).view(np.ndarray) for x in xs]).view(SymNd)


@handles("diff")
def f_diff(x, **k):
    a = _arr(x)
    return a[1:] - a[:-1]


@handles("trapz")
def f_trapz(y, x=None, dx=1.0, axis=-1):
    y = _arr(y)
    if isinstance(y, PArr) or y.ndim != 1 or isinstance(x, PArr):
        raise Unsupported("trapz over a generic array")
    x = None if x is None else _arr(x)
    t = 0
    for i in range(len(y) - 1):
        h = dx if x is None else s_sub(x[i + 1], x[i])
        t = s_add(t, s_div(s_mul(h, s_add(y[i], y[i + 1])), 2))
    return t


@handles("transpose")
def f_transpose(x, axes=None):
    return np.asarray(x).view(np.ndarray).transpose(axes).view(SymNd)


@handles("squeeze")
def f_squeeze(x, **k):
    return np.asarray(x).view(np.ndarray).squeeze(**k).view(SymNd)


@handles("reshape")
def f_reshape(x, shape, **k):
    return np.asarray(x).view(np.ndarray).reshape(shape).view(SymNd)


def _nanless(x):
    v = [a for a in _arr(x).flat if not (isinstance(a, (float, np.floating)) and a != a)]
    out = np.empty(len(v), dtype=object)
    for i, a in enumerate(v):
        out[i] = a
    return as_nd(out)


@handles("nanmax")
def f_nanmax(x, **k):
    if k or isinstance(x, PArr):
        raise Unsupported("nanmax")
    return FUNC["max"](_nanless(x))


@handles("nanmin")
def f_nanmin(x, **k):
    if k or isinstance(x, PArr):
        raise Unsupported("nanmin")
    return FUNC["min"](_nanless(x))


@handles("allclose")
def f_allclose(a, b, **k):
    r = True
    a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    for x, y in zip(a.flat, b.flat):
        r = b_and(r, FUNC["isclose"](x, y, **k))
    return r


@handles("isclose")
def f_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if (a is b and not nonfinite(a)) or (isinstance(a, SymReal) and isinstance(b, SymReal) and a.t is b.t):
        return True
    d = s_sub(a, b)
    return cmp_le(s_abs(d), s_add(atol, s_mul(rtol, s_abs(b))))


@handles("unwrap")
def f_unwrap(*a, **k):
    raise Unsupported("unwrap")


@handles("array_equal")
def f_array_equal(a, b, **k):
    a, b = _arr(a), _arr(b)
    if a.shape != b.shape:
        return False
    return nd_reduce("logical_and", objmap("equal", a, b), axis=None)


@handles("clip")
def f_clip(x, a_min=None, a_max=None, **k):
    lo, hi = k.get("min", a_min), k.get("max", a_max)

    def one(v):
        if lo is not None:
            v = s_max(v, lo)
        return s_min(v, hi) if hi is not None else v
    if isinstance(x, PArr):
        return x._map(one)
    if isinstance(x, np.ndarray):
        return mapobj(one, x)
    return one(x)


@handles("logical_and.reduce")
def _x(*a):
    raise Unsupported("reduce")


SymNd.__matmul__ = lambda self, o: f_matmul(self, o)
SymNd.__rmatmul__ = lambda self, o: f_matmul(o, self)
SymNd.dot = lambda self, o: f_dot(self, o)


# ------------------------------------------------------------------------- paths
class PathLimit(Exception):
    pass


class Path(object):
    def __init__(self, prefix, pending):
        from .smt import Facts
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.pending = pending
        self.facts = Facts()
        self.names = {}
        self.keyed = {}
        self.weights = False        # masks of generic arrays as weights instead of case distinctions
        self.elemforked = set()     # array lengths whose generic element was restricted by a case distinction
        self.reduced = set()        # array lengths over which a reduction was taken
        self.inputs = []            # (name, kind, hint)
        self.forks = 0

    def know(self, t):
        if isinstance(t, SymBool):
            t = t.t
        if t is True or t is tm.TRUE:
            return
        if t is False or t is tm.FALSE:
            raise InfeasiblePath()
        self.facts.add(t)

    def fresh(self, base, sort="R", key=None):
        if key is not None and key in self.keyed:
            return self.keyed[key]
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        v = tm.var("%s#%d" % (base, n), sort)
        if key is not None:
            self.keyed[key] = v
        return v

    def freshbool(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return "%s#%d" % (base, n)

    def fork(self, cond):
        toks = tm.tokens(cond)
        if toks:
            r = self.facts.implied(cond)
            if r is None:
                if toks & self.reduced:
                    raise Unsupported("case distinction on a generic element after a reduction: " + tm.show(cond, 5))
                self.elemforked |= toks
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            r = self.facts.implied(cond)
            if r is None:
                d = True
                self.forks += 1
                self.pending.append(self.decisions + [False])
            else:
                d = r
        self.pos += 1
        self.decisions.append(d)
        self.facts.add(cond if d else tm.not_(cond))
        return d

    def choose(self, n):
        """n-way nondeterministic choice"""
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            d = 0
            for k in range(n - 1, 0, -1):
                self.pending.append(self.decisions + [k])
        self.pos += 1
        self.decisions.append(d)
        return d


def _structural(name):
    """functions that only move elements of explicit arrays around"""
    func = getattr(np, name)

    def f(*args, **kw):
        def plain(x):
            if isinstance(x, SymNd):
                return x.view(np.ndarray)
            if isinstance(x, PArr) or getattr(x, "_pydv_array", False):
                raise Unsupported("numpy function " + name)
            if scalar_sym(x):
                return _box(x)
            if isinstance(x, (list, tuple)):
                return type(x)(plain(v) for v in x)
            return x
        r = func(*[plain(a) for a in args], **{k: plain(v) for k, v in kw.items()})
        if isinstance(r, (list, tuple)):
            return type(r)(v.astype(object).view(SymNd) if isinstance(v, np.ndarray) else v for v in r)
        return r.astype(object).view(SymNd) if isinstance(r, np.ndarray) else r
    return f


for _n in ("tile", "broadcast_arrays", "repeat", "roll", "flip", "flipud", "fliplr", "moveaxis", "swapaxes", "rollaxis",
           "expand_dims", "squeeze", "delete", "insert", "split", "array_split", "atleast_3d", "rot90"):
    if _n not in FUNC:
        FUNC[_n] = _structural(_n)
