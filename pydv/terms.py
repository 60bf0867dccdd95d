"""Hash-consed terms over the reals / integers / Booleans.

A term denotes a mathematical real (or Boolean).  Machine floats that occur in the code under
verification are lifted to the closed-form real number they are the nearest double of
(assumption "machine arithmetic treated as mathematical reals").
"""
import math
from fractions import Fraction as F

_TABLE = {}


class T(object):
    __slots__ = ("op", "args", "id", "isbool", "__weakref__")

    def __init__(self, op, args, isbool):
        self.op = op
        self.args = args
        self.isbool = isbool
        self.id = len(_TABLE)

    def __repr__(self):
        return show(self)


BOOLOPS = {"lt", "le", "eq", "and", "or", "not", "true", "false", "bv"}


def mk(op, *args):
    key = (op,) + tuple(("t", a.id) if isinstance(a, T) else a for a in args)
    t = _TABLE.get(key)
    if t is None:
        t = T(op, args, op in BOOLOPS)
        _TABLE[key] = t
    return t


TRUE = mk("true")
FALSE = mk("false")


def const(x):
    return mk("c", F(x))


ZERO = const(0)
ONE = const(1)
PI = mk("pi")


def var(name, sort="R"):
    return mk("v", name, sort)


def bvar(name):
    return mk("bv", name)


def is_const(t):
    return t.op == "c"


def add(*ts):
    c = F(0)
    coeff = {}
    order = []
    stack = list(reversed(ts))
    while stack:
        t = stack.pop()
        if t.op == "c":
            c += t.args[0]
        elif t.op == "+":
            stack.extend(reversed(t.args))
        else:
            k = F(1)
            if t.op == "*" and t.args[0].op == "c":
                k = t.args[0].args[0]
                t = t.args[1] if len(t.args) == 2 else mk("*", *t.args[1:])
            if t in coeff:
                coeff[t] += k
            else:
                coeff[t] = k
                order.append(t)
    out = []
    for t in order:
        k = coeff[t]
        if k == 0:
            continue
        out.append(t if k == 1 else _scale(k, t))
    if c != 0 or not out:
        out.append(const(c))
    if len(out) == 1:
        return out[0]
    return mk("+", *out)


def _scale(k, t):
    if t.op == "*":
        return mk("*", const(k), *t.args)
    return mk("*", const(k), t)


def mul(*ts):
    c = F(1)
    out = []
    stack = list(reversed(ts))
    while stack:
        t = stack.pop()
        if t.op == "c":
            c *= t.args[0]
        elif t.op == "*":
            stack.extend(reversed(t.args))
        else:
            out.append(t)
    if c == 0:
        return ZERO
    # combine equal bases with integer powers lightly
    if not out:
        return const(c)
    out.sort(key=lambda t: t.id)
    if c != 1:
        out.insert(0, const(c))
    if len(out) == 1:
        return out[0]
    return mk("*", *out)


def neg(t):
    return mul(const(-1), t)


def sub(a, b):
    return add(a, neg(b))


def powc(t, q):
    q = F(q)
    if q == 1:
        return t
    if q == 0:
        return ONE
    if t.op == "c":
        v = t.args[0]
        if q.denominator == 1:
            if v != 0:
                return const(v ** int(q))
            if q > 0:
                return ZERO
        elif v == 0 and q > 0:
            return ZERO
        elif v == 1:
            return ONE
        elif v > 0:
            r = _exact_root(v, q)
            if r is not None:
                return const(r)
    if t.op == "^" and q.denominator == 1 and t.args[1].denominator == 1:
        return powc(t.args[0], t.args[1] * q)
    return mk("^", t, q)


def _iroot(n, k):
    if n < 2:
        return n
    r = int(round(n ** (1.0 / k))) if n < 2 ** 900 else 0
    for x in (r - 1, r, r + 1):
        if x >= 0 and x ** k == n:
            return x
    return None


def _exact_root(v, q):
    a = _iroot(v.numerator, q.denominator)
    b = _iroot(v.denominator, q.denominator)
    if a is None or b is None:
        return None
    return F(a, b) ** q.numerator


def div(a, b):
    return mul(a, powc(b, -1))


def fn(name, *args):
    """Function application with trivial constant folding."""
    if name in ("exp",) and args[0] is ZERO:
        return ONE
    if name in ("sin", "atan", "erf", "erfinv", "asin", "abs") and args[0] is ZERO:
        return ZERO
    if name == "cos" and args[0] is ZERO:
        return ONE
    if name == "log" and args[0] is ONE:
        return ZERO
    if name == "abs" and args[0].op == "c":
        return const(abs(args[0].args[0]))
    if name == "floor" and args[0].op == "c":
        return const(math.floor(args[0].args[0]))
    if name == "log" and args[0].op == "exp":
        return args[0].args[0]
    return mk(name, *args)


def uf(name, *args):
    return mk("uf", name, *args)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    return mk("ite", c, a, b)


def nonneg(t):
    """syntactically nonnegative"""
    o = t.op
    if o == "c":
        return t.args[0] >= 0
    if o in ("+", "*"):
        if o == "*":
            seen = {}
            for a in t.args:
                seen[a] = seen.get(a, 0) + 1
            return all(k % 2 == 0 or nonneg(a) for a, k in seen.items())
        return all(nonneg(a) for a in t.args)
    if o == "^":
        q = t.args[1]
        return q.denominator % 2 == 0 or (q.numerator % 2 == 0) or nonneg(t.args[0])
    if o in ("exp", "abs", "pi"):
        return True
    if o == "ite":
        return nonneg(t.args[1]) and nonneg(t.args[2])
    if o == "lin" and t.args[0] == "sum":
        return nonneg(t.args[2])
    return False


# ---------------------------------------------------------------- booleans
def lt(a, b):
    if a is b:
        return FALSE
    if a.op == "c" and b.op == "c":
        return TRUE if a.args[0] < b.args[0] else FALSE
    return mk("lt", a, b)


def le(a, b):
    if a is b:
        return TRUE
    if a.op == "c" and b.op == "c":
        return TRUE if a.args[0] <= b.args[0] else FALSE
    return mk("le", a, b)


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "c" and b.op == "c":
        return TRUE if a.args[0] == b.args[0] else FALSE
    if a.id > b.id:
        a, b = b, a
    return mk("eq", a, b)


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "lt":
        return le(a.args[1], a.args[0])
    if a.op == "le":
        return lt(a.args[1], a.args[0])
    return mk("not", a)


def and_(*ts):
    out = []
    for t in ts:
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        for s in (t.args if t.op == "and" else (t,)):
            if s not in out:
                out.append(s)
    for s in out:
        if not_(s) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *out)


def or_(*ts):
    out = []
    for t in ts:
        if t is TRUE:
            return TRUE
        if t is FALSE:
            continue
        for s in (t.args if t.op == "or" else (t,)):
            if s not in out:
                out.append(s)
    for s in out:
        if not_(s) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", *out)


# ---------------------------------------------------------------- lifting
_LIFT = {}


def _small_rational(x, qmax=2000, ulps=4):
    if x == 0 or not math.isfinite(x):
        return None
    r = F(x).limit_denominator(qmax)
    if r != 0 and abs(r.numerator) < 10 ** 7 and abs(float(r) - x) <= ulps * math.ulp(x):
        return r
    return None


def lift(x):
    """float/int -> term"""
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return const(x)
    if isinstance(x, F):
        return const(x)
    x = float(x)
    t = _LIFT.get(x)
    if t is None:
        t = _LIFT[x] = _lift(x)
    return t


def _lift(x):
    if not math.isfinite(x):
        raise ValueError("cannot lift non-finite float")
    if x == int(x) and abs(x) < 2 ** 53:
        return const(int(x))
    r = F(x).limit_denominator(1000)
    if r != 0 and float(r) == x:
        return const(r)
    rep = repr(x)
    digits = rep.lower().split("e")[0].replace(".", "").replace("-", "").strip("0")
    if len(digits) <= 12:
        return const(F(rep))
    r = _small_rational(x / math.pi)
    if r is not None:
        return mul(const(r), PI)
    r = _small_rational(x * math.pi)
    if r is not None:
        return mul(const(r), powc(PI, -1))
    s = -1 if x < 0 else 1
    y = x * x
    for val, e in ((y, 0), (y / math.pi, 1), (y * math.pi, -1)):
        r = _small_rational(val)
        if r is not None:
            b = mul(const(r), powc(PI, e)) if e else const(r)
            return mul(const(s), powc(b, F(1, 2)))
    r = _small_rational(abs(x) ** 3, 200)
    if r is not None:
        return mul(const(s), powc(const(r), F(1, 3)))
    for k in (2, 10):
        r = _small_rational(x / math.log(k), 100)
        if r is not None:
            return mul(const(r), fn("log", const(k)))
    if abs(x) < 5:
        r = _small_rational(math.exp(x), 30)
        if r is not None:
            return fn("log", const(r))
    for val, e in ((x / math.pi ** 2, 2), (x * math.pi ** 2, -2)):
        r = _small_rational(val, 200)
        if r is not None:
            return mul(const(r), powc(PI, e))
    r = F(x).limit_denominator(10 ** 6)
    if float(r) == x:
        return const(r)
    return const(F(rep))


# ---------------------------------------------------------------- inspection
def show(t, depth=12):
    if depth == 0:
        return "..."
    o = t.op
    d = depth - 1
    if o == "c":
        return str(t.args[0])
    if o == "pi":
        return "pi"
    if o in ("v", "bv"):
        return t.args[0]
    if o == "+":
        return "(" + " + ".join(show(a, d) for a in t.args) + ")"
    if o == "*":
        return "*".join(show(a, d) for a in t.args)
    if o == "^":
        return "%s^(%s)" % (show(t.args[0], d), t.args[1])
    if o == "lt":
        return "%s < %s" % (show(t.args[0], d), show(t.args[1], d))
    if o == "le":
        return "%s <= %s" % (show(t.args[0], d), show(t.args[1], d))
    if o == "eq":
        return "%s == %s" % (show(t.args[0], d), show(t.args[1], d))
    if o in ("and", "or"):
        return "(" + (" %s " % o).join(show(a, d) for a in t.args) + ")"
    if o == "uf":
        return "%s(%s)" % (t.args[0], ", ".join(show(a, d) for a in t.args[1:]))
    return "%s(%s)" % (o, ", ".join(show(a, d) if isinstance(a, T) else str(a) for a in t.args))


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        stack.extend(a for a in x.args if isinstance(a, T))
    return seen


def free_vars(*ts):
    seen = set()
    for t in ts:
        subterms(t, seen)
    return {x for x in seen if x.op in ("v", "bv")}


_TOKS = {}


def tokens(t):
    """array-length tokens whose generic index occurs free in t"""
    r = _TOKS.get(t)
    if r is None:
        if t.op in ("v", "bv"):
            r = frozenset([t.args[0].split("@")[1]]) if "@" in t.args[0] else frozenset()
        elif t.op in ("lin", "agg"):
            r = tokens(t.args[2]) - {t.args[1]}
            for a in t.args[3:]:
                r |= tokens(a)
        else:
            r = frozenset()
            for a in t.args:
                if isinstance(a, T):
                    r |= tokens(a)
        _TOKS[t] = r
    return r


def at_index(t, tok, k, memo=None):
    """the element at fixed position k: replace generic variables x@tok (not bound ones)"""
    memo = {} if memo is None else memo
    if tok not in tokens(t):
        return t
    r = memo.get(t)
    if r is None:
        if t.op in ("v", "bv"):
            base = t.args[0].split("@")[0]
            if base == "i":
                r = k
            else:
                key = show(k, 4)
                r = var("%s[%s]%%%s" % (base, key, tok), t.args[1]) if t.op == "v" else bvar(
                    "%s[%s]%%%s" % (base, key, tok))
        elif t.op in ("lin", "agg"):
            if t.args[1] == tok:
                r = mk(t.op, *(t.args[:3] + tuple(at_index(a, tok, k, memo) for a in t.args[3:])))
            else:
                r = mk(t.op, *(a if not isinstance(a, T) else at_index(a, tok, k, memo) for a in t.args))
        else:
            r = rebuild(t.op, [at_index(a, tok, k, memo) if isinstance(a, T) else a for a in t.args])
        memo[t] = r
    return r


def length(tok):
    return var("len:" + tok, "I")


def lin(name, tok, body, *extra):
    """linear functional over the elements of an array of arbitrary length (sum, dft coefficient, ...)"""
    if body is ZERO:
        return ZERO
    return mk("lin", name, tok, body, *extra)


def subst(t, m, memo=None):
    memo = {} if memo is None else memo
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    if not any(isinstance(a, T) for a in t.args):
        r = t
    else:
        args = [subst(a, m, memo) if isinstance(a, T) else a for a in t.args]
        r = rebuild(t.op, args)
    memo[t] = r
    return r


def rebuild(op, args):
    if op == "+":
        return add(*args)
    if op == "*":
        return mul(*args)
    if op == "^":
        return powc(*args)
    if op == "lt":
        return lt(*args)
    if op == "le":
        return le(*args)
    if op == "eq":
        return eq(*args)
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "not":
        return not_(*args)
    if op == "ite":
        return ite(*args)
    if op in ("uf", "sum", "v", "bv", "c", "pi", "rpow", "lin", "agg"):
        return mk(op, *args)
    return fn(op, *args)


# ---------------------------------------------------------------- special functions: signatures
# name -> (python evaluator, derivative wrt last argument as term builder or None)
def _sp(name):
    import scipy.special as sp
    return getattr(sp, name)


def ibeta_pdf(a, b, x):
    return mul(fn("exp", mul(add(a, const(-1)), fn("log", x))),
               fn("exp", mul(add(b, const(-1)), fn("log", sub(ONE, x)))),
               fn("exp", neg(betaln(a, b))))


def betaln(a, b):
    return add(fn("gammaln", a), fn("gammaln", b), neg(fn("gammaln", add(a, b))))


SPECIAL_DIFF = {
    # regularised incomplete gamma P(a, x)
    "gammainc": lambda a, x: mul(fn("exp", mul(add(a, const(-1)), fn("log", x))), fn("exp", neg(x)),
                                 fn("exp", neg(fn("gammaln", a)))),
    # regularised incomplete beta I_x(a, b)
    "btdtr": ibeta_pdf,
    # Student-t cdf
    "stdtr": lambda v, t: mul(
        fn("exp", sub(fn("gammaln", div(add(v, ONE), const(2))), fn("gammaln", div(v, const(2))))),
        powc(mul(PI, v), F(-1, 2)),
        fn("exp", mul(div(add(v, ONE), const(-2)), fn("log", add(ONE, div(mul(t, t), v)))))),
}
# (cdf, inverse) pairs, strictly increasing in the last argument on (lo, hi), values in [0, 1]
SPECIAL_INV = {"gammaincinv": "gammainc", "btdtri": "btdtr", "stdtrit": "stdtr"}


def diff(t, x, memo=None):
    """d t / d x for variable term x."""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    r = _diff(t, x, memo)
    memo[t] = r
    return r


def _diff(t, x, memo):
    o = t.op
    if t is x:
        return ONE
    if o in ("c", "pi", "v"):
        return ZERO
    if x not in subterms(t):
        return ZERO
    if o == "+":
        return add(*[diff(a, x, memo) for a in t.args])
    if o == "*":
        out = []
        for i, a in enumerate(t.args):
            d = diff(a, x, memo)
            if d is not ZERO:
                out.append(mul(d, *(t.args[:i] + t.args[i + 1:])))
        return add(*out)
    if o == "^":
        b, q = t.args
        return mul(const(q), powc(b, q - 1), diff(b, x, memo))
    a = t.args[0]
    if o == "exp":
        return mul(t, diff(a, x, memo))
    if o == "log":
        return mul(powc(a, -1), diff(a, x, memo))
    if o == "sin":
        return mul(fn("cos", a), diff(a, x, memo))
    if o == "cos":
        return mul(const(-1), fn("sin", a), diff(a, x, memo))
    if o == "asin":
        return mul(powc(sub(ONE, mul(a, a)), F(-1, 2)), diff(a, x, memo))
    if o == "acos":
        return mul(const(-1), powc(sub(ONE, mul(a, a)), F(-1, 2)), diff(a, x, memo))
    if o == "atan":
        return mul(powc(add(ONE, mul(a, a)), -1), diff(a, x, memo))
    if o == "erf":
        return mul(const(2), powc(PI, F(-1, 2)), fn("exp", neg(mul(a, a))), diff(a, x, memo))
    if o == "erfinv":
        return mul(const(F(1, 2)), powc(PI, F(1, 2)), fn("exp", mul(t, t)), diff(a, x, memo))
    if o == "lin":
        return lin(t.args[0], t.args[1], diff(t.args[2], x, memo), *t.args[3:])
    if o == "ite":
        return ite(t.args[0], diff(t.args[1], x, memo), diff(t.args[2], x, memo))
    if o == "uf":
        name, args = t.args[0], t.args[1:]
        if name in SPECIAL_DIFF:
            for p in args[:-1]:
                if x in subterms(p):
                    raise NotImplementedError("parameter derivative of %s" % name)
            return mul(SPECIAL_DIFF[name](*args), diff(args[-1], x, memo))
        if name in SPECIAL_INV:
            y = t
            d = SPECIAL_DIFF[SPECIAL_INV[name]](*(args[:-1] + (y,)))
            return mul(powc(d, -1), diff(args[-1], x, memo))
        out = []
        for i, p in enumerate(args):
            if x in subterms(p):
                out.append(mul(mk("uf", "D%d_%s" % (i, name), *args), diff(p, x, memo)))
        return add(*out)
    raise NotImplementedError("diff " + o)


# ---------------------------------------------------------------- numeric evaluation (mpmath)
class EvalError(Exception):
    pass


def evaluate(t, env, memo=None, ufs=None, mp=None):
    """Evaluate with mpmath (default 30 digits).  env: var name -> number."""
    import mpmath
    mp = mpmath.mp if mp is None else mp
    memo = {} if memo is None else memo

    def ev(t):
        r = memo.get(t)
        if r is None:
            r = _ev(t)
            memo[t] = r
        return r

    def _ev(t):
        o = t.op
        if o == "c":
            return mp.mpf(t.args[0].numerator) / t.args[0].denominator
        if o == "pi":
            return mp.pi
        if o in ("v", "bv"):
            if t.args[0] not in env:
                raise EvalError("unbound " + t.args[0])
            v = env[t.args[0]]
            return bool(v) if o == "bv" else mp.mpf(v)
        if o == "true":
            return True
        if o == "false":
            return False
        if o == "+":
            return mp.fsum(ev(a) for a in t.args)
        if o == "*":
            return mp.fprod(ev(a) for a in t.args)
        if o == "^":
            b, q = ev(t.args[0]), t.args[1]
            if b == 0 and q < 0:
                raise EvalError("0^-")
            if q.denominator == 1:
                return b ** int(q)
            if b < 0:
                raise EvalError("neg root")
            return mp.power(b, mp.mpf(q.numerator) / q.denominator)
        if o == "lt":
            return ev(t.args[0]) < ev(t.args[1])
        if o == "le":
            return ev(t.args[0]) <= ev(t.args[1])
        if o == "eq":
            a, b = ev(t.args[0]), ev(t.args[1])
            return abs(a - b) <= mp.mpf(10) ** -20 * max(1, abs(a), abs(b))
        if o == "and":
            return all(ev(a) for a in t.args)
        if o == "or":
            return any(ev(a) for a in t.args)
        if o == "not":
            return not ev(t.args[0])
        if o == "ite":
            return ev(t.args[1]) if ev(t.args[0]) else ev(t.args[2])
        if o == "uf":
            name = t.args[0]
            args = [ev(a) for a in t.args[1:]]
            if ufs and name in ufs:
                return mp.mpf(ufs[name](*args))
            if name in SPECIAL_DIFF or name in SPECIAL_INV:
                v = float(_sp(name)(*[float(a) for a in args]))
                if not math.isfinite(v):
                    raise EvalError(name)
                return mp.mpf(v)
            raise EvalError("uf " + name)
        if o == "lin" and t.args[0] == "sum":
            # the instance in which all elements of the array are equal
            return ev(t.args[2]) * ev(length(t.args[1]))
        if o == "agg":
            return ev(t.args[2])
        a = ev(t.args[0])
        if o == "exp":
            if a > 5000:
                raise EvalError("exp overflow")
            return mp.exp(a)
        if o == "log":
            if a <= 0:
                raise EvalError("log")
            return mp.log(a)
        if o == "sin":
            return mp.sin(a)
        if o == "cos":
            return mp.cos(a)
        if o == "asin" or o == "acos":
            if abs(a) > 1:
                raise EvalError(o)
            return getattr(mp, o)(a)
        if o == "atan":
            return mp.atan(a)
        if o == "erf":
            return mp.erf(a)
        if o == "erfinv":
            if abs(a) >= 1:
                raise EvalError(o)
            return mp.erfinv(a)
        if o == "gammaln":
            if a <= 0:
                raise EvalError(o)
            return mp.loggamma(a)
        if o == "floor":
            return mp.floor(a)
        if o == "abs":
            return abs(a)
        raise EvalError("op " + o)
    return ev(t)
