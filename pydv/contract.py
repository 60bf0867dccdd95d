"""Contracts and the contexts (symbolic / concrete) in which their bodies run."""
import math
import random
import sys
import time
import traceback

import numpy as np

from . import terms as tm
from . import sym as S
from .sym import (InfeasiblePath, PArr, LenToken, Path, Skip, SymBool, SymReal, Unsupported, has_sym, STATE)

REGISTRY = {}


class Contract(object):
    def __init__(self, prop, name, fn, **opt):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.opt = opt

    def get(self, k, d=None):
        return self.opt.get(k, d)


def contract(prop, name=None, **opt):
    """register the contract of one or more real functions"""
    def deco(fn):
        c = Contract(prop, name or fn.__name__, fn, **opt)
        REGISTRY.setdefault(prop, [])
        if any(x.name == c.name for x in REGISTRY[prop]):
            raise ValueError("duplicate contract " + c.name)
        REGISTRY[prop].append(c)
        return fn
    return deco


class EnsureFail(Exception):
    pass


def scalar(x):
    if isinstance(x, PArr):
        return x.elem
    if isinstance(x, np.ndarray):
        if x.size != 1:
            raise ValueError("expected one value, got shape %s" % (x.shape,))
        return x.reshape(-1)[0]
    if isinstance(x, (list, tuple)) and len(x) == 1:
        return scalar(x[0])
    return x


class SymCtx(object):
    mode = "sym"
    sym = True

    def __init__(self, contract, path, run):
        self.c = contract
        self.path = path
        self.run = run
        self.reached = False
        self.patch = None
        self.inputs = {}
        self.fnsinputs = {}

    # ---- inputs
    def real(self, name, lo=None, hi=None, open=False, lo_open=None, hi_open=None, **hint):
        t = tm.var(name)
        lo_open = open if lo_open is None else lo_open
        hi_open = open if hi_open is None else hi_open
        if lo is not None:
            self.path.know((tm.lt if lo_open else tm.le)(S.tterm(lo), t))
        if hi is not None:
            self.path.know((tm.lt if hi_open else tm.le)(t, S.tterm(hi)))
        self.inputs[name] = t
        return SymReal(t)

    def pos(self, name, **hint):
        return self.real(name, 0, None, open=True)

    def unit(self, name, open=False):
        return self.real(name, 0, 1, open=open)

    def integer(self, name, lo=None, hi=None, **hint):
        t = tm.var(name, "I")
        if lo is not None:
            self.path.know(tm.le(tm.const(lo), t))
        if hi is not None:
            self.path.know(tm.le(t, tm.const(hi)))
        self.inputs[name] = t
        return SymReal(t)

    def boolean(self, name):
        t = tm.bvar(name)
        self.inputs[name] = t
        return SymBool(t)

    def choice(self, name, options):
        """explicit case split (all cases are verified)"""
        k = self.path.choose(len(options))
        self.inputs["choice:" + name] = k
        return options[k]

    def array(self, name, lo=None, hi=None, open=False, size=None, lo_open=None, hi_open=None, **hint):
        """array of arbitrary length (generic element)"""
        tok = self._tok(size or "n")
        if self.c.get("weights"):
            self.path.weights = True
        e = self.real("%s@%s" % (name, tok.name), lo, hi, open=open, lo_open=lo_open, hi_open=hi_open)
        return PArr(e, tok)

    def carray(self, name, size=None):
        a, b = self.array(name + ".re", size=size), self.array(name + ".im", size=size)
        return PArr(S.SymComplex(a.elem, b.elem), a.n)

    def iarray(self, name, lo=None, hi=None, size=None):
        tok = self._tok(size or "n")
        if self.c.get("weights"):
            self.path.weights = True
        return PArr(self.integer("%s@%s" % (name, tok.name), lo, hi), tok)

    def barray(self, name, size=None):
        tok = self._tok(size or "n")
        if self.c.get("weights"):
            self.path.weights = True
        t = tm.bvar("%s@%s" % (name, tok.name))
        self.inputs["%s@%s" % (name, tok.name)] = t
        return PArr(SymBool(t), tok)

    def grid(self, start, step, size=None):
        """start + step * i, i = 0 ... n - 1"""
        tok = self._tok(size or "n")
        i = tm.var("i@" + tok.name, "I")
        self.path.know(tm.le(tm.ZERO, i))
        self.path.know(tm.le(i, tm.sub(tok.t, tm.ONE)))
        return PArr(S.s_add(start, S.s_mul(step, SymReal(i))), tok)

    def length(self, size=None):
        return self._tok(size or "n").sym

    def _tok(self, name):
        k = ("len", name)
        if k not in self.path.keyed:
            self.path.keyed[k] = LenToken(name)
        return self.path.keyed[k]

    def complexes(self, name):
        return S.SymComplex(self.real(name + ".re"), self.real(name + ".im"))

    # ---- logic
    def assume(self, cond):
        t = S.boolterm(cond)
        self.path.know(t)
        if self.path.facts.implied(t) is False:
            raise InfeasiblePath()

    def split(self, *conds):
        """proof hint: case distinction on a condition over the inputs"""
        for x in conds:
            S.fork(S.boolterm(x))

    def root_hint(self, x, d):
        """proof hint: x > 0 is the d-th root of something the code takes a root of (checked by the normaliser)"""
        self.path.facts.nf.root_hint(S.tterm(x), d)

    def triple_hint(self, w):
        return self.path.facts.nf.triple_hint(S.tterm(w))

    def lemma(self, label, cond):
        """assert-then-assume: an obligation that, once proved, is available to later ones"""
        n = len(self.run.obl)
        self.ensure(label, cond)
        if all(o["status"] == "proved" for o in self.run.obl[n:]):
            self.path.know(S.boolterm(cond))

    def callee(self, obj, name, stub):
        """modular call: replace a callee by a stub that checks its precondition and returns its postcondition"""
        self.patch.setattr(obj, name, stub)

    def implies(self, a, b):
        return S.b_or(S.b_not(a), b)

    def both(self, *xs):
        r = True
        for x in xs:
            r = S.b_and(r, x)
        return r

    def either(self, *xs):
        r = False
        for x in xs:
            r = S.b_or(r, x)
        return r

    def iff(self, a, b):
        return S.wrap(tm.or_(tm.and_(S.boolterm(a), S.boolterm(b)),
                             tm.and_(tm.not_(S.boolterm(a)), tm.not_(S.boolterm(b)))))

    def ensure(self, label, cond, note=None):
        self.reached = True
        if isinstance(cond, (bool, np.bool_)):
            self.run.record(self, label, "proved" if cond else "refuted", "eval",
                            None if cond else self.path_model(), note)
            return
        t = S.boolterm(cond)
        st, info = self.path.facts.prove(t, self.run.vc_timeout)
        if st == "proved":
            self.run.record(self, label, "proved", info, None, note)
        elif st == "sat":
            self.run.record(self, label, "refuted?", "z3", info, note, goal=t)
        else:
            self.run.record(self, label, "undecided", info, None, note, goal=t)

    def ensure_eq(self, label, a, b, rtol=1e-6, atol=1e-9, note=None):
        if isinstance(a, dict) or isinstance(b, dict):
            raise TypeError("ensure_eq on dict")
        fa, fb = flat(a), flat(b)
        self.reached = True
        if len(fa) != len(fb):
            return self.ensure(label, False, "shape %d != %d" % (len(fa), len(fb)))
        conds = True
        for x, y in zip(fa, fb):
            if x is S.HOLE or y is S.HOLE:
                conds = S.b_and(conds, x is y)
            elif isinstance(x, (SymBool,)) or isinstance(y, SymBool):
                conds = S.b_and(conds, S.cmp_eq(x if isinstance(x, SymBool) else bool(x), y))
            elif isinstance(x, (S.SymComplex, complex)) or isinstance(y, (S.SymComplex, complex)):
                x, y = S.SymComplex.of(x), S.SymComplex.of(y)
                conds = S.b_and(conds, S.b_and(S.cmp_eq(x.re, y.re), S.cmp_eq(x.im, y.im)))
            elif S.is_num(x) and S.is_num(y):
                conds = S.b_and(conds, S.cmp_eq(x, y))
            else:
                conds = S.b_and(conds, x == y)
        self.ensure(label, conds, note)

    def ensure_le(self, label, a, b, tol=1e-9):
        self.ensure(label, S.cmp_le(scalar(a), scalar(b)))

    def ensure_within(self, label, lo, x, hi, tol=1e-9):
        x = scalar(x)
        self.ensure(label, S.b_and(S.cmp_le(lo, x), S.cmp_le(x, hi)))

    def ensure_elementwise(self, label, f, *arrs, **k):
        """f applied to arrays (of arbitrary length) equals f applied element by element, and keeps the length"""
        r = f(*arrs)
        n = S.first_parr(arrs).n
        if not isinstance(r, PArr) or r.n is not n:
            return self.ensure(label, False, "result is not an array of the input length: %r" % (r,))
        self.ensure_eq(label, r.elem, f(*[a.elem if isinstance(a, PArr) else a for a in arrs]))

    def path_model(self):
        return {}

    def deriv(self, f, x):
        """d f(x) / dx at the input variable x (a fresh variable created by real())"""
        if not isinstance(x, SymReal) or x.t.op != "v":
            raise Unsupported("deriv wrt non-variable")
        y = scalar(f(x))
        if isinstance(y, SymReal):
            return SymReal(tm.diff(y.t, x.t))
        if S.nonfinite(y):
            return S.NAN
        return SymReal(tm.ZERO)

    def raises(self, exc, f, *a, **k):
        try:
            f(*a, **k)
        except exc:
            return True
        except (Unsupported, InfeasiblePath, S.PathLimit):
            raise
        except Exception:
            return False
        return False

    def func(self, name, arity=1, positive=False, lo=None, hi=None, smooth=True):
        """uninterpreted real function"""
        path = self.path

        def f(*args):
            if any(isinstance(a, np.ndarray) and a.size != 1 for a in args):
                b = np.broadcast_arrays(*[np.asarray(a, dtype=object) for a in args])
                out = np.empty(b[0].shape, dtype=object)
                for i in np.ndindex(out.shape):
                    out[i] = f(*[x[i] for x in b])
                return out
            args = [scalar(a) if isinstance(a, np.ndarray) else a for a in args]
            if any(isinstance(a, PArr) for a in args):
                n = S.first_parr(args).n
                vals = [a.elem if isinstance(a, PArr) else a for a in args]
                if any(v is S.HOLE for v in vals):
                    return PArr(S.HOLE, n)
                return PArr(f(*vals), n)
            t = tm.uf(name, *[S.tterm(a) for a in args])
            if positive:
                path.know(tm.lt(tm.ZERO, t))
            if lo is not None:
                path.know(tm.le(S.tterm(lo), t))
            if hi is not None:
                path.know(tm.le(t, S.tterm(hi)))
            return SymReal(t)
        return f

    def setattr(self, obj, name, val):
        self.patch.setattr(obj, name, val)


def flat(x):
    if isinstance(x, PArr):
        return [x.elem]
    if getattr(x, "_pydv_array", False):
        return x._flat()
    if isinstance(x, np.ndarray):
        return list(x.reshape(-1))
    if isinstance(x, (list, tuple)):
        out = []
        for v in x:
            out += flat(v)
        return out
    return [x]


class ConcCtx(object):
    """Concrete execution of the same contract on unpatched real code."""
    mode = "conc"
    sym = False

    def __init__(self, contract, rng, given=None, choices=None):
        self.loose = 100.0 if given else 1.0
        self.npf = rng.random() < 0.6
        self.c = contract
        self.rng = rng
        self.given = given or {}
        self.given_choices = choices
        self.inputs = {}
        self.failures = []
        self.evaluated = {}
        self.restores = []

    def _pick(self, name, lo, hi, lo_open, hi_open, hint):
        r = self.rng
        if name in self.given:
            return self.given[name]
        hlo = lo if lo is not None else hint.get("slo")
        hhi = hi if hi is not None else hint.get("shi")
        special = hint.get("special")
        if special and r.random() < 0.15:
            return r.choice(special)
        if hlo is None and hhi is None:
            k = r.random()
            if k < 0.1:
                return float(r.choice([0, 1, -1, 2]))
            return r.gauss(0, 1) * hint.get("scale", 3.0)
        if hhi is None or hlo is None:
            base = hlo if hlo is not None else hhi
            sg = 1 if hlo is not None else -1
            op = lo_open if hlo is not None else hi_open
            if not op and r.random() < 0.08:
                return float(base)
            w = hint.get("scale", 1.0) * math.exp(r.uniform(-1.5, 1.5))
            return float(base) + sg * w
        if hlo == hhi:
            return float(hlo)
        if r.random() < 0.06 and not lo_open:
            return float(hlo)
        if r.random() < 0.06 and not hi_open:
            return float(hhi)
        return r.uniform(float(hlo), float(hhi))

    def real(self, name, lo=None, hi=None, open=False, lo_open=None, hi_open=None, **hint):
        lo_open = open if lo_open is None else lo_open
        hi_open = open if hi_open is None else hi_open
        v = float(self._pick(name, lo, hi, lo_open, hi_open, hint))
        if self.npf:
            v = np.float64(v)
        if lo is not None and (v < lo or (lo_open and v == lo)):
            raise Skip()
        if hi is not None and (v > hi or (hi_open and v == hi)):
            raise Skip()
        self.inputs[name] = v
        return v

    def pos(self, name, **hint):
        return self.real(name, 0, None, open=True, **hint)

    def unit(self, name, open=False):
        return self.real(name, 0, 1, open=open)

    def integer(self, name, lo=None, hi=None, **hint):
        if name in self.given:
            v = int(self.given[name])
        else:
            v = self.rng.randint(lo if lo is not None else -5, hi if hi is not None else (lo or 0) + hint.get("span", 12))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip()
        self.inputs[name] = v
        return v

    def boolean(self, name):
        v = bool(self.given[name]) if name in self.given else self.rng.random() < 0.5
        self.inputs[name] = v
        return v

    def choice(self, name, options):
        key = "choice:" + name
        k = self.given[key] if key in self.given else self.rng.randrange(len(options))
        self.inputs[key] = k
        return options[k]

    def length(self, size=None):
        tok = size or "n"
        key = "len:" + tok
        if key not in self.inputs:
            lo, hi = self.c.get("lengths", (1, 5))
            self.inputs[key] = int(self.given[key]) if key in self.given else self.rng.randint(lo, hi)
            if not 1 <= self.inputs[key] <= 100:
                raise Skip()
        return self.inputs[key]

    def _elems(self, name, size, f):
        n = self.length(size)
        g = "%s@%s" % (name, size or "n")
        out = []
        for i in range(n):
            nm = "%s[%d]" % (name, i)
            if nm not in self.given and g in self.given and i == 0:
                self.given = dict(self.given)
                self.given[nm] = self.given[g]
            out.append(f(nm))
        return np.array(out)

    def array(self, name, lo=None, hi=None, open=False, size=None, **hint):
        return self._elems(name, size, lambda nm: self.real(nm, lo, hi, open=open, **hint))

    def carray(self, name, size=None):
        return self.array(name + ".re", size=size) + 1j * self.array(name + ".im", size=size)

    def iarray(self, name, lo=None, hi=None, size=None):
        return self._elems(name, size, lambda nm: self.integer(nm, lo, hi)).astype(int)

    def barray(self, name, size=None):
        return self._elems(name, size, self.boolean)

    def grid(self, start, step, size=None):
        return start + step * np.arange(self.length(size))

    def complexes(self, name):
        return complex(self.real(name + ".re"), self.real(name + ".im"))

    def assume(self, cond):
        if not bool(np.all(cond)):
            raise Skip()

    def split(self, *conds):
        pass

    def root_hint(self, x, d):
        pass

    def triple_hint(self, w):
        pass

    def lemma(self, label, cond):
        self.ensure(label, cond)

    def callee(self, obj, name, stub):
        pass

    def implies(self, a, b):
        return np.logical_or(np.logical_not(a), b)

    def both(self, *xs):
        r = True
        for x in xs:
            r = np.logical_and(r, x)
        return r

    def either(self, *xs):
        r = False
        for x in xs:
            r = np.logical_or(r, x)
        return r

    def iff(self, a, b):
        return np.equal(np.asarray(a, bool), np.asarray(b, bool))

    def ensure(self, label, cond, note=None):
        ok = bool(np.all(cond))
        self.evaluated[label] = self.evaluated.get(label, 0) + 1
        if not ok:
            self.failures.append((label, note or "condition is false"))

    def ensure_eq(self, label, a, b, rtol=1e-6, atol=1e-9, note=None):
        self.evaluated[label] = self.evaluated.get(label, 0) + 1
        rtol, atol = rtol * self.loose, atol * self.loose
        fa, fb = flat(a), flat(b)
        if len(fa) != len(fb):
            self.failures.append((label, "shape %d != %d" % (len(fa), len(fb))))
            return
        for x, y in zip(fa, fb):
            if isinstance(x, (bool, int, float, complex, np.number, np.bool_)) and \
                    isinstance(y, (bool, int, float, complex, np.number, np.bool_)):
                if x == y:
                    continue
                with np.errstate(all="ignore"):
                    if abs(x - y) <= atol + rtol * max(abs(x), abs(y)) and np.isfinite(x) and np.isfinite(y):
                        continue
            elif x == y:
                continue
            self.failures.append((label, "got %r, contract requires %r" % (x, y)))
            return

    def ensure_elementwise(self, label, f, *arrs, **k):
        n = [len(a) for a in arrs if isinstance(a, np.ndarray)][0]
        r = f(*[np.array(a) if isinstance(a, np.ndarray) else a for a in arrs])
        self.evaluated[label] = self.evaluated.get(label, 0) + 1
        if np.shape(r) != (n,):
            self.failures.append((label, "shape %s for input of shape %s" % (np.shape(r), (n,))))
            return
        for i in range(n):
            self.ensure_eq(label, r[i], f(*[float(a[i]) if isinstance(a, np.ndarray) else a for a in arrs]), **k)

    def ensure_le(self, label, a, b, tol=1e-9):
        a, b = scalar(a), scalar(b)
        self.ensure(label, a <= b + tol * max(1.0, abs(a) if np.isfinite(a) else 1, abs(b) if np.isfinite(b) else 1),
                    "%r <= %r fails" % (a, b))

    def ensure_within(self, label, lo, x, hi, tol=1e-9):
        for v in flat(x):
            k = tol * max([1.0] + [abs(z) for z in (lo, hi, v) if np.isfinite(z)])
            self.ensure(label, lo - k <= v <= hi + k, "%r not in [%r, %r]" % (v, lo, hi))

    def deriv(self, f, x):
        best = None
        ests = []
        for h in (1e-4, 1e-5):
            h = h * max(1.0, abs(x)) if abs(x) > 1e-2 else h * max(abs(x), 1e-3)
            d1 = (float(scalar(f(x + h))) - float(scalar(f(x - h)))) / (2 * h)
            d2 = (float(scalar(f(x + h / 2))) - float(scalar(f(x - h / 2)))) / h
            ests.append((4 * d2 - d1) / 3)
        if not all(np.isfinite(e) for e in ests):
            raise Skip()
        if abs(ests[0] - ests[1]) > 1e-5 * max(abs(ests[0]), abs(ests[1])) + 1e-8:
            raise Skip()       # too close to a kink / ill-conditioned: not a usable sample
        return ests[0]

    def raises(self, exc, f, *a, **k):
        try:
            f(*a, **k)
        except exc:
            return True
        except Skip:
            raise
        except Exception:
            return False
        return False

    def func(self, name, arity=1, positive=False, lo=None, hi=None, smooth=True):
        r = random.Random((self.given.get("seed:" + name)) or self.rng.randrange(10 ** 9))
        s = self.inputs.setdefault("seed:" + name, r.randrange(10 ** 9))
        r = random.Random(s)
        c = [r.uniform(-1, 1) for _ in range(arity)]
        d = [r.uniform(0.3, 1.5) for _ in range(arity)]
        k = r.uniform(-1, 1)

        def f(*args):
            v = k
            for i, a in enumerate(args):
                v = v + c[i % arity] * np.sin(d[i % arity] * np.asarray(a, dtype=float) + i) + 0.1 * np.asarray(a, dtype=float)
            if lo is not None and hi is not None:
                v = lo + (hi - lo) * (0.5 + np.arctan(v) / np.pi)
            elif positive or lo is not None:
                v = (0 if lo is None else lo) + np.exp(np.clip(v, -3, 3))
            v = np.asarray(v)
            return v if v.ndim else float(v)
        return f

    def setattr(self, obj, name, val):
        d = vars(obj)
        self.restores.append((obj, name, d[name] if name in d else _MISSING))
        setattr(obj, name, val)

    def restore(self):
        for obj, name, v in reversed(self.restores):
            if v is _MISSING:
                delattr(obj, name)
            else:
                setattr(obj, name, v)
        self.restores = []


_MISSING = object()


# ----------------------------------------------------------------------------------------- running one contract
def relax(t):
    """goal weakened by a relative tolerance, so that only clear numeric violations count"""
    if t.op == "eq":
        a, b = t.args
        tol = tm.mul(tm.lift(1e-7), tm.add(tm.ONE, tm.fn("abs", a), tm.fn("abs", b)))
        return tm.and_(tm.le(a, tm.add(b, tol)), tm.le(b, tm.add(a, tol)))
    if t.op in ("lt", "le"):
        a, b = t.args
        return tm.le(a, tm.add(b, tm.mul(tm.lift(1e-7), tm.add(tm.ONE, tm.fn("abs", a), tm.fn("abs", b)))))
    if t.op == "and":
        return tm.and_(*[relax(a) for a in t.args])
    if t.op == "or":
        return tm.or_(*[relax(a) for a in t.args])
    if t.op == "not" and t.args[0].op == "eq":
        return tm.TRUE
    return t


class SymRun(object):
    def __init__(self, c, vc_timeout=6000, budget=120, max_paths=400):
        self.c = c
        self.vc_timeout = c.get("vc_timeout", vc_timeout)
        self.budget = c.get("budget", budget)
        self.max_paths = c.get("max_paths", max_paths)
        self.obl = []
        self.paths = 0
        self.infeasible = 0
        self.traced = set()
        self.unsupported = []
        self.seeds = []

    def record(self, ctx, label, status, backend, model, note, goal=None):
        o = {"label": label, "status": status, "backend": backend, "path": self.paths, "note": note,
             "model": model, "choices": {k: v for k, v in ctx.inputs.items() if k.startswith("choice:")}}
        if goal is not None:
            o["goal"] = tm.show(goal, 8)[:400]
        if status != "proved":
            o["numeric"] = self.numeric(ctx, goal, model)
        self.obl.append(o)

    def numeric(self, ctx, goal, model):
        """does the counter-model satisfy the path condition and falsify the goal over the reals?"""
        if not model or goal is None:
            return False
        try:
            import mpmath
            env = dict(model)
            memo = {}
            for f in ctx.path.facts.terms:
                if f.op == "eq":
                    a = tm.evaluate(f.args[0], env, memo)
                    b = tm.evaluate(f.args[1], env, memo)
                    if abs(a - b) > mpmath.mpf(10) ** -12 * max(1, abs(a)):
                        return False
                elif not tm.evaluate(f, env, memo):
                    return False
            return not tm.evaluate(relax(goal), env, memo)
        except Exception:
            return False

    def go(self):
        from .env import Patch
        t0 = time.time()
        pending = [[]]
        first = True
        while pending:
            if self.paths >= self.max_paths or time.time() - t0 > self.budget:
                self.unsupported.append("path budget exhausted (%d paths, %d pending)" % (self.paths, len(pending)))
                self.obl.append({"label": "*all remaining paths*", "status": "undecided", "backend": "budget",
                                 "path": self.paths, "note": None, "model": None, "choices": {}})
                break
            prefix = pending.pop()
            path = Path(prefix, pending)
            STATE.path = path
            ctx = SymCtx(self.c, path, self)
            self.paths += 1
            try:
                with Patch(floats=self.c.get("floats", ()), extra=[]) as p:
                    ctx.patch = p
                    with np.errstate(all="ignore"):
                        if first or self.paths < 25:
                            with Tracer(self.traced):
                                self.c.fn(ctx)
                        else:
                            self.c.fn(ctx)
                first = False
                m = self._model(path, 600)
                if m is not None:
                    self.seeds.append(dict(m, **{k: v for k, v in ctx.inputs.items() if k.startswith("choice:")}))
            except InfeasiblePath:
                self.infeasible += 1
            except Unsupported as e:
                self.unsupported.append(str(e)[:200])
                tb = traceback.extract_tb(e.__traceback__)
                where = [f for f in tb if "/bilby/" in f.filename or "/contracts/" in f.filename]
                self.obl.append({"label": "*path outside the verifier's reach*", "status": "undecided",
                                 "backend": "unsupported: %s at %s" % (
                                     str(e)[:160], ("%s:%s" % (where[-1].filename, where[-1].lineno)) if where else "?"),
                                 "path": self.paths, "note": None, "model": None,
                                 "choices": {k: v for k, v in ctx.inputs.items() if k.startswith("choice:")}})
            except Skip:
                self.infeasible += 1
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                where = [f for f in tb if "/repo/" in f.filename]
                engine = tb[-1].filename.startswith("/verif/pydv")
                from .nf import Giveup
                if isinstance(e, (Giveup, NotImplementedError, RecursionError)) or engine:
                    st = "undecided"
                else:
                    st = "refuted?"
                self.obl.append({"label": "no-exception", "status": st,
                                 "backend": "%s: %s" % (type(e).__name__, str(e)[:200]), "path": self.paths,
                                 "note": "".join(traceback.format_list(tb[-4:]))[-800:],
                                 "model": self._model(path),
                                 "choices": {k: v for k, v in ctx.inputs.items() if k.startswith("choice:")}})
            finally:
                STATE.path = None
        from .smt import STATS
        return {"contract": self.c.name, "obligations": self.obl, "paths": self.paths,
                "infeasible": self.infeasible, "unsupported": self.unsupported, "functions": sorted(self.traced),
                "time": time.time() - t0, "solver": dict(STATS), "seeds": self.seeds}

    def _model(self, path, timeout=1500):
        try:
            st, m = path.facts.query(tm.TRUE, timeout, want_model=True)
            return m
        except Exception:
            return None


class Tracer(object):
    """records which bilby functions a contract really executes"""

    def __init__(self, out):
        self.out = out

    def __enter__(self):
        def prof(frame, event, arg):
            if event == "call":
                fn = frame.f_code.co_filename
                if "/repo/bilby/" in fn:
                    self.out.add("%s:%s" % (fn.split("/repo/")[1], frame.f_code.co_qualname))
        self.prev = sys.getprofile()
        sys.setprofile(prof)
        return self

    def __exit__(self, *a):
        sys.setprofile(self.prev)


def run_concrete(c, seed, n, budget, givens=()):
    """bounded concrete evaluation of the contract on the unpatched real code"""
    t0 = time.time()
    rng = random.Random("%s/%s/%s" % (seed, c.prop, c.name))
    np.random.seed(seed % (2 ** 31))
    ok = skipped = 0
    evaluated = {}
    fails = {}
    errors = []
    traced = set()
    sample = None
    jobs = list(givens)
    i = 0
    while (i < n or jobs) and time.time() - t0 < budget:
        given = jobs.pop(0) if jobs else None
        if given is None:
            i += 1
        ctx = ConcCtx(c, rng, given)
        try:
            with np.errstate(all="ignore"):
                if i < 4:
                    with Tracer(traced):
                        c.fn(ctx)
                else:
                    c.fn(ctx)
            ok += 1
            if sample is None:
                sample = dict(ctx.inputs)
        except Skip:
            skipped += 1
        except Unsupported:
            skipped += 1
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            ctx.failures.append(("no-exception", "%s: %s at %s" % (
                type(e).__name__, str(e)[:300], ["%s:%d" % (f.filename, f.lineno) for f in tb[-3:]])))
        finally:
            ctx.restore()
        for k, v in ctx.evaluated.items():
            evaluated[k] = evaluated.get(k, 0) + v
        for lab, msg in ctx.failures:
            f = fails.setdefault(lab, {"count": 0, "inputs": dict(ctx.inputs), "message": msg, "given": bool(given)})
            f["count"] += 1
            if f["given"] and not given:
                f.update(inputs=dict(ctx.inputs), message=msg, given=False)
    return {"contract": c.name, "ok": ok, "skipped": skipped, "evaluated": evaluated, "failures": fails,
            "functions": sorted(traced), "sample": sample, "time": time.time() - t0}
