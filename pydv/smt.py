"""Facts of one path and their discharge by z3 / cvc5 over the normaliser's atoms."""
import os
import sys
import time
from fractions import Fraction as F

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402

from . import terms as tm  # noqa: E402
from .nf import NF, Giveup, padd, pscale, psub, pconst, ONE_MONO  # noqa: E402

z3.set_param("memory_max_size", 4000)
STATS = {"queries": 0, "time": 0.0, "by": {}}


def rat(c):
    return z3.Q(c.numerator, c.denominator)


class Enc(object):
    """one z3 context: variables for atoms, collected side conditions"""

    def __init__(self, nf):
        self.nf = nf
        self.v = {}
        self.side = []
        self.seen = []
        self.bools = {}
        self.expparts = {}

    def avar(self, aid):
        x = self.v.get(aid)
        if x is None:
            a = self.nf.atoms[aid]
            if a.int:
                x = z3.ToReal(z3.Int("i%d" % aid))
            else:
                x = z3.Real("a%d" % aid)
            self.v[aid] = x
            self.seen.append(a)
        return x

    def power(self, aid, e):
        x = self.avar(aid)
        n, d = e.numerator, e.denominator
        if d != 1:
            key = (aid, d)
            r = self.v.get(key)
            if r is None:
                r = self.v[key] = z3.Real("r%d_%d" % key)
                pw = r
                for _ in range(d - 1):
                    pw = pw * r
                self.side.append(r > 0)
                self.side.append(pw == x)
            x = r
            inv = (aid, d, "inv")
        else:
            inv = (aid, 1, "inv")
        if n < 0:
            i = self.v.get(inv)
            if i is None:
                i = self.v[inv] = z3.Real("n%d_%d" % (aid, d))
                self.side.append(i * x == 1)
            x = i
            n = -n
        if n > 24:
            raise Giveup("degree")
        r = x
        for _ in range(n - 1):
            r = r * x
        return r

    def poly(self, p):
        terms = []
        for m, c in p.items():
            f = None
            ex = self.exppart(m)
            if ex and not (len(ex) == 1 and ex[0][1] == 1):
                self.expparts[ex] = True
            for a, e in m:
                x = self.power(a, e)
                f = x if f is None else f * x
            if f is None:
                f = rat(c)
            elif c != 1:
                f = rat(c) * f
            terms.append(f)
        if not terms:
            return z3.RealVal(0)
        r = terms[0]
        for t in terms[1:]:
            r = r + t
        return r

    def exppart(self, m):
        """the factors of a monomial that are exponentials, or positive atoms whose logarithm is in play"""
        out = []
        hasexp = False
        for a, e in m:
            at = self.nf.atoms[a]
            if at.kind == "exp":
                hasexp = True
                out.append((a, e))
            elif at.pos and at.kind in ("v", "comp", "prime", "pi") and self.logof(at) is not None:
                out.append((a, e))
        return tuple(out) if hasexp or (out and any(e != 1 for a, e in out)) else None

    def logof(self, at):
        base = pconst(at.data) if at.kind == "prime" else self.nf.apoly(at)
        return self.nf.key.get(("log" if False else "log", ("log", frozenset(base.items()))))

    # ---------------------------------------------------------------- booleans
    def cmp(self, op, a, b, oracle=True):
        nf = self.nf
        d = psub(nf.of(b), nf.of(a))
        return self.rel(op, d)

    def rel(self, op, d):
        """d > 0 / d >= 0 / d == 0 with cleared denominators"""
        d = self.clear(d)
        if d is True or d is False:
            return z3.BoolVal(d)
        e = self.poly(d)
        if op == "lt":
            return e > 0
        if op == "le":
            return e >= 0
        return e == 0

    def clear(self, d):
        nf = self.nf
        try:
            q, extra = nf.expand(d)
            sg = F(1)
            ok = True
            for a, e in extra:
                at = nf.atoms[a]
                s = "+" if at.pos else nf.sign(nf.apoly(at))
                k = int(-e)
                if s == "+" or k % 2 == 0:
                    continue
                if s == "-":
                    sg = -sg
                else:
                    q = nf.pmul(q, at.args[0] if at.kind == "comp" else nf.apoly(at))
            q = nf.trigreduce(q)
            # clear simple negative exponents
            mins = {}
            for m in q:
                for a, e in m:
                    if e < 0:
                        mins[a] = min(mins.get(a, F(0)), e)
            mul = []
            for a, e in sorted(mins.items()):
                at = nf.atoms[a]
                s = nf.apos(at)
                k = -e
                if s == "+":
                    mul.append((a, k))
                elif k.denominator == 1:
                    kk = int(k)
                    if kk % 2:
                        if s == "-":
                            sg = -sg
                        else:
                            kk += 1
                    mul.append((a, F(kk)))
            if mul:
                q = nf.pmul(q, {tuple(mul): F(1)})
            return pscale(q, sg)
        except Giveup:
            return d

    def b(self, t):
        o = t.op
        if o == "true":
            return z3.BoolVal(True)
        if o == "false":
            return z3.BoolVal(False)
        if o == "bv":
            x = self.bools.get(t.args[0])
            if x is None:
                x = self.bools[t.args[0]] = z3.Bool("b_" + t.args[0])
            return x
        if o in ("lt", "le", "eq"):
            return self.cmp(o, t.args[0], t.args[1])
        if o == "and":
            return z3.And([self.b(a) for a in t.args])
        if o == "or":
            return z3.Or([self.b(a) for a in t.args])
        if o == "not":
            return z3.Not(self.b(t.args[0]))
        raise Giveup("bool " + o)

    # ---------------------------------------------------------------- lemmas
    def lemmas2(self, maxpts=16):
        nf = self.nf
        out = []
        lazy = []
        done = set()
        pts = {"exp": [], "sin": [], "cos": [], "erf": [], "atan": []}
        ufpts = {}
        usedexp = set()

        def tri(x1, y1, x2, y2, dec=False):
            X = self.rel_raw(psub(x2, x1))
            Y = self.rel_raw(psub(y2, y1))
            if dec:
                Y = -Y
            return z3.Or(z3.And(X > 0, Y > 0), z3.And(X == 0, Y == 0), z3.And(X < 0, Y < 0))
        i = 0
        while True:
            # atoms may be added while we go
            if i >= len(self.seen):
                # exp parts
                new = False
                for ex in list(self.expparts):
                    if ex in usedexp:
                        continue
                    usedexp.add(ex)
                    arg = {}
                    for a, e in ex:
                        at = nf.atoms[a]
                        arg = padd(arg, pscale(at.args[0] if at.kind == "exp" else nf.apoly(self.logof(at)), e))
                    pts["exp"].append((arg, {ex: F(1)}))
                    self.poly(arg)
                    new = True
                if i >= len(self.seen):
                    break
                continue
            a = self.seen[i]
            i += 1
            if a.id in done:
                continue
            done.add(a.id)
            x = self.avar(a.id)
            k = a.kind
            ap = nf.apoly(a)
            if a.pos:
                out.append(x > 0)
            if k == "pi":
                out.append(x > rat(F(314159265, 10 ** 8)))
                out.append(x < rat(F(314159266, 10 ** 8)))
            elif k == "prime":
                out.append(x == rat(F(a.data)))
            elif k == "comp":
                out.append(x == self.poly(a.args[0]))
            elif k == "exp":
                out.append(x > 0)
                pts["exp"].append((a.args[0], ap))
                out.append(x >= 1 + self.poly(a.args[0]))
            elif k == "log":
                out.append(self.poly(a.args[0]) > 0)
                pts["exp"].append((ap, a.args[0]))
                out.append(x <= self.poly(a.args[0]) - 1)
            elif k in ("sin", "cos"):
                out.append(x <= 1)
                out.append(x >= -1)
                self.poly(a.args[0])
                other = nf.fatom("cos" if k == "sin" else "sin", "cos" if k == "sin" else "sin", a.args)
                y = self.avar(other.id)
                out.append(x * x + y * y == 1)
                pts[k].append((a.args[0], ap))
            elif k == "asin":
                pts["sin"].append((ap, a.args[0]))
                pi = self.avar(nf.atom("pi", "pi", pos=True).id)
                out += [x <= pi / 2, x >= -pi / 2, self.poly(a.args[0]) <= 1, self.poly(a.args[0]) >= -1]
            elif k == "acos":
                pts["cos"].append((ap, a.args[0]))
                pi = self.avar(nf.atom("pi", "pi", pos=True).id)
                out += [x <= pi, x >= 0, self.poly(a.args[0]) <= 1, self.poly(a.args[0]) >= -1]
            elif k == "atan":
                pi = self.avar(nf.atom("pi", "pi", pos=True).id)
                out += [x < pi / 2, x > -pi / 2]
                pts["atan"].append((a.args[0], ap))
                self.poly(a.args[0])
            elif k == "erf":
                out += [x < 1, x > -1]
                pts["erf"].append((a.args[0], ap))
                self.poly(a.args[0])
            elif k == "erfinv":
                z = self.poly(a.args[0])
                out += [z < 1, z > -1]
                pts["erf"].append((ap, a.args[0]))
            elif k == "floor":
                z = self.poly(a.args[0])
                out += [x <= z, z < x + 1]
            elif k == "abs":
                z = self.poly(a.args[0])
                out.append(z3.Or(z3.And(z >= 0, x == z), z3.And(z < 0, x == -z)))
            elif k == "root":
                z = self.poly(a.args[0])
                pw = x
                for _ in range(a.data[0] - 1):
                    pw = pw * x
                out += [x >= 0, pw == z]
            elif k == "ind":
                c = self.b(a.args[0])
                out.append(z3.Or(z3.And(c, x == 1), z3.And(z3.Not(c), x == 0)))
            elif k == "uf":
                nm = a.data[0]
                for p in a.args:
                    self.poly(p)
                if nm in tm.SPECIAL_INV.values():
                    ufpts.setdefault(nm, []).append((a.args[:-1], a.args[-1], ap))
                    out += [x >= 0, x <= 1]
                    z = self.poly(a.args[-1])
                    if nm == "gammainc":
                        out += [z3.Implies(z > 0, z3.And(x > 0, x < 1)), z3.Implies(z == 0, x == 0)]
                    elif nm == "btdtr":
                        out += [z3.Implies(z3.And(z > 0, z < 1), z3.And(x > 0, x < 1)), z3.Implies(z == 0, x == 0),
                                z3.Implies(z == 1, x == 1)]
                    else:
                        out += [x > 0, x < 1]
                elif nm in tm.SPECIAL_INV:
                    base = tm.SPECIAL_INV[nm]
                    ufpts.setdefault(base, []).append((a.args[:-1], ap, a.args[-1]))
                    z = self.poly(a.args[-1])
                    if base == "gammainc":
                        out += [x >= 0, z3.Implies(z > 0, x > 0), z3.Implies(z == 0, x == 0)]
                    elif base == "btdtr":
                        out += [x >= 0, x <= 1, z3.Implies(z > 0, x > 0), z3.Implies(z < 1, x < 1),
                                z3.Implies(z == 0, x == 0), z3.Implies(z == 1, x == 1)]
        # constant points
        P = {k: list(v) for k, v in pts.items()}
        if P["exp"]:
            P["exp"].append(({}, pconst(1)))
        if P["erf"]:
            P["erf"].append(({}, {}))
        if P["atan"]:
            P["atan"].append(({}, {}))
        for k in ("exp", "erf", "atan"):
            L = P[k][-maxpts:]
            for i in range(len(L)):
                for j in range(i):
                    lazy.append(tri(L[j][0], L[j][1], L[i][0], L[i][1]))
                    if k != "exp" and L[j][0]:      # odd functions
                        lazy.append(tri(pscale(L[j][0], F(-1)), pscale(L[j][1], F(-1)), L[i][0], L[i][1]))
        if P["sin"] or P["cos"]:
            pia = nf.apoly(nf.atom("pi", "pi", pos=True))
            half = pscale(pia, F(1, 2))
            pi = self.poly(pia)
            if P["sin"]:
                P["sin"] += [({}, {}), (half, pconst(1)), (pscale(half, F(-1)), pconst(-1))]
            if P["cos"]:
                P["cos"] += [({}, pconst(1)), (half, {}), (pia, pconst(-1))]
            for k in ("sin", "cos"):
                L = P[k][-maxpts:]
                for i in range(len(L)):
                    for j in range(i):
                        xi, xj = self.poly(L[i][0]), self.poly(L[j][0])
                        if k == "sin":
                            dom = z3.And(xi <= pi / 2, xi >= -pi / 2, xj <= pi / 2, xj >= -pi / 2)
                            if len(L[j][0]) and set(L[j][0]) != {next(iter(half))}:
                                lazy.append(z3.Implies(dom, tri(pscale(L[j][0], F(-1)), pscale(L[j][1], F(-1)),
                                                                L[i][0], L[i][1])))
                        else:
                            dom = z3.And(xi <= pi, xi >= 0, xj <= pi, xj >= 0)
                        lazy.append(z3.Implies(dom, tri(L[j][0], L[j][1], L[i][0], L[i][1], dec=k == "cos")))
            for a in list(self.seen):
                if a.kind == "sin":
                    z = self.poly(a.args[0])
                    x = self.avar(a.id)
                    out.append(z3.Implies(z3.And(z > 0, z < pi), x > 0))
                    out.append(z3.Implies(z3.And(z < 0, z > -pi), x < 0))
                elif a.kind == "cos":
                    z = self.poly(a.args[0])
                    x = self.avar(a.id)
                    out.append(z3.Implies(z3.And(z > -pi / 2, z < pi / 2), x > 0))
                    out.append(z3.Implies(z3.And(z > pi / 2, z < 3 * pi / 2), x < 0))
        for nm, L in ufpts.items():
            for i in range(len(L)):
                for j in range(i):
                    if all(nf.is_zero(psub(p, q)) for p, q in zip(L[i][0], L[j][0])):
                        lazy.append(tri(L[j][1], L[j][2], L[i][1], L[i][2]))
        # congruence for plain uninterpreted functions
        plain = {}
        for a in self.seen:
            if a.kind == "uf" and a.data[0] not in tm.SPECIAL_INV and a.data[0] not in tm.SPECIAL_INV.values():
                plain.setdefault((a.data[0], len(a.args)), []).append(a)
        for L in plain.values():
            if len(L) > 8:
                continue
            for i in range(len(L)):
                for j in range(i):
                    same = [self.rel_raw(psub(p, q)) == 0 for p, q in zip(L[i].args, L[j].args)]
                    lazy.append(z3.Implies(z3.And(same), self.avar(L[i].id) == self.avar(L[j].id)))
        for p in nf.lemmas:
            if all(self.nf.deps(a) == frozenset() or a in self.v for m in p for a, e in m) and \
                    any(a in self.v for m in p for a, e in m):
                out.append(self.rel("le", p))
        return out, lazy

    def rel_raw(self, p):
        return self.poly(p)


class Facts(object):
    """The path condition: a list of Boolean terms with a normaliser and solver access."""

    def __init__(self):
        self.terms = []
        self.nf = NF(self.sign_oracle)
        self.nf.boolimplied = self.bool_quick
        self.cache = {}
        self.inoracle = 0
        self.set = set()
        self.fvc = {}
        self.level = 0
        self.feas_timeout = 1500

    def add(self, t):
        if t is tm.TRUE or t in self.set:
            return
        if t.op == "and":
            for a in t.args:
                self.add(a)
            return
        self.terms.append(t)
        self.set.add(t)
        self.cache.clear()
        self.learn(t)

    def learn(self, t):
        """syntactic positivity"""
        try:
            if t.op == "lt" and t.args[0].op == "c" and t.args[0].args[0] >= 0 and t.args[1].op == "v":
                p = self.nf.of(t.args[1])
                (m, c), = p.items()
                self.nf.atoms[m[0][0]].pos = True
        except Giveup:
            pass
        if t.op == "eq":
            pairs = [(t.args[0], t.args[1]), (t.args[1], t.args[0])]
            if t.args[0].op != "v" and t.args[1].op != "v":
                d = tm.sub(t.args[0], t.args[1])
                for v in sorted(tm.free_vars(d), key=lambda v: v.args[0]):
                    if v in self.nf.defs:
                        continue
                    try:
                        k = tm.diff(d, v)
                    except Exception:
                        continue
                    if k.op == "c" and k.args[0] != 0:
                        pairs.append((v, tm.mul(tm.const(F(-1) / k.args[0]), tm.subst(d, {v: tm.ZERO}))))
                        break
            for a, b in pairs:
                if a.op == "v" and a not in self.nf.defs:
                    b2 = tm.subst(b, self.nf.defs)
                    for _ in range(5):
                        b2 = tm.subst(b2, self.nf.defs)
                    if a in tm.subterms(b2) or (a.args[1] == "I" and b2.op != "c"):
                        continue
                    self.nf.defs[a] = b2
                    self.nf.memo.clear()
                    break

    def bool_quick(self, c):
        if c in self.set:
            return True
        if tm.not_(c) in self.set:
            return False
        return None

    def sign_oracle(self, p):
        if self.inoracle >= 2:
            return None
        self.inoracle += 1
        try:
            for s, rel in (("+", lambda e: e <= 0), ("-", lambda e: e >= 0)):
                if self._unsat_poly(p, rel, 300):
                    return s
            if self.level and self._unsat_poly(p, lambda e: e != 0, 300):
                return "0"
            return None
        finally:
            self.inoracle -= 1

    def _unsat_poly(self, p, rel, timeout):
        try:
            enc = Enc(self.nf)
            saved = self.nf.oracle
            self.nf.oracle = None
            try:
                e = enc.poly(p)
                fs = [rel(e)]
                vs = self.pvars(p)
                for t in self.terms:
                    if not self.fv(t) <= vs:
                        continue
                    try:
                        fs.append(enc.b(t))
                    except Giveup:
                        pass
                base, lazy = enc.lemmas2(10)
                fs += base
            finally:
                self.nf.oracle = saved
            return _check(fs + enc.side, timeout, lazy)[0] == "unsat"
        except Giveup:
            return False

    def pvars(self, p):
        out = set()
        seen = set()

        def go(p):
            for m in p:
                for a, e in m:
                    if a in seen:
                        continue
                    seen.add(a)
                    at = self.nf.atoms[a]
                    if at.kind == "v":
                        out.add(tm.var(*at.data))
                    elif at.kind == "ind":
                        out.update(self.fv(at.args[0]))
                    else:
                        for q in at.args:
                            go(q)
        go(p)
        return frozenset(out)

    # ------------------------------------------------------------
    def query(self, t, timeout, want_model=False):
        """status of  facts /\\ t : 'sat' | 'unsat' | 'unknown', model"""
        rel = self.relevant(t)
        if rel is not None and len(rel) < len(self.terms):
            st, _ = self._query(t, timeout, False, rel)
            if st == "unsat":
                return st, None
        return self._query(t, timeout, want_model, self.terms)

    def relevant(self, t):
        vs = self.fv(t)
        if not vs:
            return None
        out = [f for f in self.terms if self.fv(f) <= vs]
        # variables tied by the chosen facts only
        return out

    def fv(self, t):
        r = self.fvc.get(t)
        if r is None:
            r = self.fvc[t] = frozenset(x for x in tm.free_vars(t))
        if self.nf.defs and any(x in self.nf.defs for x in r):
            out = set()
            for x in r:
                out |= tm.free_vars(self.nf.defs[x]) if x in self.nf.defs else {x}
            return frozenset(out)
        return r

    def _query(self, t, timeout, want_model, facts):
        enc = Enc(self.nf)
        try:
            fs = [enc.b(t)]
        except Giveup:
            return "unknown", None
        for f in facts:
            try:
                fs.append(enc.b(f))
            except Giveup:
                pass
        lazy = []
        try:
            base, lazy = enc.lemmas2()
            fs += base
        except Giveup:
            pass
        st, model = _check(fs + enc.side, timeout, lazy)
        if st == "sat" and want_model:
            return st, self.extract(enc, model)
        return st, None

    def extract(self, enc, model):
        out = {}
        for aid, v in list(enc.v.items()):
            if isinstance(aid, tuple):
                continue
            a = self.nf.atoms[aid]
            if a.kind != "v":
                continue
            x = model.eval(v, model_completion=True)
            try:
                if z3.is_algebraic_value(x):
                    x = x.approx(20)
                out[a.data[0]] = float(x.numerator_as_long()) / float(x.denominator_as_long()) \
                    if not a.int else int(round(x.numerator_as_long() / x.denominator_as_long()))
            except Exception:
                pass
        for v, d in self.nf.defs.items():
            try:
                out[v.args[0]] = float(tm.evaluate(d, out))
            except Exception:
                pass
        for n, b in enc.bools.items():
            out[n] = bool(z3.is_true(model.eval(b, model_completion=True)))
        return out

    def implied(self, t):
        """True if facts |= t, False if facts |= not t, else None"""
        r = self.bool_quick(t)
        if r is not None:
            return r
        if t in self.cache:
            return self.cache[t]
        r = self.nf_decide(t)
        if r is None:
            if self.query(t, self.feas_timeout)[0] == "unsat":
                r = False
            elif self.query(tm.not_(t), self.feas_timeout)[0] == "unsat":
                r = True
        self.cache[t] = r
        return r

    def nf_decide(self, t):
        try:
            if t.op in ("lt", "le", "eq"):
                d = psub(self.nf.of(t.args[1]), self.nf.of(t.args[0]))
                if self.nf.is_zero(d):
                    return t.op != "lt"
                s = self.nf.quick_sign(d)
                if s == "+":
                    return t.op != "eq"
                if s == "-":
                    return False
                if len(d) == 1 and ONE_MONO in d:
                    c = d[ONE_MONO]
                    return {"lt": c > 0, "le": c >= 0, "eq": False}[t.op]
        except Giveup:
            return None
        return None

    def prove(self, goal, timeout=8000):
        """-> ('proved', backend) | ('sat', model) | ('unknown', reason)"""
        if goal is tm.TRUE:
            return "proved", "eval"
        if goal.op == "and":
            back = "eval"
            for a in goal.args:
                r = self.prove(a, timeout)
                if r[0] != "proved":
                    return r
                back = r[1]
            return "proved", back
        r = self.bool_quick(goal)
        if r is True:
            return "proved", "path-condition"
        r = self.nf_decide(goal)
        if r is True:
            return "proved", "ring-normaliser"
        neg = tm.not_(goal)
        st, model = self.query(neg, timeout, want_model=True)
        if st == "unsat":
            return "proved", "z3"
        if st == "sat":
            return "sat", model
        st = self.cvc5(neg, timeout)
        if st == "unsat":
            return "proved", "cvc5"
        return "unknown", "z3 and cvc5 gave no answer in %d ms" % timeout

    def cvc5(self, t, timeout):
        import subprocess
        import tempfile
        enc = Enc(self.nf)
        try:
            fs = [enc.b(t)]
            for f in self.terms:
                try:
                    fs.append(enc.b(f))
                except Giveup:
                    pass
            base, lazy = enc.lemmas2()
            fs += base + lazy
        except Giveup:
            return "unknown"
        s = z3.Solver()
        s.add(*(fs + enc.side))
        txt = "(set-logic ALL)\n" + s.to_smt2()
        t0 = time.time()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
        try:
            r = subprocess.run(["cvc5", "--tlimit=%d" % timeout, f.name], capture_output=True, text=True,
                               timeout=timeout / 1000 + 5)
            ans = r.stdout.strip().split("\n")[0]
        except Exception:
            ans = "unknown"
        finally:
            os.unlink(f.name)
        _stat("cvc5", time.time() - t0)
        return ans if ans in ("sat", "unsat") else "unknown"


SLOW = None


def _stat(by, dt):
    STATS["queries"] += 1
    STATS["time"] += dt
    q = STATS["by"].setdefault(by, [0, 0.0])
    q[0] += 1
    q[1] += dt


def _check(fs, timeout, lazy=()):
    """base formulas + lazily instantiated ground lemmas (only those a candidate model violates)"""
    t0 = time.time()
    lazy = list(lazy)
    s = z3.Solver()
    s.set("timeout", int(timeout))
    s.add(*fs)
    active = list(fs)
    r = z3.unknown
    model = None
    for it in range(60):
        left = timeout - 1000 * (time.time() - t0)
        if left < 20:
            r = z3.unknown
            break
        s.set("timeout", max(20, int(min(left, timeout / 2 if lazy else left))))
        r = s.check()
        if r == z3.unknown and left > 100:
            s2 = z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "qfnra-nlsat").solver()
            s2.set("timeout", max(20, int(left / 2)))
            s2.add(*active)
            try:
                r = s2.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.sat:
                model = s2.model()
        elif r == z3.sat:
            model = s.model()
        if r == z3.unsat:
            break
        if r == z3.sat:
            bad = []
            for l in lazy:
                v = model.eval(l, model_completion=True)
                if not z3.is_true(v):
                    bad.append(l)
                    if len(bad) >= 12:
                        break
            if not bad:
                break
        else:
            if not lazy:
                break
            bad = lazy[:30]
        ids = {b.get_id() for b in bad}
        lazy = [l for l in lazy if l.get_id() not in ids]
        s.add(*bad)
        active += bad
    dt = time.time() - t0
    _stat("z3", dt)
    if SLOW is not None and dt > 0.4:
        import traceback
        SLOW.append((dt, str(r), fs, "".join(traceback.format_stack(limit=7)[:-1])))
    if r == z3.unsat:
        return "unsat", None
    if r == z3.sat:
        return "sat", model
    return "unknown", None
