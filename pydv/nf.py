"""Normaliser: terms -> sparse generalised polynomials over atoms, under the facts of one path.

poly  = dict {mono: Fraction},  mono = tuple of (atom id, exponent) sorted by id, exponents are
        Fractions; a non-integer or negative exponent is only ever attached to an atom for which that
        is meaningful (positive atoms; negative integer exponents: non-zero atoms).
"""
from fractions import Fraction as F
from . import terms as tm

ONE_MONO = ()


class Giveup(Exception):
    pass


class Atom(object):
    __slots__ = ("id", "kind", "data", "pos", "int", "args", "sgn")

    def __init__(self, id, kind, data, pos=False, isint=False, args=()):
        self.id = id
        self.kind = kind
        self.data = data
        self.pos = pos
        self.int = isint
        self.args = args
        self.sgn = None


def padd(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def pscale(p, k):
    if k == 0:
        return {}
    return {m: c * k for m, c in p.items()}


def psub(p, q):
    return padd(p, pscale(q, F(-1)))


def pconst(c):
    c = F(c)
    return {ONE_MONO: c} if c else {}


def factor_int(n):
    out = {}
    d = 2
    while d * d <= n and d < 10000:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


class NF(object):
    MAXTERMS = 4000

    def __init__(self, oracle=None):
        self.atoms = []
        self.key = {}
        self.bykind = {}
        self.memo = {}
        self.roots = {}
        self.triples = []
        self.depmemo = {}
        self.oracle = oracle          # callable(poly) -> '+','-','0',None  (sound sign facts)
        self.boolimplied = None       # callable(term) -> True/False/None
        self.signcache = {}
        self.factorcache = {}
        self.defs = {}                # variable term -> defining term (from equality facts)
        self.lemmas = []              # extra facts recorded when an atom is created: (terms)

    # ------------------------------------------------------------ atoms
    def atom(self, kind, data, pos=False, isint=False, args=()):
        k = (kind, data)
        a = self.key.get(k)
        if a is None:
            a = Atom(len(self.atoms), kind, data, pos, isint, args)
            self.atoms.append(a)
            self.key[k] = a
            self.bykind.setdefault(kind, []).append(a)
        return a

    def fatom(self, kind, name, args, pos=False, isint=False):
        """function atom, arguments are polys; unify arguments up to provable equality"""
        key = (name,) + tuple(frozenset(p.items()) for p in args)
        a = self.key.get((kind, key))
        if a is not None:
            return a
        for b in self.bykind.get(kind, ()):
            if b.data[0] != name or len(b.args) != len(args):
                continue
            if all(self.is_zero(psub(p, q)) for p, q in zip(args, b.args)):
                self.key[(kind, key)] = b
                return b
        return self.atom(kind, key, pos, isint, tuple(args))

    def pmono(self, m, c=F(1)):
        return {m: c}

    def apoly(self, a, e=1):
        return {((a.id, F(e)),): F(1)}

    # ------------------------------------------------------------ arithmetic
    def mmul(self, m, n):
        if not m:
            return F(1), n
        if not n:
            return F(1), m
        out = []
        c = F(1)
        i = j = 0
        while i < len(m) or j < len(n):
            if j >= len(n) or (i < len(m) and m[i][0] < n[j][0]):
                out.append(m[i])
                i += 1
            elif i >= len(m) or n[j][0] < m[i][0]:
                out.append(n[j])
                j += 1
            else:
                aid = m[i][0]
                e = m[i][1] + n[j][1]
                a = self.atoms[aid]
                if a.kind == "ind":
                    e = F(1)
                if a.kind == "prime":
                    fl = e.numerator // e.denominator
                    if fl:
                        c *= F(a.data) ** fl
                        e -= fl
                if e:
                    out.append((aid, e))
                i += 1
                j += 1
        return c, tuple(out)

    def pmul(self, p, q):
        r = {}
        if len(p) * len(q) > 60000:
            raise Giveup("product too large")
        for m, c in p.items():
            for n, d in q.items():
                k, mn = self.mmul(m, n)
                v = c * d * k
                o = r.get(mn)
                if o is None:
                    r[mn] = v
                else:
                    o += v
                    if o:
                        r[mn] = o
                    else:
                        del r[mn]
        if len(r) > self.MAXTERMS:
            raise Giveup("poly too large")
        return r

    def ppow(self, p, n):
        r = pconst(1)
        for _ in range(n):
            r = self.pmul(r, p)
        return r

    # ------------------------------------------------------------ signs
    def sign(self, p):
        """'+','-','0' if provable, else None"""
        if not p:
            return "0"
        if len(p) == 1 and ONE_MONO in p:
            return "+" if p[ONE_MONO] > 0 else "-"
        s = self.quick_sign(p)
        if s:
            return s
        key = frozenset(p.items())
        if key in self.signcache:
            return self.signcache[key]
        r = self.oracle(p) if self.oracle else None
        if r is not None:
            self.signcache[key] = r
        return r

    def quick_sign(self, p):
        sg = None
        for m, c in p.items():
            s = 1 if c > 0 else -1
            for aid, e in m:
                a = self.atoms[aid]
                if a.pos:
                    continue
                return None
            if sg is None:
                sg = s
            elif sg != s:
                return None
        return "+" if sg > 0 else "-"

    def apos(self, a):
        """atom sign"""
        if a.pos:
            return "+"
        s = self.sign(self.apoly(a))
        if s == "+":
            a.pos = True
        return s

    # ------------------------------------------------------------ constants with rational powers
    def const_pow(self, c, q):
        """c>0 rational to the q"""
        out = pconst(1)
        for n, s in ((c.numerator, 1), (c.denominator, -1)):
            for pr, k in factor_int(n).items():
                e = F(k * s) * q
                fl = e.numerator // e.denominator
                fr = e - fl
                out = pscale(out, F(pr) ** fl)
                if fr:
                    a = self.atom("prime", pr, pos=True)
                    out = self.pmul(out, {((a.id, fr),): F(1)})
        return out

    # ------------------------------------------------------------ powers
    def powr(self, p, q):
        q = F(q)
        if q == 0:
            return pconst(1)
        if q == 1:
            return p
        if not p:
            if q > 0:
                return {}
            raise Giveup("0^-")
        if q.denominator == 1 and q > 0 and (len(p) == 1 or q * len(p) <= 12):
            if len(p) == 1:
                (m, c), = p.items()
                if all(self.atoms[a].kind != "ind" for a, e in m):
                    out = pconst(c ** int(q))
                    for a, e in m:
                        out = self.pmul(out, self.atompow(a, e * q))
                    return out
            return self.ppow(p, int(q))
        if len(p) == 1:
            (m, c), = p.items()
            return self.monopow(m, c, q)
        # multi-term base: content, factors
        c, mono, facs = self.factor(p)
        out = self.monopow(mono, c, q) if q.denominator == 1 else None
        if q.denominator == 1:
            for f, k in facs:
                a = self.comp(f)
                out = self.pmul(out, self.apoly(a, q * k))
            return out
        # fractional power: every factor must get a positive base
        neg = c < 0
        cc = abs(c)
        out = self.const_pow(cc, q)
        fl = []
        for a, e in mono:
            at = self.atoms[a]
            s = self.apos(at)
            if s == "+":
                out = self.pmul(out, self.atompow(a, e * q))
            elif e.denominator == 1 and e % 2 == 0 and (e * q).denominator == 1:
                if s == "-":
                    out = pscale(self.pmul(out, self.atompow(a, e * q)), F(-1) ** int(e * q))
                else:
                    ab = self.absatom(self.apoly(at))
                    out = self.pmul(out, self.powr(ab, e * q))
            elif s == "-":
                if e.denominator != 1:
                    raise Giveup("neg frac")
                if e % 2:
                    neg = not neg
                b = self.comp(pscale(at.args[0] if at.kind == "comp" else self.apoly(at), F(-1)))
                b.pos = True
                out = self.pmul(out, self.apoly(b, e * q))
            else:
                return self.wholepow(p, q)
        for f, k in facs:
            s = self.sign(f)
            if s == "+":
                a = self.comp(f)
                a.pos = True
                h = self.roots.get((a.id, q.denominator)) if k == 1 else None
                if h is not None:
                    r, c0, m0 = h
                    out = self.pmul(out, self.powr(r, q * q.denominator))
                    out = self.pmul(out, self.powr(pscale({m0: F(1)}, c0), -q))
                else:
                    out = self.pmul(out, self.apoly(a, k * q))
            elif s == "-":
                g = pscale(f, F(-1))
                if k % 2:
                    neg = not neg
                a = self.comp(g)
                a.pos = True
                out = self.pmul(out, self.apoly(a, k * q))
            elif k % 2 == 0 and (k * q).denominator == 1:
                out = self.pmul(out, self.powr(self.absatom(f), k * q))
            else:
                return self.wholepow(p, q)
        if neg:
            return self.wholepow(p, q)
        return out

    def root_hint(self, t, d):
        """proof hint: the positive term t is the d-th root of a composite factor.  Checked, not trusted: the d-th
        power of t is computed and its composite factor is looked up when roots are taken."""
        h = self.of(t)
        if self.sign(h) != "+":
            return False
        p = self.expand(self.ppow(h, d), False)
        if isinstance(p, tuple):
            p = p[0]
        c0, m0, facs = self.factor(p)
        if len(facs) != 1 or facs[0][1] != 1 or c0 <= 0:
            return False
        a = self.comp(facs[0][0])
        a.pos = True
        self.roots[(a.id, d)] = (h, c0, m0)
        self.memo.clear()
        return True

    def triple_hint(self, t):
        """proof hint: acos(4 w^3 - 3 w) = 3 acos(w) for 1/2 <= w <= 1 (the range is checked, not trusted)"""
        w = self.of(t)
        if self.sign(psub(w, pconst(F(1, 2)))) not in ("+", "0") or self.sign(psub(pconst(1), w)) not in ("+", "0"):
            return False
        z = psub(pscale(self.ppow(w, 3), F(4)), pscale(w, F(3)))
        self.triples.append((w, z))
        self.memo.clear()
        return True

    def wholepow(self, p, q):
        """p^q with p known (by definedness) to be >= 0 but not factorable into positive parts."""
        a = self.comp(p)
        s = self.apos(a)
        if s == "+":
            return self.apoly(a, q)
        if q > 0:
            # p >= 0 : opaque root atom r >= 0, r^den = p^num
            b = self.fatom("root", q.denominator, (p,))
            return self.ppow(self.apoly(b), q.numerator) if q.numerator <= 6 else self.apoly(b, q.numerator)
        raise Giveup("power of term of unknown sign")

    def atompow(self, aid, e):
        a = self.atoms[aid]
        if a.kind == "prime":
            fl = e.numerator // e.denominator
            fr = e - fl
            r = pconst(F(a.data) ** fl)
            return self.pmul(r, {((aid, fr),): F(1)}) if fr else r
        if a.kind == "root" and e.denominator == 1 and e >= a.data[0]:
            n, k = divmod(int(e), a.data[0])
            r = self.powr(a.args[0], n)
            return self.pmul(r, self.apoly(a, k)) if k else r
        h = self.roots.get((aid, e.denominator)) if self.roots and e.denominator > 1 else None
        if h is not None:
            r, c0, m0 = h
            return self.pmul(self.powr(r, F(e.numerator)), self.powr(pscale({m0: F(1)}, c0), -e))
        return {((aid, e),): F(1)}

    def monopow(self, m, c, q):
        if q.denominator == 1:
            out = pconst(F(c) ** int(q))
            for a, e in m:
                out = self.pmul(out, self.atompow(a, e * q))
            return out
        neg = c < 0
        out = self.const_pow(abs(c), q)
        for a, e in m:
            at = self.atoms[a]
            s = self.apos(at)
            if s == "+":
                out = self.pmul(out, self.atompow(a, e * q))
            elif e.denominator == 1 and e % 2 == 0 and (e * q).denominator == 1:
                if s == "-":
                    out = pscale(self.pmul(out, self.atompow(a, e * q)), F(-1) ** int(e * q))
                else:
                    out = self.pmul(out, self.powr(self.absatom(self.apoly(at)), e * q))
            elif s == "-" and e.denominator == 1:
                if e % 2:
                    neg = not neg
                b = self.comp(pscale(at.args[0] if at.kind == "comp" else self.apoly(at), F(-1)))
                b.pos = True
                out = self.pmul(out, self.apoly(b, e * q))
            else:
                return self.wholepow({m: F(c)}, q)
        if neg:
            return self.wholepow({m: F(c)}, q)
        return out

    def absatom(self, p):
        s = self.sign(p)
        if s in ("+", "0"):
            return p
        if s == "-":
            return pscale(p, F(-1))
        # canonical sign
        if self.leading_negative(p):
            p = pscale(p, F(-1))
        return self.apoly(self.fatom("abs", "abs", (p,)))

    def leading_negative(self, p):
        m = min(p.keys())
        return p[m] < 0

    # ------------------------------------------------------------ composites
    def comp(self, p):
        """composite atom for a poly (primitive)"""
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return self.atoms[m[0][0]]
        key = frozenset(p.items())
        a = self.key.get(("comp", key))
        if a is None:
            for b in self.bykind.get("comp", ()):
                if len(b.args) == 1 and self.is_zero(psub(p, b.args[0])):
                    self.key[("comp", key)] = b
                    return b
            a = self.atom("comp", key, args=(dict(p),))
            if self.quick_sign(p) == "+":
                a.pos = True
        return a

    def content(self, p):
        """p = c * mono * p'   (p' primitive, integer-coprime coefficients, leading coefficient > 0)"""
        from math import gcd
        num = 0
        den = 1
        for c in p.values():
            num = gcd(num, abs(c.numerator))
            den = den * c.denominator // gcd(den, c.denominator)
        c = F(num, den)
        mins = None
        for m in p:
            d = dict(m)
            if mins is None:
                mins = d
            else:
                nm = {}
                for a in set(mins) | set(d):
                    e = min(mins.get(a, F(0)), d.get(a, F(0)))
                    if e:
                        nm[a] = e
                mins = nm
        # fractional primes: leave inside
        mono = tuple(sorted((a, e) for a, e in mins.items() if self.atoms[a].kind not in ("prime", "ind")))
        inv = tuple((a, -e) for a, e in mono)
        r = {}
        for m, v in p.items():
            k, mm = self.mmul(m, inv)
            r[mm] = v * k / c
        if self.leading_negative(r):
            c = -c
            r = pscale(r, F(-1))
        return c, mono, r

    def factor(self, p):
        key = frozenset(p.items())
        if key in self.factorcache:
            return self.factorcache[key]
        p0 = p
        p = self.expand(p)      # expand integer powers of composites, clear denominators
        extra = []
        if isinstance(p, tuple):
            p, extra = p
        c, mono, r = self.content(p)
        if len(r) == 1:
            facs = []
            (m, v), = r.items()
            if m or v != 1:
                k, mono = self.mmul(mono, m)
                c = c * v * k
        else:
            facs = self.sympy_factor(r)
            # fold constant/monomial factors
            out = []
            for f, k in facs:
                if len(f) == 1:
                    (m, v), = f.items()
                    c *= v ** k
                    for a, e in m:
                        kk, mono = self.mmul(mono, ((a, e * k),))
                        c *= kk
                else:
                    out.append((f, k))
            facs = out
        for a, e in extra:
            k, mono = self.mmul(mono, ((a, e),))
            c *= k
        facs2 = []
        for f, k in facs:
            if self.sign(f) == "-":
                f = pscale(f, F(-1))
                if k % 2:
                    c = -c
            facs2.append((f, k))
        facs = facs2
        res = (c, mono, facs)
        self.factorcache[key] = res
        return res

    def sympy_factor(self, p):
        from sympy.polys.rings import ring
        from sympy import QQ
        aids = sorted({a for m in p for a, e in m})
        if len(p) > 120 or len(aids) > 12:
            return [(p, 1)]
        lcm = {}
        from math import lcm as _lcm
        for m in p:
            for a, e in m:
                if e < 0:
                    return [(p, 1)]
                lcm[a] = _lcm(lcm.get(a, 1), e.denominator)
        maxdeg = max((int(e * lcm[a]) for m in p for a, e in m), default=0)
        if maxdeg > 16:
            return [(p, 1)]
        for a in aids:
            if lcm[a] != 1 and self.atoms[a].kind in ("prime",):
                # sqrt(2) etc: treat as algebraically free (sound: factorisation identities still hold)
                pass
        R, *gens = ring(["g%d" % a for a in aids], QQ)
        pos = {a: i for i, a in enumerate(aids)}
        el = R.zero
        d = {}
        for m, c in p.items():
            ex = [0] * len(aids)
            for a, e in m:
                ex[pos[a]] = int(e * lcm[a])
            d[tuple(ex)] = QQ(c.numerator, c.denominator)
        el = R.from_dict(d)
        try:
            cst, fl = el.factor_list()
        except Exception:
            return [(p, 1)]
        out = []
        cst = F(int(cst.numerator), int(cst.denominator))
        for f, k in fl:
            q = {}
            for ex, cc in f.terms():
                m = tuple((a, F(ex[pos[a]], lcm[a])) for a in aids if ex[pos[a]])
                q[m] = F(int(cc.numerator), int(cc.denominator))
            cc, mono, q2 = self.content(q)
            cst *= cc ** k
            if mono:
                out.append(({mono: F(1)}, k))
            if q2 != {ONE_MONO: F(1)}:
                out.append((q2, k))
        # renormalise: reduce primes^1 that may appear
        if cst != 1:
            out.append((pconst(cst), 1))
        return out

    # ------------------------------------------------------------ zero test
    def expand(self, p, clear=True):
        """Multiply by powers of composite atoms so that no composite has a negative exponent, then expand
        integer powers.  Returns (poly, [(aid, -k)...]) with  p = poly * prod atom^{-k}."""
        extra = {}
        for _ in range(200):
            target = None
            for m in p:
                for a, e in m:
                    at = self.atoms[a]
                    if at.kind in ("comp", "root") and (e >= (1 if at.kind == "comp" else at.data[0]) or (e < 0 and clear)):
                        if target is None or a > target:
                            target = a
            if target is None:
                break
            at = self.atoms[target]
            mn = F(0)
            for m in p:
                e = dict(m).get(target, F(0))
                if e < mn:
                    mn = e
            if mn < 0 and clear:
                k = -(mn.numerator // mn.denominator)   # ceil(-mn)
                extra[target] = extra.get(target, F(0)) - k
            else:
                k = 0
            r = {}
            if at.kind == "root":
                for m, c in p.items():
                    d = dict(m)
                    e = d.pop(target, F(0)) + k
                    rest = {tuple(sorted(d.items())): c}
                    if e:
                        rest = self.pmul(rest, self.atompow(target, e))
                    r = padd(r, rest)
                p = r
                continue
            cache = {0: pconst(1)}
            base = at.args[0]
            for m, c in p.items():
                d = dict(m)
                e = d.pop(target, F(0)) + k
                fl = e.numerator // e.denominator
                if fl < 0:
                    # cannot clear (clear=False)
                    r = padd(r, {m: c})
                    continue
                fr = e - fl
                if fr:
                    d[target] = fr
                rest = {tuple(sorted(d.items())): c}
                if fl:
                    if fl > 12:
                        raise Giveup("power too high")
                    if fl not in cache:
                        cache[fl] = self.ppow(base, int(fl))
                    rest = self.pmul(rest, cache[fl])
                r = padd(r, rest)
                if len(r) > self.MAXTERMS:
                    raise Giveup("too large")
            p = r
        return p, [(a, e) for a, e in extra.items()]

    def trigreduce(self, p):
        """sin(m)^k, k>=2 -> (1-cos^2)"""
        for _ in range(60):
            tgt = None
            for m in p:
                for a, e in m:
                    if self.atoms[a].kind == "sin" and e >= 2 and e.denominator == 1:
                        tgt = a
                        break
                if tgt is not None:
                    break
            if tgt is None:
                return p
            c_at = self.fatom("cos", "cos", self.atoms[tgt].args)
            one_minus = {ONE_MONO: F(1), ((c_at.id, F(2)),): F(-1)}
            r = {}
            for m, c in p.items():
                d = dict(m)
                e = d.get(tgt, F(0))
                if e >= 2 and e.denominator == 1:
                    k = int(e) // 2
                    rem = int(e) % 2
                    if rem:
                        d[tgt] = F(rem)
                    else:
                        d.pop(tgt)
                    rest = {tuple(sorted(d.items())): c}
                    rest = self.pmul(rest, self.ppow(one_minus, k))
                    r = padd(r, rest)
                else:
                    r = padd(r, {m: c})
            p = r
        return p

    def is_zero(self, p):
        if not p:
            return True
        if len(p) == 1 and not self.bykind.get("lin"):
            return False
        try:
            q, _ = self.expand(p)
            if not q:
                return True
            q = self.trigreduce(q)
            if not q:
                return True
            q, _ = self.expand(q)
            if q and self.bykind.get("lin"):
                q = self.lin_collect(q)
            return not q
        except Giveup:
            return False

    def canon(self, p):
        """canonical-ish form of a rational argument: single fraction, reduced against its denominators"""
        if not any(self.atoms[a].kind in ("comp", "root") for m in p for a, e in m):
            return p
        if len(p) == 1:
            return p
        try:
            n, extra = self.expand(p)
            n = self.trigreduce(n)
        except Giveup:
            return p
        if not n:
            return {}
        if not extra:
            return n
        # divide out factors
        if len(n) == 1:
            out = n
            for a, e in extra:
                out = self.pmul(out, {((a, e),): F(1)})
            return out
        c, mono, facs = self.factor(n)
        ex = dict(extra)
        rest = []
        for f, k in facs:
            a = None
            key = frozenset(f.items())
            a = self.key.get(("comp", key))
            if a is not None and a.id in ex:
                j = min(k, -ex[a.id])
                ex[a.id] += j
                k -= j
            if k:
                rest.append((f, k))
        out = {mono: c}
        for f, k in rest:
            out = self.pmul(out, self.ppow(f, int(k)))
        for a, e in ex.items():
            if e:
                out = self.pmul(out, {((a, e),): F(1)})
        return out

    # ------------------------------------------------------------ terms -> poly
    def of(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._of(t)
            self.memo[t] = r
        return r

    def _of(self, t):
        o = t.op
        if o == "c":
            return pconst(t.args[0])
        if o == "pi":
            return self.apoly(self.atom("pi", "pi", pos=True))
        if o == "v":
            d = self.defs.get(t)
            if d is not None:
                return self.of(d)
            return self.apoly(self.atom("v", t.args, isint=t.args[1] == "I"))
        if o == "+":
            r = {}
            for a in t.args:
                r = padd(r, self.of(a))
            return r
        if o == "*":
            r = pconst(1)
            for a in t.args:
                r = self.pmul(r, self.of(a))
                if not r:
                    return r
            return r
        if o == "^":
            return self.powr(self.of(t.args[0]), t.args[1])
        if o == "exp":
            return self.exp_of(self.of(t.args[0]))
        if o == "log":
            return self.log_of(self.of(t.args[0]))
        if o in ("sin", "cos"):
            return self.trig_of(o, self.of(t.args[0]))
        if o in ("asin", "acos", "atan", "erf", "erfinv"):
            return self.odd_of(o, self.of(t.args[0]))
        if o == "abs":
            return self.absatom(self.canon(self.of(t.args[0])))
        if o == "floor":
            p = self.canon(self.of(t.args[0]))
            return self.floor_of(p)
        if o == "gammaln":
            g = self.canon(self.of(t.args[0]))
            if g == pconst(1) or g == pconst(2):
                return {}
            if g == pconst(F(1, 2)):
                return pscale(self.log_of(self.apoly(self.atom("pi", "pi", pos=True))), F(1, 2))
            return self.apoly(self.fatom("uf", "gammaln", (g,)))
        if o == "uf":
            return self.uf_of(t.args[0], [self.canon(self.of(a)) for a in t.args[1:]])
        if o == "ite":
            return self.ite_of(t)
        if o == "lin":
            return self.lin_of(t)
        if o == "agg":
            return self.agg_of(t)
        raise Giveup("nf " + o)

    def exp_of(self, p):
        p = self.canon(p)
        out = pconst(1)
        for m, c in p.items():
            if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == "log":
                base = self.atoms[m[0][0]].args[0]
                out = self.pmul(out, self.powr(base, c))
                continue
            out = self.pmul(out, {((self.expatom(m).id, c),): F(1)})
        return out

    def expatom(self, m):
        return self.fatom("exp", "exp", ({m: F(1)},), pos=True)

    def log_of(self, p):
        p = self.canon(p)
        if not p:
            raise Giveup("log 0")
        if len(p) == 1:
            (m, c), = p.items()
            facs = []
            mono = m
        else:
            c, mono, facs = self.factor(p)
        parts = {}
        ok = c > 0
        neg = c < 0
        lst = []
        for a, e in mono:
            at = self.atoms[a]
            if self.apos(at) == "+":
                lst.append((at, e))
            elif self.apos(at) == "-" and e.denominator == 1:
                if e % 2:
                    neg = not neg
                b = self.comp(pscale(at.args[0] if at.kind == "comp" else self.apoly(at), F(-1)))
                b.pos = True
                lst.append((b, e))
            elif e.denominator == 1 and e % 2 == 0:
                ab = self.absatom(self.apoly(at))
                if len(ab) == 1 and len(next(iter(ab))) == 1 and next(iter(ab.values())) == 1:
                    aa = self.atoms[next(iter(ab))[0][0]]
                    aa.pos = True
                    lst.append((aa, e))
                else:
                    b = self.comp(ab)
                    b.pos = True
                    lst.append((b, e))
            else:
                return self.logwhole(p)
        for f, k in facs:
            s = self.sign(f)
            if s == "-":
                f = pscale(f, F(-1))
                if k % 2:
                    neg = not neg
                s = "+"
            if s == "+":
                b = self.comp(f)
                b.pos = True
                lst.append((b, F(k)))
            elif k % 2 == 0:
                ab = self.absatom(f)
                b = self.comp(ab)
                b.pos = True
                lst.append((b, F(k)))
            else:
                return self.logwhole(p)
        if neg:
            return self.logwhole(p)
        r = self.logconst(abs(c))
        for at, e in lst:
            r = padd(r, pscale(self.logatom(at), e))
        return r

    def logconst(self, c):
        r = {}
        for n, s in ((c.numerator, 1), (c.denominator, -1)):
            for pr, k in factor_int(n).items():
                r = padd(r, pscale(self.logatom(self.atom("prime", pr, pos=True)), F(k * s)))
        return r

    def logatom(self, at):
        if at.kind == "exp":
            return at.args[0]
        if at.kind == "prime":
            base = pconst(at.data)
        else:
            base = self.apoly(at)
        a = self.fatom("log", "log", (base,))
        return self.apoly(a)

    def logwhole(self, p):
        a = self.comp(p)
        a.pos = True
        return self.apoly(self.fatom("log", "log", (self.apoly(a),)))

    def trig_of(self, o, p):
        p = self.canon(p)
        # split constant multiple of pi/2
        pim = None
        for m, c in p.items():
            if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == "pi":
                pim = (m, c)
        k = 0
        if pim:
            q = pim[1] * 2
            if q.denominator == 1:
                k = int(q) % 4
                p = {m: c for m, c in p.items() if m != pim[0]}
                if o == "sin":
                    if k == 1:
                        return self.trig_of("cos", p)
                    if k == 2:
                        return pscale(self.trig_of("sin", p), F(-1))
                    if k == 3:
                        return pscale(self.trig_of("cos", p), F(-1))
                else:
                    if k == 1:
                        return pscale(self.trig_of("sin", p), F(-1))
                    if k == 2:
                        return pscale(self.trig_of("cos", p), F(-1))
                    if k == 3:
                        return self.trig_of("sin", p)
        if not p:
            return {} if o == "sin" else pconst(1)
        s, c = self.sincos(p)
        return s if o == "sin" else c

    def sincos(self, p):
        """expand sin/cos of a sum of monomials with small integer coefficients"""
        items = sorted(p.items())
        s, c = {}, pconst(1)
        for m, k in items:
            sm, cm = self.sincos_mono(m, k)
            s, c = (padd(self.pmul(s, cm), self.pmul(c, sm)),
                    psub(self.pmul(c, cm), self.pmul(s, sm)))
        return s, c

    def sincos_mono(self, m, k):
        sg = 1 if k > 0 else -1
        k = abs(k)
        n, d = k.numerator, k.denominator
        if len(m) == 1 and m[0][1] == 1 and d == 1:
            at = self.atoms[m[0][0]]
            # sin(asin x) etc
            if at.kind in ("asin", "acos", "atan") and n == 1:
                x = at.args[0]
                if at.kind == "asin":
                    s, c = x, self.powr(psub(pconst(1), self.pmul(x, x)), F(1, 2))
                elif at.kind == "acos":
                    s, c = self.powr(psub(pconst(1), self.pmul(x, x)), F(1, 2)), x
                else:
                    h = self.powr(padd(pconst(1), self.pmul(x, x)), F(-1, 2))
                    s, c = self.pmul(x, h), h
                return pscale(s, F(sg)), c
        if n > 6:
            n, base = 1, {m: k}
        else:
            base = {m: F(1, d)}
        s1 = self.apoly(self.fatom("sin", "sin", (base,)))
        c1 = self.apoly(self.fatom("cos", "cos", (base,)))
        s, c = s1, c1
        for _ in range(n - 1):
            s, c = padd(self.pmul(s, c1), self.pmul(c, s1)), psub(self.pmul(c, c1), self.pmul(s, s1))
        return pscale(s, F(sg)), c

    def odd_of(self, o, p):
        p = self.canon(p)
        if not p:
            if o == "acos":
                return pscale(self.apoly(self.atom("pi", "pi", pos=True)), F(1, 2))
            return {}
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1 and m[0][1] == 1:
                at = self.atoms[m[0][0]]
                inv = {"erf": "erfinv", "erfinv": "erf"}.get(o)
                if abs(c) == 1 and inv and at.kind == inv:
                    return pscale(at.args[0], c)
                if abs(c) == 1 and o in ("asin", "acos") and at.kind in ("sin", "cos"):
                    # range must be known
                    x = at.args[0]
                    half = pscale(self.apoly(self.atom("pi", "pi", pos=True)), F(1, 2))
                    if o == "asin" and at.kind == "sin" and \
                            self.sign(padd(half, x)) in ("+", "0") and self.sign(psub(half, x)) in ("+", "0"):
                        return pscale(x, c)
                    if o == "acos" and at.kind == "cos" and c == 1 and \
                            self.sign(x) in ("+", "0") and self.sign(psub(pscale(half, F(2)), x)) in ("+", "0"):
                        return x
        if o == "asin" and p == pconst(1):
            return pscale(self.apoly(self.atom("pi", "pi", pos=True)), F(1, 2))
        if o == "acos" and p == pconst(1):
            return {}
        if o == "acos":
            for w, z in self.triples:
                if self.is_zero(psub(p, z)):
                    return pscale(self.odd_of("acos", w), F(3))
            return self.apoly(self.fatom("acos", "acos", (p,)))
        sg = F(1)
        if self.leading_negative(p):
            p = pscale(p, F(-1))
            sg = F(-1)
        if o == "atan" and len(p) == 1:
            r = self.atan_tan(p)
            if r is not None:
                return pscale(r, sg)
        return pscale(self.apoly(self.fatom(o, o, (p,))), sg)

    def atan_tan(self, p):
        """atan(sin x / cos x) = x for |x| < pi/2;  atan(cos x / sin x) = pi/2 - x for 0 < x < pi"""
        (m, c), = p.items()
        if abs(c) != 1 or len(m) != 2:
            return None
        d = {}
        for a, e in m:
            at = self.atoms[a]
            if at.kind not in ("sin", "cos") or abs(e) != 1:
                return None
            d[at.kind] = (at.args[0], e)
        if len(d) != 2 or d["sin"][0] != d["cos"][0] or d["sin"][1] != -d["cos"][1]:
            return None
        x = d["sin"][0]
        pi = self.apoly(self.atom("pi", "pi", pos=True))
        half = pscale(pi, F(1, 2))
        if d["sin"][1] == 1:
            if self.sign(padd(half, x)) == "+" and self.sign(psub(half, x)) == "+":
                return pscale(x, c)
        elif self.sign(x) == "+" and self.sign(psub(pi, x)) == "+":
            return pscale(psub(half, x), c)
        return None

    def floor_of(self, p):
        ip, rest = {}, {}
        for m, c in p.items():
            if c.denominator == 1 and all(self.atoms[a].int and e.denominator == 1 and e > 0 for a, e in m):
                ip[m] = c
            else:
                rest[m] = c
        if not rest:
            return ip
        if len(rest) == 1 and ONE_MONO in rest:
            import math
            return padd(ip, pconst(math.floor(rest[ONE_MONO])))
        return padd(ip, self.apoly(self.fatom("floor", "floor", (rest,), isint=True)))

    def uf_of(self, name, args):
        if name in tm.SPECIAL_INV or name in tm.SPECIAL_INV.values():
            last = args[-1]
            if len(last) == 1:
                (m, c), = last.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1:
                    at = self.atoms[m[0][0]]
                    if at.kind == "uf":
                        inner = at.data[0]
                        if tm.SPECIAL_INV.get(inner) == name or tm.SPECIAL_INV.get(name) == inner:
                            if all(self.is_zero(psub(p, q)) for p, q in zip(args[:-1], at.args[:-1])):
                                return at.args[-1]
        return self.apoly(self.fatom("uf", name, tuple(args)))

    def ite_of(self, t):
        c, a, b = t.args
        if self.boolimplied is not None:
            r = self.boolimplied(c)
            if r is True:
                return self.of(a)
            if r is False:
                return self.of(b)
        ind = self.ind_of(c)
        return padd(self.pmul(ind, self.of(a)), self.pmul(psub(pconst(1), ind), self.of(b)))

    def ind_of(self, c):
        if c is tm.TRUE:
            return pconst(1)
        if c is tm.FALSE:
            return {}
        if c.op == "and":
            r = pconst(1)
            for x in c.args:
                r = self.pmul(r, self.ind_of(x))
            return r
        if c.op == "or":
            r = pconst(1)
            for x in c.args:
                r = self.pmul(r, psub(pconst(1), self.ind_of(x)))
            return psub(pconst(1), r)
        if c.op == "not":
            return psub(pconst(1), self.ind_of(c.args[0]))
        return self.apoly(self.atom("ind", c.id, args=(c,)))

    def deps(self, aid):
        """array-length tokens an atom depends on"""
        r = self.depmemo.get(aid)
        if r is None:
            a = self.atoms[aid]
            if a.kind == "v":
                r = frozenset([a.data[0].split("@")[1]]) if "@" in a.data[0] else frozenset()
            elif a.kind == "ind":
                r = tm.tokens(a.args[0])
            else:
                r = frozenset()
                for i, p in enumerate(a.args):
                    if not isinstance(p, dict):
                        continue
                    d = frozenset().union(*[self.deps(x) for m in p for x, e in m]) if p else frozenset()
                    if i == 0 and a.kind in ("lin", "agg"):
                        d = d - {a.data[0][1]}
                    r = r | d
            self.depmemo[aid] = r
        return r

    def lin_of(self, t):
        name, tok, body = t.args[:3]
        extra = tuple(self.canon(self.of(x)) for x in t.args[3:])
        p = self.of(body)
        try:
            p = self.trigreduce(self.expand(p, False)[0])
        except Giveup:
            pass
        groups = {}
        for m, c in p.items():
            ins = tuple(x for x in m if tok in self.deps(x[0]))
            outs = tuple(x for x in m if tok not in self.deps(x[0]))
            groups.setdefault(ins, {})
            groups[ins] = padd(groups[ins], {outs: c})
        out = {}
        for ins, outp in groups.items():
            if not ins and name == "sum":
                s = self.of(tm.length(tok))
            else:
                mb = {ins: F(1)}
                s = self.apoly(self.fatom("lin", (name, tok), (mb,) + extra,
                                          pos=name == "sum" and self.sign(mb) == "+"))
            out = padd(out, self.pmul(outp, s))
        if name == "sum" and out and self.quick_sign(out) is None and tm.nonneg(body):
            self.lemmas.append(out)
        return out

    def lin_collect(self, q):
        """sum_j c_j L(b_j) = L(sum_j c_j b_j): drop groups of the same functional whose combined body vanishes"""
        groups = {}
        rest = {}
        for m, c in q.items():
            la = [x for x in m if self.atoms[x[0]].kind == "lin" and x[1] == 1]
            if not la:
                rest[m] = c
                continue
            x = la[0]
            at = self.atoms[x[0]]
            tok = at.data[0][1]
            co = tuple(y for y in m if y is not x)
            key = (at.data[0], at.data[2:], co)
            g = groups.setdefault(key, {})
            groups[key] = padd(g, pscale(at.args[0], c))
        if not groups:
            return q
        # constants: n * c belongs to the functional sum
        out = dict(rest)
        for (nm, ex, co), body in groups.items():
            if nm[0] == "sum":
                ln = self.of(tm.length(nm[1]))
                (lm, lc), = ln.items() if len(ln) == 1 else (((), None),)
                if lc == 1 and len(lm) == 1:
                    m2 = tuple(sorted(co + lm)) if lm[0][0] not in dict(co) else None
                    if m2 is not None and m2 in out:
                        body = padd(body, pconst(out.pop(m2)))
            if not body or self.is_zero(body):
                continue
            k = (nm, ex, co)
            out[("lin!", k)] = F(1)
        return out

    def agg_of(self, t):
        name, tok, body = t.args[:3]
        p = self.canon(self.of(body))
        return self.apoly(self.fatom("agg", (name, tok), (p,)))


    # ------------------------------------------------------------ printing
    def show(self, p):
        def am(a, e):
            at = self.atoms[a]
            n = self.aname(at)
            return n if e == 1 else "%s^(%s)" % (n, e)
        return " + ".join(("%s*" % c if c != 1 or not m else "") + "*".join(am(a, e) for a, e in m)
                          for m, c in p.items()) or "0"

    def aname(self, at):
        if at.kind == "v":
            return at.data[0]
        if at.kind in ("pi", "prime"):
            return str(at.data)
        if at.kind == "comp":
            return "[" + self.show(at.args[0]) + "]"
        if at.kind == "ind":
            return "ind{%s}" % tm.show(at.args[0], 4)
        return "%s(%s)" % (at.data[0], ", ".join(self.show(p) for p in at.args))
