"""P02: prob is the density of cdf, zero outside the support, and ln_prob is its logarithm."""
import numpy as np
from pydv.contract import contract
from contracts._priors import FAMILIES, bp


def _make(f):
    if not f.nocdf:
        @contract("P02", f.name + ".density", cost=f.cost or 1, bound=f.bound)
        def _(c):
            p = f.make(c)
            y = c.real('y', None if f.lo is None and f.unbounded and not np.isfinite(p.minimum) else
                       (f.lo(p) if f.lo else p.minimum),
                       None if f.unbounded else p.maximum, open=True)
            if f.kinks:
                for k in f.kinks(p):
                    c.assume(c.either(y < k, y > k))
                    c.split(y < k)
            c.ensure_eq('prob-is-derivative-of-cdf', p.prob(y), c.deriv(p.cdf, y), rtol=1e-4, atol=1e-7)

        @contract("P02", f.name + ".below-support", cost=(f.cost or 1) * .5, bound=f.bound)
        def _l(c):
            p = f.make(c)
            lo = f.lo(p) if f.lo else p.minimum
            if isinstance(lo, float) and lo == -np.inf:
                c.ensure_le('cdf-is-nonnegative', 0, p.cdf(c.real('z')))
                return
            z = c.real('z', 0 if f.pos else None, lo, hi_open=True, lo_open=True)
            c.ensure_eq('cdf-is-0-below-support', p.cdf(z), 0.0)
            c.ensure_eq('prob-is-0-below-support', p.prob(z), 0.0)

        @contract("P02", f.name + ".above-support", cost=(f.cost or 1) * .5, bound=f.bound)
        def _a(c):
            p = f.make(c)
            if f.unbounded:
                c.ensure_le('cdf-is-at-most-1', p.cdf(c.real('z')), 1)
                return
            z = c.real('z', p.maximum, None, open=True)
            c.ensure_eq('cdf-is-1-above-support', p.cdf(z), 1.0)
            c.ensure_eq('prob-is-0-above-support', p.prob(z), 0.0)

        @contract("P02", f.name + ".cdf-at-ends", cost=(f.cost or 1) * .5, bound=f.bound)
        def _e(c):
            p = f.make(c)
            lo = f.lo(p) if f.lo else p.minimum
            if isinstance(lo, float) and lo == -np.inf and f.unbounded:
                z = c.real('z')
                w = c.real('w', z, None)
                c.ensure_le('cdf-nondecreasing', p.cdf(z), p.cdf(w))
                return
            c.ensure_eq('cdf-is-0-at-lower-end', p.cdf(lo), 0.0)
            if not f.unbounded:
                c.ensure_eq('cdf-is-1-at-upper-end', p.cdf(p.maximum), 1.0)
    else:
        @contract("P02", f.name + ".density", cost=f.cost or 1, bound=f.bound)
        def _d(c):
            p = f.make(c)
            u = c.unit('u', open=True)
            if not c.sym:
                c.assume(u < 0.999)
            x = p.rescale(u)
            # change of variables: p(x(u)) dx/du = 1
            c.ensure_eq('prob-is-density-of-rescaled-uniform', p.prob(x) * c.deriv(p.rescale, u), 1.0,
                        rtol=1e-4, atol=1e-6)
            below = c.pos('below')
            c.ensure_eq('prob-is-0-below', p.prob(p.minimum - below), 0.0)

    @contract("P02", f.name + ".ln_prob", cost=(f.cost or 1) * .5, bound=f.bound)
    def _n(c):
        p = f.make(c)
        z = c.real('z', 0 if f.pos else None, lo_open=True)
        if f.kinks:
            for k in f.kinks(p):
                c.split(z < k)
        if f.poles:
            for k in f.poles(p):
                c.assume(c.either(z < k, z > k))
        pr = p.prob(z)
        c.ensure_le('prob-is-nonnegative', 0, pr)
        if not c.sym:
            c.assume(not 0 < pr < 1e-280)
        c.ensure_eq('ln_prob-is-log-prob', p.ln_prob(z), np.log(pr))


for _f in FAMILIES:
    _make(_f)
