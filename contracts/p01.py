"""P01: rescale maps the unit interval into the support and inverts the cdf."""
from pydv.contract import contract
from contracts._priors import FAMILIES, bp


def _make(f):
    @contract("P01", f.name + ".rescale", cost=f.cost or 1, bound=f.bound)
    def _(c):
        p = f.make(c)
        u = c.unit('u', open=bool(f.unbounded))
        x = p.rescale(u)
        if f.support:
            c.ensure('in-support', f.support(p, x, c)) if c.sym else c.ensure_within(
                'in-support', p.minimum, abs(x), p.maximum)
        else:
            c.ensure_within('in-support', p.minimum, x, p.maximum)
        if not f.nocdf:
            c.ensure_eq('cdf-inverts-rescale', p.cdf(x), u, rtol=1e-5, atol=1e-6)

    if f.nocdf:
        @contract("P01", f.name + ".inverts-integral-of-prob", cost=f.cost or 1, bound=f.bound)
        def _d(c):
            p = f.make(c)
            u = c.unit('u', open=True)
            if not c.sym:
                c.assume(u < 0.999)
            c.ensure_eq('prob-at-rescale-times-slope', p.prob(p.rescale(u)) * c.deriv(p.rescale, u), 1.0,
                        rtol=1e-4, atol=1e-6)

    @contract("P01", f.name + ".endpoints", cost=(f.cost or 1) * .5, bound=f.bound)
    def _e(c):
        p = f.make(c)
        c.ensure_eq('rescale-of-0-is-lower-end', p.rescale(0.0), f.lo(p) if f.lo else p.minimum, rtol=1e-5, atol=1e-6)
        if c.sym or not f.noupper:      # FermiDirac at u=1 is dominated by cancellation: proof only
            c.ensure_eq('rescale-of-1-is-upper-end', p.rescale(1.0), p.maximum, rtol=1e-5, atol=1e-6)

    @contract("P01", f.name + ".monotone", cost=(f.cost or 1) * .5, bound=f.bound)
    def _m(c):
        p = f.make(c)
        u = c.unit('u', open=True)
        v = c.real('v', u, 1, open=True)
        c.ensure_le('rescale-nondecreasing', p.rescale(u), p.rescale(v))


for _f in FAMILIES:
    _make(_f)
