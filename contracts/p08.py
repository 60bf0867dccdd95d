"""P08: composite, tabulated, discrete and joint priors: density, cdf and rescale describe one distribution."""
import itertools
import numpy as np
from pydv.contract import contract
import scipy.integrate
import bilby.core.prior as bp
import bilby.core.prior.interpolated as ip
import bilby.core.prior.joint as jp
import bilby.core.utils.random as brandom
import bilby.gw.prior as gp
from contracts.p05 import lnnormal

INF = np.inf


# ------------------------------------------------------------------------------------------------ slab and spike
class Slab(bp.Prior):
    """a continuous prior known only by its contract"""

    def __init__(self, dens, dist, quant, lo, hi):
        super().__init__(name='x', minimum=lo, maximum=hi)
        self.dens, self.dist, self.quant = dens, dist, quant

    def prob(self, val):
        return self.dens(val)

    def ln_prob(self, val):
        return np.log(self.dens(val))

    def cdf(self, val):
        return self.dist(val)

    def rescale(self, val):
        return self.quant(val)


def slabspike(c, history=False):
    lo = c.real('minimum')
    hi = c.real('maximum', lo, open=True)
    F = c.func('slab_cdf', 1, lo=0, hi=1)
    slab = Slab(c.func('slab_prob', 1, positive=True), F, c.func('slab_rescale', 1), lo, hi)
    s = c.real('spike', lo, hi)
    h = c.real('height', 0, 1, hi_open=True)
    if history:
        p = bp.SlabSpikePrior(slab, c.real('spike0', lo, hi), c.real('height0', 0, 1, hi_open=True))
        for what in c.choice('order', [('spike_location', 'spike_height'), ('spike_height', 'spike_location')]):
            setattr(p, what, s if what == 'spike_location' else h)
    else:
        p = bp.SlabSpikePrior(slab, s, h)
    return p, slab, s, h, lo, hi


for kind in ['scalar', 'array']:
    for history in [False, True]:
        @contract("P08", "SlabSpikePrior[%s%s]" % (kind, ', redefined spike' if history else ''),
                  floats=("bilby.core.prior.slabspike",))
        def _(c, kind=kind, history=history):
            p, slab, s, h, lo, hi = slabspike(c, history)
            below = slab.cdf(s) * (1 - h)
            u = c.unit('u') if kind == 'scalar' else c.array('u', 0, 1)
            v = c.real('x', lo, hi) if kind == 'scalar' else c.array('x', lo, hi)
            r, pr, ln, cd = p.rescale(u), p.prob(v), p.ln_prob(v), p.cdf(v)
            for i in range(1 if kind == 'scalar' or c.sym else len(u)):
                pick = (lambda x: x) if kind == 'scalar' else (lambda x: x.elem) if c.sym else (lambda x: x[i])
                U, X, R, P, L = pick(u), pick(v), pick(r), pick(pr), pick(ln)
                C = pick(cd) if kind == 'array' else np.atleast_1d(cd)[0]
                if bool(U < below):
                    c.ensure_eq('slab-below-spike', R, slab.quant(U / (1 - h)))
                elif bool(U <= below + h):
                    c.ensure_eq('spike-takes-its-mass', R, s)
                else:
                    c.ensure_eq('slab-above-spike', R, slab.quant((U - h) / (1 - h)))
                if bool(X == s):
                    c.ensure_eq('infinite-density-at-spike', [P, L], [INF, INF])
                else:
                    c.ensure_eq('slab-density', P, slab.dens(X) * (1 - h))
                    c.ensure_eq('slab-ln-density', L, np.log(slab.dens(X)) + np.log(1 - h))
                    c.ensure_eq('cdf', C, slab.cdf(X) * (1 - h) + (h if bool(X > s) else 0))


@contract("P08", "SlabSpikePrior[arguments]", floats=("bilby.core.prior.slabspike",))
def _(c):
    p, slab, s, h, lo, hi = slabspike(c)
    x = c.real('other')
    c.ensure('spike-inside-the-slab', c.raises(ValueError, lambda: setattr(p, 'spike_location', x)) ==
             (not bool(c.both(lo <= x, x <= hi))))
    c.ensure('height-is-a-fraction', c.raises(ValueError, lambda: setattr(p, 'spike_height', x)) ==
             (not bool(c.both(0 <= x, x <= 1))))


# ------------------------------------------------------------------------------------------------ discrete
@contract("P08", "Categorical", bound="1 to 40 categories")
def _(c):
    n = c.choice('n', list(range(1, 9)) + [18, 33, 40])
    p = bp.Categorical(n)
    tot = 0
    for k in range(n):
        c.ensure_eq('mass', p.prob(k), 1 / n)
        c.ensure_eq('mass-float', p.prob(float(k)), 1 / n)
        c.ensure_eq('ln-mass', p.ln_prob(k), -np.log(n))
    for k in (-1, n, 0.5, n - 0.5):
        c.ensure_eq('nothing-elsewhere', p.prob(k), 0)
        c.ensure_eq('nothing-elsewhere-ln', p.ln_prob(k), -INF)
    a = p.prob(np.array([-1.0, 0.0, n - 1.0, n]))
    c.ensure_eq('array', a, [0, 1 / n, 1 / n, 0])
    c.ensure_eq('array-ln', p.ln_prob(np.array([-1.0, 0.0, n])), [-INF, -np.log(n), -INF])
    u = c.real('u', 0, 1, hi_open=True)
    if not c.sym:
        c.assume(abs(u * n - round(float(u * n))) > 1e-9)
    else:
        # the category edges are shifted by the 1e-15 the prior adds to its maximum
        k = np.floor(u * n)
        c.assume(u * (n + 2e-15) < k + 1)
    r = p.rescale(u)
    c.ensure('category-k-has-mass-1/n', c.both(r <= u * n, u * n < r + 1))
    c.ensure('in-support', c.both(0 <= r, r <= n - 1))


@contract("P08", "DeltaFunction")
def _(c):
    x0 = c.real('peak')
    p = bp.DeltaFunction(x0)
    x = c.real('x')
    c.ensure_eq('rescale', p.rescale(c.unit('u')), x0)
    a = p.rescale(c.array('ua', 0, 1))
    c.ensure_eq('rescale-array', a, x0 + 0 * c.array('ua', 0, 1))
    at = bool(x == x0)
    if at:
        c.ensure('prob-at-the-peak', p.prob(x) > 1e300)
    else:
        c.ensure_eq('prob-elsewhere', p.prob(x), 0)
        c.ensure_eq('cdf', p.cdf(x), 1 if bool(x > x0) else 0)
    c.ensure('fixed', p.is_fixed)
    c.ensure_eq('range', [p.minimum, p.maximum], [x0, x0])


# ------------------------------------------------------------------------------------------------ tabulated
class Linear(object):
    """contract of scipy.interpolate.interp1d (linear, increasing table), for scalars and explicit arrays"""

    def __init__(self, x, y, bounds_error=None, fill_value=None):
        self.x, self.y, self.error, self.fill = x, y, bounds_error, fill_value

    def __call__(self, v):
        if isinstance(v, np.ndarray) and v.ndim:
            return np.array([self(a) for a in v])
        if isinstance(v, np.ndarray):
            v = v.item()
        f = self.fill if isinstance(self.fill, tuple) else (self.fill, self.fill)
        if v < self.x[0] or v > self.x[-1]:
            if self.error:
                raise ValueError("out of the table")
            return Value(f[0] if v < self.x[0] else f[1])
        for i in range(len(self.x) - 1):
            if v <= self.x[i + 1]:
                break
        t = (v - self.x[i]) / (self.x[i + 1] - self.x[i])
        return Value(self.y[i] * (1 - t) + self.y[i + 1] * t)


def Value(x):
    return x


def cumtrapz(y, x, initial=None):
    out = [initial]
    for i in range(len(y) - 1):
        out.append(out[-1] + (x[i + 1] - x[i]) * (y[i] + y[i + 1]) / 2)
    return np.array(out)


def table(c, n, positive=True):
    x0 = c.real('x0')
    d = c.pos('dx')
    xs = [x0 + d * i for i in range(n)]
    ys = [c.real('y%d' % i, 0, None, lo_open=True, scale=1.0) for i in range(n)]
    return xs, ys, d


HOW = ['full', 'narrowed', 'wider', 'setter', 'new table']


def interped(c, how=None):
    c.callee(ip, 'interp1d', Linear)
    c.callee(scipy.integrate, 'cumulative_trapezoid', cumtrapz)
    n = c.choice('n', [2, 3])
    xs, ys, d = table(c, n)
    how = how or c.choice('range', HOW)
    arr = lambda v: np.array(v, dtype=object if c.sym else float)
    lo, hi = xs[0], xs[-1]
    if how == 'full':
        p = bp.Interped(arr(xs), arr(ys))
    elif how == 'wider':
        p = bp.Interped(arr(xs), arr(ys), lo - c.pos('w0'), hi + c.pos('w1'))
    elif how == 'new table':
        p = bp.Interped(arr(xs), arr([c.pos('old%d' % i) for i in range(n)]))
        p.yy = arr(ys)
    else:
        lo = lo + d * c.real('cut0', 0, 0.45)
        hi = hi - d * c.real('cut1', 0, 0.45)
        if how == 'narrowed':
            p = bp.Interped(arr(xs), arr(ys), lo, hi)
        else:
            p = bp.Interped(arr(xs), arr(ys))
            p.minimum, p.maximum = lo, hi
    return p, xs, ys, lo, hi, n, how


def lin(xs, ys, v, n):
    """the given table at v (inside)"""
    for i in range(n - 1):
        if i == n - 2 or bool(v <= xs[i + 1]):
            return ys[i] + (ys[i + 1] - ys[i]) * (v - xs[i]) / (xs[i + 1] - xs[i])


for how_ in HOW:
    @contract("P08", "Interped[%s]" % how_, floats=("bilby.core.prior.interpolated",), bound="tables of 2 and 3 entries", max_paths=3000, budget=300)
    def _(c, how_=how_):
        p, xs, ys, lo, hi, n, how = interped(c, how_)
        c.ensure_eq('range', [p.minimum, p.maximum], [lo, hi])
        grid = [lo + (hi - lo) * i / (n - 1) for i in range(n)]
        t = [lin(xs, ys, g, n) for g in grid]
        h = (hi - lo) / (n - 1)
        norm = sum(h * (t[i] + t[i + 1]) / 2 for i in range(n - 1))
        k = c.choice('interval', list(range(n - 1)))
        f = c.unit('f', open=True)
        x = grid[k] + h * f
        pr = (t[k] * (1 - f) + t[k + 1] * f) / norm
        c.ensure_eq('density-is-the-normalised-table', p.prob(x), pr, rtol=1e-5)
        c.ensure_eq('ln-density', p.ln_prob(x), np.log(p.prob(x)), rtol=1e-5, atol=1e-6)
        Y = [sum(h * (t[i] + t[i + 1]) / 2 for i in range(j)) / norm for j in range(n)]
        c.ensure_eq('cdf', p.cdf(x), Y[k] * (1 - f) + Y[k + 1] * f)
        c.ensure_eq('rescale-inverts-cdf', p.rescale(p.cdf(x)), x, rtol=1e-5, atol=1e-6)
        c.ensure_eq('rescale-ends', [p.rescale(0.0), p.rescale(1.0)], [lo, hi])


@contract("P08", "Interped[outside]", floats=("bilby.core.prior.interpolated",), bound="tables of 2 and 3 entries", max_paths=3000)
def _(c):
    p, xs, ys, lo, hi, n, how = interped(c)
    w = c.pos('out')
    c.ensure_eq('no-density-outside', [p.prob(lo - w), p.prob(hi + w)], [0, 0])
    c.ensure_eq('cdf-outside', [p.cdf(lo - w), p.cdf(hi + w)], [0, 1])


@contract("P08", "Interped[limits]", floats=("bilby.core.prior.interpolated",), bound="tables of 2 and 3 entries")
def _(c):
    p, xs, ys, lo, hi, n, how = interped(c)
    w = c.pos('out')
    c.ensure('not-below-the-table', c.raises(ValueError, lambda: setattr(p, 'minimum', xs[0] - w)))
    c.ensure('not-above-the-table', c.raises(ValueError, lambda: setattr(p, 'maximum', xs[-1] + w)))


# ------------------------------------------------------------------------------------------------ multivariate Gaussian
NAMES = ['a', 'b']


class Frozen(object):
    """trusted contract of scipy.stats.multivariate_normal"""

    def __init__(self, mean, cov):
        self.mean, self.cov = mean, cov

    def logpdf(self, x):
        return lnnormal(x, self.mean, self.cov)


def eig(m):
    """contract of numpy.linalg.eig for a 2x2 correlation matrix"""
    r = m[0, 1]
    s = 2 ** -0.5
    return np.array([1 + r, 1 - r]), np.array([[s, -s], [s, s]])


class Stats(object):
    multivariate_normal = staticmethod(lambda mean, cov: Frozen(mean, cov))


def mvg(c, nmodes=1, bounds=None, form='covs'):
    c.callee(jp.scipy.stats, 'multivariate_normal', lambda mean, cov: Frozen(mean, cov))
    if c.sym:
        c.setattr(np.linalg, 'eig', eig)
        c.setattr(np.linalg, 'inv', lambda D: np.array([[1 / D[0, 0], 0], [0, 1 / D[1, 1]]], dtype=object))
        c.callee(np, 'allclose', lambda a, b, **k: True)
    modes = []
    for i in range(nmodes):
        s = [c.pos('s%d_%d' % (i, j)) for j in range(2)]
        rho = c.real('rho%d' % i, -0.95, 0.95)
        mu = [c.real('mu%d_%d' % (i, j)) for j in range(2)]
        modes.append((mu, s, rho))
    k = dict(mus=[m[0] for m in modes], bounds=bounds)
    dt = object if c.sym else float
    if form == 'covs':
        k['covs'] = [np.array([[s[0] * s[0], r * s[0] * s[1]], [r * s[0] * s[1], s[1] * s[1]]], dtype=dt) for _, s, r in modes]
    else:
        k['sigmas'] = [s for _, s, r in modes]
        k['corrcoefs'] = [np.array([[1.0, r], [r, 1.0]], dtype=dt) for _, s, r in modes]
    w = None
    if nmodes > 1:
        w = [c.pos('w%d' % i) for i in range(nmodes)]
        k['weights'] = w
    return bp.MultivariateGaussianDist(list(NAMES), nmodes=nmodes, **k), modes, w


def lnmode(x, m):
    mu, s, r = m
    a, b = (x[0] - mu[0]) / s[0], (x[1] - mu[1]) / s[1]
    return -(a * a - 2 * r * a * b + b * b) / (1 - r * r) / 2 - np.log(2 * np.pi) - np.log(s[0]) - np.log(s[1]) - \
        np.log(1 - r * r) / 2


@contract("P08", "MultivariateGaussianDist.ln_prob", bound="two dimensions")
def _(c):
    d, modes, w = mvg(c, 1, form=c.choice('form', ['covs', 'sigmas']))
    x = [c.real('x'), c.real('y')]
    c.ensure_eq('ln-density', d.ln_prob(x), lnmode(x, modes[0]))
    c.ensure_eq('again', d.ln_prob(x), lnmode(x, modes[0]))
    y = [c.real('x2'), c.real('y2')]
    r = d.ln_prob([x, y])
    c.ensure_eq('several-samples', [r[0], r[1]], [lnmode(x, modes[0]), lnmode(y, modes[0])])


@contract("P08", "MultivariateGaussianDist.prob[mixture]", bound="two dimensions, two modes")
def _(c):
    d, modes, w = mvg(c, 2, form='sigmas')
    x = [c.real('x'), c.real('y')]
    t = [np.log(w[i]) - np.log(w[0] + w[1]) + lnmode(x, modes[i]) for i in range(2)]
    c.ensure_eq('density-is-the-weighted-mixture', d.ln_prob(x), np.logaddexp(t[0], t[1]))


@contract("P08", "MultivariateGaussianDist.ln_prob[bounds]", bound="two dimensions, two samples")
def _(c):
    lo = [c.real('lo0'), c.real('lo1')]
    hi = [c.real('hi0', lo[0], open=True), c.real('hi1', lo[1], open=True)]
    d, modes, w = mvg(c, 1, bounds=[(lo[0], hi[0]), (lo[1], hi[1])], form='sigmas')
    xs = [[c.real('x0'), c.real('y0')], [c.real('x1'), c.real('y1')]]
    r = d.ln_prob(xs)
    for x, l in zip(xs, r):
        if bool(c.both(lo[0] <= x[0], x[0] <= hi[0], lo[1] <= x[1], x[1] <= hi[1])):
            c.ensure_eq('inside', l, lnmode(x, modes[0]))
        else:
            c.ensure_eq('outside', l, -INF)


@contract("P08", "MultivariateGaussianDist.rescale", bound="two dimensions")
def _(c):
    d, modes, w = mvg(c, 1, form=c.choice('form', ['covs', 'sigmas']))
    mu, s, r = modes[0]
    from scipy.special import erfinv
    u = [c.unit('u0', open=True), c.unit('u1', open=True)]
    x = d.rescale(u)
    z = [2 ** 0.5 * jp.erfinv(2 * v - 1) for v in u]
    a, b = (x[0] - mu[0]) / s[0], (x[1] - mu[1]) / s[1]
    # the map is affine in the normal deviates with M M^T = covariance, stated as: Mahalanobis distance is preserved
    c.ensure_eq('distance-of-normal-deviates', (a * a - 2 * r * a * b + b * b) / (1 - r * r), z[0] * z[0] + z[1] * z[1],
                rtol=1e-5)
    x0 = d.rescale([0.5, 0.5])
    c.ensure_eq('median-is-the-mean', [x0[0], x0[1]], mu)


@contract("P08", "JointPrior in PriorDict", bound="two joint keys and one other")
def _(c):
    f = [c.func('joint%d' % i, 2) for i in range(2)]
    L = c.func('lnp', 2)

    class Dist(bp.BaseJointPriorDist):
        def _rescale(self, samp, **k):
            return np.array([[g(u[0], u[1]) for g in f] for u in samp])

        def _ln_prob(self, samp, lnprob, outbounds):
            return np.array([L(u[0], u[1]) for u in samp])
    d = Dist(list(NAMES))
    e = bp.Uniform(0, 1, name='e')
    keys = c.choice('order', list(itertools.permutations(['a', 'b', 'e'])))
    cls = c.choice('class', [bp.PriorDict, bp.ConditionalPriorDict])
    p = cls({k: e if k == 'e' else bp.JointPrior(d, k) for k in keys})
    u = {k: c.unit('u_' + k) for k in keys}
    order = c.choice('rescaled order', list(itertools.permutations(['a', 'b', 'e'])))
    r = p.rescale(list(order), [u[k] for k in order])
    c.ensure_eq('length', len(r), 3)
    want = dict(a=f[0](u['a'], u['b']), b=f[1](u['a'], u['b']), e=u['e'])
    c.ensure_eq('every-key-has-its-own-value', r, [want[k] for k in order])
    r = p.rescale(list(order), [u[k] for k in order])
    c.ensure_eq('again', r, [want[k] for k in order])
    c.callee(p, 'normalize_constraint_factor', lambda keys, **k: 1)
    x = dict(a=c.real('xa'), b=c.real('xb'), e=c.unit('xe'))
    s = {k: x[k] for k in order}
    c.ensure_eq('joint-density-once', p.ln_prob(s), L(x['a'], x['b']))
    c.ensure_eq('joint-density-prob', p.prob(s), np.exp(L(x['a'], x['b'])))
    c.ensure_eq('joint-density-again', p.ln_prob(s), L(x['a'], x['b']))


# ------------------------------------------------------------------------------------------------ spin priors
@contract("P08", "ConditionalChiInPlane")
def _(c):
    top = c.real('maximum', 0, 1, lo_open=True)
    a = c.real('abs_chi_1', 0, top, open=True)
    chi = a * c.choice('sign', [1, -1])
    p = gp.ConditionalChiInPlane(0, top, name='chi_1_in_plane')
    k = dict(chi_1=chi)
    M = np.sqrt(top ** 2 - chi ** 2)
    x = c.real('x')
    inside = bool(c.both(x > 0, x < M))
    if inside:
        dens = x / (chi ** 2 + x ** 2) / np.log(top / abs(chi))
        c.ensure_eq('density', p.prob(x, **k), dens)
        c.ensure_eq('ln-density', p.ln_prob(x, **k), np.log(dens))
        c.lemma('cdf-below-one', np.log(1 + (x / abs(chi)) ** 2) <= 2 * np.log(top / abs(chi)))
        c.lemma('cdf-below-one', np.log(1 + (x / abs(chi)) ** 2) / 2 / np.log(top / abs(chi)) <= 1)
        c.ensure_eq('density-is-derivative-of-cdf', c.deriv(lambda v: p.cdf(v, **k), x), p.prob(x, **k))
        c.ensure_eq('rescale-inverts-cdf', p.rescale(p.cdf(x, **k), **k), x)
    elif bool(x < 0):
        c.ensure_eq('below', [p.prob(x, **k), p.cdf(x, **k)], [0, 0])
    elif bool(x > M):
        c.ensure_eq('above', [p.prob(x, **k), p.cdf(x, **k)], [0, 1])
    c.ensure_eq('ends', [p.rescale(0.0, **k), p.rescale(1.0, **k)], [0, M], atol=1e-7)


@contract("P08", "ConditionalChiUniformSpinMagnitude")
def _(c):
    top = c.real('maximum', 0, 1, lo_open=True)
    a = c.real('abs_chi_1', 0, top, open=True)
    chi = a * c.choice('sign', [1, -1])
    p = gp.ConditionalChiUniformSpinMagnitude(top / 2, top, name='a_1')
    k = dict(chi_1=chi)
    x = c.pos('x')
    if bool(c.both(x >= abs(chi), x <= top)):
        c.ensure_eq('density', p.prob(x, **k), 1 / x / np.log(top / abs(chi)))
    elif bool(c.either(x < abs(chi), x > top)):
        c.ensure_eq('outside', p.prob(x, **k), 0)
    u = c.unit('u')
    c.ensure_eq('rescale', p.rescale(u, **k), abs(chi) * (top / abs(chi)) ** u)


@contract("P08", "UniformInComponentsMassRatio", samples=60)
def _(c):
    lo = c.real('minimum', 0.05, 1, hi_open=True)
    hi = c.real('maximum', lo, 1, lo_open=True)
    if not c.sym:
        c.assume(hi - lo > 0.05)
    G = c.func('integral', 1)
    grid = []
    if c.sym:
        c.setattr(gp.UniformInComponentsMassRatio, '_integral', staticmethod(G))
        c.setattr(gp, 'WrappedInterp1d', lambda x, y, **k: grid.append((x, y, k)))
        c.setattr(gp.np, 'linspace', lambda a, b, n: c.array('q', a, b)) if False else None
        c.assume(G(hi) > G(lo))
    else:
        G = gp.UniformInComponentsMassRatio._integral
    if c.sym:
        c.callee(np, 'linspace', lambda a, b, num=50: c.array('grid', a, b))
    p = gp.UniformInComponentsMassRatio(lo, hi)
    x = c.real('x', 0, None, open=True)
    c.ensure_eq('cdf', p.cdf(x), (G(x) - G(lo)) / (G(hi) - G(lo)))
    c.ensure_eq('cdf-ends', [p.cdf(lo), p.cdf(hi)], [0, 1])
    if bool(c.both(lo <= x, x <= hi)):
        c.ensure_eq('density', p.prob(x), (1 + x) ** 0.4 / x ** 1.2 / (G(hi) - G(lo)))
        c.ensure_eq('ln-density', p.ln_prob(x), np.log((1 + x) ** 0.4 / x ** 1.2 / (G(hi) - G(lo))))
        if not c.sym:
            c.ensure_eq('rescale-inverts-cdf', p.rescale(p.cdf(x)), x, rtol=1e-4)
            c.ensure_eq('integral', c.deriv(G, x), (1 + x) ** 0.4 / x ** 1.2, rtol=1e-4)
    else:
        c.ensure_eq('outside', p.prob(x), 0)
