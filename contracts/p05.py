"""P05: the built-in likelihoods are the logarithm of the named density of the data given the model."""
import copy
import numpy as np
from scipy.special import gammaln, xlogy, logsumexp
from pydv.contract import contract
import bilby
import bilby.core.likelihood as lk


def data(c, pos=False):
    x = c.array('x')
    y = c.array('y', 0 if pos else None)
    return x, y


def model(c, positive=False, lo=None):
    f = c.func('f', 3, positive=positive, lo=lo)

    def func(x, a, b):
        return f(x, a, b)
    return func


def evaluate(c, like, names, label, spec):
    """two successive parameter points, then the first again: the value depends on the current parameters only"""
    p1 = {k: c.real(k + '1') for k in names}
    p2 = {k: c.real(k + '2') for k in names}
    for i, p in enumerate((p1, p2, p1)):
        like.parameters.update(p)
        before = dict(like.parameters)
        v = like.log_likelihood()
        c.ensure_eq('%s[%d]' % (label, i), v, spec(p), rtol=1e-6, atol=1e-6)
        c.ensure('parameters-unchanged', like.parameters.keys() == before.keys() and
                 all(like.parameters[k] is before[k] for k in before))


@contract("P05", "GaussianLikelihood[sigma scalar/array/parameter]")
def _(c):
    x, y = data(c)
    func = model(c)
    kind = c.choice('sigma', ['scalar', 'array', 'parameter'])
    names = ['a', 'b']
    sig = None
    if kind == 'scalar':
        sig = c.pos('sigma')
        sig = sig if c.sym else float(sig)
    elif kind == 'array':
        sig = c.array('sigma', 0, open=True)
    like = lk.GaussianLikelihood(x, y, func, sigma=sig)
    if kind == 'parameter':
        s = c.pos('s')
        like.parameters['sigma'] = s
        c.ensure('sigma-is-a-parameter', 'sigma' in like.parameters)
    else:
        s = sig
        c.ensure('sigma-is-not-a-parameter', 'sigma' not in like.parameters)

    def spec(p):
        m = func(x, p['a'], p['b'])
        return np.sum(np.log(np.exp(-((y - m) / s) ** 2 / 2) / np.sqrt(2 * np.pi * s * s))) if c.sym else \
            np.sum(-((y - m) / s) ** 2 / 2 - np.log(2 * np.pi * s * s) / 2)
    evaluate(c, like, names, 'lnL', spec)


@contract("P05", "GaussianLikelihood[fixed kwargs]")
def _(c):
    x, y = data(c)
    func = model(c)
    b = c.real('b')
    s = c.pos('sigma')
    s = s if c.sym else float(s)
    like = lk.GaussianLikelihood(x, y, func, sigma=s, b=b)
    c.ensure('kwargs-are-not-parameters', like.function_keys == ['a'])
    evaluate(c, like, ['a'], 'lnL', lambda p: np.sum(-((y - func(x, p['a'], b)) / s) ** 2 / 2 -
                                                     np.log(2 * np.pi * s * s) / 2))
    c.ensure_eq('residual', like.residual, y - func(x, like.parameters['a'], b))
    c.ensure('data-unchanged', like.x is x and like.y is y)


@contract("P05", "PoissonLikelihood")
def _(c):
    x = c.array('x')
    y = c.iarray('y', 0)
    func = model(c, positive=True)
    like = lk.PoissonLikelihood(x, y, func)

    def spec(p):
        r = func(x, p['a'], p['b'])
        return np.sum(xlogy_(c, y, r) - r - gammaln_(c, y + 1))
    evaluate(c, like, ['a', 'b'], 'lnL', spec)


def xlogy_(c, y, r):
    return y * np.log(r) if c.sym else xlogy(y, r)


def gammaln_(c, y):
    if not c.sym:
        return gammaln(y)
    import pydv.sym as S
    return y._map(S.s_gammaln) if hasattr(y, '_map') else S.s_gammaln(y)


@contract("P05", "ExponentialLikelihood")
def _(c):
    x, y = data(c, pos=True)
    func = model(c, positive=True)
    like = lk.ExponentialLikelihood(x, y, func)
    evaluate(c, like, ['a', 'b'], 'lnL', lambda p: np.sum(-y / func(x, p['a'], p['b']) -
                                                          np.log(func(x, p['a'], p['b']))))


@contract("P05", "StudentTLikelihood")
def _(c):
    x, y = data(c)
    func = model(c)
    s = c.pos('sigma')
    param = c.choice('nu', [False, True])
    nu = c.pos('nu')
    like = lk.StudentTLikelihood(x, y, func, nu=None if param else nu, sigma=s)
    c.ensure('nu-parameter-iff-not-given', ('nu' in like.parameters) == param)
    if param:
        like.parameters['nu'] = nu

    def spec(p):
        t = (y - func(x, p['a'], p['b'])) / s
        return np.sum(gammaln_(c, (nu + 1) / 2) - gammaln_(c, nu / 2) - np.log(nu * np.pi) / 2 - np.log(s) -
                      (nu + 1) / 2 * np.log(1 + t ** 2 / nu) + 0 * y)
    evaluate(c, like, ['a', 'b'], 'lnL', spec)


@contract("P05", "StudentTLikelihood[invalid nu]")
def _(c):
    x, y = data(c)
    nu = c.real('nu', None, 0)
    like = lk.StudentTLikelihood(x, y, model(c), nu=nu)
    like.parameters.update(a=c.real('a'), b=c.real('b'))
    c.ensure('raises-for-nonpositive-nu', c.raises(ValueError, like.log_likelihood))


@contract("P05", "Multinomial", bound="3 categories, non-negative counts")
def _(c):
    d = [c.integer('n%d' % i, 0) for i in range(3)]
    p0 = c.real('p0', 0, 1, open=True)
    p1 = c.real('p1', 0, 1, open=True)
    c.assume(p0 + p1 < 1)
    like = lk.Multinomial(data=d, n_dimensions=3, base="p")
    like.parameters.update(p0=p0, p1=p1)
    tot = d[0] + d[1] + d[2]

    def lnp(ps):
        return gammaln_(c, tot + 1) + sum(k * np.log(p) - gammaln_(c, k + 1) for k, p in zip(d, ps))
    c.ensure_eq('lnL', like.log_likelihood(), lnp([p0, p1, 1 - p0 - p1]))
    c.ensure_eq('noise-lnL', like.noise_log_likelihood(), lnp([1 / 3] * 3))
    c.ensure_eq('noise-lnL-again', like.noise_log_likelihood(), lnp([1 / 3] * 3))
    c.ensure_eq('ratio', like.log_likelihood_ratio(), like.log_likelihood() - like.noise_log_likelihood())


class NormalStub(object):
    """trusted contract of scipy.stats.multivariate_normal (dimension 1 and 2)"""

    def __init__(self, mean, cov):
        self.mean, self.cov = mean, cov

    def logpdf(self, x):
        return lnnormal(x, self.mean, self.cov)


def lnnormal(x, m, s):
    if len(m) == 1:
        return -(x[0] - m[0]) ** 2 / s[0, 0] / 2 - np.log(2 * np.pi * s[0, 0]) / 2
    d0, d1 = x[0] - m[0], x[1] - m[1]
    det = s[0, 0] * s[1, 1] - s[0, 1] * s[1, 0]
    return -(d0 * d0 * s[1, 1] - d0 * d1 * (s[0, 1] + s[1, 0]) + d1 * d1 * s[0, 0]) / det / 2 - \
        np.log(2 * np.pi) - np.log(det) / 2


def gauss(c, dim):
    s0, s1 = c.pos('s0'), c.pos('s1')
    rho = c.real('rho', -0.95, 0.95)
    if dim == 1:
        cov = [[s0 * s0]]
    else:
        cov = [[s0 * s0, rho * s0 * s1], [rho * s0 * s1, s1 * s1]]
    return cov


@contract("P05", "AnalyticalMultidimensionalCovariantGaussian", bound="dimensions 1 and 2")
def _(c):
    dim = c.choice('dim', [1, 2])
    c.callee(lk, 'multivariate_normal', NormalStub)
    cov = gauss(c, dim)
    mean = [c.real('m%d' % i) for i in range(dim)]
    like = lk.AnalyticalMultidimensionalCovariantGaussian(mean, cov)
    c.ensure('parameter-names', set(like.parameters) == {'x%d' % i for i in range(dim)})
    cv = np.array(cov, dtype=object if c.sym else float)
    evaluate(c, like, ['x%d' % i for i in range(dim)], 'lnL',
             lambda p: lnnormal([p['x%d' % i] for i in range(dim)], mean, cv))


@contract("P05", "AnalyticalMultidimensionalBimodalCovariantGaussian", bound="dimensions 1 and 2")
def _(c):
    dim = c.choice('dim', [1, 2])
    N = c.func('lnN', 2 * dim + dim * dim) if c.sym else None

    class Opaque(object):
        """scipy's frozen normal as an uninterpreted function of (x, mean, cov)"""

        def __init__(self, mean, cov):
            self.args = list(mean) + [cov[i, j] for i in range(dim) for j in range(dim)]

        def logpdf(self, x):
            return N(*(list(x) + self.args))
    c.callee(lk, 'multivariate_normal', Opaque)
    cov = gauss(c, dim)
    m1 = [c.real('m%d' % i) for i in range(dim)]
    m2 = [c.real('k%d' % i) for i in range(dim)]
    like = lk.AnalyticalMultidimensionalBimodalCovariantGaussian(m1, m2, cov)
    cv = np.array(cov, dtype=object if c.sym else float)

    def logpdf(x, m):
        return Opaque(m, cv).logpdf(x) if c.sym else lnnormal(x, m, cv)

    def spec(p):
        x = [p['x%d' % i] for i in range(dim)]
        return np.log((np.exp(logpdf(x, m1)) + np.exp(logpdf(x, m2))) / 2) if c.sym else \
            np.logaddexp(logpdf(x, m1), logpdf(x, m2)) - np.log(2)
    names = ['x%d' % i for i in range(dim)]
    evaluate(c, like, names, 'lnL', spec)


class Part(bilby.Likelihood):
    def __init__(self, names, f, g):
        super().__init__(parameters={k: None for k in names})
        self.f, self.g, self.names = f, g, names

    def __deepcopy__(self, memo):
        return Part(self.names, self.f, self.g)

    def log_likelihood(self):
        return self.f(*[self.parameters[k] for k in self.names])

    def noise_log_likelihood(self):
        return self.g


@contract("P05", "JointLikelihood", bound="three likelihoods sharing parameters")
def _(c):
    f1, f2, f3 = c.func('f1', 2), c.func('f2', 2), c.func('f3', 1)
    n = [c.real('noise%d' % i) for i in range(3)]
    parts = [Part(['a', 'b'], f1, n[0]), Part(['b', 'c'], f2, n[1]), Part(['d'], f3, n[2])]
    k = c.choice('parts', [1, 2, 3])
    like = lk.JointLikelihood(*parts[:k])
    names = sorted({x for q in parts[:k] for x in q.names})
    c.ensure('parameters-are-the-union', sorted(like.parameters) == names)
    for i in (0, 1):
        p = {x: c.real(x + str(i)) for x in names}
        like.parameters.update(p)
        want = [lambda: f1(p['a'], p['b']), lambda: f2(p['b'], p['c']), lambda: f3(p['d'])]
        tot = sum(want[j]() for j in range(k))
        noise = sum(n[:k])
        c.ensure_eq('lnL-is-the-sum', like.log_likelihood(), tot)
        c.ensure_eq('noise-lnL-is-the-sum', like.noise_log_likelihood(), noise)
        c.ensure_eq('ratio-is-the-difference', like.log_likelihood_ratio(), tot - noise)
        for j, part in enumerate(like.likelihoods):
            c.ensure('every-part-sees-the-parameters', all(part.parameters[x] is p[x] for x in part.names))
    for j in range(k):
        c.ensure('given-likelihoods-untouched', all(v is None for v in parts[j].parameters.values()))


@contract("P05", "ZeroLikelihood")
def _(c):
    f1 = c.func('f1', 2)
    z = lk.ZeroLikelihood(Part(['a', 'b'], f1, c.real('noise')))
    z.parameters.update(a=c.real('a'), b=c.real('b'))
    c.ensure_eq('lnL-zero', z.log_likelihood(), 0)
    c.ensure_eq('noise-zero', z.noise_log_likelihood(), 0)
    c.ensure_eq('ratio-zero', z.log_likelihood_ratio(), 0)
