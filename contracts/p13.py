"""P13: samplers evaluate and report every parameter under its own name."""
import itertools
import types
import numpy as np
from pydv.contract import contract
import bilby
import bilby.core.prior as bp
import bilby.core.prior.dict as pd
import bilby.core.sampler.base_sampler as bs
import bilby.core.sampler.dynesty as sd
import bilby.core.sampler.emcee as se
import bilby.core.sampler.kombine as sk
import bilby.core.sampler.zeus as sz
import bilby.core.sampler.ptemcee as sp
import bilby.core.sampler.nestle as sn
import bilby.core.sampler.ultranest as su
import bilby.core.sampler.fake_sampler as sf
import bilby.core.utils.random as brandom
from contracts.p10 import obj, INF

ORDERS = [o for o in itertools.permutations(['a', 'b', 'fixed', 'limit']) if o.index('fixed') != 3]
FEW = [ORDERS[i] for i in (0, 3, 7, 11, 14, 17)]
LOWEST = np.nan_to_num(-np.inf)


class Like(bilby.Likelihood):
    def __init__(self, c):
        super().__init__(parameters=dict())
        self.F, self.N, self.calls = c.func('logl', 3), c.real('noise'), []

    def log_likelihood(self):
        p = self.parameters
        self.calls.append(dict(p))
        return self.F(p['a'], p['b'], p['fixed'])

    def noise_log_likelihood(self):
        return self.N


class Flat(bp.Prior):
    """a prior with arbitrary rescale and density"""

    def __init__(self, c, name, **k):
        super().__init__(name=name, **k)
        self.R, self.P = c.func('rescale_' + name, 1), c.func('logp_' + name, 1)

    def rescale(self, u):
        return self.R(u)

    def ln_prob(self, v):
        return self.P(v)

    def prob(self, v):
        return np.exp(self.P(v))


def setup(c, orders=FEW, cls=bs.Sampler, ratio=None):
    """sampler with two search parameters, one fixed and one constraint, in any order"""
    order = c.choice('order', orders)
    lo, hi, peak = c.real('lo'), c.real('hi'), c.real('peak')
    c.assume(lo < hi)
    items = dict(a=Flat(c, 'a'), b=Flat(c, 'b'), fixed=bp.DeltaFunction(peak, name='fixed'), limit=bp.Constraint(lo, hi, name='limit'))
    g = c.func('g', 2)

    def convert(s):
        s = dict(s)
        s['limit'] = g(s['a'], s['b'])
        return s
    p = bp.PriorDict({k: items[k] for k in order}, conversion_function=convert)
    norm = c.pos('normalisation')
    c.setattr(pd.PriorDict, 'normalize_constraint_factor', lambda self, *a, **k: norm)
    s = object.__new__(cls)
    s.likelihood, s.priors = Like(c), p
    s.use_ratio = c.choice('ratio', [False, True]) if ratio is None else ratio
    s.likelihood_benchmark, s._npool = False, 1
    s._search_parameter_keys, s._fixed_parameter_keys, s._constraint_parameter_keys = [], [], []
    s._initialise_parameters()
    s.search = [k for k in order if k in 'ab']
    s.lo, s.hi, s.peak, s.g, s.norm = lo, hi, peak, g, norm
    s.expected = lambda v: s.likelihood.F(v['a'], v['b'], peak) - (s.likelihood.N if s.use_ratio else 0)
    return s


def theta_of(c, s):
    v = dict(a=c.real('va'), b=c.real('vb'))
    return v, obj(c, [v[k] for k in s.search])


def inside(c, s, v):
    z = s.g(v['a'], v['b'])
    return c.both(s.lo < z, z < s.hi)


@contract("P13", "parameter classes")
def _(c):
    s = setup(c, ORDERS)
    c.ensure('search', s.search_parameter_keys == s.search and s.ndim == 2)
    c.ensure('fixed', s.fixed_parameter_keys == ['fixed'])
    c.ensure('constraint', s.constraint_parameter_keys == ['limit'])
    c.ensure_eq('fixed-value', s.likelihood.parameters['fixed'], s.peak)
    c.ensure('only-fixed-set', set(s.likelihood.parameters) == {'fixed'})


@contract("P13", "prior transform")
def _(c):
    s = setup(c, ORDERS, ratio=False)
    u = dict(a=c.unit('ua'), b=c.unit('ub'))
    x = s.prior_transform(obj(c, [u[k] for k in s.search]))
    c.ensure_eq('rescale-of-the-same-key', list(x), [s.priors[k].R(u[k]) for k in s.search])
    bs._initialize_global_variables(s.likelihood, s.priors, s.search_parameter_keys, s.use_ratio)
    x = sd._prior_transform_wrapper(obj(c, [u[k] for k in s.search]))
    c.ensure_eq('dynesty', list(x), [s.priors[k].R(u[k]) for k in s.search])


@contract("P13", "log prior")
def _(c):
    s = setup(c, ratio=False)
    v, theta = theta_of(c, s)
    ok = inside(c, s, v)
    c.split(ok)
    want = s.priors['a'].P(v['a']) + s.priors['b'].P(v['b'])
    ev = sp.LikePriorEvaluator()
    bs._initialize_global_variables(s.likelihood, s.priors, s.search_parameter_keys, s.use_ratio)
    for n, f in (('sampler', s.log_prior), ('evaluator', ev.logp)):
        got = f(theta)
        if bool(ok):
            c.ensure_eq(n + ':sum-of-log-densities', got, want + np.log(s.norm))
        else:
            c.ensure_eq(n + ':excluded', got, -INF)


@contract("P13", "log likelihood")
def _(c):
    s = setup(c)
    v, theta = theta_of(c, s)
    got = s.log_likelihood(theta)
    c.ensure_eq('value', got, s.expected(v))
    c.ensure('one-evaluation', len(s.likelihood.calls) == 1)
    w = dict(a=c.real('wa'), b=c.real('wb'))
    s.log_likelihood(obj(c, [w[k] for k in s.search]))
    c.ensure_eq('independent-of-earlier-calls', s.log_likelihood(theta), s.expected(v))


for cls_ in [bs.NestedSampler, su.Ultranest]:
    @contract("P13", "nested log likelihood[%s]" % cls_.__name__)
    def _(c, cls=cls_):
        s = setup(c, cls=cls)
        v, theta = theta_of(c, s)
        ok = inside(c, s, v)
        c.split(ok)
        got = s.log_likelihood(theta)
        if bool(ok):
            c.ensure_eq('value', got, s.expected(v))
        else:
            c.ensure_eq('lowest-value', got, LOWEST)
            c.ensure('not-evaluated', len(s.likelihood.calls) == 0)


@contract("P13", "pool log likelihood")
def _(c):
    s = setup(c)
    v, theta = theta_of(c, s)
    ok = inside(c, s, v)
    c.split(ok)
    bs._initialize_global_variables(s.likelihood, s.priors, s.search_parameter_keys, s.use_ratio)
    got, got2 = sd._log_likelihood_wrapper(theta), sp.LikePriorEvaluator().logl(theta)
    if bool(ok):
        c.ensure_eq('dynesty', got, s.expected(v))
        c.ensure_eq('evaluator', got2, s.expected(v))
    else:
        c.ensure_eq('dynesty-lowest', got, LOWEST)
        c.ensure_eq('evaluator-lowest', got2, LOWEST)


@contract("P13", "posterior evaluator")
def _(c):
    """likelihood and prior of one point; excluded points have no posterior and never reach the likelihood"""
    s = setup(c)
    v, theta = theta_of(c, s)
    ok = inside(c, s, v)
    c.split(ok)
    bs._initialize_global_variables(s.likelihood, s.priors, s.search_parameter_keys, s.use_ratio)
    ev = sp.LikePriorEvaluator()
    ll, lp = ev(theta)
    post, blob = ev.call_emcee(theta)
    if bool(ok):
        want = s.priors['a'].P(v['a']) + s.priors['b'].P(v['b']) + np.log(s.norm)
        c.ensure_eq('pair', [ll, lp], [s.expected(v), want])
        c.ensure_eq('posterior', post, s.expected(v) + want)
        c.ensure_eq('blobs', blob, [s.expected(v), want])
    else:
        c.ensure_eq('excluded', [lp, post, blob[1]], [-INF] * 3)
        c.ensure('not-evaluated', len(s.likelihood.calls) == 0)


@contract("P13", "bad values")
def _(c):
    v = c.choice('value', [INF, -INF, float('nan'), LOWEST, -LOWEST, 'finite'])
    x = c.real('x', -1e300, 1e300) if v == 'finite' else v
    got = bs.Sampler._check_bad_value(val=x, warning=False, theta=None, label='x')
    c.ensure('finite-only', bool(got) == (v == 'finite'))


class Draws(object):
    def __init__(self, c):
        self.c, self.n, self.log = c, 0, []

    def uniform(self, lo=0, hi=1, size=None):
        self.n += 1
        n = 1 if size is None else int(size)
        u = [self.c.unit('draw%d_%d' % (self.n, i)) for i in range(n)]
        u = [lo + (hi - lo) * x for x in u]
        self.log.append(u)
        return u[0] if size is None else obj(self.c, u)


@contract("P13", "initial points", bound="two points, up to two rejected draws", samples=60)
def _(c):
    """every returned point is a finite one: its unit cube coordinates, parameters and likelihood belong together"""
    s = setup(c, FEW[:3], cls=bs.NestedSampler)
    d = Draws(c)
    c.setattr(brandom, 'rng', d)
    bad = c.choice('rejected draws', [(), (0,), (1,), (0, 1), (2,), (0, 2)])
    k = [0]
    seen = []

    def check(theta, warning=True):
        seen.append(list(theta))
        k[0] += 1
        return k[0] - 1 not in bad
    c.setattr(s, 'check_draw', check)
    unit, par, ll = s.get_initial_points_from_prior(2)
    good = [i for i in range(k[0]) if i not in bad]
    c.ensure('number', len(good) == 2 and len(unit) == 2 and len(par) == 2 and len(ll) == 2)
    for j, i in enumerate(good):
        u = dict(zip(s.search, d.log[i]))
        v = {x: s.priors[x].R(u[x]) for x in 'ab'}
        c.ensure_eq('unit', list(unit[j]), d.log[i])
        c.ensure_eq('parameters', list(par[j]), [v[x] for x in s.search])
        c.ensure_eq('parameters-checked', seen[i], [v[x] for x in s.search])
        ok = inside(c, s, v)
        c.split(ok)
        c.ensure_eq('likelihood', ll[j], s.expected(v) if bool(ok) else LOWEST)


@contract("P13", "check draw")
def _(c):
    s = setup(c, FEW[:2], ratio=False)
    v, theta = theta_of(c, s)
    lp, ll = [c.choice(n, ['finite', INF, -INF, float('nan')]) for n in ('prior', 'likelihood')]
    fin = [c.real('p', -1e9, 1e9), c.real('l', -1e9, 1e9)]
    got = []
    c.setattr(s, 'log_prior', lambda t: got.append(t) or (fin[0] if lp == 'finite' else lp))
    c.setattr(s, 'log_likelihood', lambda t: got.append(t) or (fin[1] if ll == 'finite' else ll))
    c.ensure('both-finite', bool(s.check_draw(theta, warning=False)) == (lp == 'finite' and ll == 'finite'))
    c.ensure('of-the-draw', len(got) == 2 and all(t is theta for t in got))


@contract("P13", "random draw")
def _(c):
    s = setup(c, FEW, ratio=False)
    v = dict(a=c.real('va'), b=c.real('vb'), fixed=s.peak)
    c.setattr(s.priors, 'sample', lambda: {k: v[k] for k in ('b', 'fixed', 'a')})
    c.setattr(s, 'check_draw', lambda t: True)
    c.ensure_eq('in-search-order', list(s.get_random_draw_from_prior()), [v[k] for k in s.search])


# ------------------------------------------------------------------------------------------------ results
def nd(c, x):
    """array of nested lists of reals"""
    if not c.sym:
        return np.array(x, dtype=float)
    from pydv.sym import as_nd
    shape, y = [], x
    while isinstance(y, list):
        shape.append(len(y))
        y = y[0]
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        y = x
        for j in i:
            y = y[j]
        out[i] = y
    return as_nd(out)


class Namespace(types.SimpleNamespace):
    pass


def result():
    return Namespace(meta_data=dict(), max_autocorrelation_time=None, sampler_kwargs=dict())


def point(c, name, nd=2):
    return [c.real('%s_%d' % (name, k)) for k in range(nd)]


def rows(c, label, samples, columns, functions):
    """row i of every column is the function of row i of the samples"""
    samples = np.asarray(samples)
    for (n, col), f in zip(columns.items(), functions):
        col = np.asarray(col).reshape(-1)
        c.ensure('%s:%s-length' % (label, n), len(col) == len(samples))
        c.ensure_eq('%s:%s' % (label, n), list(col), [f(*r) for r in samples])


W, T = 3, 4


def ensemble(c, axes):
    """chain and blobs of an ensemble sampler with the given axis order (assumed contract of the dependency)"""
    L, P = c.func('L', 2), c.func('P', 2)
    chain = [[point(c, 'x%d_%d' % (t, w)) for w in range(W)] for t in range(T)]
    blobs = [[[L(*chain[t][w]), P(*chain[t][w])] for w in range(W)] for t in range(T)]
    chain, blobs = nd(c, chain), nd(c, blobs)
    s = Namespace(chain=chain.swapaxes(0, 1) if axes == 'walkers first' else chain, blobs=blobs, sample=lambda **k: iter(()), pool=None)
    s.table = chain
    return s, L, P


for cls_ in [se.Emcee, sk.Kombine, sz.Zeus]:
    @contract("P13", "result rows[%s]" % cls_.__name__, bound="%d walkers, %d steps, every burn-in" % (W, T), samples=40)
    def _(c, cls=cls_):
        e, L, P = ensemble(c, 'walkers first' if cls is se.Emcee else 'steps first')
        nburn = c.choice('nburn', list(range(T)))

        def flat(x, discard):
            return x[discard:].reshape((-1, 2))
        e.get_chain = lambda flat=True, discard=0: e.table[discard:].reshape((-1, 2))
        e.get_blobs = lambda flat=True, discard=0: e.blobs[discard:].reshape((-1, 2))
        s = object.__new__(cls)
        s._kwargs = dict(iterations=T, nwalkers=W)
        s._search_parameter_keys = ['a', 'b']
        s._sampler, s.pos0, s.verbose, s.autoburnin = e, None, False, False
        s.likelihood_benchmark, s.prerelease = False, True
        s.result = result()
        s._Emcee__nburn = nburn
        for n in ('_setup_pool', '_close_pool', 'write_current_state', 'print_nburn_logging_info', 'calc_likelihood_count'):
            c.setattr(cls, n, lambda self: None)
        c.setattr(cls, 'calculate_autocorrelation', lambda self, x: None)
        c.setattr(cls, '_previous_iterations', T)
        c.setattr(cls, 'sampler_function_kwargs', property(lambda self: dict(iterations=T)))
        r = s.run_sampler()
        c.ensure('number-of-samples', np.shape(r.samples) == (W * (T - nburn), 2))
        rows(c, 'rows', r.samples, dict(likelihood=r.log_likelihood_evaluations, prior=r.log_prior_evaluations), (L, P))
        if cls is not sz.Zeus:
            c.ensure_eq('walkers', list(np.asarray(r.walkers).reshape(-1)), list(np.asarray(e.table.swapaxes(0, 1)).reshape(-1)))
        h = c.func('h', 2)       # equal sums of an arbitrary function: the same points
        c.ensure_eq('exactly-the-points-after-burn-in', sum(h(*x) for x in np.asarray(r.samples)),
                    sum(h(*e.table[t][w]) for t in range(nburn, T) for w in range(W)))


N = 3


class Out(dict):
    __getattr__ = dict.__getitem__


def nested_out(c):
    L = c.func('L', 2)
    x = [point(c, 'x%d' % i) for i in range(N)]
    w = [c.real('lw%d' % i) for i in range(N)]
    return L, x, w


@contract("P13", "result rows[Dynesty]", bound="three nested samples", floats=("bilby.core.sampler.dynesty",), samples=40)
def _(c):
    import scipy.special
    L, x, w = nested_out(c)
    rej = c.choice('rejection', [True, False])
    z = c.real('logz')
    out = Out(logwt=obj(c, w), logz=obj(c, [c.real('z0'), z]), samples=nd(c, x), logl=obj(c, [L(*r) for r in x]),
              logzerr=obj(c, [0.5, c.pos('err')]), information=obj(c, [0., c.real('info')]))
    s = object.__new__(sd.Dynesty)
    s._search_parameter_keys, s.result, s._kwargs = ['a', 'b'], result(), dict()
    s.rejection_sample_posterior, s.sampler = rej, Namespace(ncall=7)
    s.sampling_time = __import__('datetime').timedelta(days=2, seconds=5)
    d = Draws(c)
    c.setattr(brandom, 'rng', d)
    pick = c.choice('resampled', [(0, 1, 2), (2, 0, 0), (1, 1, 1), (2, 1, 0)]) if not rej else None
    import dynesty.utils
    c.setattr(dynesty.utils, 'resample_equal', lambda a, ww, **k: a[list(pick)])
    c.setattr(scipy.special, 'logsumexp', lambda v: 0.)       # the effective sample size is not part of this property
    if not rej:       # resample_equal returns rows of its input; equality of rows decides which
        for i, j in itertools.combinations(range(N), 2):
            c.assume(x[i][0] + 1e-3 < x[j][0])
    s._generate_result(out)
    r = s.result
    ns = r.nested_samples
    c.ensure_eq('nested-samples', [list(ns[k]) for k in 'ab'], [[row[i] for row in x] for i in range(2)])
    c.ensure_eq('nested-weights', list(ns['weights']), [np.exp(v - z) for v in w])
    c.ensure_eq('nested-likelihoods', list(ns['log_likelihood']), [L(*row) for row in x])
    rows(c, 'posterior', r.samples, dict(likelihood=r.log_likelihood_evaluations), (L,))
    if rej:
        u = d.log[-1]
        m = [np.exp(v - z) for v in w]
        kept = [i for i in range(N) if bool(m[i] > u[i])]
        c.ensure_eq('kept', list(np.asarray(r.samples).reshape(-1)), [v for i in kept for v in x[i]])
        top = [i for i in range(N) if all(bool(m[i] >= m[j]) for j in range(N))][0]
        c.ensure_le('acceptance-relative-to-the-largest-weight', u[top], m[top])
    c.ensure_eq('evidence', [r.log_evidence, r.log_evidence_err, r.information_gain], [z, out.logzerr[-1], out.information[-1]])
    c.ensure_eq('sampling-time', r.meta_data['run_statistics']['sampling_time_s'], s.sampling_time.total_seconds())


@contract("P13", "likelihood reordering", bound="up to four samples in every order and with repetitions")
def _(c):
    n = 4
    x = [[c.real('x%d' % i), c.real('y%d' % i)] for i in range(n)]
    apart = c.choice('differ in', ['x', 'y'])
    for i, j in itertools.combinations(range(n), 2):
        if apart == 'x':
            c.assume(x[i][0] + 1e-3 < x[j][0])
        else:
            c.assume(x[i][1] + 1e-3 < x[j][1])
    if apart == 'y':
        x = [[x[0][0], r[1]] for r in x]
    ll = [c.real('l%d' % i) for i in range(n)]
    pick = c.choice('pick', list(itertools.permutations(range(n)))[::1 if apart == 'x' else 5] + [(0, 0, 1, 1), (3, 3, 3, 3), (1, 0, 1, 2)])
    unsorted = nd(c, x)
    got = bs.NestedSampler.reorder_loglikelihoods(unsorted_loglikelihoods=obj(c, ll), unsorted_samples=unsorted,
                                                  sorted_samples=nd(c, [x[i] for i in pick]))
    c.ensure_eq('likelihood-of-the-sample', list(got), [ll[i] for i in pick])


@contract("P13", "result rows[Nestle]", bound="three nested samples")
def _(c):
    import nestle
    L, x, w = nested_out(c)
    for i, j in itertools.combinations(range(N), 2):
        c.assume(x[i][0] + 1e-3 < x[j][0])
    pick = c.choice('resampled', [(0, 1, 2), (2, 0, 0), (1, 1, 1), (2, 1, 0)])
    out = Namespace(samples=nd(c, x), weights=obj(c, w), logl=obj(c, [L(*r) for r in x]), logz=c.real('z'), logzerr=1., h=2.)
    c.setattr(nestle, 'sample', lambda **k: out)
    c.setattr(nestle, 'resample_equal', lambda a, ww: a[list(pick)])
    s = object.__new__(sn.Nestle)
    s._search_parameter_keys, s.result, s._kwargs, s.likelihood_benchmark = ['a', 'b'], result(), dict(), False
    r = s.run_sampler()
    rows(c, 'posterior', r.samples, dict(likelihood=r.log_likelihood_evaluations), (L,))
    ns = r.nested_samples
    rows(c, 'nested', [list(v) for v in zip(ns['a'], ns['b'])], dict(likelihood=ns['log_likelihood']), (L,))
    c.ensure_eq('weights', list(ns['weights']), w)
    c.ensure_eq('evidence', r.log_evidence, out.logz)


@contract("P13", "result rows[Ultranest]", bound="three nested samples", samples=40)
def _(c):
    L, x, w = nested_out(c)
    w = [c.pos('w%d' % i) for i in range(N)]
    d = Draws(c)
    c.setattr(brandom, 'rng', d)
    out = dict(weighted_samples=dict(points=nd(c, x), weights=obj(c, w), logl=obj(c, [L(*r) for r in x])), logz=c.real('z'), logzerr=1.)
    s = object.__new__(su.Ultranest)
    s._search_parameter_keys, s.result, s._kwargs = ['a', 'b'], result(), dict(num_live_points=None)
    s.total_sampling_time, s._outputfiles_basename = 1., ''
    s._generate_result(out)
    r = s.result
    rows(c, 'posterior', np.asarray(r.samples).reshape((-1, 2)), dict(likelihood=r.log_likelihood_evaluations), (L,))
    ns = r.nested_samples
    rows(c, 'nested', [list(v) for v in zip(ns['a'], ns['b'])], dict(likelihood=ns['log_likelihood']), (L,))
    c.ensure_eq('weights', list(ns['weights']), w)
    big = [i for i in range(N) if all(bool(w[i] >= w[j]) for j in range(N))][0]
    kept = [i for i in range(N) if bool(d.log[0][i] < w[i] / w[big])]
    c.ensure_eq('kept', list(np.asarray(r.samples).reshape(-1)), [v for i in kept for v in x[i]])


@contract("P13", "boundaries", bound="two parameters")
def _(c):
    """periodic and reflective parameters are announced to the sampler at the position they have in theta"""
    order = c.choice('order', FEW)
    kind = {k: c.choice('boundary ' + k, [None, 'periodic', 'reflective']) for k in 'ab'}
    items = dict(a=bp.Uniform(0, 1, name='a', boundary=kind['a']), b=bp.Uniform(0, 1, name='b', boundary=kind['b']),
                 fixed=bp.DeltaFunction(1.), limit=bp.Constraint(0, 1))
    keys = [k for k in order if k in 'ab']
    s = object.__new__(sd.Dynesty)
    s.priors, s._search_parameter_keys, s._kwargs = bp.PriorDict({k: items[k] for k in order}), keys, dict(wrapped_params=None)
    for n in ('periodic', 'reflective'):
        s._apply_dynesty_boundaries(n)
        want = [i for i, k in enumerate(keys) if kind[k] == n]
        c.ensure(n, s.kwargs[n] == (want or None))
    su.Ultranest._apply_ultranest_boundaries(s)
    c.ensure('ultranest', s.kwargs['wrapped_params'] == [int(kind[k] == 'periodic') for k in keys])
    from bilby.core.sampler.pymultinest import Pymultinest
    s.kwargs['wrapped_params'] = None
    Pymultinest._apply_multinest_boundaries(s)
    c.ensure('multinest', s.kwargs['wrapped_params'] == [int(kind[k] == 'periodic') for k in keys])


@contract("P13", "result rows[Ptemcee]", bound="2 temperatures, 3 walkers, up to 4 checks, every burn-in and thinning", samples=40)
def _(c):
    nt, nw = 2, 3
    steps = c.choice('steps', [2, 4])
    L, P = c.func('L', 2), c.func('P', 2)
    periodic = c.choice('periodic', [[False, False], [False, True]])
    mini, rng_ = c.real('min'), c.pos('range')
    pts = [[[point(c, 'x%d_%d_%d' % (i, t, w)) for w in range(nw)] for t in range(nt)] for i in range(steps)]
    count = [0]

    def wrapped(r):
        return [r[0], (r[1] - mini) % rng_ + mini] if periodic[1] else r

    class PT(object):
        pool, betas = None, [1., 0.5]
        chain = None

        def sample(self, pos0, **k):
            i = count[0]
            count[0] += 1
            ll = [[L(*wrapped(r)) for r in pts[i][t]] for t in range(nt)]
            lp = [[P(*wrapped(r)) for r in pts[i][t]] for t in range(nt)]
            yield nd(c, pts[i]), nd(c, lp), nd(c, ll)
    s = object.__new__(sp.Ptemcee)
    s._search_parameter_keys, s._kwargs, s.result = ['a', 'b'], dict(ntemps=nt, nwalkers=nw, adapt=True, swap_ratios=False), result()
    s.ntemps, s.nwalkers, s.max_steps = nt, nw, 2
    s._periodic, s._minima, s._range = periodic, obj(c, [0., mini]), obj(c, [1., rng_])
    s.convergence_inputs = Namespace(niterations_per_check=1, mean_logl_frac=0.1, burn_in_fixed_discard=0)
    s.iteration, s.pos0, s.time_per_check, s.beta_list, s.tau_list, s.tau_list_n, s.Q_list = 0, None, [], [], [], [], []
    s.chain_array, s.log_likelihood_array, s.log_posterior_array = s.get_zero_chain_array(), s.get_zero_array(), s.get_zero_array()
    s.resume_file, s.check_point_delta_t, s.check_point_plot, s.store_walkers, s.verbose = '/nonexistent', 1e99, False, False, False
    s.outdir, s.label, s.discard = '/nonexistent', 'x', 0
    nburn, thin = c.choice('nburn', [0, 1]), c.choice('thin', [1, 2])
    c.setattr(sp, 'check_iteration', lambda *a, **k: (count[0] == steps, nburn, thin, 1, 1))
    c.setattr(sp, 'get_minimum_stable_itertion', lambda *a, **k: 0)
    disc = []
    c.setattr(sp, 'compute_evidence', lambda sampler, arr, *a: disc.append(arr) or (1., 2.))
    for n in ('_setup_pool', '_close_pool'):
        c.setattr(sp.Ptemcee, n, lambda self: None)
    c.setattr(sp.Ptemcee, 'setup_sampler', lambda self: setattr(self, 'sampler', PT()) or self.sampler)
    c.setattr(sp.Ptemcee, 'write_current_state', lambda self, plot=True: None)
    r = s.run_sampler()
    rows(c, 'rows', r.samples, dict(likelihood=r.log_likelihood_evaluations), (L,))
    first = s.discard + nburn
    sel = list(range(first, steps, thin))
    want = [x for w in range(nw) for i in sel for x in wrapped(pts[i][0][w])]
    c.ensure_eq('cold-chain-after-burn-in', list(np.asarray(r.samples).reshape(-1)), want)
    c.ensure_eq('all-temperatures-for-the-evidence', [disc[0][t][w][i] for t in range(nt) for w in range(nw) for i in range(steps)],
                [L(*wrapped(pts[i][t][w])) for t in range(nt) for w in range(nw) for i in range(steps)])


@contract("P13", "walkers outside the unit range", samples=40)
def _(c):
    """periodic parameters are wrapped into [minimum, maximum)"""
    lo, width = c.real('lo'), c.pos('width')
    ev = sp.LikePriorEvaluator()
    ev.periodic_set, ev._periodic, ev._minima, ev._range = True, [True, False], obj(c, [lo, 0.]), obj(c, [width, 1.])
    x, y = c.real('x'), c.real('y')
    a, b = ev._wrap_periodic(obj(c, [x, y]))
    c.ensure_eq('others', b, y)
    c.ensure('within', c.both(lo <= a, a <= lo + width))
    k = (a - x) / width
    c.ensure_eq('whole-periods', k, np.round(k), atol=1e-5)


@contract("P13", "ptemcee minimised positions", bound="optimiser successful on a given subset of attempts", floats=())
def _(c):
    """terminates whatever the optimiser does; positions lie within the range of the successful optima"""
    import scipy.optimize
    good = c.choice('successes', [0, 3, 10])
    s = object.__new__(sp.Ptemcee)
    s.likelihood = Namespace(parameters={}, log_likelihood=lambda: 0.)
    s._search_parameter_keys, s._kwargs = ['a', 'b'], dict(ntemps=2, nwalkers=3)
    s.priors = bp.PriorDict(dict(a=bp.Uniform(0, 1, 'a'), b=bp.Uniform(0, 1, 'b')))
    n = [0]

    class Hung(Exception):
        pass

    def minimize(f, x0, bounds=None, **k):
        n[0] += 1
        if n[0] > 500:
            raise Hung()
        return Namespace(success=n[0] <= good, x=np.array([0.25 + 0.01 * n[0], 0.5]))
    c.setattr(scipy.optimize, 'minimize', minimize)
    try:
        pos = s.get_pos0_from_minimize()
    except sp.SamplerError:
        return c.ensure('error-without-enough-optima', good < 10)
    except Hung:
        return c.ensure('terminates', False)
    c.ensure('enough', good >= 10)
    pos = np.asarray(pos, dtype=float)
    c.ensure('range', np.all(pos[..., 0] >= 0.26) and np.all(pos[..., 0] <= 0.35 + 1e-12) and np.all(pos[..., 1] == 0.5))


@contract("P13", "nessai unit cube", bound="three parameters, up to two points", samples=30)
def _(c):
    """the map of the whole unit cube is the joint rescale, so conditional priors see the values they depend on"""
    import bilby.core.sampler.nessai as na
    import sys
    npts = c.choice('points', [1, 2])

    def dict_to_live_points(d):
        return d
    class Base(object):
        pass
    fake = {'nessai': types.ModuleType('nessai'), 'nessai.livepoint': types.ModuleType('nessai.livepoint'), 'nessai.model': types.ModuleType('nessai.model')}
    fake['nessai.livepoint'].dict_to_live_points = dict_to_live_points
    fake['nessai.model'].Model = Base
    old = {k: sys.modules.get(k) for k in fake}
    s = object.__new__(na.Nessai)
    s._search_parameter_keys = ['a', 'b', 'm']
    w = c.func('width', 1, positive=True)

    def cond(reference_params, a):
        return dict(minimum=0., maximum=w(a))
    pri = bp.ConditionalPriorDict(dict(b=bp.ConditionalUniform(condition_func=cond, minimum=0., maximum=1., name='b'), a=bp.Uniform(0., 1., name='a'), m=bp.Uniform(2., 3., name='m')))
    s.priors = pri
    u = {k: [c.unit('u%s%d' % (k, i)) for i in range(npts)] for k in 'abm'}
    try:
        sys.modules.update(fake)
        model = s.get_nessai_model()
        got = model.from_unit_hypercube({k: obj(c, u[k]) for k in u})
    finally:
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k)
            else:
                sys.modules[k] = v
    for i in range(npts):
        a = u['a'][i]
        c.ensure_eq('a', got['a'][i], a)
        c.ensure_eq('b', got['b'][i], u['b'][i] * w(a))
        c.ensure_eq('m', got['m'][i], 2. + u['m'][i])


@contract("P13", "fake sampler", bound="three samples")
def _(c):
    """likelihoods are evaluated at the samples of the given result, in order"""
    import pandas
    x = [point(c, 'x%d' % i) for i in range(3)]
    L = c.func('L', 2)

    class Lk(object):
        parameters = dict()

        def log_likelihood_ratio(self):
            return L(self.parameters['a'], self.parameters['b'])
    s = object.__new__(sf.FakeSampler)
    s.likelihood, s._kwargs = Lk(), dict(verbose=False)
    s.result = Namespace(posterior=pandas.DataFrame(dict(b=[r[1] for r in x], a=[r[0] for r in x], log_likelihood=[0.] * 3), index=[7, 3, 5]))
    r = s.run_sampler()
    c.ensure_eq('likelihoods', list(r.log_likelihood_evaluations), [L(*v) for v in x])


@contract("P13", "sampler arguments", bound="enumerated names")
def _(c):
    """equivalent names reach the sampler's own argument, the user's value wins over the default, unknown names are dropped"""
    class S(bs.NestedSampler):
        default_kwargs = dict(nlive=500, walks=None, seed=None, other=1)
        sampling_seed_key = 'seed'

        def _translate_kwargs(self, kwargs):
            kwargs = super()._translate_kwargs(kwargs)
            if 'nlive' not in kwargs:
                for equiv in self.npoints_equiv_kwargs:
                    if equiv in kwargs:
                        kwargs['nlive'] = kwargs.pop(equiv)
    seeds = []
    c.setattr(bs, 'set_seed', seeds.append)
    s = object.__new__(S)
    name = c.choice('seed', bs.Sampler.sampling_seed_equiv_kwargs + [None])
    v = c.real('v')
    kw = dict(other=v, unknown=3)
    if name:
        kw[name] = 11
    s.kwargs = kw
    c.ensure('keys', set(s.kwargs) == set(S.default_kwargs))
    c.ensure_eq('user-value', s.kwargs['other'], v)
    c.ensure('default', s.kwargs['nlive'] == 500)
    c.ensure('seed', s.kwargs['seed'] == (11 if name else None))
    c.ensure('defaults-kept', S.default_kwargs == dict(nlive=500, walks=None, seed=None, other=1))
    if name in ('sampling_seed', 'random_seed'):
        c.ensure('bilby-seeded', set(seeds) == {11})


@contract("P13", "signal handlers", bound="method returns or raises")
def _(c):
    """while the sampler runs, interrupts checkpoint and exit; afterwards the previous handlers are back"""
    import signal
    seen = {}
    fail = c.choice('outcome', ['returns', 'raises'])
    table = {signal.SIGTERM: 'old-term', signal.SIGINT: 'old-int', signal.SIGALRM: 'old-alarm'}
    before = dict(table)

    def fake(sig, h):
        old, table[sig] = table[sig], h
        return old
    c.setattr(bs, 'signal', Namespace(signal=fake, SIGTERM=signal.SIGTERM, SIGINT=signal.SIGINT, SIGALRM=signal.SIGALRM))

    class X(object):
        def write_current_state_and_exit(self, *a):
            pass

        @bs.signal_wrapper
        def run(self, v):
            seen.update(table)
            if fail == 'raises':
                raise KeyError('x')
            return v
    x = X()
    try:
        r = x.run(3)
        c.ensure('value', r == 3 and fail == 'returns')
    except KeyError:
        c.ensure('error-passed-on', fail == 'raises')
    c.ensure('handlers-set', all(seen[k] == x.write_current_state_and_exit for k in before))
    c.ensure('handlers-restored', table == before)
