"""P14: proposals, acceptance, swaps and walks leave the target distribution invariant."""
import itertools
import types
import numpy as np
from pydv.contract import contract
import bilby
import bilby.core.prior as bp
import bilby.core.utils.samples as us
import bilby.core.sampler.proposal as cp
import bilby.core.sampler.dynesty_utils as du
import bilby.bilby_mcmc.proposals as mp
import bilby.bilby_mcmc.sampler as ms
import bilby.bilby_mcmc.chain as mc
import bilby.core.utils.random as brandom
from bilby.core.sampler.base_sampler import _sampling_convenience_dump as dump
from contracts.p10 import obj, INF
from contracts.p13 import nd

PI = np.pi
NS = types.SimpleNamespace


class Script(object):
    """random generator whose draws are arbitrary values, or the given ones"""

    def __init__(self, c, **given):
        self.c, self.n, self.given, self.used = c, {}, {k: list(v) for k, v in given.items()}, {}
        self.asked = []

    def _next(self, kind, make, arg=None):
        i = self.n[kind] = self.n.get(kind, -1) + 1
        g = self.given.get(kind)
        v = g[i] if g is not None and i < len(g) else make('%s%d' % (kind, i))
        self.used.setdefault(kind, []).append(v)
        self.asked.append((kind, arg))
        return v

    def uniform(self, low=0, high=1, size=None):
        u = [self._next('uniform', self.c.unit, (low, high)) for _ in range(1 if size is None else int(np.prod(size)))]
        u = [low + (high - low) * x for x in u]
        return u[0] if size is None else obj(self.c, u)

    def random(self):
        return self._next('uniform', self.c.unit, (0, 1))

    def normal(self, mu=0, sigma=1, size=None):
        n = [self._next('normal', self.c.real, (mu, sigma)) for _ in range(1 if size is None else int(size))]
        n = [mu + sigma * x for x in n]
        return n[0] if size is None else obj(self.c, n)

    def gamma(self, a, b):
        return self._next('gamma', self.c.pos, (a, b))

    def integers(self, lo, hi=None):
        if hi is None:
            lo, hi = 0, lo
        return self._next('integers', lambda nm: self.c.choice(nm, list(range(int(lo), int(hi)))), (lo, hi))

    def choice(self, a, size=None, replace=True, p=None):
        n = len(a)
        k = 1 if size is None else int(size)
        opts = list(itertools.permutations(range(n), k)) if not replace else list(itertools.product(range(n), repeat=k))
        pick = self._next('choice', lambda nm: self.c.choice(nm, opts), p)
        out = [a[i] for i in pick]
        return out[0] if size is None else (obj(self.c, out) if not isinstance(a[0], (str, dict)) else out)


def rng(c, **given):
    s = Script(c, **given)
    c.setattr(brandom, 'rng', s)
    return s


def priors(c, names='ab', boundary=None, infinite=()):
    out = dict()
    for k in names:
        lo = c.real('lo_' + k)
        hi = lo + c.pos('w_' + k)
        out[k] = bp.Prior(name=k, minimum=-INF if k in infinite else lo, maximum=INF if k in infinite else hi, boundary=boundary)
    return bp.PriorDict(out)


def point(c, tag, names='ab'):
    return {k: c.real('%s_%s' % (tag, k)) for k in names}


def chain(c, current, others=()):
    """chain whose current sample and successive random samples are given"""
    others = list(others)

    class C(object):
        @property
        def current_sample(self):
            return mc.Sample(dict(current))

        @property
        def random_sample(self):
            return mc.Sample(dict(others.pop(0)))
    return C()


def back_and_forth(c, prop, theta, fwd, rev, others=(), rev_others=None, step=None, names='ab'):
    """with the draws of rev the proposal from the proposed point returns to the start, with the same weight"""
    step = step or (lambda p, ch: p(ch))
    rng(c, **fwd)
    new, lf = step(prop, chain(c, theta, others))
    c.ensure_eq('symmetric', lf, 0)
    new = {k: new[k] for k in names}
    rng(c, **rev)
    old, lf = step(prop, chain(c, new, others if rev_others is None else rev_others))
    c.ensure_eq('returns', [old[k] for k in names], [theta[k] for k in names])
    c.ensure_eq('symmetric-reverse', lf, 0)
    return new


# ------------------------------------------------------------------ bilby_mcmc proposals

@contract("P14", "FixedGaussianProposal")
def _(c):
    inf = c.choice('infinite', [(), ('a',), ('b',)])
    p = priors(c, infinite=inf)
    sig = c.choice('sigma', ['float', 'dict'])
    sig = c.choice('value', [0.01, 0.5]) if sig == 'float' else dict(a=c.pos('sa'), b=c.pos('sb'))
    sub = c.choice('subset', [None, ['a'], ['b'], ['b', 'a']])
    g = mp.FixedGaussianProposal(p, subset=sub, sigma=sig)
    theta = point(c, 't')
    n = [c.real('n%d' % i) for i in range(2)]
    new = back_and_forth(c, g, theta, dict(normal=n), dict(normal=[-x for x in n]))
    keys = [k for k in 'ab' if sub is None or k in sub]
    for i, k in enumerate(keys):
        s = sig[k] if isinstance(sig, dict) else sig
        width = 1 if k in inf else p[k].maximum - p[k].minimum
        c.ensure_eq('step ' + k, new[k] - theta[k], width * s * n[i])
    for k in set('ab') - set(keys):
        c.ensure_eq('fixed ' + k, new[k], theta[k])


@contract("P14", "AdaptiveGaussianProposal")
def _(c):
    p = priors(c)
    sub = c.choice('subset', [None, ['a']])
    sig = c.choice('sigma', ['number', 'dict'])
    sig = 1 if sig == 'number' else dict(a=c.pos('sa'), b=c.pos('sb'))
    g = mp.AdaptiveGaussianProposal(p, subset=sub, sigma=sig, stop=0)
    g.scale = c.pos('scale')
    theta = point(c, 't')
    n = [c.real('n%d' % i) for i in range(2)]
    u = [c.unit('u0'), c.unit('u1')]
    new = back_and_forth(c, g, theta, dict(normal=n, uniform=u), dict(normal=[-x for x in n], uniform=u))
    if sub:
        c.ensure_eq('fixed', new['b'], theta['b'])


@contract("P14", "AdaptiveGaussianProposal scale")
def _(c):
    """the scale stays positive and follows the acceptance"""
    p = priors(c)
    g = mp.AdaptiveGaussianProposal(p)
    acc, rej, last = c.integer('accepted', 0), c.integer('rejected', 0), c.integer('last', 0)
    c.assume(last <= acc)
    g._accepted, g._rejected, g._last_accepted = acc, rej, last
    g.scale = scale = c.pos('scale')
    c.assume(scale >= 1 / g.stop)
    gamma = c.func('gamma', 1, positive=True)
    g.update_scale(None)
    c.ensure('positive', g.scale >= 1 / g.stop)
    if bool(c.both(acc + rej > 0, acc + rej < g.stop)):
        if bool(acc > last):
            c.ensure('grows-after-acceptance', g.scale >= scale)
        else:
            c.ensure('shrinks-after-rejection', g.scale <= scale)
        c.ensure_eq('remembers', g._last_accepted, acc)
    else:
        c.ensure_eq('frozen', g.scale, scale)


@contract("P14", "DifferentialEvolutionProposal")
def _(c):
    p = priors(c)
    sub = c.choice('subset', [None, ['b']])
    g = mp.DifferentialEvolutionProposal(p, subset=sub, mode_hopping_frac=c.choice('frac', [0., 0.5, 1.]))
    theta, t1, t2 = point(c, 't'), point(c, 'r'), point(c, 's')
    d = dict(uniform=[c.unit('u0'), c.unit('u1')], normal=[c.real('n')])
    new = back_and_forth(c, g, theta, d, d, others=(t1, t2), rev_others=(t2, t1))
    if sub:
        c.ensure_eq('fixed', new['a'], theta['a'])
    hop = bool(d['uniform'][0] > g.mode_hopping_frac)
    if hop:
        c.ensure_eq('hop', new['b'] - theta['b'], t2['b'] - t1['b'])


@contract("P14", "FixedJumpProposal")
def _(c):
    p = priors(c)
    kind = c.choice('jumps', ['number', 'dict'])
    j = c.choice('size', [1, 2.5]) if kind == 'number' else dict(b=c.real('jump'))
    g = mp.FixedJumpProposal(p, jumps=j, scale=c.pos('scale'))
    theta = point(c, 't')
    n, s = [c.real('n0'), c.real('n1')], [c.choice('s0', [0, 1]), c.choice('s1', [0, 1])]
    new = back_and_forth(c, g, theta, dict(normal=n, integers=s), dict(normal=[-x for x in n], integers=[1 - x for x in s]))
    if kind == 'dict':
        c.ensure_eq('fixed', new['a'], theta['a'])


@contract("P14", "UniformProposal")
def _(c):
    inf = c.choice('infinite', [(), ('a',), ('b',)])
    p = priors(c, infinite=inf)
    sub = c.choice('subset', [None, ['a'], ['b']])
    g = mp.UniformProposal(p, subset=sub)
    theta = point(c, 't')
    r = rng(c)
    new, lf = g(chain(c, theta))
    c.ensure_eq('symmetric', lf, 0)
    moved = [k for k in 'ab' if (sub is None or k in sub) and k not in inf]
    for k in 'ab':
        if k in moved:
            u = r.used['uniform'][moved.index(k)]
            c.ensure_eq('uniform on the prior range ' + k, new[k], p[k].minimum + u * (p[k].maximum - p[k].minimum))
        else:
            c.ensure_eq('fixed ' + k, new[k], theta[k])


class Arbitrary(bp.Prior):
    def __init__(self, c, name, draw):
        super().__init__(name=name)
        self.P, self.draw = c.func('logp_' + name, 1), draw

    def ln_prob(self, v):
        return self.P(v)

    def sample(self, size=None):
        return self.draw


@contract("P14", "PriorProposal")
def _(c):
    """independent draws are weighted by the ratio of the densities of what is replaced"""
    theta, draw = point(c, 't'), point(c, 'd')
    p = bp.PriorDict({k: Arbitrary(c, k, draw[k]) for k in 'ab'})
    sub = c.choice('subset', [None, ['a'], ['b'], ['b', 'a']])
    g = mp.PriorProposal(p, subset=sub)
    new, lf = g(chain(c, theta))
    keys = [k for k in 'ab' if sub is None or k in sub]
    c.ensure_eq('draw', [new[k] for k in 'ab'], [draw[k] if k in keys else theta[k] for k in 'ab'])
    c.ensure_eq('weight', lf, sum(p[k].P(theta[k]) for k in keys) - sum(p[k].P(draw[k]) for k in keys))


@contract("P14", "density proposal", bound="one to three parameters")
def _(c):
    """draws of the fitted density are assigned to their parameters and weighted by its ratio"""
    names = c.choice('parameters', ['a', 'ab', 'abc'])
    cls = c.choice('class', [mp.KDEProposal, mp.GMMProposal])
    p = priors(c, names)
    g = cls(p)
    q = c.func('logq', len(names))
    theta, draw = point(c, 't', names), [c.real('d_' + k) for k in names]

    class Density(object):
        def logpdf(self, x):
            return obj(c, [q(*list(x))])

        def resample(self, n):
            return nd(c, [[v] * int(n) for v in draw])

        def score_samples(self, x):
            return obj(c, [q(*list(x[0]))])

        def sample(self, n_samples=1):
            return nd(c, [draw] * int(n_samples)), np.zeros(int(n_samples))
    g.density, g.trained = Density(), True
    new, lf = g(chain(c, theta))
    c.ensure_eq('draw', [new[k] for k in names], draw)
    c.ensure_eq('weight', lf, q(*[theta[k] for k in names]) - q(*draw))
    many = np.reshape(g._sample(4), (-1, len(names)))
    c.ensure_eq('rows', [list(r) for r in many], [draw] * 4)


@contract("P14", "density verification", bound="one to three parameters, 30 training samples")
def _(c):
    """a density is kept only if every parameter has at least a tenth of the spread of the chain"""
    names = c.choice('parameters', ['a', 'ab', 'abc'])
    cls = c.choice('class', [mp.KDEProposal, mp.GMMProposal])
    narrow = c.choice('narrow', [None] + list(names))
    p = bp.PriorDict({k: bp.Uniform(-50, 50, name=k) for k in names})
    g = cls(p, nsamples_for_density=30)
    r = np.random.RandomState(3)
    scale = dict(a=1., b=30., c=0.01)
    rows = [{k: scale[k] * r.normal() for k in names} for _ in range(60)]
    it = iter(itertools.cycle(rows))
    ch = NS(position=40)

    class Ch(object):
        position = 40

        @property
        def random_sample(self):
            return mc.Sample(dict(next(it)))
    n = 1000
    draws = np.array([[scale[k] * (0.02 if k == narrow else 1) * r.normal() for k in names] for _ in range(n)])

    class Density(object):
        def resample(self, k):
            return draws.T[:, :k]

        def sample(self, n_samples=1):
            return draws[:n_samples], None
    before = g.density = object()
    c.setattr(g, '_fit', lambda d: Density())
    g.refit(Ch())
    if narrow is None:
        c.ensure('kept', g.trained and g.density is not before)
    else:
        c.ensure('discarded', not g.trained and g.density is before)


@contract("P14", "StretchProposal")
def _(c):
    """the stretch z and its inverse lead there and back; the weight is z^(n-1) for the density g(z) ~ 1/sqrt(z)"""
    sub = c.choice('subset', [None, ['a']])
    kind = c.choice('kind', ['chain', 'ensemble'])
    names = 'ab'
    p = priors(c, names)
    s = c.real('scale', 1, None, open=True)
    n = 1 if sub and kind == 'chain' else 2
    theta, other = point(c, 't'), point(c, 'o')
    if kind == 'chain':
        g = mp.StretchProposal(p, subset=sub, scale=s)
        step = lambda t: g(chain(c, t, [other]))
    else:
        g = mp.EnsembleStretch(p, scale=s)
        step = lambda t: g(chain(c, t), [chain(c, other)])
    u = c.unit('u')
    rng(c, uniform=[u], integers=[0])
    new, lf = step(theta)
    root = u * (s - 1) + 1              # sqrt(z * s), uniform on [1, s]: g(z) ~ 1/sqrt(z) on [1/s, s]
    z = root ** 2 / s
    c.ensure_within('range', 1 / s, z, s)
    keys = names if n == 2 else 'a'
    c.ensure_eq('stretch', [new[k] - other[k] for k in keys], [z * (theta[k] - other[k]) for k in keys])
    c.ensure_eq('weight', lf, (n - 1) * np.log(z))
    back = (s / root - 1) / (s - 1)
    c.ensure_within('reverse draw', 0, back, 1)
    rng(c, uniform=[back], integers=[0])
    old, lb = step({k: new[k] for k in names})
    c.ensure_eq('returns', [old[k] for k in names], [theta[k] for k in names])
    c.ensure_eq('inverse weight', lb, -lf)


def gw_prior(c, key, boundary='periodic'):
    d = dict(psi=bp.Uniform(0, PI, name='psi', boundary=boundary), theta_jn=bp.Uniform(0, PI, name='theta_jn'))
    d[key] = bp.Uniform(0, 2 * PI, name=key, boundary=boundary)
    return bp.PriorDict(d)


def modulo(c, label, a, b, period):
    """a and b differ by a multiple of the period"""
    k = (a - b) / period
    c.ensure_eq(label, k, np.floor(k + 0.5))


def in_place(c, s, key, psi=True):
    if psi:
        c.ensure_within('psi-range', 0, s['psi'], PI)
    c.ensure_within('phase-range', 0, s[key], 2 * PI)


@contract("P14", "reversal proposals")
def _(c):
    """moves by half a period and a symmetric offset; the opposite offset returns"""
    key = c.choice('phase', ['phase', 'delta_phase'])
    cls = c.choice('class', [mp.PhaseReversalProposal, mp.PolarisationReversalProposal, mp.PhasePolarisationReversalProposal])
    fuzz = c.choice('fuzz', [True, False])
    g = cls(gw_prior(c, key), fuzz=fuzz)
    theta = {key: c.real('phi', 0, 2 * PI), 'psi': c.real('psi', 0, PI), 'theta_jn': c.real('jn', 0, PI)}
    n = [c.real('n0', -1, 1), c.real('n1', -1, 1)]
    rng(c, normal=n)
    new, lf = g(chain(c, theta))
    c.ensure_eq('symmetric', lf, 0)
    in_place(c, new, key)
    e = [g.fuzz_sigma * x if fuzz else 0 for x in n]
    ph, ps = cls is not mp.PolarisationReversalProposal, cls is not mp.PhaseReversalProposal
    modulo(c, 'phase', new[key], theta[key] + (PI + e[0] if ph else 0), 2 * PI)
    modulo(c, 'psi', new['psi'], theta['psi'] + (PI / 2 + (e[1] if ph else e[0]) if ps else 0), PI)
    c.ensure_eq('fixed', new['theta_jn'], theta['theta_jn'])


@contract("P14", "CorrelatedPolarisationPhaseJump")
def _(c):
    """one of psi +- phase is drawn uniformly, the other one is kept"""
    key = c.choice('phase', ['phase', 'delta_phase'])
    g = mp.CorrelatedPolarisationPhaseJump(gw_prior(c, key, boundary=None))
    jn = c.real('jn', 0, PI)
    cos = np.cos(jn)
    c.split(cos > 0, cos < 0)
    sgn = 1 if bool(cos > 0) else -1 if bool(cos < 0) else 0
    phase, psi = c.real('phi', 0, 2 * PI, hi_open=True), c.real('psi', 0, PI)
    delta = phase + sgn * psi
    theta = {key: phase if key == 'phase' else delta, 'psi': psi, 'theta_jn': jn}
    u = [c.unit('u0'), c.unit('u1')]
    rng(c, uniform=u)
    new, lf = g(chain(c, theta))
    c.ensure_eq('symmetric', lf, 0)
    new_phase = new[key] - (sgn * new['psi'] if key == 'delta_phase' else 0)
    c.ensure_eq('fixed', new['theta_jn'], jn)
    if bool(u[0] < 0.5):
        c.ensure_eq('difference-kept', new['psi'] - new_phase, psi - phase)
        c.ensure_eq('sum-uniform', new['psi'] + new_phase, 3 * PI * u[1])
    else:
        c.ensure_eq('sum-kept', new['psi'] + new_phase, psi + phase)
        c.ensure_eq('difference-uniform', new['psi'] - new_phase, 3 * PI * u[1] - 2 * PI)


@contract("P14", "FisherMatrixProposal")
def _(c):
    p = priors(c)
    g = mp.FisherMatrixProposal(p, update_interval=100)
    g.iFIM, g.steps_since_update = np.eye(2), 3
    g.scale = c.pos('scale')
    j = [c.real('j0'), c.real('j1')]
    theta = point(c, 't')

    def run(t, jump):
        r = rng(c)
        r.multivariate_normal = lambda mean, cov, **k: obj(c, jump)
        s, lf = g(chain(c, t), likelihood=None, priors=p)
        c.ensure_eq('symmetric', lf, 0)
        return s
    new = run(theta, j)
    c.ensure_eq('step', [new[k] - theta[k] for k in 'ab'], [g.scale * x for x in j])
    old = run({k: new[k] for k in 'ab'}, [-x for x in j])
    c.ensure_eq('returns', [old[k] for k in 'ab'], [theta[k] for k in 'ab'])


@contract("P14", "boundaries of MCMC proposals")
def _(c):
    """periodic and reflective parameters return to the prior range at an equivalent place, others are left alone"""
    kind = c.choice('boundary', [None, 'periodic', 'reflective'])
    p = priors(c, 'ab')
    p['a'].boundary = kind
    sub = c.choice('subset', [None, ['a'], ['b']])
    g = mp.FixedGaussianProposal(p, subset=sub)
    lo, w = p['a'].minimum, p['a'].maximum - p['a'].minimum
    t, b = c.real('t', -6, 6), c.real('b')
    x = lo + w * t
    s = g.apply_boundaries(mc.Sample(dict(a=x, b=b)))
    c.ensure_eq('other', s['b'], b)
    if kind is None or sub == ['b']:
        c.ensure_eq('unchanged', s['a'], x)
    elif kind == 'periodic':
        modulo(c, 'equivalent', (s['a'] - lo) / w, t, 1)
        c.ensure_within('range', lo, s['a'], lo + w)
    else:
        m = t - 2 * np.floor(t / 2)
        c.ensure_eq('equivalent', s['a'], lo + w * (m if bool(m < 1) else 2 - m))


@contract("P14", "ProposalCycle", bound="three proposals")
def _(c):
    """every proposal of the cycle is used in turn; the cycle is drawn with the normalised weights"""
    w = [c.choice('w%d' % i, [1, 2, 5]) for i in range(3)]
    props = [NS(weight=x, i=i) for i, x in enumerate(w)]
    seen = []

    class R(object):
        def choice(self, a, p=None):
            seen.append(list(p))
            return a[len(seen) % 3]
    c.setattr(brandom, 'rng', R())
    cyc = mp.ProposalCycle(props)
    c.ensure_eq('weights', [list(s) for s in seen], [[x / sum(w) for x in w]] * len(seen))
    n = cyc.nproposals
    got = [cyc.get_proposal().i for _ in range(2 * n + 1)]
    c.ensure('in-turn', got == [(i % n + 1) % 3 for i in range(2 * n + 1)])
    c.ensure('length', n == 10 * int(1 / min(x / sum(w) for x in w)))


@contract("P14", "proposals removed by name")
def _(c):
    p = priors(c, 'ab')
    names = c.choice('string', ['default', 'gwAnoAG', 'defaultnoUN', 'defaultnoDEnoKD', 'defaultnoFMnoGMnoUN'])
    cls = dict(DE=mp.DifferentialEvolutionProposal, AG=mp.AdaptiveGaussianProposal, UN=mp.UniformProposal, KD=mp.KDEProposal,
               FM=mp.FisherMatrixProposal, GM=mp.GMMProposal)
    plist = [k(p) for k in cls.values()]
    gone = [k for k in cls if 'no' + k in names]
    left = mp.remove_proposals_using_string(list(plist), names)
    want = [x for x in plist if not any(isinstance(x, cls[k]) for k in gone)]
    c.ensure('left', [id(x) for x in left] == [id(x) for x in want])


# ------------------------------------------------------------------ chain

def sample(c, tag, names='ab'):
    return mc.Sample(dict(**{k: c.real('%s_%s' % (tag, k)) for k in names}, logl=c.real(tag + '_logl'), logp=c.real(tag + '_logp')))


FLOATS = ("bilby.bilby_mcmc.chain",)


def real_chain(c, samples, block=3):
    ch = mc.Chain(samples[0], block_length=block)
    for s in samples[1:]:
        ch.append(s)
    return ch


@contract("P14", "chain history", bound="five samples, blocks of two or three", floats=FLOATS)
def _(c):
    """entries are kept in order through the extension of the array; the current sample is the last entry"""
    n = 5
    ss = [sample(c, 's%d' % i) for i in range(n)]
    ch = real_chain(c, ss, c.choice('block', [2, 3, 7]))
    c.ensure('position', ch.position == n - 1)
    for i in range(n):
        c.ensure_eq('entry %d' % i, ch[i].list, ss[i].list)
        c.ensure_eq('entry -%d' % (i + 1), ch[-1 - i].list, ss[n - 1 - i].list)
    for k in ch.keys:
        c.ensure_eq('column ' + k, list(ch.get_1d_array(k)), [s[k] for s in ss])
    c.raises(Exception, lambda: ch[n])
    top = ch.max_log_likelihood
    for s in ss:
        c.ensure_le('maximum', s['logl'], top)
    cur = ch.current_sample
    c.ensure_eq('current', cur.list, ss[-1].list)
    cur['a'] = c.real('changed')
    c.ensure_eq('current-is-a-copy', ch.current_sample.list, ss[-1].list)
    new = sample(c, 'new')
    i = c.choice('index', [0, 2, n - 1, -1, -3])
    ch[i] = new
    j = i % n
    c.ensure_eq('replaced', ch[j].list, new.list)
    for k in range(n):
        if k != j:
            c.ensure_eq('others', ch[k].list, ss[k].list)
    c.ensure_eq('current-is-the-last-entry', ch.current_sample.list, ch[-1].list)
    c.ensure('same-length', ch.position == n - 1)


@contract("P14", "chain samples", bound="eight samples", floats=FLOATS)
def _(c):
    """samples are the entries after the burn in, one per thinning length; random samples come from the same range"""
    n = 8
    ss = [mc.Sample(dict(a=c.real('a%d' % i), logl=0., logp=c.real('p%d' % i))) for i in range(n)]
    ch = real_chain(c, ss, 10)
    burn, tau, nact = c.choice('burn', [0, 2, 5]), c.choice('tau', [1, 2.4, np.inf]), c.choice('nact', [1, 0.5, 2])
    ch._last_minimum_index = (ch.position, burn, '')
    ch.max_tau_dict = {ch.position: tau}
    ch.thin_by_nact = nact
    thin = max(1, int(nact * tau)) if tau < np.inf else 1
    got = ch.samples
    c.ensure('columns', list(got.columns) == ch.keys)
    idx = list(range(burn, n - 1, thin))
    c.ensure_eq('rows', [list(got[k]) for k in ch.keys], [[ss[i][k] for i in idx] for k in ch.keys])
    want = int((n - 1 - burn) / tau / nact)
    c.ensure_eq('number', ch.nsamples, want if want <= n - 1 - burn else 0)
    r = rng(c)
    r.integers = lambda lo, hi: (c.ensure('range', 0 <= lo < hi == n and lo in (0, burn)), lo)[1]
    ch._random_idx


# ------------------------------------------------------------------ MCMC steps

class Target(object):
    """arbitrary log likelihood and prior, infinite or undefined at chosen points"""

    def __init__(self, c, s):
        self.L, self.P, self.c, self.noise = c.func('logl', 2), c.func('logp', 2), c, c.real('noise')
        self.bad_l, self.bad_p = [], []
        self.parameters = dict()
        self.norm = []

    def value(self, d, bad, f):
        for x, v in bad:
            if x is d['a']:
                return v
        return f(d['a'], d['b'])

    def log_likelihood(self):
        return self.value(self.parameters, self.bad_l, self.L)

    def log_likelihood_ratio(self):
        return self.log_likelihood() - self.noise

    def noise_log_likelihood(self):
        return self.noise

    def ln_prob(self, d, normalized=True):
        self.norm.append(normalized)
        assert set(d) == {'a', 'b'}
        return self.value(d, self.bad_p, self.P)


class Prop(object):
    def __init__(self, moves):
        self.moves, self.accepted, self.rejected, self.starts = list(moves), 0, 0, []

    def __call__(self, ch, *a, **k):
        self.starts.append(ch.current_sample)
        point, lf = self.moves.pop(0)
        new = ch.current_sample
        for x, v in point.items():
            new[x] = v
        return new, lf


def mcmc(c, beta, start, target, L1=1, ratio=False, norm=True):
    s = object.__new__(ms.BilbyMCMCSampler)
    s.beta, s.Tindex, s.Eindex, s.use_ratio, s.normalize_prior = beta, 0, 0, ratio, norm
    s.parameters, s.stop_after_convergence = ['a', 'b'], False
    s.chain = real_chain(c, [start], 4)
    s.chain.L1steps = L1
    s.accepted = s.rejected = s.pt_accepted = s.pt_rejected = s.rejection_sampling_count = 0
    return s


def world(c, target, ratio=False):
    c.setattr(dump, 'likelihood', target)
    c.setattr(dump, 'priors', target)
    c.setattr(dump, 'use_ratio', ratio)


@contract("P14", "Metropolis-Hastings step", bound="two internal steps", floats=FLOATS, samples=80)
def _(c):
    """a move is taken exactly if u <= q(old|new)/q(new|old) (L'/L)^beta pi'/pi; the chain records where it is"""
    t = Target(c, None)
    ratio, norm = c.choice('ratio, normalised', [(False, True), (True, False)])
    world(c, t, ratio)
    beta = c.unit('beta')
    off = t.noise if ratio else 0
    pts = [point(c, 'x%d' % i) for i in range(3)]
    start = mc.Sample(dict(**pts[0], logl=t.L(*pts[0].values()) - off, logp=t.P(*pts[0].values())))
    s = mcmc(c, beta, start, t, 2, ratio, norm)
    lf = [c.real('q1'), c.real('q2')]
    prop = Prop([(pts[1], lf[0]), (pts[2], lf[1])])
    s.proposal_cycle = NS(get_proposal=lambda: prop)
    bad = c.choice('excluded', [None, (1, 'l', -INF), (1, 'p', -INF), (2, 'l', INF), (2, 'l', float('nan')), (2, 'p', float('nan'))])
    if bad:
        getattr(t, 'bad_' + bad[1]).append((pts[bad[0]]['a'], bad[2]))
    r = rng(c)
    s.step()
    logl = lambda p: t.L(*p.values()) - off
    logp = lambda p: t.P(*p.values())
    cur, n = pts[0], 0
    used = list(r.used.get('uniform', []))
    for i in (1, 2):
        c.ensure_eq('proposed from the current point', [prop.starts[i - 1][k] for k in 'ab'], [cur[k] for k in 'ab'])
        if bad and bad[0] == i:
            continue
        u = used.pop(0)
        la = lf[i - 1] + beta * (logl(pts[i]) - logl(cur)) + logp(pts[i]) - logp(cur)
        if bool(u <= np.exp(la)):
            cur, n = pts[i], n + 1
    c.ensure('draws-used', not used)
    c.ensure('one entry per step', s.chain.position == 1)
    got = s.chain[-1]
    c.ensure_eq('where it is', [got[k] for k in 'ab'], [cur[k] for k in 'ab'])
    c.ensure_eq('its own likelihood and prior', [got['logl'], got['logp']], [logl(cur), logp(cur)])
    c.ensure_eq('current', s.chain.current_sample.list, got.list)
    c.ensure('counters', (s.accepted, s.rejected) == (n, 2 - n) == (prop.accepted, prop.rejected))
    c.ensure('normalisation', all(x is norm for x in t.norm))


@contract("P14", "initial sample", floats=FLOATS)
def _(c):
    t = Target(c, None)
    world(c, t)
    t.non_fixed_keys = ['a', 'b']
    p = point(c, 'x')
    t.sample = lambda: dict(p, fixed=3.)
    ratio = c.choice('ratio', [False, True])
    given = c.choice('given', [None, 'b'])
    b = c.real('given_b')
    conv = ms.ConvergenceInputs(**{k: 1 for k in ms.ConvergenceInputs._fields})
    s = ms.BilbyMCMCSampler(conv, proposal_cycle=mp.ProposalCycle([NS(weight=1)]), beta=c.unit('beta'), use_ratio=ratio,
                            initial_sample_dict=None if given is None else dict(b=b))
    v = [p['a'], p['b'] if given is None else b]
    got = s.chain.current_sample
    c.ensure('keys', got.parameter_keys == ['a', 'b'])
    c.ensure_eq('start', [got[k] for k in ('a', 'b', 'logl', 'logp')],
                v + [t.L(*v) - (t.noise if ratio else 0), t.P(*v)])
    c.ensure_eq('recorded', s.chain[0].list, got.list)


def pt(c, samplers, ntemps, nensemble=1, pt_ensemble=False):
    s = object.__new__(ms.BilbyPTMCMCSampler)
    s.ntemps, s.nensemble, s.pt_ensemble = ntemps, nensemble, pt_ensemble
    s.sampler_dictionary = samplers
    s.pool = None
    return s


@contract("P14", "temperature swaps", bound="three temperatures", floats=FLOATS)
def _(c):
    """neighbours exchange their points with the probability of parallel tempering, and go on from there"""
    t = Target(c, None)
    world(c, t)
    ntemps = c.choice('temperatures', [2, 3])
    betas = [c.unit('beta%d' % i) for i in range(ntemps)]
    ss = [sample(c, 's%d' % i) for i in range(ntemps)]
    samplers = {i: [mcmc(c, betas[i], ss[i], t)] for i in range(ntemps)}
    s = pt(c, samplers, ntemps)
    r = rng(c)
    s.swap_tempered_chains()
    cur = list(ss)
    for i in range(ntemps - 1):
        x, y = cur[i], cur[i + 1]
        a = (betas[i + 1] - betas[i]) * (x['logl'] - y['logl'])
        ok = bool(r.used['uniform'][i] <= np.exp(a))
        if ok:
            cur[i], cur[i + 1] = y, x
        z = samplers[i][0]
        c.ensure('counted', (z.pt_accepted, z.pt_rejected) == ((1, 0) if ok else (0, 1)))
    for i in range(ntemps):
        ch = samplers[i][0].chain
        c.ensure_eq('entry', ch[-1].list, cur[i].list)
        c.ensure_eq('state', ch.current_sample.list, cur[i].list)
        c.ensure('length', ch.position == 0)


@contract("P14", "ensemble step", bound="ensemble of two", floats=FLOATS)
def _(c):
    """the stretch is accepted for the tempered posterior; the complement excludes the moving chain"""
    t = Target(c, None)
    world(c, t)
    beta = c.unit('beta')
    pts = [point(c, 'x%d' % i) for i in range(2)]
    st = [mc.Sample(dict(**p, logl=t.L(*p.values()), logp=t.P(*p.values()))) for p in pts]
    z = [mcmc(c, beta, x, t) for x in st]
    s = pt(c, {0: z, 1: [mcmc(c, c.unit('hot'), st[0], t)]}, 2, 2)
    new = [point(c, 'y%d' % i) for i in range(2)]
    lf = [c.real('q%d' % i) for i in range(2)]
    comp = []
    prop = Prop(list(zip(new, lf)))

    def get():
        def f(ch, complement):
            comp.append((ch, list(complement)))
            return prop(ch)
        f.accepted = f.rejected = 0
        return f
    s.ensemble_proposal_cycle = NS(get_proposal=get)
    bad = c.choice('excluded', [None, 0, 1])
    if bad is not None:
        t.bad_p.append((new[bad]['a'], -INF))
    r = rng(c)
    s.ensemble_step()
    used = list(r.used.get('uniform', []))
    for i in range(2):
        c.ensure('complement', comp[i][0] is z[i].chain and len(comp[i][1]) == 1 and comp[i][1][0] is z[1 - i].chain)
        c.ensure_eq('from', [prop.starts[i][k] for k in 'ab'], [pts[i][k] for k in 'ab'])
        cur = pts[i]
        if bad != i:
            L, P = (lambda q: t.L(*q.values())), (lambda q: t.P(*q.values()))
            if bool(used.pop(0) <= np.exp(lf[i] + beta * (L(new[i]) - L(cur)) + P(new[i]) - P(cur))):
                cur = new[i]
        got = z[i].chain[-1]
        c.ensure_eq('point', got.list, list(cur.values()) + [t.L(*cur.values()), t.P(*cur.values())])
        c.ensure_eq('state', z[i].chain.current_sample.list, got.list)
        c.ensure('one entry', z[i].chain.position == 1)
    c.ensure('single chains stay', s.sampler_dictionary[1][0].chain.position == 0 and len(comp) == 2)


@contract("P14", "temperature adaptation", bound="four temperatures")
def _(c):
    """the coldest and hottest chain stay, the others stay between the coldest and zero, in order"""
    n = 4
    T = [1.]
    for i in range(n - 1):
        T.append(T[-1] + c.pos('dT%d' % i))
    z = [NS(beta=1 / x, acceptance_ratio=c.unit('acc%d' % i), chain=NS(minimum_index_adapt=0, position=c.integer('position', 0)))
         for i, x in enumerate(T)]
    s = pt(c, {i: [x] for i, x in enumerate(z)}, n)
    s.adapt_t0, s.adapt_nu = c.choice('t0', [100, 1]), c.choice('nu', [10, 1])
    s.swap_counter = dict(temperature=c.choice('swaps', [1, 50]))
    b = [x.beta for x in z]
    s.adapt_temperatures()
    c.ensure_eq('coldest', z[0].beta, b[0])
    c.ensure_eq('hottest', z[-1].beta, b[-1])
    c.ensure('ordered', c.both(1 / z[1].beta > 1, 1 / z[2].beta > 1 / z[1].beta))
    c.ensure_eq('burn in restarts', z[0].chain.minimum_index_adapt, z[0].chain.position)


@contract("P14", "initial temperatures")
def _(c):
    n = c.choice('ntemps', [1, 2, 4])
    how = c.choice('given', ['betas', 'Tmax', 'SNR'])
    dump_priors = NS(non_fixed_keys=list('abc'))
    c.setattr(dump, 'priors', dump_priors)
    Tmax = c.choice('Tmax', [10., 1e4])
    s = object.__new__(ms.BilbyPTMCMCSampler)
    s.ntemps = n
    s.pt_inputs = NS(ntemps=n, initial_betas=[1., .3, .1, .01][:n] if how == 'betas' else None, Tmax=Tmax if how == 'Tmax' else None,
                     Tmax_from_SNR=20. if how == 'SNR' else None)
    b = s.get_initial_betas()
    c.ensure('number', len(b) == n)
    c.ensure_eq('coldest', b[0], 1)
    c.ensure('ordered', all(x > y > 0 for x, y in zip(b[:-1], b[1:])))
    if n > 1 and how != 'betas':
        c.ensure_eq('hottest', 1 / b[-1], Tmax if how == 'Tmax' else 20. ** 2 / 3)
        for x, y, w in zip(b[:-2], b[1:-1], b[2:]):
            c.ensure('geometric', bool(abs(y ** 2 - x * w) < 1e-9 * x * w))


# ------------------------------------------------------------------ evidence and hot samples

def append(self, s):
    """Chain.append without the bookkeeping of the maximum, which is decided in 'chain history'"""
    self.position += 1
    self._chain_array[self.position] = s.list


def tempered(c, n, steps):
    betas = [1.] + sorted([[.5, .2, .05][i] for i in range(n - 1)], reverse=True)
    L = [[c.real('l%d_%d' % (i, j)) for j in range(steps)] for i in range(n)]
    out = []
    c.setattr(mc.Chain, 'append', append)
    for i in range(n):
        ss = [mc.Sample(dict(a=0., b=0., logl=v, logp=0.)) for v in L[i]]
        z = mcmc(c, betas[i], ss[0], None)
        z.chain = real_chain(c, ss, steps + 1)
        z.chain._last_minimum_index = (steps - 1, 0, '')
        out.append(z)
    return betas, L, out


@contract("P14", "evidence from temperatures", bound="three temperatures, three samples", floats=FLOATS + ("bilby.bilby_mcmc.sampler",))
def _(c):
    """stepping stone: sum of log mean L^(difference of neighbouring inverse temperatures); thermodynamic: the
    trapezoidal integral of the mean log likelihood over the inverse temperature"""
    n, steps = 3, 3
    betas, L, zs = tempered(c, n, steps)
    how = c.choice('method', ['stepping_stone', 'thermodynamic'])
    import scipy.stats
    c.setattr(scipy.stats, 'sem', lambda x: 0.)
    import scipy.special
    c.setattr(scipy.special, 'logsumexp', lambda x, axis=None: np.log(np.sum(np.exp(x), axis=axis)))
    c.setattr(mc.Chain, 'tau', property(lambda self: tau))
    tau = c.choice('tau', [1, 2])
    s = pt(c, {i: [z] for i, z in enumerate(zs)}, n)
    if how == 'stepping_stone':
        got, _ = s.stepping_stone_evidence(list(zs), None, None, make_plots=False)
        rows = range(0, steps, tau)
        want = 0
        for i in range(1, n):
            d = betas[i - 1] - betas[i]
            want = want + np.log(sum(np.exp(d * L[i][j]) for j in rows) / len(rows))
        c.ensure_eq('stepping stone', np.exp(got), np.exp(want))
    else:
        got, _ = s.thermodynamic_integration_evidence(list(zs), None, None, make_plots=False)
        m = [sum(x) / steps for x in L]
        want = sum((betas[i] - betas[i + 1]) * (m[i] + m[i + 1]) / 2 for i in range(n - 1))
        c.ensure_eq('thermodynamic', got, want)


@contract("P14", "hot samples", bound="two hot samples", floats=FLOATS, samples=60)
def _(c):
    """hot samples are kept with probability L^(1-beta) relative to the largest; the chain is left unchanged"""
    t = Target(c, None)
    ratio = c.choice('ratio', [False, True])
    world(c, t, ratio)
    beta = c.unit('beta')
    n = 4
    ss = [sample(c, 's%d' % i) for i in range(n)]
    z = mcmc(c, beta, ss[0], t)
    c.setattr(mc.Chain, 'append', append)
    z.chain = real_chain(c, ss, 6)
    first = 1
    z.chain._last_minimum_index = (3, first, '')
    r = rng(c)
    got = z.rejection_sample_zero_temperature_samples()
    use = ss[first:3]
    top = [x for x in use if all(bool((1 - beta) * x['logl'] >= (1 - beta) * y['logl']) for y in use)][0]
    keep = []
    for x, u in zip(use, r.used['uniform']):
        if bool(np.exp((1 - beta) * (x['logl'] - top['logl'])) > u):
            keep.append(x)
    for k in ('a', 'b', 'logl', 'logp'):
        c.ensure_eq('kept ' + k, list(got[k]), [x[k] for x in keep])
    for i, x in enumerate(ss):
        c.ensure_eq('chain unchanged', z.chain[i].list, x.list)
    c.ensure('counted', z.rejection_sampling_count == len(keep))


@contract("P14", "samples of all chains", bound="two ensembles, two temperatures")
def _(c):
    """the result holds the cold chains of all ensembles once, and the rejection sampled hot ones if asked for"""
    import pandas
    rej, ens, pte = c.choice('rejection', [False, True]), c.choice('ensembles', [1, 2]), c.choice('pt_ensemble', [False, True])

    def z(i, j):
        f = pandas.DataFrame(dict(a=[10 * i + j], logl=[0.]))
        return NS(beta=[1., .5][i], samples=f, nsamples=5 + j, Tindex=i, Eindex=j, rejection_sample_zero_temperature_samples=lambda: [0] * 7,
                  chain=NS(position=4, tau_nocache=1))
    d = {i: [z(i, j) for j in range(ens if i == 0 or pte else 1)] for i in range(2)}
    s = pt(c, d, 2, ens, pte)
    s.pt_rejection_sample, s._nsamples_dict = rej, dict()
    got = sorted(s.samples['a'])
    want = list(range(ens)) + ([10 + j for j in range(len(d[1]))] if rej else [])
    c.ensure('chains', got == want)
    c.ensure('number', s.nsamples == sum(5 + j for j in range(ens)) + (7 * len(d[1]) if rej else 0))


@contract("P14", "maximum posterior start", floats=FLOATS)
def _(c):
    """minimised: minus the tempered posterior, larger than any other value where the prior vanishes"""
    t = Target(c, None)
    world(c, t)
    p = priors(c, 'ab')
    c.setattr(dump, 'search_parameter_keys', ['b', 'a'])
    bad = c.choice('excluded', [False, True])
    x = point(c, 'x')
    P = c.func('P', 2)
    pri = NS(ln_prob=lambda s: -INF if bad else P(s['a'], s['b']))
    c.setattr(dump, 'priors', type('D', (dict,), dict(ln_prob=lambda self, s: pri.ln_prob(s)))(p))
    got = []

    def de(f, bounds, **k):
        got.append((f(obj(c, [x['b'], x['a']])), bounds))
        return NS(success=True, x=[x['b'], x['a']])
    c.setattr(ms, 'differential_evolution', de)
    beta = c.unit('beta')
    s = ms.get_initial_maximimum_posterior_sample(beta)
    c.ensure_eq('sample', [s['a'], s['b']], [x['a'], x['b']])
    c.ensure_eq('bounds', [list(b) for b in got[0][1]], [[p[k].minimum, p[k].maximum] for k in 'ba'])
    if bad:
        c.ensure_eq('never the minimum', got[0][0], INF)
    else:
        c.ensure_eq('objective', got[0][0], -beta * t.L(x['a'], x['b']) - P(x['a'], x['b']))


# ------------------------------------------------------------------ jump proposals

def live(c, n, names='ab'):
    return [cp.Sample(point(c, 'live%d' % i, names)) for i in range(n)]


def free(names='ab', boundary=None):
    return {k: NS(boundary=boundary, minimum=0., maximum=1.) for k in names}


@contract("P14", "boundaries of jump proposals")
def _(c):
    kind = c.choice('boundary', [None, 'periodic', 'reflective'])
    lo, w = c.real('lo'), c.pos('w')
    t = c.choice('exact', [None, -2., -1., 0., 1., 2., 3.])
    t = c.real('t', -6, 6) if t is None else t
    p = dict(a=NS(boundary=kind, minimum=lo, maximum=lo + w), b=NS(boundary=None, minimum=0., maximum=1.))
    b = c.real('b')
    g = cp.JumpProposal(p)
    s = g(cp.Sample(dict(a=lo + w * t, b=b)))
    c.ensure_eq('other', s['b'], b)
    if kind is None:
        c.ensure_eq('unchanged', s['a'], lo + w * t)
    elif kind == 'periodic':
        modulo(c, 'equivalent', (s['a'] - lo) / w, t, 1)
        c.ensure_within('range', lo, s['a'], lo + w)
    else:
        m = t - 2 * np.floor(t / 2)
        c.ensure_eq('equivalent', s['a'], lo + w * (m if bool(m < 1) else 2 - m))


@contract("P14", "jump proposals are symmetric", bound="four other points, two parameters", samples=40)
def _(c):
    """the proposed step does not depend on the point, and its opposite is as likely"""
    which = c.choice('proposal', ['norm', 'walk', 'differential'])
    pts = live(c, 4)
    theta = point(c, 't')
    if which == 'norm':
        g = cp.NormJump(step_size=c.pos('step'), priors=free())
    elif which == 'walk':
        g = cp.EnsembleWalk(random_number_generator=None, priors=free())
    else:
        g = cp.DifferentialEvolution(priors=free(), sigma=c.pos('sigma'), mu=c.choice('mu', [1., .5]))
    pick = c.choice('pick', [(0, 1, 2), (3, 1, 0)] if which == 'walk' else [(0, 1), (3, 1)])
    u = [c.real('u%d' % i) for i in range(3)]
    n = [c.real('n%d' % i) for i in range(2)]

    def run(start, sign, pair):
        it = iter([sign * x for x in u])
        g.random_number_generator = lambda: next(it)
        rng(c, choice=[pair], normal=[sign * x for x in n] if which == 'norm' else n)
        return g(cp.Sample(dict(start)), coordinates=pts)
    if which == 'differential':
        new = run(theta, 1, pick)
        old = run(new, 1, pick[::-1])
    else:
        new = run(theta, 1, pick)
        old = run(new, -1, pick)
    c.ensure_eq('returns', [old[k] for k in 'ab'], [theta[k] for k in 'ab'])
    c.ensure_eq('no weight', g.log_j, 0)
    if which == 'walk':
        for k in 'ab':
            m = sum(pts[i][k] for i in pick) / 3
            c.ensure_eq('step', new[k] - theta[k], sum((pts[i][k] - m) * x for i, x in zip(pick, u)))


@contract("P14", "EnsembleStretch of jump proposals")
def _(c):
    names = c.choice('parameters', ['a', 'ab', 'abc'])
    g = cp.EnsembleStretch(scale=c.real('scale', 1, None, open=True), priors=free(names))
    pts = live(c, 2, names)
    theta = point(c, 't', names)
    i = c.choice('which', [0, 1])
    u = c.unit('u')
    rng(c, uniform=[u], choice=[(i,)])
    new = g(cp.Sample(dict(theta)), coordinates=pts)
    z = np.exp((2 * u - 1) * np.log(g.scale))
    c.ensure_eq('stretch', [new[k] - pts[i][k] for k in names], [z * (theta[k] - pts[i][k]) for k in names])
    c.ensure_eq('weight', g.log_j, len(names) * (2 * u - 1) * np.log(g.scale))
    rng(c, uniform=[1 - u], choice=[(i,)])
    old = g(cp.Sample(dict(new)), coordinates=pts)
    c.ensure_eq('returns', [old[k] for k in names], [theta[k] for k in names])


@contract("P14", "EnsembleEigenVector", bound="three points, one or two parameters")
def _(c):
    """jumps along an eigenvector of the covariance of the points by its standard deviation"""
    names = c.choice('parameters', ['a', 'ab'])
    pts = live(c, 3, names)
    theta = point(c, 't', names)
    g = cp.EnsembleEigenVector(priors=free(names))
    seen = []
    vec = [[c.real('v%d%d' % (i, j)) for j in range(2)] for i in range(2)]
    val = [c.pos('e%d' % i) for i in range(2)]

    def eigh(m):
        seen.append(m)
        return obj(c, val), nd(c, vec)
    c.setattr(np.linalg, 'eigh', eigh)
    n = c.real('n')
    i = c.choice('axis', [0, 1][:len(names)])

    def run(t, n):
        r = rng(c, normal=[n], integers=[i])
        return g(cp.Sample(dict(t)), coordinates=pts)
    mean = {k: sum(p[k] for p in pts) / 3 for k in names}
    new = run(theta, n)
    if names == 'a':
        var = sum((p['a'] - mean['a']) ** 2 for p in pts) / 3
        c.ensure_eq('step', new['a'] - theta['a'], n * np.sqrt(var))
    else:
        cov = [[sum((p[j] - mean[j]) * (p[k] - mean[k]) for p in pts) / 2 for k in names] for j in names]
        c.ensure_eq('covariance', [list(x) for x in seen[0]], cov)
        c.ensure_eq('step', [new[k] - theta[k] for k in names], [n * np.sqrt(val[i]) * vec[j][i] for j in range(2)])
    old = run(new, -n)
    c.ensure_eq('returns', [old[k] for k in names], [theta[k] for k in names])


@contract("P14", "flat prior draws")
def _(c):
    lo, w = c.real('lo'), c.pos('w')
    p = dict(a=bp.Prior(name='a', minimum=lo, maximum=lo + w), b=bp.Prior(name='b', minimum=2., maximum=3.))
    r = rng(c)
    g = cp.DrawFlatPrior(priors=p)
    s = g(cp.Sample(point(c, 't')))
    u = r.used['uniform']
    c.ensure_eq('uniform', [s['a'], s['b']], [lo + w * u[0], 2 + u[1]])


@contract("P14", "JumpProposalCycle", bound="two proposals, cycle of four")
def _(c):
    w = [c.choice('w0', [1, 3.]), c.choice('w1', [2, .5])]
    seen = []

    class R(object):
        def choice(self, a, size, p, replace):
            seen.append((list(p), size, replace))
            return [a[i % 2] for i in range(size)]
    c.setattr(brandom, 'rng', R())
    f = [lambda **k: 0, lambda **k: 1]
    cyc = cp.JumpProposalCycle(f, w, 4)
    c.ensure_eq('weights', seen[0][0], [x / sum(w) for x in w])
    c.ensure('with replacement', seen[0][1:] == (4, True) and len(cyc) == 2)
    c.ensure('in turn', [cyc() for _ in range(9)] == [0, 1] * 4 + [0])


# ------------------------------------------------------------------ walks of the nested sampler

class Walk(object):
    """arbitrary prior transform, likelihood and proposals of a walk in the unit cube"""

    def __init__(self, c, ndim=2):
        self.c, self.T, self.L, self.ndim = c, [c.func('T%d' % i, ndim) for i in range(ndim)], c.func('L', ndim), ndim
        self.calls = 0

    def transform(self, u):
        return obj(self.c, [t(*list(u)) for t in self.T])

    def like(self, v):
        self.calls += 1
        return self.L(*list(v))

    def args(self, u, star, **kw):
        return NS(u=obj(self.c, u), loglstar=star, prior_transform=self.transform, loglikelihood=self.like, rseed=1, scale=.5,
                  axes=np.identity(self.ndim), kwargs=dict(dict(periodic=None, reflective=None), **kw))


@contract("P14", "unit cube boundaries")
def _(c):
    """periodic and reflective coordinates return to the cube at the equivalent place; other points outside are refused"""
    c.setattr(du, 'apply_reflect', us.reflect)
    x = [c.real('x%d' % i, -3, 3) for i in range(3)]
    per = c.choice('periodic', [None, [0]])
    ref = c.choice('reflective', [None, [1]])
    got = du.apply_boundaries_(obj(c, x), periodic=per, reflective=ref)
    m = x[1] - 2 * np.floor(x[1] / 2)
    want = [x[0] - np.floor(x[0]) if per else x[0], (m if bool(m < 1) else 2 - m) if ref else x[1], x[2]]
    ok = c.both(*[c.both(v >= 0, v <= 1) for v in want])
    if got is None:
        c.ensure('refused-only-outside', c.implies(ok, False))
    else:
        c.ensure_eq('equivalent', list(got)[1:], want[1:])
        modulo(c, 'equivalent-periodic', got[0], want[0], 1)
        for v in got:
            c.ensure_within('inside', 0, v, 1)


def walk_world(c, w, props):
    """the proposals of _get_proposal_kwargs are the given points; the boundary function accepts or refuses them"""
    it = iter(props)
    w.random = [c.unit('random%d' % i) for i in range(w.ndim)]
    rstate = NS(uniform=lambda *a, size=None, **k: obj(c, w.random))
    c.setattr(du, '_get_proposal_kwargs', lambda args: (['diff'] * len(props), dict(rstate=rstate), dict(diff=dict())))
    c.setattr(du, 'get_random_generator', lambda s: rstate)

    class Funcs(dict):
        def __missing__(self, k):
            return lambda u=None, **k: (starts.append(list(u)), obj(c, next(it)))[1]
    starts = []
    c.setattr(du, 'proposal_funcs', Funcs())
    return starts


def steps_of(c, n, out):
    return [[c.unit('p%d_%d' % (i, j)) if i not in out or j else -.5 for j in range(2)] for i in range(n)]


def consistent(c, w, u, v, logl):
    T = [t(*list(u)) for t in w.T]
    c.ensure_eq('prior transform', list(v), T)
    c.ensure_eq('likelihood', logl, w.L(*T))


@contract("P14", "fixed length walk", bound="two steps, two parameters", floats=("bilby.core.sampler.dynesty_utils",))
def _(c):
    """the point is the last one above the bound, with its own parameters and likelihood"""
    w = Walk(c)
    out = c.choice('outside', [(), (0,), (1,), (0, 1)])
    props = steps_of(c, 2, out)
    start, star = [c.unit('s0'), c.unit('s1')], c.real('star')
    starts = walk_world(c, w, props)
    u, v, logl, ncall, blob = du.FixedRWalk()(w.args(start, star))
    consistent(c, w, u, v, logl)
    cur, n, inside = start, 0, 0
    for i, p in enumerate(props):
        c.ensure_eq('from', starts[i], cur)
        if i not in out:
            inside += 1
            if bool(w.L(*[t(*p) for t in w.T]) > star):
                cur, n = p, n + 1
    if n:
        c.ensure_eq('point', list(u), cur)
        c.ensure('above the bound', logl > star)
    else:
        c.ensure_eq('random point', list(u), w.random)
    c.ensure('counts', (blob['accept'], blob['reject'], ncall) == (n, 2 - n, inside))


@contract("P14", "acceptance tracking walk", bound="three steps, two parameters", floats=("bilby.core.sampler.dynesty_utils",))
def _(c):
    w = Walk(c)
    out = c.choice('outside', [(), (0,), (1,), (0, 1)])
    props = steps_of(c, 4, out)
    start, star = [c.unit('s0'), c.unit('s1')], c.real('star')
    starts = walk_world(c, w, props)
    c.setattr(du.AcceptanceTrackingRWalk, 'old_act', None)
    r = du.AcceptanceTrackingRWalk()
    r.maxmcmc = 50
    steps = []
    est = lambda accept_ratio, safety=5, tau=None: (steps.append(accept_ratio), 3)[1]
    c.setattr(r, 'estimate_nmcmc', est)
    c.setattr(r, 'nact', 1)
    u, v, logl, ncall, blob = r(w.args(start, star, nlive=100))
    consistent(c, w, u, v, logl)
    cur, n, inside = start, 0, 0
    for i, p in enumerate(props[:len(starts)]):
        c.ensure_eq('from', starts[i], cur)
        if i not in out:
            inside += 1
            if bool(w.L(*[t(*p) for t in w.T]) > star):
                cur, n = p, n + 1
    if n:
        c.ensure_eq('point', list(u), cur)
        c.ensure('above the bound', logl > star)
    c.ensure('counts', (blob['accept'], blob['accept'] + blob['reject'], ncall) == (n, len(starts), inside))


@contract("P14", "ACT tracking walk", bound="three steps, two parameters", floats=("bilby.core.sampler.dynesty_utils",))
def _(c):
    """every stored point has its own parameters and likelihood, and comes from the chain of accepted points"""
    w = Walk(c)
    out = c.choice('outside', [(), (0,), (0, 1), (0, 2)])
    n = 3
    props = [[.1 + .2 * i if i not in out else -.5, .25] for i in range(n)]      # T and L are arbitrary: so are the values there
    start, star = [.9, .3], c.real('star')
    c.assume(w.L(*[t(*start) for t in w.T]) > star)
    starts = walk_world(c, w, props)
    good = [i for i in range(n) if i not in out and bool(w.L(*[t(*props[i]) for t in w.T]) > star)]
    thin = c.choice('thin', [-1, 1, 2])
    c.setattr(du.ACTTrackingRWalk, '_cache', list())
    r = du.ACTTrackingRWalk()
    r.thin, r.maxmcmc, r.act = thin, n, 1
    c.setattr(r, '_calculate_act', lambda accept, **k: 1. if accept else np.inf)
    # the check that would set act inside the loop needs fifty accepted points: the loop ends after maxmcmc steps
    r.args = w.args(start, star)
    r.build_cache()
    got = list(r._cache)
    for u, v, logl, ncall, blob in got:
        consistent(c, w, u, v, logl)
    cur = start
    for i in range(n):
        c.ensure_eq('from', starts[i], cur)
        cur = props[i] if i in good else cur
    c.ensure('one', len(got) == 1)
    if good:
        c.ensure_eq('last accepted', list(got[0][0]), cur)
        c.ensure('above', got[0][2] > star)
        c.ensure('counts', (got[0][3], got[0][4]['accept'], got[0][4]['reject']) == (n - len(out), len(good), n - len(good)))
    else:
        c.ensure_eq('random point', list(got[0][0]), w.random)


@contract("P14", "cached walk points", bound="three stored points")
def _(c):
    """the first stored point not below the bound is returned, points below it are dropped, the rest is kept"""
    L = [c.real('l%d' % i) for i in range(3)]
    star = c.real('star')
    pts = [('u%d' % i, 'v%d' % i, L[i], i, dict()) for i in range(3)]
    rebuild = c.choice('rebuild', [False, True])
    more = [('u9', 'v9', star + 1, 9, dict())]
    c.setattr(du.ACTTrackingRWalk, '_cache', list(pts))
    r = du.ACTTrackingRWalk()
    built = []

    def build():
        built.append(1)
        r._cache.extend(more)
    c.setattr(r, 'build_cache', build)
    got = r(NS(loglstar=star, kwargs=dict(rebuild=rebuild)))
    below = [bool(x < star) for x in L]
    i = below.index(False) if False in below else 3
    queue = pts + (more if rebuild else [])
    if i == 3 and not rebuild:
        queue = queue + more
    c.ensure('point', got[0] == queue[i][0] and got[1] == queue[i][1] and got[3] == queue[i][3])
    c.ensure('not below', got[2] >= star)
    left = queue[i + 1:] or r._cache       # an emptied store may be filled again at once
    c.ensure('rest', [x[0] for x in r._cache] == [x[0] for x in left] and got[4]['remaining'] == len(left))
    c.ensure('built', len(built) >= int(rebuild))


@contract("P14", "live point proposals", bound="three live points", floats=("bilby.core.sampler.dynesty_utils",))
def _(c):
    """steps in the clustered coordinates do not depend on the point and have an equally likely opposite; the other
    coordinates are uniform"""
    n, nc = 3, c.choice('clustered', [2, 3])
    u = [c.unit('u%d' % i) for i in range(n)]
    which = c.choice('proposal', ['diff', 'volumetric'])
    draws = [c.unit('d%d' % i) for i in range(2)]
    g, nrm = c.pos('gamma'), [c.real('n%d' % i) for i in range(nc)]
    fresh = [c.unit('f%d' % i) for i in range(n - nc)]
    live = [[c.unit('l%d_%d' % (i, j)) for j in range(nc)] for i in range(3)]
    pair = c.choice('pair', [(0, 1), (2, 1)]) if which == 'diff' else None
    if which == 'volumetric':
        c.assume(nrm[0] > .1)
    c.setattr(np.linalg, 'norm', lambda x: np.sqrt(sum(v * v for v in x)))
    axes = [[c.real('a%d%d' % (i, j)) for j in range(nc)] for i in range(nc)]

    def run(start, pair, sign):
        d = list(draws)

        class R(object):
            def choice(self, a, k, replace):
                assert k == 2 and not replace
                return nd(c, [list(a[i]) for i in pair])

            def uniform(self, *a):
                return obj(c, fresh) if len(a) == 3 else d.pop(0)

            def gamma(self, *a):
                return g

            def normal(self, *a):
                return obj(c, [sign * x for x in nrm])
        if which == 'diff':
            return du.propose_differetial_evolution(obj(c, start), nd(c, live), n, nc, R(), mix=.5, scale=.7)
        return du.propose_volumetric(obj(c, start), nd(c, axes), .3, n, nc, R())
    new = run(u, pair, 1)
    c.ensure_eq('uniform', list(new[nc:]), fresh)
    if which == 'diff':
        s = .7 * g if bool(draws[0] < .5) else 1
        c.ensure_eq('step', [new[i] - u[i] for i in range(nc)], [s * (live[pair[1]][i] - live[pair[0]][i]) for i in range(nc)])
    old = run(list(new), pair[::-1] if pair else None, -1)
    c.ensure_eq('returns', list(old[:nc]), u[:nc])


@contract("P14", "walk length", floats=("bilby.core.sampler.dynesty_utils",))
def _(c):
    r = du.AcceptanceTrackingRWalk()
    r.maxmcmc = c.choice('max', [100, 5000])
    old = c.choice('old', [False, True])
    act = c.pos('act', hint=20.)
    c.assume(act <= r.maxmcmc)
    c.setattr(du.AcceptanceTrackingRWalk, 'old_act', act if old else None)
    acc = c.choice('accepted', [False, True])
    a = c.real('ratio', 0, 1, lo_open=True) if acc else 0.
    tau, safety = c.choice('tau', [10, 500]), c.choice('safety', [1, 5])
    got = r.estimate_nmcmc(a, safety=safety, tau=tau)
    c.ensure_within('range', safety, got, r.maxmcmc)
    if not acc:
        want = act * (1 + 1 / tau) if old else np.inf
    else:
        want = safety * (2 / a - 1)
        want = (1 - 1 / tau) * act + want / tau if old else want
    if bool(c.both(want >= safety, want <= r.maxmcmc)):
        c.ensure_eq('estimate', got, want)
