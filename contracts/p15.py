"""P15: reweighting, combining and summarising results follow from the samples, weights and evidences they hold."""
import copy
import itertools
import os
import shutil
import tempfile
import types
import numpy as np
import pandas as pd
from pydv.contract import contract
import bilby
import bilby.core.prior as bp
import bilby.core.result as br
import bilby.core.utils.random as brandom
from contracts.p10 import obj, INF
from contracts.p14 import rng

NAN = float('nan')
ASSUMPTIONS = ["multiprocessing.Pool.imap is replaced by map in the same process", "pandas keeps rows together (not verified)"]


class Frame(pd.DataFrame):
    """data frame of symbols: a symbolic selection forks the path"""
    @property
    def _constructor(self):
        return Frame

    def __getitem__(self, key):
        if isinstance(key, np.ndarray) and key.dtype == object and len(key) and not isinstance(key.reshape(-1)[0], str):
            key = np.array([bool(k) for k in np.asarray(key).reshape(-1)], dtype=bool)
        return super().__getitem__(key)


def frame(c, cols, index=None):
    if c.sym:
        return Frame({k: pd.Series(list(v), dtype=object, index=index) for k, v in cols.items()})
    return pd.DataFrame({k: np.array(v, dtype=float) for k, v in cols.items()}, index=index)


class Pool(object):
    def __init__(self, processes=None):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def imap(self, f, x, chunksize=None):
        return [f(v) for v in x]

    map = imap


class Like(bilby.Likelihood):
    def __init__(self, F):
        super().__init__(parameters=dict())
        self.F = F

    def log_likelihood(self):
        return self.F(self.parameters['a'])


class Stop(Exception):
    pass


class Prior(dict):
    """stands for a prior dictionary of any density; may be interrupted at a given call"""

    def __init__(self, F, stop=None, **k):
        super().__init__(**k)
        self.F, self.left, self.bad = F, stop, []

    def ln_prob(self, sample):
        if self.left is not None:
            if self.left == 0:
                raise Stop()
            self.left -= 1
        self.bad += [k for k in sample if k not in ('a',)]
        return self.F(sample['a'])


def quiet(c):
    c.setattr(br.multiprocessing, 'Pool', Pool)
    import tqdm.auto
    c.setattr(tqdm.auto, 'tqdm', lambda x=None, **k: x)
    if c.sym:
        import scipy.special
        from pydv.env import logsumexp_sym
        c.setattr(scipy.special, 'logsumexp', logsumexp_sym(scipy.special.logsumexp))


def result(c, n=3, prior=True, index=None, nested=False, evidence=True, **k):
    a = [c.real('a%d' % i) for i in range(n)]
    l = [c.real('l%d' % i) for i in range(n)]
    p = [c.real('p%d' % i) for i in range(n)]
    cols = dict(a=a, log_likelihood=l)
    if prior:
        cols['log_prior'] = p
    z, noise = c.real('lnz'), c.real('noise')
    r = br.Result(label='run', outdir='.', search_parameter_keys=['a'], priors=bp.PriorDict(dict(a=bp.Uniform(0, 1, 'a'))),
                  posterior=frame(c, cols, index), log_evidence=z, log_noise_evidence=noise, log_bayes_factor=z - noise, **k)
    if nested:
        w = [c.pos('w%d' % i) for i in range(n)]
        r.nested_samples = frame(c, dict(a=a, log_likelihood=l, weights=w), index)
        r.w = w
    r.a, r.l, r.p = a, l, p
    return r


def setup(c, kind=None):
    """any choice of the new and old likelihood and prior; the expected logarithm of the weights"""
    have = {x: c.choice(x, [True, False]) for x in ('new_likelihood', 'new_prior', 'old_likelihood', 'old_prior')}
    have.update(kind or {})
    F = {x: c.func(x, 1) for x in have}
    kw = {x: None if not h else (Like(F[x]) if 'like' in x else Prior(F[x], a=bp.Uniform(-1, 1, 'a'))) for x, h in have.items()}
    return have, F, kw


def expected(r, have, F, stored=True):
    out = []
    for a, l, p in zip(r.a, r.l, r.p):
        ol = F['old_likelihood'](a) if have['old_likelihood'] else l
        nl = F['new_likelihood'](a) if have['new_likelihood'] else ol
        op = F['old_prior'](a) if have['old_prior'] else (p if stored else NAN)
        np_ = F['new_prior'](a) if have['new_prior'] else op
        out.append((nl - ol + (np_ - op if have['new_prior'] else 0), nl, np_, ol, op))
    return out


# ------------------------------------------------------------------------------------------------ reweighting
@contract("P15", "weights", bound="three samples")
def _(c):
    quiet(c)
    have, F, kw = setup(c)
    stored = c.choice('stored_prior', [True, False]) if not (have['new_prior'] and not have['old_prior']) else True
    r = result(c, prior=stored, index=c.choice('index', [None, [4, 2, 0]]))
    got = br.get_weights_for_reweighting(r, **kw)
    want = expected(r, have, F, stored)
    c.ensure_eq('weights', list(got[0]), [w[0] for w in want])
    c.ensure_eq('new-likelihood', list(got[1]), [w[1] for w in want])
    c.ensure_eq('old-likelihood', list(got[3]), [w[3] for w in want])
    if stored or have['old_prior']:
        c.ensure_eq('new-prior', list(got[2]), [w[2] for w in want])
        c.ensure_eq('old-prior', list(got[4]), [w[4] for w in want])
    c.ensure('prior-of-the-parameters', not any(p.bad for p in (kw['new_prior'], kw['old_prior']) if p))
    c.ensure('samples-kept', list(r.posterior.keys()) == ['a', 'log_likelihood'] + ['log_prior'] * stored)


@contract("P15", "weights after an interruption", bound="four samples, every interruption and checkpoint interval")
def _(c):
    quiet(c)
    n = 4
    have = dict(new_likelihood=True, new_prior=True, old_likelihood=c.choice('old_likelihood', [True, False]), old_prior=True)
    F = {x: c.func(x, 1) for x in have}
    new, old = Prior(F['new_prior'], c.choice('stop', [0, 1, 2, 3, None])), Prior(F['old_prior'])
    kw = dict(new_likelihood=Like(F['new_likelihood']), new_prior=new, old_prior=old,
              old_likelihood=Like(F['old_likelihood']) if have['old_likelihood'] else None)
    r = result(c, n)
    d = tempfile.mkdtemp(prefix='pydv_')
    f = os.path.join(d, 'resume.txt')
    store = {}

    def save(name, x, **k):
        open(name, 'w').close()
        store['x'] = [np.array(v) for v in x]

    if c.sym:
        from pydv import sym
        c.setattr(np, 'savetxt', save)
        c.setattr(np, 'genfromtxt', lambda name, **k: [v.copy() for v in store['x']])
        sym.FUNC['savetxt'] = save
    try:
        opts = dict(resume_file=f, n_checkpoint=c.choice('n_checkpoint', [1, 2, 5000]))
        try:
            br.get_weights_for_reweighting(r, **kw, **opts)
        except Stop:
            pass
        new.left = None
        got = br.get_weights_for_reweighting(r, **kw, **opts)
    finally:
        shutil.rmtree(d)
    want = expected(r, have, F)
    for i, name in enumerate(['weights', 'new-likelihood', 'new-prior', 'old-likelihood', 'old-prior']):
        c.ensure_eq('resumed-' + name, list(got[i]), [w[i] for w in want])


@contract("P15", "rejection sampling", bound="three samples")
def _(c):
    a, w = [c.real('a%d' % i) for i in range(3)], [c.pos('w%d' % i) for i in range(3)]
    u = [c.unit('u%d' % i, open=True) for i in range(3)]
    rng(c, uniform=u)
    df = frame(c, dict(a=a))
    got = br.rejection_sample(df, obj(c, w))
    top = a_max(w)
    want = [x for x, v, y in zip(a, w, u) if bool(v > y * top)]
    c.ensure_eq('kept', list(got['a']), want)


def a_max(v):
    m = v[0]
    for x in v[1:]:
        m = x if bool(x > m) else m
    return m


@contract("P15", "reweight", bound="two samples")
def _(c):
    quiet(c)
    # which of the likelihoods and priors are given is any combination in "weights"
    nested, given = c.choice('nested and given', [(False, 'lp'), (False, 'l'), (False, 'p'), (True, 'lp'), (True, 'lpo')])
    have = dict(new_likelihood='l' in given, new_prior='p' in given, old_prior='o' in given or (nested and 'p' in given),
                old_likelihood='o' in given)
    F = {x: c.func(x, 1) for x in have}
    kw = {x: None if not h else (Like(F[x]) if 'like' in x else Prior(F[x], a=bp.Uniform(-1, 1, 'a'))) for x, h in have.items()}
    r = result(c, 2, nested=nested, meta_data=dict(this='that'))
    priors = copy.copy(dict(r.priors))
    before = (r.nested_samples if nested else r.posterior).copy()
    z, b = r.log_evidence, r.log_bayes_factor
    u = [c.unit('u%d' % i, open=True) for i in range(2)]
    rng(c, uniform=list(u))
    label = 'other' if 'o' in given or given == 'p' else None
    seen = []

    def conversion(df, like, pri):
        seen.append((df, like, pri))
        df = df.copy()
        df['extra'] = [1.] * len(df)
        return df
    new = br.reweight(r, label=label, use_nested_samples=nested, conversion_function=conversion if given == 'lp' else None, **kw)
    want = expected(r, have, F, not nested)
    w = [np.exp(x[0]) * (r.w[i] if nested else 1) for i, x in enumerate(want)]
    top = a_max(w)
    keep = [i for i in range(2) if bool(w[i] > u[i] * top)]
    c.ensure_eq('samples', list(new.posterior['a']), [r.a[i] for i in keep])
    c.ensure_eq('likelihood', list(new.posterior['log_likelihood']), [want[i][1] for i in keep])
    if not nested or have['new_prior']:
        c.ensure_eq('prior', list(new.posterior['log_prior']), [want[i][2] for i in keep])
    c.ensure('numbered', list(new.posterior.index) == list(range(len(keep))))
    change = np.log(sum(w)) if nested else np.log(sum(w) / 2)
    c.ensure_eq('evidence', new.log_evidence, z + change)
    c.ensure_eq('bayes-factor', new.log_bayes_factor, b + change)
    c.ensure('label', new.label == ('other' if label else 'run_reweighted') and r.label == 'run')
    c.ensure('priors', new.priors['a'] is (kw['new_prior']['a'] if have['new_prior'] else priors['a']))
    if seen:
        c.ensure('conversion', len(seen) == 1 and seen[0][1] is kw['new_likelihood'] and seen[0][2] is kw['new_prior'] and
                 list(new.posterior['extra']) == [1.] * len(keep))
    # the original
    after = r.nested_samples if nested else r.posterior
    c.ensure('original-columns', list(after.keys()) == list(before.keys()) and len(after) == 2)
    c.ensure_eq('original-samples', [v for k in before for v in after[k]], [v for k in before for v in before[k]])
    c.ensure_eq('original-evidence', r.log_evidence, z)
    c.ensure('original-priors', dict(r.priors) == priors and r.priors['a'] is priors['a'] and r.meta_data == dict(this='that'))


# ------------------------------------------------------------------------------------------------ combination
def several(c, n, kind, errors, sizes=(2, 2, 2)):
    out = []
    noise = c.real('noise')
    for i in range(n):
        m = sizes[i]
        a = [c.real('a%d%d' % (i, j)) for j in range(m)]
        k = dict(nested_samples=frame(c, dict(a=a))) if kind == 'nested' else {}
        err = ['finite', 'nan'][int(errors[i])]
        z = c.real('z%d' % i)
        r = br.Result(label='run', outdir='.', sampler='bilby_mcmc' if kind == 'mcmc' else 'x', search_parameter_keys=['a'],
                      priors=bp.PriorDict(dict(a=bp.Uniform(0, 1, 'a'))), posterior=frame(c, dict(a=a), index=[5, 3][:m]),
                      log_evidence=z, log_evidence_err=c.pos('e%d' % i) if err == 'finite' else np.nan,
                      log_noise_evidence=noise, log_bayes_factor=z - noise, **k)
        r.a, r.z = a, z
        out.append(r)
    return out


@contract("P15", "combine", bound="two or three results of two samples")
def _(c):
    quiet(c)
    kind = c.choice('kind', ['nested', 'mcmc', 'other'])
    n = 3 if kind == 'mcmc' else 2
    rs = several(c, n, kind, c.choice('errors', ['00', '01', '11'] if n == 2 else ['000', '010', '110']))
    c.setattr(br.ResultList, 'check_consistent_data', lambda self: None)
    u = [c.unit('u%d' % i, open=True) for i in range(2 * n)]
    rng(c, uniform=list(u))
    first = dict(vars(rs[0]))
    lists = br.ResultList(rs)
    new = lists.combine()
    if kind == 'nested':
        top = a_max([r.z for r in rs])
        want = [r.a[j] for i, r in enumerate(rs) for j in range(2) if bool(u[2 * i + j] < np.exp(r.z - top))]
    else:
        want = [x for r in rs for x in r.a]
    c.ensure_eq('samples', list(new.posterior['a']), want)
    c.ensure('numbered', list(new.posterior.index) == list(range(len(want))))
    if kind != 'other':
        c.ensure_eq('evidence', new.log_evidence, np.log(sum(np.exp(r.z) for r in rs) / n))
        c.ensure_eq('bayes-factor', new.log_bayes_factor, new.log_evidence - new.log_noise_evidence)
        errs = [r.log_evidence_err for r in rs if not isinstance(r.log_evidence_err, float) or np.isfinite(r.log_evidence_err)]
        if errs:
            c.ensure_eq('error', new.log_evidence_err, np.log(sum(np.exp(2 * e) for e in errs) / len(errs)) / 2)
        else:
            c.ensure('error-unknown', np.isnan(new.log_evidence_err))
    c.ensure('label', new.label == 'run_combined')
    c.ensure('originals', all(v is first[k] or v == first[k] for k, v in vars(rs[0]).items() if k not in ('_posterior', '_nested_samples'))
             and rs[0]._posterior is first['_posterior'] and rs[0]._nested_samples is first['_nested_samples'] and len(lists) == n)
    c.ensure('nested-samples-dropped', new._nested_samples is None)


@contract("P15", "combine one result")
def _(c):
    r, = several(c, 1, 'other', '0')
    new = br.ResultList([r]).combine()
    c.ensure_eq('samples', list(new.posterior['a']), r.a)
    c.ensure_eq('evidence', new.log_evidence, r.z)


@contract("P15", "only consistent results are combined", bound="three results; each may differ in each respect")
def _(c):
    quiet(c)
    what = c.choice('what', ['sampler', 'noise', 'parameters', 'prior value', 'more priors', 'fewer priors', 'other priors', 'nested'])
    rs = several(c, 3, dict(nested='nested', noise='mcmc').get(what, 'other'), '000')
    i = c.choice('which', [0, 1, 2])
    r = rs[i]
    d = c.real('difference')
    c.assume(abs(d) > 1e-7)
    if what == 'sampler':
        r.sampler = 'another'
    elif what == 'noise':
        r.log_noise_evidence = r.log_noise_evidence + d
    elif what == 'parameters':
        r.search_parameter_keys = c.choice('keys', [['b'], ['a', 'b'], []])
    elif what == 'prior value':
        r.priors = bp.PriorDict(dict(a=bp.Uniform(0, 2, 'a')))
    elif what == 'more priors':
        r.priors = bp.PriorDict(dict(a=bp.Uniform(0, 1, 'a'), b=bp.Uniform(0, 1, 'b')))
    elif what == 'fewer priors':
        r.priors = bp.PriorDict(dict())
    elif what == 'other priors':
        r.priors = bp.PriorDict(dict(b=bp.Uniform(0, 1, 'a')))
    elif i:
        for j, x in enumerate(rs):
            x.nested_samples = None if j == i else frame(c, dict(a=x.a))
    else:            # without nested samples of the first they are combined as other samples
        return
    lists = br.ResultList(rs)
    c.ensure('refused-' + what, c.raises(br.ResultListError, lists.combine))


@contract("P15", "consistent results are combined")
def _(c):
    quiet(c)
    rs = several(c, 2, 'other', '00')
    d = c.real('difference', -1e-9, 1e-9)
    rs[1].log_noise_evidence = rs[1].log_noise_evidence + d
    rs[1].search_parameter_keys = ['a']
    rs[1].priors = bp.PriorDict(dict(a=bp.Uniform(0, 1, 'a')))
    c.ensure('combined', len(br.ResultList(rs).combine().posterior) == 4)


@contract("P15", "several results are shuffled together", bound="two results of two samples")
def _(c):
    quiet(c)
    rs = several(c, 2, 'other', '00')
    c.setattr(br.ResultList, 'check_consistent_data', lambda self: None)
    orders, seed = [], c.choice('seed', [1, 2, 3])
    for i in range(2):
        c.setattr(brandom, 'rng', np.random.Generator(np.random.PCG64(seed)))
        new = br.ResultList(rs).combine(shuffle=True)
        got = list(new.posterior['a'])
        c.ensure('numbered', list(new.posterior.index) == [0, 1, 2, 3])
        rest = [x for r in rs for x in r.a]
        order = []
        for g in got:
            k = [j for j, x in enumerate(rest) if x is not None and (x is g or (not c.sym and x == g))]
            c.ensure('once-each', len(k) > 0)
            order.append(k[0])
            rest[k[0]] = None
        orders.append(order)
    c.ensure('seeded', orders[0] == orders[1])


# ------------------------------------------------------------------------------------------------ summaries
def laplace(M):
    M = np.asarray(M)
    if M.shape == (1, 1):
        return M[0, 0]
    return sum((-1) ** j * M[0, j] * laplace(np.delete(M[1:], j, axis=1)) for j in range(M.shape[1]))


def plain_result(c, names, n, extra=(), **k):
    cols = {x: [c.real(x + str(i)) for i in range(n)] for x in list(names) + list(extra)}
    r = br.Result(label='run', outdir='.', search_parameter_keys=list(names), posterior=frame(c, cols), **k)
    return r, cols


@contract("P15", "covariance and volumes", bound="three samples of one or two parameters")
def _(c):
    if c.sym:
        c.setattr(np.linalg, 'det', lambda M: laplace(M))
    names = c.choice('names', ['a', 'ab', 'ba'])
    n = 3
    r, cols = plain_result(c, names, n, ['z', 'log_likelihood'])
    cov = r.covariance_matrix
    mean = {k: sum(v) / n for k, v in cols.items()}
    want = [[sum((x - mean[k]) * (y - mean[j]) for x, y in zip(cols[k], cols[j])) / (n - 1) for j in names] for k in names]
    got = np.reshape(cov, (len(names), len(names)))
    c.ensure_eq('covariance', [v for row in got for v in row], [v for row in want for v in row])
    det = want[0][0] if names == 'a' else want[0][0] * want[1][1] - want[0][1] * want[1][0]
    c.ensure_eq('posterior-volume', r.posterior_volume ** 2, abs(det))
    c.ensure('posterior-volume-positive', r.posterior_volume >= 0)
    w = {k: c.pos('w' + k) for k in names}
    lo = {k: c.real('lo' + k) for k in names}
    priors = bp.PriorDict({k: bp.Uniform(lo[k], lo[k] + w[k], k) for k in names})
    vol = w['a'] * (w['b'] if 'b' in names else 1)
    c.ensure_eq('prior-volume', r.prior_volume(priors), vol)
    c.ensure_eq('occam', r.occam_factor(priors) * vol, r.posterior_volume)
    l = cols['log_likelihood']
    c.ensure_eq('dimensionality', r.bayesian_model_dimensionality, 2 * sum((x - mean['log_likelihood']) ** 2 for x in l) / n)


@contract("P15", "base ten")
def _(c):
    z, noise, e = c.real('z'), c.real('noise'), c.pos('e')
    r = br.Result(log_evidence=z, log_noise_evidence=noise, log_evidence_err=e, log_bayes_factor=z - noise)
    ten = np.log(10)
    c.ensure_eq('evidence', r.log_10_evidence * ten, z)
    c.ensure_eq('noise', r.log_10_noise_evidence * ten, noise)
    c.ensure_eq('error', r.log_10_evidence_err * ten, e)
    c.ensure_eq('bayes-factor', r.log_10_bayes_factor * ten, z - noise)


@contract("P15", "median and error bar", bound="four samples")
def _(c):
    r, cols = plain_result(c, 'a', 4, ['b'])
    lo, hi = c.choice('quantiles', [(0.16, 0.84), (0.05, 0.95), (0.25, 0.75)])
    key = c.choice('key', ['a', 'b'])
    s = r.get_one_dimensional_median_and_error_bar(key, quantiles=(lo, hi))
    x = cols[key]
    srt = []
    for v in x:
        i = len(srt)
        while i and bool(v < srt[i - 1]):
            i -= 1
        srt.insert(i, v)

    def q(f):
        h = f * 3
        i = min(int(h), 2)
        return srt[i] + (h - i) * (srt[i + 1] - srt[i])
    c.ensure_eq('median', s.median, (srt[1] + srt[2]) / 2)
    c.ensure_eq('plus', s.median + s.plus, q(hi))
    c.ensure_eq('minus', s.median - s.minus, q(lo))
    c.ensure('two-quantiles', c.raises(ValueError, r.get_one_dimensional_median_and_error_bar, key, quantiles=(0.1,)))


@contract("P15", "credible level of the injection", bound="three samples")
def _(c):
    r, cols = plain_result(c, 'ab', 3)
    t = c.real('truth')
    r.injection_parameters = dict(a=t, c=1.)
    weighted = c.choice('weighted', [False, True])
    w = [c.pos('w%d' % i) for i in range(3)] if weighted else [1., 1., 1.]
    c.assume(sum(w) > 0)
    got = r.get_injection_credible_level('a', weights=obj(c, w) if weighted else None)
    below = 0
    for v, x in zip(w, cols['a']):
        below = below + (v if bool(x < t) else 0)
    c.ensure_eq('level', got * sum(w), below)
    c.ensure('fraction', bool(got >= 0) and bool(got <= 1))
    c.ensure('unknown', np.isnan(r.get_injection_credible_level('b')) and np.isnan(r.get_injection_credible_level('c')))
    every = r.get_all_injection_credible_levels(weights=obj(c, w) if weighted else None)
    c.ensure('all', list(every) == ['a'])
    c.ensure_eq('all-level', every['a'], got)


class Density(bp.Prior):
    def __init__(self, F, **k):
        super().__init__(**k)
        self.F = F

    def prob(self, val):
        return np.exp(self.F(val))


@contract("P15", "weights by a new prior", bound="three samples of two parameters")
def _(c):
    r, cols = plain_result(c, 'ab', 3, ['log_likelihood'])
    r.posterior.index = c.choice('index', [[0, 1, 2], [2, 0, 1], [7, 7, 3]])
    F = {x: c.func(x, 1) for x in ('new_a', 'new_b', 'old_a', 'old_b')}
    limit = c.real('limit')
    new, old = bp.PriorDict(), bp.PriorDict()
    for k in 'ab':
        new[k], old[k] = Density(F['new_' + k], name=k), Density(F['old_' + k], name=k)
    if c.choice('new_only', [False, True]):
        new['c'] = bp.Uniform(0, 1, 'c')
    else:
        old['d'] = bp.Uniform(0, 1, 'd')
    names = c.choice('names', [None, ['a'], ['a', 'b'], ['b', 'x']])
    got = r.get_weights_by_new_prior(old, new, prior_names=names)
    want = []
    for i in range(3):
        w = 1
        for k in 'ab':
            if names is None or k in names:
                w = w * np.exp(F['new_' + k](cols[k][i]) - F['old_' + k](cols[k][i]))
        want.append(w)
    c.ensure_eq('ratio', list(got), want)


@contract("P15", "weights by a new prior with constraints", bound="two samples")
def _(c):
    r, cols = plain_result(c, 'ab', 2)
    F = {x: c.func(x, 1) for x in ('new_a', 'old_a', 'new_b', 'old_b')}
    hi = c.real('hi')

    def conversion(p):
        p = dict(p)
        p['sum'] = p['a'] + p['b']
        return p
    new, old = [bp.PriorDict({k: Density(F[x + k], name=k) for k in 'ab'}, conversion_function=conversion) for x in ('new_', 'old_')]
    new['sum'] = bp.Constraint(hi - 1, hi, 'sum')
    got = r.get_weights_by_new_prior(old, new)
    for i in range(2):
        s = cols['a'][i] + cols['b'][i]
        if bool(s > hi - 1) and bool(s < hi):
            c.ensure_eq('inside', got[i], np.exp(sum(F['new_' + k](cols[k][i]) - F['old_' + k](cols[k][i]) for k in 'ab')))
        else:
            c.ensure_eq('outside', got[i], 0)


@contract("P15", "density of the posterior", bound="four samples of two parameters")
def _(c):
    made = []

    class KDE(object):
        def __init__(self, x):
            self.x = x
            made.append(self)

        def __call__(self, points):
            return ('density', self, points)
    c.setattr(br.scipy.stats, 'gaussian_kde', KDE)
    r, cols = plain_result(c, 'ab', 4)
    again = c.choice('again', ['same', 'set'])
    r.posterior_probability(dict(a=0., b=0.))
    if again == 'set':
        cols = {k: [c.real('new_' + k + str(i)) for i in range(3)] for k in 'ba'}
        r.posterior = frame(c, cols)
    x, y = c.real('x'), c.real('y')
    sample = dict(b=y, a=x, other=1.)
    out = r.posterior_probability(c.choice('form', [sample, [sample]]))
    c.ensure('estimates', len(made) == (2 if again == 'set' else 1) and out[1] is made[-1])
    c.ensure_eq('samples', [v for row in made[-1].x for v in row], [v for k in 'ab' for v in cols[k]])
    c.ensure_eq('point', list(np.asarray(out[2], dtype=object).reshape(-1)), [x, y])


@contract("P15", "density of several points", bound="two and three points of two parameters")
def _(c):
    """scipy.stats.gaussian_kde takes one row per parameter"""
    class KDE(object):
        def __init__(self, x):
            pass

        def __call__(self, points):
            return points
    c.setattr(br.scipy.stats, 'gaussian_kde', KDE)
    r, cols = plain_result(c, 'ab', 4)
    n = c.choice('points', [2, 3])
    x, y = [[c.real(k + str(i)) for i in range(n)] for k in 'xy']
    got = np.asarray(r.posterior_probability([dict(b=q, a=p) for p, q in zip(x, y)]), dtype=object)
    c.ensure('one-row-per-parameter', got.shape == (2, n))
    c.ensure_eq('parameters', list(got.reshape(-1)), x + y)


@contract("P15", "samples to posterior", bound="two samples of two parameters")
def _(c):
    S = [[c.real('s%d%d' % (i, j)) for j in range(2)] for i in range(2)]
    names = c.choice('names', ['ab', 'ba'])
    l, lp = [[c.real(k + str(i)) for i in range(2)] for k in ('l', 'p')]
    peak = c.real('peak')
    stored = c.choice('stored', [True, False])
    r = br.Result(label='run', outdir='.', search_parameter_keys=list(names), samples=np.array(S, dtype=object if c.sym else float),
                  log_likelihood_evaluations=obj(c, l), log_prior_evaluations=obj(c, lp) if stored else None)
    F = {x: c.func(x, 1) for x in 'ab'}
    pri = bp.PriorDict(dict(a=Density(F['a'], name='a'), f=bp.DeltaFunction(peak, 'f'), b=Density(F['b'], name='b')))
    for k in 'ab':
        pri[k].ln_prob = lambda v, k=k: np.array([F[k](x) for x in v], dtype=object if c.sym else float)
    like = bilby.Likelihood(dict())
    calls = []

    def conversion(df, likelihood, priors):
        calls.append((likelihood, priors))
        df = df.copy()
        df['extra'] = [1., 2.]
        return df

    def conversion_pool(df, likelihood, priors, npool=None):
        calls.append(npool)
        return conversion(df, likelihood, priors)
    f = c.choice('conversion', [None, conversion, conversion_pool])
    r.samples_to_posterior(likelihood=like, priors=pri, conversion_function=f, npool=3)
    post = r.posterior
    c.ensure('columns', list(post.keys()) == list(names) + ['f', 'log_likelihood', 'log_prior'] + ['extra'] * (f is not None))
    for j, k in enumerate(names):
        c.ensure_eq('column', list(post[k]), [S[i][j] for i in range(2)])
    c.ensure_eq('fixed', list(post['f']), [peak, peak])
    c.ensure_eq('likelihood', list(post['log_likelihood']), l)
    want = lp if stored else [sum(F[k](S[i][j]) for j, k in enumerate(names)) for i in range(2)]
    c.ensure_eq('prior', list(post['log_prior']), want)
    if f is not None:
        c.ensure('conversion', calls[-1] == (like, pri) and (f is conversion or calls[0] == 3))


@contract("P15", "prior values of the posterior", bound="two samples of two parameters")
def _(c):
    r, cols = plain_result(c, 'ab', 2, ['f'])
    F = {x: c.func(x, 1) for x in 'ab'}
    pri = bp.PriorDict(dict(a=Density(F['a'], name='a'), f=bp.DeltaFunction(1, 'f'), b=Density(F['b'], name='b'), x=bp.Uniform(0, 1, 'x')))
    for k in 'ab':
        pri[k].prob = lambda v, k=k: np.array([F[k](x) for x in v], dtype=object if c.sym else float)
    r.calculate_prior_values(pri)
    c.ensure('columns', sorted(r.prior_values.keys()) == ['a', 'b'])
    for k in 'ab':
        c.ensure_eq('density', list(r.prior_values[k]), [F[k](x) for x in cols[k]])
