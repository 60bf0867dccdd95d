"""P16: results, priors and settings read back from files as they were saved; a save that fails or is interrupted loses nothing."""
import datetime
import gzip
import io
import json
import os
import shutil
import tempfile
import numpy as np
import pandas as pd
from pydv.contract import contract
import bilby
import bilby.core.prior as bp
import bilby.core.result as br
import bilby.core.utils.io as bio
import bilby.gw.prior as gp
import bilby.gw.result as gr

ASSUMPTIONS = ["json is replaced by its documented mapping of nested values (keys to strings, tuples to lists, default and object_hook) "
               "in symbolic runs", "hdf5, pickle and gzip are the real libraries, on enumerated kinds of values with fixed numbers"]


class JSON(object):
    """the json module as a mapping of trees of (symbolic) values; the text is the name of the tree"""

    def __init__(self, c):
        self.trees = {}
        if c.sym:
            self.real = {k: getattr(json, k) for k in ('dumps', 'loads', 'dump', 'load')}
            for k in self.real:
                c.setattr(json, k, getattr(self, k))

    def encode(self, v, enc):
        from pydv.sym import SymReal
        if v is None or isinstance(v, (str, bool, SymReal)):
            return v
        if isinstance(v, dict):
            if any(not isinstance(k, (str, int, float, bool, type(None))) for k in v):
                raise TypeError('keys must be str, int, float, bool or None')
            return {str(k): self.encode(x, enc) for k, x in v.items()}
        if isinstance(v, (list, tuple)):
            return [self.encode(x, enc) for x in v]
        if isinstance(v, float):
            return float(v)
        if isinstance(v, int):
            return int(v)
        return self.encode(enc(v), enc)

    def decode(self, v, hook):
        if isinstance(v, dict):
            out = {k: self.decode(x, hook) for k, x in v.items()}
            return hook(out) if hook else out
        if isinstance(v, list):
            return [self.decode(x, hook) for x in v]
        return v

    def dumps(self, v, cls=json.JSONEncoder, **k):
        name = '"tree %d"' % len(self.trees)
        self.trees[name] = self.encode(v, cls().default)
        return name

    def loads(self, s, object_hook=None, **k):
        if s not in self.trees:
            return self.real['loads'](s, object_hook=object_hook)
        return self.decode(self.trees[s], object_hook)

    def dump(self, v, file, cls=json.JSONEncoder, **k):
        file.write(self.dumps(v, cls=cls))

    def load(self, file, object_hook=None, **k):
        return self.loads(file.read(), object_hook=object_hook)


class scratch(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='pydv_')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def flat(v):
    return list(np.asarray(v, dtype=object).reshape(-1)) if isinstance(v, np.ndarray) else list(v)


def same(c, label, a, b):
    """the value read back is of the same kind and value"""
    if isinstance(a, bp.Prior):
        c.ensure(label + '-class', type(a) is type(b))
        x, y = a.get_instantiation_dict(), b.get_instantiation_dict()
        c.ensure(label + '-arguments', list(x) == list(y))
        for k in x:
            same(c, label, x[k], y[k])
    elif isinstance(a, dict):
        c.ensure(label + '-kind', isinstance(b, dict) and type(a) is type(b) and set(a) == set(b))
        for k in a:
            same(c, label, a[k], b[k])
    elif isinstance(a, np.ndarray):
        c.ensure(label + '-shape', isinstance(b, np.ndarray) and a.shape == b.shape)
        for x, y in zip(flat(a), flat(b)):
            same(c, label, x, y)
    elif isinstance(a, (list, tuple)):
        c.ensure(label + '-kind', type(a) is type(b) and len(a) == len(b))
        for x, y in zip(a, b):
            same(c, label, x, y)
    elif isinstance(a, pd.DataFrame):
        c.ensure(label + '-columns', isinstance(b, pd.DataFrame) and set(a.keys()) == set(b.keys()) and len(a) == len(b))
        for k in a:
            same(c, label, list(a[k]), list(b[k]))
    elif isinstance(a, pd.Series):
        c.ensure(label + '-index', isinstance(b, pd.Series) and list(a.index) == list(b.index))
        same(c, label, list(a), list(b))
    elif a is None or isinstance(a, (str, bool, np.bool_, datetime.timedelta)) or callable(a):
        c.ensure(label + '-value', a is b or bool(a == b))
    elif isinstance(a, float) and np.isnan(a):
        c.ensure(label + '-value', bool(np.isnan(b)))
    elif isinstance(a, float) and np.isinf(a):
        c.ensure(label + '-value', a == b)
    elif isinstance(a, (complex, np.complexfloating)):
        c.ensure_eq(label, [b.real, b.imag], [a.real, a.imag], rtol=0, atol=0)
    else:
        c.ensure_eq(label, b, a, rtol=0, atol=0)


def cond(reference_params, other):
    return dict(minimum=reference_params['minimum'], maximum=other)


# ------------------------------------------------------------------------------------------------ values
def arr(c, v):
    return np.array(v, dtype=object if c.sym else float)


KINDS = dict(
    number=lambda c, x, y: x, none=lambda c, x, y: None, text=lambda c, x, y: 'some text', empty=lambda c, x, y: '',
    accents=lambda c, x, y: 'é $\\alpha$ "\'', flag=lambda c, x, y: True, integer=lambda c, x, y: 7,
    nan=lambda c, x, y: np.nan, infinite=lambda c, x, y: -np.inf,
    np_float=lambda c, x, y: np.float32(1.5), np_int=lambda c, x, y: np.int32(-3), np_bool=lambda c, x, y: np.bool_(True),
    np_false=lambda c, x, y: np.bool_(False), number_list=lambda c, x, y: [x, y],
    complex=lambda c, x, y: 1.5 - 2j, np_complex=lambda c, x, y: np.complex64(1.5 - 2j),
    array=lambda c, x, y: arr(c, [x, y]), matrix=lambda c, x, y: arr(c, [[x, y], [y, x], [1., 2.]]),
    complex_array=lambda c, x, y: np.array([1 + 2j, 3.]), bools=lambda c, x, y: np.array([True, False]),
    integers=lambda c, x, y: np.array([[3, 4]]),
    nested=lambda c, x, y: dict(a=dict(b=x, c=dict(d=None)), e=[y]),
    frame=lambda c, x, y: pd.DataFrame(dict(b=arr(c, [x, y]), a=arr(c, [1., y]))),
    series=lambda c, x, y: pd.Series(arr(c, [x, y, 1.]), index=['b', 'b', 'a']),
    numbered_series=lambda c, x, y: pd.Series(arr(c, [x, y])),
    function=lambda c, x, y: cond, klass=lambda c, x, y: bp.Uniform, time=lambda c, x, y: datetime.timedelta(days=3, seconds=1.25),
    prior=lambda c, x, y: bp.Gaussian(mu=x, sigma=2., name='a'), lists=lambda c, x, y: [[x], [y, None, 'a'], dict(z=x)],
    priors=lambda c, x, y: [bp.Gaussian(x, 1.), dict(p=bp.DeltaFunction(y))])


@contract("P16", "values written as json", bound="every kind of value a result may hold; lists and arrays of two to six elements")
def _(c):
    JSON(c)
    kind = c.choice('kind', list(KINDS))
    x, y = c.real('x'), c.real('y')
    v = KINDS[kind](c, x, y)
    with scratch() as d:
        f = os.path.join(d, 'file.json')
        with open(f, 'w') as ff:
            json.dump(dict(outer=v, other=1), ff, cls=bio.BilbyJsonEncoder, indent=2)
        got = bio.load_json(f, False)
    c.ensure('alone', list(got) == ['outer', 'other'])
    if kind.startswith('np_'):
        v = v.item()
    same(c, kind, v, got['outer'])


H5KINDS = dict(
    number=lambda: .1, none=lambda: None, text=lambda: 'some text', empty=lambda: '', accents=lambda: 'é $\\alpha$ "\'', flag=lambda: True,
    integer=lambda: -7, nan=lambda: np.nan, infinite=lambda: np.inf, np_float=lambda: np.float32(1.5), np_int=lambda: np.int16(-3),
    np_bool=lambda: np.bool_(False), complex=lambda: 1.5 - 2j, np_complex=lambda: np.complex64(2j), array=lambda: np.array([.1, 1e-300, 3.]),
    matrix=lambda: np.arange(6.).reshape(2, 3) / 3, complex_array=lambda: np.array([1 + 2j, .3]), bools=lambda: np.array([True, False]),
    integers=lambda: np.array([[3, 4]]), texts=lambda: ['a', 'bc', 'é'], missing=lambda: ['a', None], only_missing=lambda: [None, None],
    nested=lambda: dict(a=dict(b=.1, c=dict(d=None)), e='x'), empty_dict=lambda: dict(), nested_empty=lambda: dict(a=dict(), b=1.))


@contract("P16", "values written as hdf5", bound="every kind of value a result may hold, fixed numbers, the real file format")
def _(c):
    import h5py
    kind = c.choice('kind', list(H5KINDS))
    v = H5KINDS[kind]()
    with scratch() as d:
        f = os.path.join(d, 'file.hdf5')
        with h5py.File(f, 'w') as ff:
            bio.recursively_save_dict_contents_to_group(ff, '/', dict(outer=v, other=1))
        with h5py.File(f, 'r') as ff:
            got = bio.recursively_load_dict_contents_from_group(ff, '/')
    c.ensure('alone', set(got) == {'outer', 'other'})
    v, got = [x.item() if isinstance(x, np.generic) else x for x in (v, got['outer'])]
    same(c, kind, v, got)


@contract("P16", "lists written as hdf5", bound="lists of numbers and flags, fixed numbers, the real file format")
def _(c):
    import h5py
    v = c.choice('list', [[.1, 2.], [1, 2], [True, False], [[1., 2.], [3., 4.]], [1j, 2.], [np.float64(2.), 3]])
    with scratch() as d:
        f = os.path.join(d, 'file.hdf5')
        with h5py.File(f, 'w') as ff:
            bio.recursively_save_dict_contents_to_group(ff, '/', dict(outer=v))
        with h5py.File(f, 'r') as ff:
            got = bio.recursively_load_dict_contents_from_group(ff, '/')
    c.ensure('value', isinstance(got['outer'], np.ndarray) and np.array_equal(got['outer'], np.array(v)))


# ------------------------------------------------------------------------------------------------ priors
def prior_cases(c, x, w):
    lab = dict(name='a', latex_label='$\\alpha_{a, b}$', unit='kg m')
    P = bp
    dist = P.MultivariateGaussianDist(['a', 'b'], mus=[0., 1.], covs=[[1., .9], [.9, 2.]], bounds=[[-5., 5.], [-3., 4.]])
    return dict(
        uniform=lambda: dict(a=P.Uniform(x, x + w, boundary='periodic', **lab)),
        gaussian=lambda: dict(a=P.Gaussian(x, w, **lab), b=P.LogNormal(x, w)),
        delta=lambda: dict(a=P.DeltaFunction(x, **lab), b=P.Uniform(0., 1.)),
        truncated=lambda: dict(a=P.TruncatedGaussian(x, 2., -np.inf, 4., **lab)),
        constraint=lambda: dict(a=P.Uniform(0., 1.), s=P.Constraint(x, x + w, **lab)),
        half=lambda: dict(a=P.HalfGaussian(w), b=P.Exponential(w), c=P.StudentT(3., x, w), d=P.Beta(2., 3., x, x + w), e=P.Logistic(x, w)),
        cauchy=lambda: dict(a=P.Cauchy(x, w), b=P.Gamma(2., w), c=P.ChiSquared(2), d=P.FermiDirac(2., r=3., mu=4.)),
        trig=lambda: dict(a=P.Sine(**lab), b=P.Cosine(minimum=0., maximum=1.)),
        slab=lambda: dict(a=P.SlabSpikePrior(P.Uniform(0., 4., latex_label='a, b'), spike_location=1., spike_height=.25)),
        triangular=lambda: dict(a=P.Triangular(.5, 0., 1.), b=P.Categorical(4), c=P.PowerLaw(-2., 1., 3.), d=P.LogUniform(1., 2.)),
        conditional=lambda: dict(b=P.ConditionalUniform(condition_func=cond, minimum=x, maximum=x + w, name='b'), other=P.Uniform(1., 2.)),
        joint=lambda: dict(a=P.joint.MultivariateGaussian(dist, 'a'), b=P.joint.MultivariateGaussian(dist, 'b', latex_label='$b, c$', unit='kg m'), z=P.Uniform(0., 1.)))


def prior_dict(case, d):
    return (bp.ConditionalPriorDict if case == 'conditional' else gp.BBHPriorDict if case == 'delta' else bp.PriorDict)(d)


def check_priors(c, p, q, label='prior'):
    c.ensure(label + '-dict', type(p) is type(q) and list(p) == list(q))
    for k in p:
        if isinstance(p[k], bp.JointPrior):
            c.ensure(label + '-joint', all(getattr(p[k], x) == getattr(q[k], x) for x in ('__class__', 'name', 'unit', 'latex_label')))
            x, y = p[k].dist, q[k].dist
            c.ensure(label + '-joint-dist', type(x) is type(y) and x.names == y.names and
                     all(np.array_equal(getattr(x, j), getattr(y, j)) for j in ('mus', 'covs', 'weights')))
            c.ensure(label + '-joint-bounds', [tuple(x.bounds[j]) for j in x.names] == [tuple(y.bounds[j]) for j in x.names])
            c.ensure(label + '-shared', all(q[j].dist is q[k].dist for j in p if isinstance(p[j], bp.JointPrior)))
        else:
            same(c, label, p[k], q[k])


@contract("P16", "priors written as json", bound="priors of every family, two to five per dictionary")
def _(c):
    JSON(c)
    x, w = c.real('x'), c.pos('w')
    cases = prior_cases(c, x, w)
    case = c.choice('case', list(cases))
    p = prior_dict(case, cases[case]())
    with scratch() as d:
        p.to_json(outdir=os.path.join(d, 'new'), label='run')
        q = c.choice('reader', [bp.PriorDict, gp.BBHPriorDict]).from_json(os.path.join(d, 'new', 'run_prior.json'))
    check_priors(c, p, q)


@contract("P16", "one prior written as json", bound="priors of every family")
def _(c):
    JSON(c)
    x, w = c.real('x'), c.pos('w')
    cases = prior_cases(c, x, w)
    case = c.choice('case', [k for k in cases if k != 'joint'])
    for k, p in cases[case]().items():
        q = json.loads(p.to_json(), object_hook=bio.decode_bilby_json)
        same(c, 'prior', p, q)


@contract("P16", "priors written as text", bound="priors of every family with fixed arguments, labels with special characters")
def _(c):
    x, w = c.choice('numbers', [(0., 1.), (-1.5e-9, 2e30), (1 / 3, .1)])
    cases = prior_cases(c, x, w)
    case = c.choice('case', list(cases))
    p = prior_dict(case, cases[case]())
    with scratch() as d:
        p.to_file(outdir=os.path.join(d, 'new'), label='run')
        q = type(p)(filename=os.path.join(d, 'new', 'run.prior'))
    check_priors(c, p, q)


LABELS = ['plain', 'two words', 'a, b', 'f(x)', 'f(x, y', '] x [', "it's", '"quoted"', '$\\mathcal{M}_{1,2}~[M_\\odot]$', '\\\\double', 'x = 1',
          'é', '☉', '#', 'r', '', 'None', '1.5', ' padded ']


@contract("P16", "labels written as text", bound="labels with every kind of special character")
def _(c):
    lab = c.choice('label', LABELS)
    where = c.choice('where', ['latex_label', 'unit', 'name'])
    c.assume(where != 'name' or lab not in ('',))
    kw = {where: lab}
    p = bp.PriorDict(dict(a=bp.Uniform(0., 1., **kw), b=bp.Gaussian(0., 1., name='b')))
    with scratch() as d:
        p.to_file(outdir=d, label='run')
        q = bp.PriorDict(os.path.join(d, 'run.prior'))
    check_priors(c, p, q)


@contract("P16", "text files of priors", bound="lines of every kind")
def _(c):
    line, want = c.choice('line', [
        ("a = Uniform(0, 1)", bp.Uniform(0, 1)), ("a=Uniform( minimum = 0 , maximum = 2 , name = 'a b' )", bp.Uniform(0, 2, 'a b')),
        ("a = 3", bp.DeltaFunction(3.)), ("a=-1e-3", bp.DeltaFunction(-1e-3)),
        ("a = Uniform(minimum=-np.pi/2, maximum=pi, name=None)", bp.Uniform(-np.pi / 2, np.pi)),
        ("a = bilby.core.prior.Sine(name='a', latex_label='$\\\\theta_{1, J}$')", bp.Sine(name='a', latex_label='$\\theta_{1, J}$')),
        ("a = bilby.gw.prior.AlignedSpin(name='a', a_prior=Uniform(minimum=0, maximum=0.8, latex_label='x, y'), z_prior=Uniform(-1, 1))",
         gp.AlignedSpin(name='a', a_prior=bp.Uniform(0, .8, latex_label='x, y'), z_prior=bp.Uniform(-1, 1))),
        ("a = TruncatedGaussian(0, 1, -inf, 4)", bp.TruncatedGaussian(0, 1, -np.inf, 4)),
        ("a = Uniform(0, 1, unit='$\\mathrm{m}, s$')", bp.Uniform(0, 1, unit='$\\mathrm{m}, s$'))])
    with scratch() as d:
        f = os.path.join(d, 'x.prior')
        with open(f, 'w') as ff:
            ff.write("# comment\n\n" + line + "\nb = 2.\n")
        q = bp.PriorDict(f)
    c.ensure('keys', list(q) == ['a', 'b'])
    same(c, 'prior', want, q['a'])


@contract("P16", "prior dictionaries do not change what they are made from", bound="one entry of every kind")
def _(c):
    x = c.real('x')
    d = dict(a=1.5, b='Uniform(0, 1)', c=bp.Uniform(0., 1.), e=2)
    before = dict(d)
    cls = c.choice('class', [bp.PriorDict, bp.ConditionalPriorDict, gp.BBHPriorDict])
    p = cls(d)
    c.ensure('kept', list(d) == list(before) and all(d[k] is before[k] for k in d))
    c.ensure('made', isinstance(p['a'], bp.DeltaFunction) and p['a'].peak == 1.5 and isinstance(p['b'], bp.Uniform) and p['c'] is d['c'])


# ------------------------------------------------------------------------------------------------ results
def result(c, d, x, y, **k):
    n = 2
    a = arr(c, [x, y])
    frame = pd.DataFrame(dict(b=a, a=a[::-1], log_likelihood=arr(c, [1., x]), log_prior=[None, None] if k.pop('no_prior', False) else a))
    args = dict(label='run', outdir=d, sampler='dynesty', search_parameter_keys=['b', 'a'], fixed_parameter_keys=['z'],
                constraint_parameter_keys=['s'], priors=bp.PriorDict(dict(b=bp.Uniform(0., 1., 'b', '$b$', 's'), a=bp.Gaussian(0., 1., 'a'),
                                                                     z=bp.DeltaFunction(1.), s=bp.Constraint(0., 1.))),
                sampler_kwargs=dict(nlive=10, flag=True, none=None, text='x'), injection_parameters=dict(a=x, b=y),
                meta_data=dict(likelihood=dict(type='t', parts=dict(x=x)), array=arr(c, [x, y]), z=1.5 + 2j),
                posterior=frame, samples=arr(c, [[x, y], [y, x]]), nested_samples=pd.DataFrame(dict(a=a, weights=arr(c, [y, x]))),
                log_evidence=x, log_evidence_err=y, log_noise_evidence=1., log_bayes_factor=x - 1., information_gain=2.,
                log_likelihood_evaluations=arr(c, [y, x]), log_prior_evaluations=arr(c, [x, y]), sampling_time=12.5, nburn=3,
                num_likelihood_evaluations=17, walkers=arr(c, [[[x, y]], [[y, x]]]), use_ratio=True)
    args.update(k)
    return args


ATTRS = ['label', 'outdir', 'sampler', 'log_evidence', 'log_evidence_err', 'log_noise_evidence', 'log_bayes_factor', 'posterior',
         'injection_parameters', 'meta_data', 'search_parameter_keys', 'fixed_parameter_keys', 'constraint_parameter_keys', 'sampling_time',
         'sampler_kwargs', 'use_ratio', 'information_gain', 'log_likelihood_evaluations', 'log_prior_evaluations',
         'num_likelihood_evaluations', 'samples', 'nested_samples', 'walkers', 'nburn', 'parameter_labels', 'parameter_labels_with_unit',
         'version']


def check_result(c, r, q, skip=()):
    c.ensure('class', type(q) is type(r))
    for k in ATTRS:
        if k not in skip:
            same(c, k, getattr(r, k), getattr(q, k))


@contract("P16", "results written as json", bound="two samples of two parameters")
def _(c):
    J = JSON(c)
    x, y = c.real('x'), c.real('y')
    zipped = c.choice('gzip', [False, True])
    named = c.choice('named', [False, True])
    kind = c.choice('kind', ['all', 'no posterior', 'no priors', 'missing'])
    cls = c.choice('class', [br.Result, gr.CBCResult]) if kind == 'all' else br.Result
    extra = {'no posterior': dict(posterior=None, nested_samples=None), 'no priors': dict(priors=None),
             'missing': dict(no_prior=True, walkers=None, injection_parameters=None, sampler_kwargs={}, nburn=None)}.get(kind, {})
    with scratch() as d:
        r = cls(**result(c, d, x, y, **extra))
        before = dict(vars(r))
        f = os.path.join(d, 'mine.json' + ('.gz' if zipped else '')) if named else None
        r.save_to_file(filename=f, extension=c.choice('extension', ['json', True]), gzip=zipped)
        c.ensure('one-file', os.listdir(d) == [os.path.basename(f) if named else 'run_result.json' + ('.gz' if zipped else '')])
        if named:
            q = br.read_in_result(filename=f, result_class=cls)
        else:
            q = br.read_in_result(outdir=d, label='run', gzip=zipped, result_class=cls)
    c.ensure('unchanged', set(vars(r)) == set(before) and all(v is before[k] for k, v in vars(r).items()))
    skip = {'no posterior': ('posterior', 'nested_samples'), 'missing': ('walkers', 'nburn')}.get(kind, ())
    check_result(c, r, q, skip)
    if kind != 'no priors':
        check_priors(c, r.priors, q.priors)
    for k in skip:
        c.ensure('missing', getattr(q, '_' + k) is None)


@contract("P16", "results written as hdf5 or pickle", bound="two samples of two parameters, fixed numbers, the real file formats", samples=40)
def _(c):
    x, y = .1, -1e-300
    ext = c.choice('extension', ['hdf5', 'pkl'])
    named = c.choice('named', [False, True])
    case = c.choice('case', ['plain', 'no posterior', 'no priors', 'missing', 'conditional', 'joint'])
    cls = c.choice('class', [br.Result, gr.CBCResult])
    extra = {'no posterior': dict(posterior=None, nested_samples=None), 'no priors': dict(priors=None),
             'missing': dict(no_prior=True, walkers=None, injection_parameters=None, sampler_kwargs={}, nburn=None)}.get(case, {})
    if case in ('conditional', 'joint'):
        p = prior_dict(case, prior_cases(c, 0., 1.)[case]())
        extra = dict(priors=p, search_parameter_keys=list(p), posterior=pd.DataFrame({k: [.1, .2] for k in p}))
    real = Concrete()
    with scratch() as d:
        r = cls(**result(real, d, x, y, **extra))
        f = os.path.join(d, 'mine.' + ext) if named else None
        r.save_to_file(filename=f, extension=ext)
        c.ensure('one-file', os.listdir(d) == ['mine.' + ext if named else 'run_result.' + ext])
        q = br.read_in_result(filename=f) if named else br.read_in_result(outdir=d, label='run', extension=ext)
        q2 = (cls.from_pickle if ext == 'pkl' else cls.from_hdf5)(**(dict(filename=f) if named else dict(outdir=d, label='run')))
        q3 = br.read_in_result_list([f or os.path.join(d, 'run_result.' + ext)])[0]
    for got in (q, q2, q3):
        skip = {'no posterior': ('posterior', 'nested_samples'), 'missing': ('walkers', 'nburn')}.get(case, ())
        check_result(c, r, got, skip)
        if case != 'no priors':
            check_priors(c, r.priors, got.priors)


class Concrete(object):
    sym = False


@contract("P16", "results that cannot be saved", bound="the real file formats", samples=40)
def _(c):
    """anything json or hdf5 cannot hold is pickled whole, and no partial file stays behind"""
    ext = c.choice('extension', ['json', 'hdf5'])
    zipped = c.choice('gzip', [False, True]) and ext == 'json'
    with scratch() as d:
        args = result(Concrete(), d, .1, .2)
        args['meta_data'] = dict(a=.5, odd={1j}, z=2.)
        args['sampler_kwargs']['f'] = cond
        r = br.Result(**args)
        r.save_to_file(extension=ext, gzip=zipped)
        left = os.listdir(d)
        c.ensure('only-the-pickle', left in (['run_result.pkl'], ['run_result.json.pkl']))
        q = br.read_in_result(os.path.join(d, left[0]))
        if not zipped:
            listed = br.read_in_result_list([os.path.join(d, 'run_result.' + ext)])
            c.ensure('found-in-list', len(listed) == 1 and listed[0].log_evidence == r.log_evidence)
    c.ensure('meta-data', q.meta_data == r.meta_data)
    c.ensure('settings', q.sampler_kwargs['nlive'] == 10 and callable(q.sampler_kwargs['f']))
    check_result(c, r, q, ('meta_data', 'sampler_kwargs'))


@contract("P16", "callable settings", bound="two callables")
def _(c):
    """callables among the sampler's keyword arguments are saved as their own string"""
    JSON(c)
    f, g = (lambda x: x), len
    with scratch() as d:
        r = br.Result(**result(c, d, c.real('x'), c.real('y'), sampler_kwargs=dict(f=f, n=3, g=g)))
        r.save_to_file()
        q = br.read_in_result(outdir=d, label='run')
    c.ensure('settings', q.sampler_kwargs == dict(f=str(f), n=3, g=str(g)))
    c.ensure('unchanged', r.sampler_kwargs == dict(f=f, n=3, g=g))


@contract("P16", "existing files", bound="the real file system", samples=40)
def _(c):
    overwrite, old = c.choice('overwrite', [False, True]), c.choice('old', [False, True])
    with scratch() as d:
        f = os.path.join(d, 'run_result.json')
        with open(f, 'w') as ff:
            ff.write('before')
        if old:
            with open(f + '.old', 'w') as ff:
                ff.write('older')
        br.Result(**result(Concrete(), d, .1, .2)).save_to_file(overwrite=overwrite)
        q = br.read_in_result(f)
        c.ensure('new', q.log_evidence == .1)
        kept = open(f + '.old').read() if os.path.exists(f + '.old') else None
        c.ensure('old-kept', kept == ('before' if not overwrite else 'older' if old else None))


class Crash(BaseException):
    pass


@contract("P16", "safe_file_dump", bound="a crash before, within and after each step; the real file system")
def _(c):
    """at whatever point a dump is interrupted, the file holds all of the old or all of the new content"""
    import pickle
    exists = c.choice('exists', [True, False])
    point = c.choice('point', ['none', 'open', 'start', 'middle', 'end', 'before move', 'after move', 'error'])
    new = list(range(50))
    with scratch() as d:
        f = os.path.join(d, 'state.pickle')
        if exists:
            with open(f, 'wb') as ff:
                pickle.dump('old', ff)

        class Module(object):
            @staticmethod
            def dump(data, file):
                text = pickle.dumps(data)
                if point == 'start':
                    raise Crash()
                file.write(text[:20])
                file.flush()
                if point == 'middle':
                    raise Crash()
                if point == 'error':
                    raise ValueError('cannot be pickled')
                file.write(text[20:])
                if point == 'end':
                    file.flush()
                    raise Crash()
        steps = dict(move=shutil.move, rename=os.rename, replace=os.replace)

        def wrap(real):
            def g(*a, **k):
                if point == 'before move':
                    raise Crash()
                out = real(*a, **k)
                if point == 'after move':
                    raise Crash()
                return out
            return g
        if point in ('before move', 'after move'):
            c.setattr(shutil, 'move', wrap(shutil.move))
            c.setattr(os, 'replace', wrap(os.replace))
        if point == 'open':
            def no(*a, **k):
                raise Crash()
            c.setattr(bio, 'open', no)
        crashed = False
        try:
            bio.safe_file_dump(new, f, Module)
        except (Crash, ValueError):
            crashed = True
        found = None
        if os.path.exists(f):
            with open(f, 'rb') as ff:
                found = pickle.load(ff)
    if crashed:
        c.ensure('old-or-new', found == ('old' if exists else None) or (point == 'after move' and found == new))
    else:
        c.ensure('new', found == new and point in ('none', 'after move', 'before move'))


@contract("P16", "safe_file_dump modules", bound="pickle and dill")
def _(c):
    import pickle
    m = c.choice('module', ['pickle', 'dill', pickle])
    with scratch() as d:
        f = os.path.join(d, 'state.pickle')
        bio.safe_file_dump(dict(a=[1., 2.]), f, m)
        c.ensure('only-file', os.listdir(d) == ['state.pickle'])
        with open(f, 'rb') as ff:
            c.ensure('content', pickle.load(ff) == dict(a=[1., 2.]))


@contract("P16", "lists of results", bound="three files", samples=40)
def _(c):
    bad = c.choice('bad', ['none', 'missing', 'broken'])
    invalid = c.choice('invalid', ['warning', 'error'])
    with scratch() as d:
        names = []
        for i in range(3):
            r = br.Result(**result(Concrete(), d, float(i), .2, label='r%d' % i))
            ext = ['json', 'pkl', 'hdf5'][i]
            r.save_to_file(extension=ext)
            names.append(os.path.join(d, 'r%d_result.%s' % (i, ext)))
        if bad == 'missing':
            names.insert(1, os.path.join(d, 'no.json'))
        elif bad == 'broken':
            names.insert(1, os.path.join(d, 'broken_result.json'))
            with open(names[1], 'w') as ff:
                ff.write('{"a": ')
        names[names.index(os.path.join(d, 'r1_result.pkl'))] = os.path.join(d, 'r1_result.json')        # only the pickle exists
        if bad != 'none' and invalid == 'error':
            c.ensure('error', c.raises(br.ResultListError, br.read_in_result_list, names, invalid=invalid))
        else:
            got = br.read_in_result_list(names, invalid=invalid)
            c.ensure('in-order', [r.log_evidence for r in got] == [0., 1., 2.] and isinstance(got, br.ResultList))


@contract("P16", "posterior samples as text", bound="two samples; the real file format")
def _(c):
    z = c.choice('complex', [True, False])
    with scratch() as d:
        cols = dict(b=[.1, 1e-300], a=[1., -2.], n=[1, 2], text=['x', 'y'])
        if z:
            cols['s'] = [1 + 1j, 2.]
        frame = pd.DataFrame(cols)
        r = br.Result(label='run', outdir=d, search_parameter_keys=['a'], posterior=frame)
        f = c.choice('file', [None, 'sub/mine.dat'])
        r.save_posterior_samples(filename=f and os.path.join(d, f))
        got = pd.read_csv(os.path.join(d, f or 'run_posterior_samples.dat'), sep=' ')
        c.ensure('columns', list(got.keys()) == ['b', 'a', 'n'] + (['s_abs', 's_angle'] if z else []))
        for k in ('b', 'a', 'n'):
            same(c, 'column', list(frame[k].astype(float)), list(got[k].astype(float)))
        if z:
            c.ensure_eq('complex', list(got['s_abs']) + list(got['s_angle']), [np.sqrt(2), 2., np.pi / 4, 0.])
        c.ensure('unchanged', list(r.posterior.keys()) == list(cols) and (not z or list(r.posterior['s']) == cols['s']))
