"""P09: the gravitational-wave transient likelihood is the Gaussian noise likelihood of the data in all detectors."""
import numpy as np
from pydv.contract import contract
import bilby.gw.utils as gwu
import bilby.gw.likelihood.base as lb
import bilby.gw.likelihood.basic as basic
from bilby.gw.detector.interferometer import Interferometer

INF = np.inf


def inner(c, a, b, psd, duration):
    """4 / T sum conj(a) b / S"""
    return 4 / duration * np.sum(np.conj(a) * b / psd)


@contract("P09", "noise_weighted_inner_product")
def _(c):
    a, b, psd = c.carray('a'), c.carray('b'), c.array('psd', 0, open=True)
    T = c.pos('T')
    c.ensure_eq('inner', gwu.noise_weighted_inner_product(a, b, psd, T), inner(c, a, b, psd, T))
    c.ensure_eq('hermitian', np.conj(gwu.noise_weighted_inner_product(b, a, psd, T)), inner(c, a, b, psd, T))
    n = gwu.noise_weighted_inner_product(a, a, psd, T)
    c.ensure_eq('norm-real', np.imag(n), 0)
    c.ensure_eq('optimal', gwu.optimal_snr_squared(a, psd, T), inner(c, a, a, psd, T))
    c.assume(np.real(n) > 0)
    s = gwu.matched_filter_snr(a, b, psd, T)
    if True:
        c.ensure_eq('matched-filter', s * gwu.optimal_snr_squared(a, psd, T) ** 0.5, inner(c, a, b, psd, T))


class Strain(object):
    """contract of InterferometerStrainData (P10): zero outside the mask"""

    def __init__(self, c, name, T, start=0):
        self.frequency_mask = c.barray('mask_' + name)
        self.frequency_array = c.array('freq')
        self.frequency_domain_strain = c.carray('data_' + name) * self.frequency_mask
        self.duration = T
        self.start_time = start
        self.window_factor = c.pos('wf_' + name)
        self.sampling_frequency = 1
        self.minimum_frequency = self.maximum_frequency = 1


class PSD(object):
    def __init__(self, c, name, freq):
        self.psd = c.array('psd_' + name, 0, open=True)
        self.freq = freq

    def get_power_spectral_density_array(self, frequency_array):
        return self.psd

    def get_amplitude_spectral_density_array(self, frequency_array):
        return self.psd ** 0.5


def detector(c, name, T):
    ifo = Interferometer(name, None, 1, 1, 4, 46., -119., 142., 126., 216.)
    ifo.strain_data = Strain(c, name, T)
    ifo.power_spectral_density = PSD(c, name, ifo.strain_data.frequency_array)
    return ifo


def masked_inner(c, ifo, a, b, T):
    """4 / T sum over the analysed frequencies of conj(a) b / (S w)"""
    S = ifo.strain_data.window_factor * ifo.power_spectral_density.psd
    return 4 / T * np.sum(np.conj(a) * b / S * ifo.strain_data.frequency_mask)


@contract("P09", "Interferometer inner products", weights=True)
def _(c):
    T = c.pos('T')
    ifo = detector(c, 'H1', T)
    a, b = c.carray('a'), c.carray('b')
    d = ifo.strain_data.frequency_domain_strain
    c.ensure_eq('inner-product', ifo.inner_product(a), masked_inner(c, ifo, a, d, T))
    c.ensure_eq('optimal-snr', ifo.optimal_snr_squared(a), masked_inner(c, ifo, a, a, T))
    c.ensure_eq('template-template', ifo.template_template_inner_product(a, b), masked_inner(c, ifo, a, b, T))
    c.assume(np.real(masked_inner(c, ifo, a, a, T)) > 0)
    s = ifo.matched_filter_snr(a)
    c.ensure_eq('matched-filter-snr', s * ifo.optimal_snr_squared(a) ** 0.5, masked_inner(c, ifo, a, d, T))
    c.ensure_eq('psd-window', ifo.power_spectral_density_array, ifo.strain_data.window_factor * ifo.power_spectral_density.psd)
    c.ensure_eq('asd-window', ifo.amplitude_spectral_density_array ** 2, ifo.power_spectral_density_array)
    w = ifo.whiten_frequency_series(a)
    c.ensure_eq('whitened', np.sum(np.abs(w) ** 2 * ifo.strain_data.frequency_mask), masked_inner(c, ifo, a, a, T))


# ------------------------------------------------------------------------------------------------ likelihood
class Detector(Interferometer):
    """a detector known by its contract: the template in it is an arbitrary function of the parameters it is given"""

    def __init__(self, c, name, T, start, size='n'):
        super().__init__(name, None, 1, 1, 4, 46., -119., 142., 126., 216.)
        self.strain_data = Strain(c, name, T, start)
        self.power_spectral_density = PSD(c, name, None)
        self.h = {}
        self.c = c
        self.seen = []

    def get_detector_response(self, waveform_polarizations, parameters, frequencies=None):
        self.seen.append((waveform_polarizations['id'], dict(parameters)))
        return self.template(waveform_polarizations['id'])

    def template(self, k):
        if k not in self.h:
            self.h[k] = self.c.carray('h_%s_%s' % (self.name, k))
        return self.h[k] * self.strain_data.frequency_mask


class Waveform(object):
    duration = sampling_frequency = start_time = None

    def __init__(self):
        self.seen = []

    def frequency_domain_strain(self, parameters):
        self.seen.append(dict(parameters))
        return dict(id=parameters['id'])


def free_converters(c):
    """the attrs converters complex() and float() of _CalculatedSNRs as the identity on symbolic numbers"""
    if not c.sym:
        return
    import types
    cls = lb.GravitationalWaveTransient._CalculatedSNRs
    f = cls.__init__
    g = dict(f.__globals__)
    for k in list(g):
        if k.startswith('__attr_converter'):
            g[k] = lambda x: x
    c.setattr(cls, '__init__', types.FunctionType(f.__code__, g, '__init__', f.__defaults__, f.__closure__))
    cls.__init__.__kwdefaults__ = f.__kwdefaults__


FL = ("bilby.gw.likelihood.base",)
SKY = ('ra', 'dec', 'geocent_time')


def network(c, n, T, start):
    return [Detector(c, name, T, start) for name in ['H1', 'L1', 'V1'][:n]]


def totals(c, ifos, T, k):
    hd = sum(masked_inner(c, i, i.template(k), i.strain_data.frequency_domain_strain, T) for i in ifos)
    hh = sum(np.real(masked_inner(c, i, i.template(k), i.template(k), T)) for i in ifos)
    return hd, hh


def assume_power(c, ifos, T, k):
    for i in ifos:
        c.assume(np.real(masked_inner(c, i, i.template(k), i.template(k), T)) > 0)


@contract("P09", "GravitationalWaveTransient", weights=True, floats=FL, bound="1 to 3 detectors")
def _(c):
    free_converters(c)
    T, start = c.pos('T'), c.real('start')
    n = c.choice('detectors', [1, 2, 3])
    ifos = network(c, n, T, start)
    wf = Waveform()
    like = lb.GravitationalWaveTransient(ifos, wf)
    dd = sum(np.real(masked_inner(c, i, i.strain_data.frequency_domain_strain, i.strain_data.frequency_domain_strain, T))
             for i in ifos)
    c.ensure_eq('generator-set-up', [wf.duration, wf.start_time], [T, start])
    for k in ('A', 'B', 'A'):
        assume_power(c, ifos, T, k)
        p = dict(id=k, ra=c.real('ra' + k), dec=c.real('dec' + k), geocent_time=c.real('tc' + k), psi=c.real('psi' + k))
        like.parameters = dict(p)
        for i in ifos:
            i.seen.clear()
        hd, hh = totals(c, ifos, T, k)
        c.ensure_eq('ratio', like.log_likelihood_ratio(), np.real(hd) - hh / 2)
        c.ensure_eq('noise', like.noise_log_likelihood(), -dd / 2)
        full = -sum(np.real(masked_inner(c, i, i.strain_data.frequency_domain_strain - i.template(k),
                                         i.strain_data.frequency_domain_strain - i.template(k), T)) for i in ifos) / 2
        c.ensure_eq('gaussian', like.log_likelihood(), full, rtol=1e-6, atol=1e-6)
        c.ensure('parameters-restored', like.parameters == p if not c.sym else
                 like.parameters.keys() == p.keys() and all(like.parameters[q] is p[q] for q in p))
        c.ensure('each-detector-sees-the-current-parameters', all(len(i.seen) == 2 and all(
            s[0] == k and all(s[1][q] is p[q] for q in p) for s in i.seen) for i in ifos))


@contract("P09", "GravitationalWaveTransient[per detector]", weights=True, floats=FL)
def _(c):
    free_converters(c)
    T, start = c.pos('T'), c.real('start')
    ifos = network(c, 2, T, start)
    like = lb.GravitationalWaveTransient(ifos, Waveform())
    assume_power(c, ifos, T, 'A')
    like.parameters = dict(id='A', ra=0., dec=0., geocent_time=c.real('tc'), psi=0.)
    out = like.compute_per_detector_log_likelihood()
    for i in ifos:
        hd, hh = totals(c, [i], T, 'A')
        c.ensure_eq('detector-share', out[i.name + '_log_likelihood'], np.real(hd) - hh / 2)
    c.ensure_eq('shares-add-up', sum(out[i.name + '_log_likelihood'] for i in ifos), like.log_likelihood_ratio())


@contract("P09", "BasicGravitationalWaveTransient", weights=True, bound="1 to 3 detectors")
def _(c):
    T = c.pos('T')
    n = c.choice('detectors', [1, 2, 3])
    ifos = network(c, n, T, 0)
    wf = Waveform()
    wf.duration = T
    like = basic.BasicGravitationalWaveTransient(ifos, wf)
    for k in ('A', 'B', 'A'):
        like.parameters = dict(id=k)
        dd = sum(np.real(masked_inner(c, i, i.strain_data.frequency_domain_strain, i.strain_data.frequency_domain_strain, T))
                 for i in ifos)
        full = sum(np.real(masked_inner(c, i, i.strain_data.frequency_domain_strain - i.template(k),
                                        i.strain_data.frequency_domain_strain - i.template(k), T)) for i in ifos)
        c.ensure_eq('gaussian', like.log_likelihood(), -full / 2)
        c.ensure_eq('noise', like.noise_log_likelihood(), -dd / 2)


@contract("P09", "GravitationalWaveTransient[no waveform]")
def _(c):
    T, start = c.pos('T'), c.real('start')
    ifos = network(c, 1, T, start)
    wf = Waveform()
    wf.frequency_domain_strain = lambda p: None
    c.ensure('excluded', lb.GravitationalWaveTransient(ifos, wf).log_likelihood_ratio() < -1e300)
    b = basic.BasicGravitationalWaveTransient(ifos, wf)
    c.ensure('excluded-basic', b.log_likelihood() < -1e300)


@contract("P09", "GravitationalWaveTransient[phase marginalised]", weights=True, floats=FL)
def _(c):
    free_converters(c)
    import bilby
    T, start = c.pos('T'), c.real('start')
    ifos = network(c, 2, T, start)
    pri = bilby.core.prior.PriorDict(dict(phase=bilby.core.prior.Uniform(0, 2 * np.pi)))
    like = lb.GravitationalWaveTransient(ifos, Waveform(), priors=pri, phase_marginalization=True)
    assume_power(c, ifos, T, 'A')
    like.parameters = dict(id='A', ra=0., dec=0., geocent_time=c.real('tc'), psi=0., phase=0.0)
    hd, hh = totals(c, ifos, T, 'A')
    a = np.abs(hd)
    c.ensure_eq('bessel', like.log_likelihood_ratio(), gwu.ln_i0(a) - hh / 2)
    c.ensure_eq('callers-prior-fixed', pri['phase'].peak if hasattr(pri['phase'], 'peak') else pri['phase'], 0)


@contract("P09", "ln_i0")
def _(c):
    from scipy.special import i0e
    import bilby.gw.utils as u
    x = c.real('x')
    c.ensure_eq('ln-i0', gwu.ln_i0(x), np.log(u.i0e(x)) + np.abs(x))
    if not c.sym:
        from scipy.special import i0
        if abs(x) < 50:
            c.ensure_eq('is-log-bessel', gwu.ln_i0(x), np.log(i0(x)))


# ------------------------------------------------------------------------------------------------ time
class Bins(object):
    """five frequency bins, 0 to 4 / T"""

    def __init__(self, c, name, T, start, mask):
        self.c = c
        self.frequency_mask = np.array(mask)
        self.frequency_array = np.arange(5) / T
        d = [complex_(c, 'd%d_%s' % (i, name)) if mask[i] else 0 for i in range(5)]
        self.frequency_domain_strain = obj(c, d)
        self.duration, self.start_time, self.sampling_frequency = T, start, 8 / T
        self.window_factor = 1


def complex_(c, name):
    return c.complexes(name)


def obj(c, v):
    if c.sym:
        a = np.empty(len(v), dtype=object)
        for i, x in enumerate(v):
            a[i] = x
        return np.array(v, dtype=object) if False else as_nd(a)
    return np.array([complex(x) for x in v])


def as_nd(a):
    from pydv.sym import as_nd as f
    return f(a)


class BinPSD(object):
    def __init__(self, c, name):
        v = [c.pos('S%d_%s' % (i, name)) for i in range(5)]
        self.psd = as_nd(np.array(v, dtype=object)) if c.sym else np.array(v, dtype=float)

    def get_power_spectral_density_array(self, frequency_array):
        return self.psd


class BinDetector(Interferometer):
    def __init__(self, c, name, T, start, mask):
        super().__init__(name, None, 1, 1, 4, 46., -119., 142., 126., 216.)
        self.strain_data = Bins(c, name, T, start, mask)
        self.power_spectral_density = BinPSD(c, name)
        self.h = obj(c, [complex_(c, 'h%d_%s' % (i, name)) if mask[i] else 0 for i in range(5)])
        self.mask = mask
        self.at = []

    def get_detector_response(self, waveform_polarizations, parameters, frequencies=None):
        self.at.append(parameters['geocent_time'])
        return self.h * 1

    def shifted(self, k):
        """<d|h(start + k T / 4)> and <h|h>: the template delayed by k T / 4"""
        d, S, T = self.strain_data.frequency_domain_strain, self.power_spectral_density.psd, self.strain_data.duration
        dh, hh = 0, 0
        for j in range(5):
            if self.mask[j]:
                ph = [1, -1j, -1, 1j][(j * k) % 4]
                dh = dh + 4 / T * np.conj(d[j]) * self.h[j] * ph / S[j]
                hh = hh + 4 / T * np.real(np.conj(self.h[j]) * self.h[j]) / S[j]
        return dh, hh


def dft(x, axis=-1):
    """contract of numpy.fft.fft for four points"""
    from pydv.sym import SymComplex
    if np.ndim(x) == 2:
        assert axis == 0
        return as_nd(np.array([list(dft(r)) for r in np.transpose(x)], dtype=object).T)
    n = len(x)
    assert n == 4
    out = [sum(x[j] * [1, -1j, -1, 1j][(j * k) % 4] for j in range(4)) for k in range(4)]
    a = np.empty(4, dtype=object)
    for i, v in enumerate(out):
        a[i] = SymComplex.of(v)
    return as_nd(a)


MASKS = [(False, True, True, True, False)]


def timesetup(c, jitter, dets=1, marg=('time',), window='all'):
    import bilby
    free_converters(c)
    if c.sym:
        c.callee(np.fft, 'fft', dft)
    T = 1
    start = c.real('start', -100, 100)
    mask = c.choice('mask', MASKS)
    ifos = [BinDetector(c, name, T, start, mask) for name in ['H1', 'L1'][:dets]]
    lo, hi = dict(all=(0, 1), early=(0.0, 0.6), late=(0.4, 0.9), narrow=(0.45, 0.6))[window]
    dens = c.func('density', 1, positive=True)
    made = []

    class Window(bilby.core.prior.Prior):
        def prob(self, val):
            return dens(val)
    pri = bilby.core.prior.PriorDict(dict(geocent_time=Window('geocent_time', minimum=start + lo, maximum=start + hi)))
    k = {}
    if 'phase' in marg:
        pri['phase'] = bilby.core.prior.Uniform(0, 2 * np.pi)
        k['phase_marginalization'] = True
    if c.sym:
        c.callee(lb, 'float', lambda x: x)
    like = lb.GravitationalWaveTransient(ifos, Waveform(), priors=pri, time_marginalization=True, jitter_time=jitter, **k)
    return like, pri, ifos, start, lo, hi, dens


def log_integral(c, terms):
    """log sum_i exp(l_i) w_i"""
    if c.sym:
        return np.log(sum(np.exp(x) * w for x, w in terms))
    return np.logaddexp.reduce([x + np.log(w) for x, w in terms])


def time_integral(c, ifos, dens, start, lo, hi, j, phase):
    """the discretised integral over the arrival time: one term for each bin of the analysis grid inside the prior range"""
    hh = sum(i.shifted(0)[1] for i in ifos)
    terms = []
    for n in range(4):
        t = start + n / 4 + j
        if bool(c.both(t >= start + lo, t <= start + hi)):
            dh = sum(i.shifted(n)[0] for i in ifos)
            terms.append(((gwu.ln_i0(np.abs(dh)) if phase else np.real(dh)) - hh / 2, dens(t) / 4))
    return log_integral(c, terms)


def timemarg(c, marg, window, jitter, dets):
    like, pri, ifos, start, lo, hi, dens = timesetup(c, jitter, dets, marg, window)
    c.ensure_eq('callers-prior', pri['geocent_time'], start)
    j = 0
    like.parameters = dict(id='A', ra=0., dec=0., geocent_time=start, psi=0., phase=0.)
    if jitter:
        j = c.real('jitter', -0.05, 0.05)
        like.parameters['time_jitter'] = j
        c.ensure_eq('jitter-covers-one-bin', [pri['time_jitter'].minimum, pri['time_jitter'].maximum], [-0.125, 0.125])
    for i in ifos:
        c.assume(i.shifted(0)[1] > 0)
    got = like.log_likelihood_ratio()
    c.ensure_eq('integral-over-time', got, time_integral(c, ifos, dens, start, lo, hi, j, 'phase' in marg))
    c.ensure_eq('time-restored', like.parameters['geocent_time'], start)
    for i in ifos:
        c.ensure_eq('template-at-the-jittered-time', i.at[0], start + j)


for marg_, window_, jitter_, dets_ in [
        (('time',), 'all', False, 1), (('time',), 'all', False, 2), (('time',), 'early', False, 1),
        (('time',), 'late', False, 1), (('time',), 'narrow', False, 1), (('time',), 'all', True, 1),
        (('time',), 'late', True, 1)]:
    @contract("P09", "GravitationalWaveTransient[%s marginalised %s window%s %d detector]" % (
        ' and '.join(marg_), window_, ' jitter' if jitter_ else '', dets_), floats=FL, bound="five frequency bins", samples=60)
    def _(c, a=(marg_, window_, jitter_, dets_)):
        timemarg(c, *a)


# ------------------------------------------------------------------------------------------------ distance
def distance_prior(c, lo=100., hi=900.):
    import bilby

    class Distance(bilby.core.prior.Prior):
        def prob(self, val):
            return 1 / (hi - lo)

        def rescale(self, val):
            return lo + val * (hi - lo)
    return Distance('luminosity_distance', minimum=lo, maximum=hi)


@contract("P09", "GravitationalWaveTransient[distance marginalised]", weights=True, floats=FL)
def _(c):
    import bilby
    free_converters(c)
    T, start = c.pos('T'), c.real('start')
    ifos = network(c, 2, T, start)
    phase = c.choice('phase', [False, True])
    pri = bilby.core.prior.PriorDict(dict(luminosity_distance=distance_prior(c)))
    if phase:
        pri['phase'] = bilby.core.prior.Uniform(0, 2 * np.pi)
    cls = lb.GravitationalWaveTransient

    def blank(self, lookup_table=None):
        self.built = True
    c.setattr(cls, '_setup_distance_marginalization', blank)
    like = cls(ifos, Waveform(), priors=pri, distance_marginalization=True, phase_marginalization=phase)
    table = c.func('table', 2)
    like._interp_dist_margd_loglikelihood = lambda x, y, grid=False: table(x, y)
    c.ensure('set-up', like.built)
    c.ensure_eq('reference-is-the-median', [like._ref_dist, pri['luminosity_distance']], [500., 500.])
    assume_power(c, ifos, T, 'A')
    L = c.real('L', 1, 1000)
    for d in [500., L]:
        like.parameters = dict(id='A', ra=0., dec=0., geocent_time=c.real('tc'), psi=0., phase=0.0, luminosity_distance=d)
        hd, hh = totals(c, ifos, T, 'A')
        x = (np.abs(hd) if phase else np.real(hd)) * d / 500
        got = like.log_likelihood_ratio()
        c.ensure_eq('table-at-the-reference-distance', got, table(x, hh * d ** 2 / 250000), rtol=1e-5)


@contract("P09", "_create_lookup_table[phase]", bound="table of 1 x 2 entries and 2 distances")
def _(c):
    lookup(c, True, 2)


@contract("P09", "_create_lookup_table", bound="table of 1 x 2 entries and 3 distances")
def _(c):
    lookup(c, False, 3)


def lookup(c, phase, n):
    like = object.__new__(lb.GravitationalWaveTransient)
    like.phase_marginalization = phase
    like._ref_dist = c.pos('ref') if c.sym else c.real('ref', 1, 5)
    D, step = c.real('D0', 1, 5), c.real('step', 0.5, 2)
    arr = [D + i * step for i in range(n)]
    pr = [c.real('prior%d' % i, 0.01, 2) for i in range(n)]
    mk = (lambda v: as_nd(np.array(v, dtype=object))) if c.sym else np.array
    like._distance_array, like.distance_prior_array = mk(arr), mk(pr)
    saved = []
    c.setattr(lb.GravitationalWaveTransient, 'cache_lookup_table', lambda self: saved.append(self._dist_margd_loglikelihood_array))
    xs = [c.real('x%d' % i, 0 if phase else -5, 5) for i in range(2)]
    ys = [c.real('y%d' % i, 0, 5) for i in range(1)]
    c.setattr(lb.GravitationalWaveTransient, '_d_inner_h_ref_array', mk(xs))
    c.setattr(lb.GravitationalWaveTransient, '_optimal_snr_squared_ref_array', mk(ys))
    small(c, (1, 2))
    like._create_lookup_table()
    t = like._dist_margd_loglikelihood_array
    for i in range(1):
        for j in range(2):
            num = [((gwu.ln_i0(np.abs(xs[j] * like._ref_dist / d)) if phase else xs[j] * like._ref_dist / d)
                    - ys[i] * (like._ref_dist / d) ** 2 / 2, p * step) for d, p in zip(arr, pr)]
            den = [(0, p * step) for p in pr]
            c.ensure_eq('marginal-over-distance', t[i][j], log_integral(c, num) - log_integral(c, den))
    c.ensure('cached', len(saved) == 1)


def small(c, n):
    """let the lookup table have n entries"""
    real = np.zeros

    def zeros(shape, *a, **k):
        if tuple(np.atleast_1d(shape)) == (400, 800):
            shape = n
        return real(shape, *a, **k)
    c.setattr(np, 'zeros', zeros)


@contract("P09", "distance lookup table reuse", bound="tables differing in one of the four quantities", samples=20)
def _(c):
    import os
    import tempfile
    like = object.__new__(lb.GravitationalWaveTransient)
    like.phase_marginalization = False
    like._ref_dist = 500.
    like._distance_array = np.linspace(100, 900, 5)
    like.distance_prior_array = np.array([0.5, 1., 2., 1., 0.5])
    good = dict(distance_array=like._distance_array, prior_array=like.distance_prior_array, reference_distance=500.,
                phase_marginalization=False, lookup_table=np.arange(16.).reshape(4, 4))
    change = c.choice('change', ['none', 'distance_array', 'prior_array', 'reference_distance', 'phase_marginalization', 'missing'])
    table = dict(good)
    if change == 'missing':
        del table['reference_distance']
    elif change == 'phase_marginalization':
        table[change] = True
    elif change != 'none':
        table[change] = table[change] * 1.01
    built = []

    def create(self):
        built.append(1)
        self._dist_margd_loglikelihood_array = np.ones((4, 4))
    cls = lb.GravitationalWaveTransient
    c.setattr(cls, '_create_lookup_table', create)
    used = []

    def spline(x, y, z, fill_value=None):
        used.append(z)
        return 0
    c.setattr(lb, 'BoundedRectBivariateSpline', spline)
    how = c.choice('given', ['dictionary', 'file', 'file without suffix'])
    with tempfile.TemporaryDirectory() as d:
        if how == 'dictionary':
            like._dist_margd_loglikelihood_array = np.zeros((4, 4))
            like._setup_distance_marginalization(table)
        else:
            np.savez(os.path.join(d, 'table.npz'), **table)
            like._setup_distance_marginalization(os.path.join(d, 'table' + ('.npz' if how == 'file' else '')))
            c.ensure('file-name', like.cached_lookup_table_filename == os.path.join(d, 'table.npz'))
    if change == 'none':
        c.ensure('reused', not built and np.array_equal(used[-1], good['lookup_table'].T))
    else:
        c.ensure('rebuilt', built and np.array_equal(used[-1], np.ones((4, 4))))


@contract("P09", "BoundedRectBivariateSpline")
def _(c):
    from bilby.core.utils.calculus import BoundedRectBivariateSpline as B
    from scipy.interpolate import RectBivariateSpline as R
    xs, ys = [0., 1., 2., 3.], [10., 11., 13., 14.]
    f = c.func('surface', 2)
    b = B(np.array(xs), np.array(ys), np.zeros((4, 4)), fill_value=-7.0)
    mk = (lambda v: as_nd(np.array(v, dtype=object))) if c.sym else np.array

    def call(self, x, y, dx=0, dy=0, grid=True):
        assert not grid
        return mk([f(u, v) for u, v in zip(np.reshape(x, -1), np.reshape(y, -1))])
    c.setattr(R, '__call__', call)
    n = c.choice('points', [1, 2])
    x = [c.real('x%d' % i, -1, 5) for i in range(n)]
    y = [c.real('y%d' % i, 9, 16) for i in range(n)]
    out = b(mk(x), mk(y))
    out = [out] if n == 1 else list(out)
    for u, v, z in zip(x, y, out):
        inside = c.both(u >= 0, u <= 3, v >= 10, v <= 14)
        c.ensure_eq('surface-inside-fill-outside', z, f(u, v) if bool(inside) else -7.0)


# ------------------------------------------------------------------------------------------------ calibration
def shape2(c, rows):
    if not c.sym:
        return np.array(rows)
    a = np.empty((len(rows), len(rows[0])), dtype=object)
    for i, r in enumerate(rows):
        for j, x in enumerate(r):
            a[i, j] = x
    return as_nd(a)


for what_ in ['time', 'calibration', 'calibration and time', 'chosen draw', 'chosen draw and time']:
    @contract("P09", "calculate_snrs[%s]" % what_, floats=FL, bound="five frequency bins, two calibration draws", samples=60)
    def _(c, what=what_):
        import bilby
        free_converters(c)
        if c.sym:
            c.callee(np.fft, 'fft', dft)
        T, start = c.choice('T', [1, 4]), c.real('start', -100, 100)
        mask = c.choice('mask', [(False, True, True, True, False), (False, False, True, True, False)])
        if 'chosen' in what:
            mask = (False, False, True, True, False)
        idx = [j for j in range(5) if mask[j]]
        ifo = BinDetector(c, 'H1', T, start, mask)
        ifo.strain_data.window_factor = c.pos('window')
        C = [[complex_(c, 'C%d%d' % (k, j)) for j in idx] for k in range(2)]
        like = object.__new__(lb.GravitationalWaveTransient)
        like.waveform_generator = Waveform()
        like.waveform_generator.duration = T
        like.parameters = dict(id='A', geocent_time=start)
        like.time_marginalization = 'time' in what
        like.calibration_marginalization = what != 'time'
        like.number_of_response_curves = 2
        like.calibration_draws = dict(H1=shape2(c, C))
        like.calibration_abs_draws = dict(H1=np.abs(shape2(c, C)) ** 2)
        one = [1] * len(idx)
        if 'chosen' in what:
            like.parameters['recalib_index'] = 1
        d, S = ifo.strain_data.frequency_domain_strain, ifo.power_spectral_density.psd

        def dh(cal, shift=0):
            return sum(4 / T * np.conj(d[j]) * ifo.h[j] * cal[m] * [1, -1j, -1, 1j][(j * shift) % 4]
                       / (S[j] * ifo.strain_data.window_factor) for m, j in enumerate(idx))

        def hh(cal):
            return sum(4 / T * (np.real(ifo.h[j]) ** 2 + np.imag(ifo.h[j]) ** 2) * (np.real(cal[m]) ** 2 + np.imag(cal[m]) ** 2)
                       / (S[j] * ifo.strain_data.window_factor) for m, j in enumerate(idx))
        base = C[1] if 'chosen' in what else one
        c.assume(hh(base) > 0)
        r = like.calculate_snrs(dict(id='A'), ifo)
        c.ensure_eq('d-inner-h', r.d_inner_h, np.conj(dh(base)))
        c.ensure_eq('optimal-snr', r.optimal_snr_squared, hh(base))
        c.ensure_eq('matched-filter-snr', r.complex_matched_filter_snr * hh(base) ** 0.5, np.conj(dh(base)))
        if what == 'time':
            c.ensure_eq('each-delay', r.d_inner_h_array, [dh(one, n) for n in range(4)])
        elif what == 'calibration':
            c.ensure_eq('each-draw', r.d_inner_h_array, [dh(k) for k in C])
            c.ensure_eq('each-draw-norm', r.optimal_snr_squared_array, [hh(k) for k in C])
        elif what == 'calibration and time':
            c.ensure_eq('each-draw-and-delay', r.d_inner_h_array, [dh(k, n) for k in C for n in range(4)])
            c.ensure_eq('each-draw-norm', r.optimal_snr_squared_array, [hh(k) for k in C])


def subsets():
    for cal in (False, True):
        for time_ in (False, True):
            for dist in (False, True):
                for phase in (False, True):
                    m = [n for n, b in [('calibration', cal), ('time', time_), ('distance', dist), ('phase', phase)] if b]
                    if cal or len(m) > 1:
                        yield tuple(m)


def combination(c, marg, draws=2, jitter=False):
    """a likelihood marginalised over marg in which the signal-to-noise products of each detector are arbitrary"""
    import bilby
    from bilby.gw.detector import calibration
    free_converters(c)
    if c.sym:
        c.callee(lb, 'float', lambda x: x)
    cls = lb.GravitationalWaveTransient
    T, start = 1, c.real('start', -100, 100)
    ifos = [BinDetector(c, name, T, start, (False, True, True, False, False)) for name in ('H1', 'L1')]
    pri = bilby.core.prior.PriorDict(dict(chirp_mass=bilby.core.prior.Uniform(10, 20), recalib_H1_a=bilby.core.prior.Uniform(0, 1)))
    k = {}
    if 'phase' in marg:
        pri['phase'] = bilby.core.prior.Uniform(0, 2 * np.pi)
    dens = c.func('density', 1, positive=True)
    lo, hi = 0.2, 0.6

    class Window(bilby.core.prior.Prior):
        def prob(self, val):
            return dens(val)
    if 'time' in marg:
        pri['geocent_time'] = Window('geocent_time', minimum=start + lo, maximum=start + hi)
    table = c.func('table', 2)
    if 'distance' in marg:
        pri['luminosity_distance'] = distance_prior(c)
        pri['redshift'] = bilby.core.prior.Uniform(0, 1)
        c.setattr(cls, '_setup_distance_marginalization', lambda self, lookup_table=None: None)
    cal = 'calibration' in marg
    if cal:
        k['number_of_response_curves'] = draws
        c.setattr(calibration, 'build_calibration_lookup',
                  lambda **k: ({i.name: np.ones((draws, 2)) for i in ifos}, dict(H1=dict(recalib_H1_a=0), L1=None)))
    for m in marg:
        k[m + '_marginalization'] = True
    like = cls(ifos, Waveform(), priors=pri, jitter_time=jitter, **k)
    like._interp_dist_margd_loglikelihood = lambda x, y, grid=False: table(*np.broadcast_arrays(x, y)) if np.ndim(x) else table(x, y)
    shape = ((draws,) if cal else ()) + ((4,) if 'time' in marg else ())
    D, H = {}, {}
    real_num = c.real

    def arr(shape, f):
        a = np.empty(shape, dtype=object if c.sym else complex)
        for i in np.ndindex(*shape):
            a[i] = f(''.join(map(str, i)))
        return as_nd(a) if c.sym else a
    for i in ifos:
        D[i.name] = arr(shape, lambda t: complex_(c, 'dh_%s_%s' % (i.name, t)))
        hs = arr(shape[:1] if cal else (), lambda t: c.pos('hh_%s_%s' % (i.name, t)))
        H[i.name] = hs if c.sym else np.real(hs)
    asked, at = [], []
    like.seen_times = at

    def snrs(self, waveform_polarizations, interferometer, return_array=True):
        n = interferometer.name
        asked.append(n)
        if jitter:
            at.append(self.parameters['geocent_time'])
        s = cls._CalculatedSNRs()
        s.d_inner_h, s.optimal_snr_squared, s.complex_matched_filter_snr = complex_(c, 'dh0_' + n), c.pos('hh0_' + n), 0
        if not shape:
            s.d_inner_h, s.optimal_snr_squared = D[n].item(), H[n].item()
        else:
            s.d_inner_h_array = D[n]
            if cal:
                s.optimal_snr_squared_array = H[n]
            else:
                s.optimal_snr_squared = H[n].item()
        return s
    c.setattr(cls, 'calculate_snrs', snrs)
    like.parameters = dict(id='A', ra=0., dec=0., geocent_time=start, psi=0., phase=0., luminosity_distance=500.)

    def single(d, h):
        if 'distance' in marg:
            return table(np.abs(d) if 'phase' in marg else np.real(d), h)
        return (gwu.ln_i0(np.abs(d)) if 'phase' in marg else np.real(d)) - h / 2

    def loglike(draw=()):
        h = sum(H[i.name][draw] if draw != () else H[i.name].item() for i in ifos)
        if 'time' in marg:
            return log_integral(c, [(single(sum(D[i.name][draw + (b,)] if draw != () else D[i.name][b] for i in ifos), h),
                                     dens(start + b / 4) / 4) for b in range(4) if lo <= b / 4 <= hi])
        return single(sum(D[i.name][draw] if draw != () else D[i.name].item() for i in ifos), h)
    return like, pri, ifos, loglike, asked


for marg_ in subsets():
    @contract("P09", "GravitationalWaveTransient[%s]" % ' and '.join(marg_), floats=FL,
              bound="four time bins, two calibration draws, two detectors", samples=60)
    def _(c, marg=marg_):
        like, pri, ifos, loglike, asked = combination(c, marg)
        got = like.log_likelihood_ratio()
        cal = 'calibration' in marg
        c.ensure_eq('every-detector-once', [len(asked), asked.count('H1'), asked.count('L1')], [2, 1, 1])
        if not cal:
            c.ensure_eq('integral', got, loglike())
        else:
            ll = [loglike((k,)) for k in range(2)]
            c.ensure_eq('mean-over-the-draws', got, log_integral(c, [(x, 0.5) for x in ll]))
            c.ensure_eq('each-draw', like.get_calibration_log_likelihoods(), ll)
            sampled_draw(c, like, ll)
        fixed = [k for k in ('phase', 'geocent_time', 'luminosity_distance', 'recalib_H1_a')
                 if k in pri and not hasattr(pri[k], 'peak') and not isinstance(pri[k], (int, float)) and hasattr(pri[k], 'prob')]
        c.ensure('callers-priors-are-fixed', [k for k in fixed if not pri[k].is_fixed] == ([] if cal else ['recalib_H1_a']))
        c.ensure('redundant-distance-priors-dropped', ('redshift' in pri) == False)


def sampled_draw(c, like, ll):
    import bilby.core.utils.random as rnd
    chosen = []

    class Choice(object):
        def choice(self, n, p=None):
            chosen.append((n, p))
            return 1
    c.setattr(rnd, 'rng', Choice())
    if c.sym:
        M = c.real('offset')
        c.callee(lb, 'max', lambda x: M)
    k = like.generate_calibration_sample_from_marginalized_likelihood()
    c.ensure('picked-from-the-draws', k == 1 and chosen[0][0] == 2)
    p = chosen[0][1]
    c.ensure_eq('probabilities-add-up', p[0] + p[1], 1)
    if c.sym:
        c.ensure_eq('odds', p[0] * np.exp(ll[1]), p[1] * np.exp(ll[0]))
    elif abs(ll[0] - ll[1]) < 300:
        c.ensure_eq('odds', p[0] * np.exp(ll[1] - ll[0]), p[1], atol=1e-12)


@contract("P09", "get_calibration_log_likelihoods[jitter]", floats=FL, bound="four time bins, two calibration draws, two detectors")
def _(c):
    like, pri, ifos, loglike, asked = combination(c, ('calibration', 'time'), jitter=True)
    j = like.parameters['time_jitter'] = c.real('jitter', -0.04, 0.04)
    start = like.parameters['geocent_time']
    like.log_likelihood_ratio()
    c.ensure_eq('template-at-the-jittered-time', like.seen_times[-2:], [start + j] * 2)
    like.get_calibration_log_likelihoods(dict(id='A'))
    c.ensure_eq('template-at-the-jittered-time-for-each-draw', like.seen_times[-2:], [start + j] * 2)
    c.ensure_eq('time-restored', like.parameters['geocent_time'], start)


# ------------------------------------------------------------------------------------------------ reconstruction
class Density(object):
    """stand-in for Interped: keeps the table it is given"""
    made = None

    def __init__(self, xx, yy, **k):
        self.xx, self.yy = list(np.atleast_1d(xx)), list(np.atleast_1d(yy))
        Density.made = self

    def sample(self, size=None):
        return self.value


def proportional(c, label, yy, logs, weights=None):
    """yy is proportional to weights * exp(logs)"""
    weights = [1] * len(logs) if weights is None else weights
    c.ensure_eq(label + '-points', len(yy), len(logs))
    for i in range(1, len(logs)):
        if c.sym:
            c.ensure_eq(label, yy[i] * np.exp(logs[0]) * weights[0], yy[0] * np.exp(logs[i]) * weights[i])
        elif abs(logs[0] - max(logs)) < 300 and abs(logs[i] - max(logs)) < 300:
            c.ensure_eq(label, yy[i] * np.exp(logs[0] - logs[i]) * weights[0], yy[0] * weights[i], rtol=1e-4)


def bare(c, products=True):
    """a likelihood at a point of parameter space; the products of data and template in each detector are arbitrary"""
    cls = lb.GravitationalWaveTransient
    free_converters(c)
    like = object.__new__(cls)
    like.waveform_generator = Waveform()
    like.waveform_generator.duration, like.waveform_generator.start_time = 1, 0
    like._interferometers = network(c, 2, 1, 0)
    like.reference_frame, like.time_reference = 'sky', 'geocent'
    like.time_marginalization = like.distance_marginalization = like.phase_marginalization = False
    like.calibration_marginalization = like.jitter_time = False
    like.parameters = dict(id='A', ra=0., dec=0., geocent_time=0.)
    dh = {n: complex_(c, 'dh_' + n) for n in ('H1', 'L1')}
    hh = {n: c.pos('hh_' + n) for n in ('H1', 'L1')}

    def snrs(self, waveform_polarizations, interferometer, return_array=True):
        s = cls._CalculatedSNRs()
        s.d_inner_h, s.optimal_snr_squared = dh[interferometer.name], hh[interferometer.name]
        return s
    if products:
        c.setattr(cls, 'calculate_snrs', snrs)
    Density.value = c.real('sampled', 0.5, 2)
    c.setattr(lb, 'Interped', Density)
    if c.sym:
        M = c.real('offset')
        c.callee(lb, 'max', lambda x: M)
    return like, sum(dh.values()), sum(hh.values())


@contract("P09", "generate_phase_sample", bound="three of the phases of the grid")
def _(c):
    like, dh, hh = bare(c)
    ends = []
    real = np.linspace
    few = np.array([0., 1.3, 4.1])

    def linspace(a, b, n=50, **k):
        ends.append((a, b, n))
        return few if c.sym else real(a, b, n, **k)
    c.setattr(np, 'linspace', linspace)
    out = like.generate_phase_sample_from_marginalized_likelihood(signal_polarizations=dict(id='A'))
    c.ensure_eq('sampled-value', out, Density.value)
    c.ensure_eq('whole-period', ends[0][:2], [0, 2 * np.pi])
    c.ensure('resolved', ends[0][2] > 50)
    xs = Density.made.xx
    r, i = np.real(dh), np.imag(dh)
    proportional(c, 'phase-density', Density.made.yy, [r * np.cos(2 * x) + i * np.sin(2 * x) - hh / 2 for x in xs])


@contract("P09", "generate_distance_sample", bound="three distances")
def _(c):
    like, dh, hh = bare(c)
    like.phase_marginalization = phase = c.choice('phase', [False, True])
    L = like.parameters['luminosity_distance'] = c.real('L', 100, 1000)
    D = [100., 250., 800.]
    like._distance_array = np.array(D)
    like._ref_dist = L
    pr = [c.real('prior%d' % i, 0.01, 2) for i in range(3)]
    like.distance_prior_array = as_nd(np.array(pr, dtype=object)) if c.sym else np.array(pr)
    h = complex_(c, 'plus')
    pol = dict(plus=h)
    out = like.generate_distance_sample_from_marginalized_likelihood(signal_polarizations=pol)
    c.ensure_eq('sampled-value', out, Density.value)
    c.ensure_eq('signal-moved-to-the-new-distance', pol['plus'] * out, h * L)
    c.ensure_eq('distances', Density.made.xx, D)
    ll = [(gwu.ln_i0(np.abs(dh * L / d)) if phase else np.real(dh) * L / d) - hh * (L / d) ** 2 / 2 for d in D]
    proportional(c, 'distance-density', Density.made.yy, ll, pr)


def dft8(x, axis=-1):
    """contract of numpy.fft.fft for eight points"""
    from pydv.sym import SymComplex
    n = len(x)
    assert n == 8
    out = np.empty(8, dtype=object)
    for k in range(8):
        out[k] = SymComplex.of(sum(x[j] * root8(j * k) for j in range(8)))
    return as_nd(out)


def root8(m):
    r = 0.5 ** 0.5
    return [1, r - r * 1j, -1j, -r - r * 1j, -1, -r + r * 1j, 1j, r + r * 1j][m % 8]


for marg_ in [(), ('phase',), ('distance',)]:
    for cal_ in ((False,) if marg_ else (False, True)):
        @contract("P09", "generate_time_sample[%s%s]" % (' '.join(marg_) or 'time only', ' chosen draw' if cal_ else ''), samples=60,
                  bound="five frequency bins, eight times of which two are in the prior range")
        def _(c, marg=marg_, cal=cal_):
            import bilby
            like, _, _ = bare(c, False)
            if c.sym:
                c.callee(np.fft, 'fft', dft8)
                tops = [0, c.real('offset')]
                c.callee(lb, 'max', lambda x: tops.pop() if tops else 0)
                c.callee(lb, 'create_time_series', lambda f=lb.create_time_series, **k: as_nd(np.array(f(**k), dtype=object)))
            T = 1 / 2048
            mask = (False, True, False, True, False)
            start = 8.0
            ifos = [BinDetector(c, name, T, start, mask) for name in (['H1', 'L1'] if not marg and not cal else ['H1'])]
            like._interferometers = ifos
            for i in ifos:
                i.power_spectral_density.psd = i.power_spectral_density.psd * 8192
            w = like.waveform_generator
            w.duration, w.start_time = T, start
            dens = c.func('density', 1, positive=True)
            table = c.func('table', 2)
            like.time_marginalization = True
            like.phase_marginalization = 'phase' in marg
            like.distance_marginalization = 'distance' in marg
            like._interp_dist_margd_loglikelihood = lambda x, y, grid=False: table(*np.broadcast_arrays(x, y))
            like._ref_dist = 500.
            like.parameters.update(geocent_time=start, luminosity_distance=500.)
            C = [[complex_(c, 'C%d%d' % (k, j)) for j in range(2)] for k in range(2)]
            one = [1, 1]
            if cal:
                like.parameters['recalib_index'] = 1
                like.calibration_marginalization = True
                like.calibration_draws = dict(H1=shape2(c, C))
                one = C[1]
            lo, hi = 2.5 / 16384, 4.5 / 16384

            class Window(bilby.core.prior.Prior):
                def prob(self, val):
                    return dens(val)
            like._prior = dict(geocent_time=Window('geocent_time', minimum=start + lo, maximum=start + hi))
            out = like.generate_time_sample_from_marginalized_likelihood(signal_polarizations=dict(id='A'))
            c.ensure_eq('sampled-value', out, Density.value)

            def loglike(n):
                dh, hh = 0, 0
                for i in ifos:
                    d, S = i.strain_data.frequency_domain_strain, i.power_spectral_density.psd
                    for m, j in enumerate((1, 3)):
                        h = i.h[j] * one[m]
                        dh = dh + 4 / T * np.conj(d[j]) * h * root8(j * n) / S[j]
                        hh = hh + 4 / T * np.real(np.conj(h) * h) / S[j]
                if 'distance' in marg:
                    return table(np.abs(dh) if 'phase' in marg else np.real(dh), hh)
                return (gwu.ln_i0(np.abs(dh)) if 'phase' in marg else np.real(dh)) - hh / 2
            xs = Density.made.xx
            got = [n for n in (3, 4) if any(abs(x - start - n / 16384) < 1e-9 for x in xs)]
            c.ensure_eq('times', xs, [start + n / 16384 for n in got])
            proportional(c, 'time-density', Density.made.yy, [loglike(n) for n in got], [dens(start + n / 16384) for n in got])


@contract("P09", "generate_posterior_sample")
def _(c):
    like, _, _ = bare(c)
    cls = lb.GravitationalWaveTransient
    like._marginalized_parameters = []
    marg = [m for m in ('calibration', 'time', 'distance', 'phase') if c.choice(m, [False, True])]
    names = dict(calibration='recalib_index', time='geocent_time', distance='luminosity_distance', phase='phase')
    before = dict(recalib_index=None, geocent_time=0., luminosity_distance=1., phase=0.)
    like.parameters.update(luminosity_distance=1., phase=0.)
    new = {m: c.real('new_' + m) for m in marg}
    log = []
    original = dict(id='A')
    like.waveform_generator.frequency_domain_strain = lambda p: original
    for m in ('calibration', 'time', 'distance', 'phase'):
        setattr(like, m + '_marginalization', m in marg)

        def f(self, signal_polarizations=None, m=m):
            log.append((m, signal_polarizations, dict(self.parameters)))
            return new[m]
        c.setattr(cls, 'generate_%s_sample_from_marginalized_likelihood' % m, f)
    like._marginalized_parameters = [names[m] for m in marg]
    out = like.generate_posterior_sample_from_marginalized_likelihood()
    c.ensure('one-after-the-other', [x[0] for x in log] == marg)
    for k, (m, pol, seen) in enumerate(log):
        c.ensure('one-private-copy-of-the-signal', pol is log[0][1] and pol is not original and pol == original)
        for q in marg:
            c.ensure_eq('conditioned-on-those-before', [seen.get(names[q]) if seen.get(names[q]) is not None else -5.],
                        [new[q] if marg.index(q) < k else (before[names[q]] if before[names[q]] is not None else -5.)])
    for m in marg:
        c.ensure_eq('result', out[names[m]], new[m])
    c.ensure('others-untouched', out['id'] == 'A' and out['ra'] == 0. and out['dec'] == 0.)


@contract("P09", "get_sky_frame_parameters")
def _(c):
    like, _, _ = bare(c)
    ra, dec, zen, az = [c.real(n) for n in ('ra', 'dec', 'zenith', 'azimuth')]
    tg, th = c.real('geocent_time'), c.real('H1_time')
    frame, ref = c.choice('frame', ['sky', 'H1L1']), c.choice('reference', ['geocent', 'H1'])
    f, g, delay = c.func('ra_of', 3), c.func('dec_of', 3), c.func('delay', 3)
    asked = []

    def sky(zenith, azimuth, time, ifos):
        asked.append([i.name for i in ifos])
        return f(zenith, azimuth, time), g(zenith, azimuth, time)
    c.setattr(lb, 'zenith_azimuth_to_ra_dec', sky)
    c.setattr(Interferometer, 'time_delay_from_geocenter', lambda self, ra, dec, time: delay(ra, dec, time))
    like.reference_frame = frame
    like.time_reference = ref
    like.reference_ifo = Detector(c, 'H1', 1, 0)
    out = like.get_sky_frame_parameters(dict(ra=ra, dec=dec, zenith=zen, azimuth=az, geocent_time=tg, H1_time=th))
    t = tg if ref == 'geocent' else th
    if frame == 'sky':
        er, ed = ra, dec
    else:
        er, ed = f(zen, az, t), g(zen, az, t)
        c.ensure('baseline', asked == [['H1', 'L1']])
    c.ensure_eq('position', [out['ra'], out['dec']], [er, ed])
    c.ensure_eq('time', out['geocent_time'], tg if ref == 'geocent' else th - delay(er, ed, th))
    c.ensure('nothing-else', set(out) == {'ra', 'dec', 'geocent_time'})
    like.parameters.update(ra=ra, dec=dec, zenith=zen, azimuth=az, geocent_time=tg, H1_time=th)
    own = like.get_sky_frame_parameters()
    c.ensure_eq('own-parameters', [own['ra'], own['dec'], own['geocent_time']], [out['ra'], out['dec'], out['geocent_time']])
