"""P18: the accelerated likelihoods are the likelihood of the same data: relative binning, reduced order quadrature and
multi-banding return the inner products of their reduced representation, and the exact ones where the reduction is exact."""
import copy
import os
import shutil
import tempfile
import numpy as np
from pydv.contract import contract
import bilby
import bilby.gw.likelihood.base as lb
import bilby.gw.likelihood.relative as rl
import bilby.gw.likelihood.roq as rq
import bilby.gw.likelihood.multiband as mb
from bilby.gw.detector.interferometer import Interferometer
from contracts.p09 import free_converters, masked_inner
from contracts.p10 import obj

ASSUMPTIONS = ["scipy.optimize.differential_evolution returns some point of the bounds",
               "relative binning keeps the first order of <h|h> in the slope of the ratio, as documented"]
FL = ("bilby.gw.likelihood.base", "bilby.gw.likelihood.relative", "bilby.gw.likelihood.roq")


def cobj(c, v):
    if c.sym:
        return obj(c, v)
    return np.array([complex(x) for x in v])


class Data(object):
    """contract of InterferometerStrainData (P10) on frequencies 0, 1/T, ...: zero outside the mask"""

    def __init__(self, c, name, T, mask, start=0):
        self.frequency_mask = np.array(mask, dtype=bool)
        self.frequency_array = np.arange(len(mask)) / T
        self.frequency_domain_strain = cobj(c, [c.complexes('d%d_%s' % (i, name)) if m else 0 for i, m in enumerate(mask)])
        self.duration, self.start_time = T, start
        self.window_factor = 1
        self.sampling_frequency = 2 * self.frequency_array[-1]
        f = self.frequency_array[self.frequency_mask]
        self.minimum_frequency, self.maximum_frequency = f[0], f[-1]


class Psd(object):
    def __init__(self, c, name, n):
        self.psd = obj(c, [c.pos('S%d_%s' % (i, name)) for i in range(n)])

    def get_power_spectral_density_array(self, frequency_array):
        return self.psd


def fixed(*key):
    """a fixed complex number for each key, different from zero"""
    import zlib
    n = zlib.crc32(repr(key).encode())
    z = complex(1 + n % 7, (n // 7) % 5 - 2) / 4
    return z


class Response(Interferometer):
    """the signal in the detector is the polarization times a factor of parameters and frequency"""

    def __init__(self, c, name, T, mask, start=0):
        super().__init__(name, None, 1, 1, 4, 46., -119., 142., 126., 216.)
        self.strain_data = Data(c, name, T, mask, start)
        self.power_spectral_density = Psd(c, name, len(mask))
        self.c = c

    def response(self, k, f):
        return fixed(self.name, k, f)

    def get_detector_response(self, waveform_polarizations, parameters, frequencies=None):
        inside = self.frequency_mask if frequencies is None else [True] * len(frequencies)
        if frequencies is None:
            frequencies = self.frequency_array
        return cobj(self.c, [p * self.response(parameters['id'], float(f)) if i else 0 for p, f, i in
                             zip(waveform_polarizations['plus'], frequencies, inside)])


class Model(object):
    """waveform generator of a relative-binning source model: the full grid if fiducial, else the bin edges"""

    def __init__(self, c, f, last):
        self.c, self.frequency_array, self.last = c, f, last
        self.duration = self.sampling_frequency = self.start_time = None
        self.waveform_arguments = {}
        self.h = {}
        self.fails = False

    def value(self, k, f):
        if f > self.last:
            return 0
        if k == 'A':
            return fixed('h', f)
        if (k, f) not in self.h:
            self.h[k, f] = self.c.complexes('h_%s_%s' % (k, f))
        return self.h[k, f]

    def frequency_domain_strain(self, parameters):
        if self.fails:
            return None
        f = self.frequency_array if parameters['fiducial'] == 1 else self.waveform_arguments['frequency_bin_edges']
        return dict(plus=cobj(self.c, [self.value(parameters['id'], float(x)) for x in f]))


BANDS = dict(equal=[(0, 1, 1, 1, 1, 1, 1, 1, 0)] * 2,
             nyquist=[(0, 1, 1, 1, 1, 1, 1, 1, 1)] * 2,
             low=[(0, 1, 1, 1, 1, 1, 1, 0, 0), (0, 0, 0, 1, 1, 1, 1, 1, 0)],
             notched=[(0, 1, 1, 0, 1, 1, 0, 1, 0), (0, 1, 1, 1, 1, 0, 1, 1, 0)],
             single=[(0, 1, 1, 1, 1, 1, 1, 1, 0)])


def relative(c, band, last=8, epsilon=1.5, **k):
    free_converters(c)
    T = 2
    ifos = [Response(c, n, T, m) for n, m in zip(['H1', 'L1'], BANDS[band])]
    wf = Model(c, ifos[0].strain_data.frequency_array, last / T)
    real = rl.RelativeBinningGravitationalWaveTransient.log_likelihood_ratio
    c.setattr(rl.RelativeBinningGravitationalWaveTransient, 'log_likelihood_ratio', lambda self: 0)
    like = rl.RelativeBinningGravitationalWaveTransient(
        ifos, wf, fiducial_parameters=dict(id='A', ra=0., dec=0., geocent_time=0., psi=0.), epsilon=epsilon, **k)
    c.setattr(rl.RelativeBinningGravitationalWaveTransient, 'log_likelihood_ratio', real)
    return like, ifos, wf


def edges_of(like):
    """bins between the edges: indices of the frequencies of each bin, the last one including its end"""
    e = [int(round(x * 2)) for x in like.bin_freqs]
    return e, [list(range(a, b + (i == len(e) - 2))) for i, (a, b) in enumerate(zip(e[:-1], e[1:]))]


def sums(c, like, wf, ifo):
    """4 / T sum over the analysed frequencies of each bin of conj(h0) d (f - fm)^n / S, and the same of conj(h0) h0"""
    e, bins = edges_of(like)
    d, S, m = ifo.strain_data.frequency_domain_strain, ifo.power_spectral_density.psd, ifo.frequency_mask
    out = [[], [], [], []]
    for b, js in enumerate(bins):
        v = [0, 0, 0, 0]
        for j in js:
            if m[j]:
                h0 = wf.value('A', j / 2) * ifo.response('A', j / 2)
                x = j / 2 - (e[b] + e[b + 1]) / 4
                for q, t in enumerate((d[j], d[j] * x, h0, h0 * x)):
                    v[q] = v[q] + 2 * np.conj(h0) * t / S[j]
        for q in range(4):
            out[q].append(v[q])
    return out


for band_ in BANDS:
    for last_ in (8, 6):
        @contract("P18", "RelativeBinning summary data[%s, waveform up to %s]" % (band_, last_), floats=FL, bound="nine frequencies", samples=40)
        def _(c, band=band_, last=last_):
            like, ifos, wf = relative(c, band, last, c.choice('epsilon', [0.5, 1.5, 30., 1000.]))
            e, bins = edges_of(like)
            lo = min(np.where(i.frequency_mask)[0][0] for i in ifos)
            hi = min(max(np.where(i.frequency_mask)[0][-1] for i in ifos), last)
            c.ensure('edges', e[0] == lo and e[-1] == hi and all(a < b for a, b in zip(e[:-1], e[1:])))
            c.ensure('indices', [int(x) for x in like.bin_inds] == e)
            c.ensure('sizes', [int(x) for x in like.bin_sizes] == [len(b) for b in bins])
            c.ensure('edges-handed-over', [float(x) for x in wf.waveform_arguments['frequency_bin_edges']] == [j / 2 for j in e])
            for ifo in ifos:
                want = sums(c, like, wf, ifo)
                for k, q in zip(('a0', 'a1', 'b0', 'b1'), (0, 1, 2, 3)):
                    c.ensure_eq(k, list(like.summary_data[ifo.name][q]), want[q])


@contract("P18", "RelativeBinning ratio", floats=FL, bound="nine frequencies", samples=40)
def _(c):
    like, ifos, wf = relative(c, c.choice('band', list(BANDS)), c.choice('last', [8, 6]), 30.)
    e, bins = edges_of(like)
    k = c.choice('waveform', ['A', 'B'])
    p = dict(id=k, ra=0., dec=0., geocent_time=0., psi=0., fiducial=0)
    like.parameters = dict(p)
    pol = wf.frequency_domain_strain(p)
    for ifo in ifos:
        r0, r1 = like.compute_waveform_ratio_per_interferometer(pol, ifo)
        for b in range(len(bins)):
            for j, s in ((e[b], -1), (e[b + 1], 1)):
                c.ensure_eq('ratio-at-edge', (r0[b] + s * r1[b] * (e[b + 1] - e[b]) / 4) * wf.value('A', j / 2) * ifo.response('A', j / 2),
                            wf.value(k, j / 2) * ifo.response(k, j / 2))
            if k == 'A':
                c.ensure_eq('one-at-fiducial', [r0[b], r1[b]], [1, 0])


@contract("P18", "RelativeBinning snrs", floats=FL, bound="nine frequencies", samples=40)
def _(c):
    time = c.choice('time', [False, True])
    like, ifos, wf = relative(c, c.choice('band', list(BANDS)), c.choice('last', [8, 6]), 30.)
    e, bins = edges_of(like)
    n = len(bins)
    p = dict(id='B', ra=0., dec=0., geocent_time=0., psi=0., fiducial=0)
    like.parameters = dict(p)
    like.time_marginalization = time
    r0, r1 = cobj(c, [c.complexes('r%d' % i) for i in range(n)]), cobj(c, [c.complexes('q%d' % i) for i in range(n)])
    c.setattr(like, 'compute_waveform_ratio_per_interferometer', lambda waveform_polarizations, interferometer: [r0, r1])
    got = []
    c.setattr(np.fft, 'fft', lambda x, *a, **k: got.append(x) or x)
    for ifo in ifos:
        a0, a1, b0, b1 = [cobj(c, [c.complexes('%s%d_%s' % (k, i, ifo.name)) for i in range(n)]) for k in ('a0', 'a1', 'b0', 'b1')]
        b0, b1 = [cobj(c, [np.real(x) for x in v]) for v in (b0, b1)]
        real = like.summary_data[ifo.name]
        like.summary_data[ifo.name] = (a0, a1, b0, b1)
        dh = sum(a0[i] * np.conj(r0[i]) + a1[i] * np.conj(r1[i]) for i in range(n))
        hh = sum(np.real(b0[i]) * np.real(r0[i] * np.conj(r0[i])) + 2 * np.real(b1[i]) * np.real(r0[i] * np.conj(r1[i])) for i in range(n))
        c.assume(hh > 0)
        s = like.calculate_snrs({}, ifo)
        c.ensure_eq('d-inner-h', s.d_inner_h, dh)
        c.ensure_eq('h-inner-h', s.optimal_snr_squared, hh)
        c.ensure_eq('snr', s.complex_matched_filter_snr * hh ** 0.5, dh)
        full = {}
        for b, js in enumerate(bins):
            for j in js:
                if ifo.frequency_mask[j]:
                    full[j] = wf.value('A', j / 2) * ifo.response('A', j / 2) * (r0[b] + r1[b] * (j / 2 - (e[b] + e[b + 1]) / 4))
        c.ensure_eq('full-waveform', list(like._compute_full_waveform({}, ifo)), [full.get(j, 0) for j in range(9)])
        if time:
            d, S = ifo.strain_data.frequency_domain_strain, ifo.power_spectral_density.psd
            c.ensure_eq('time-series-input', list(got.pop()), [full.get(j, 0) * np.conj(d[j]) / S[j] for j in range(8)])
            c.ensure_eq('time-series', list(s.d_inner_h_array), [2 * full.get(j, 0) * np.conj(d[j]) / S[j] for j in range(8)])
        else:
            c.ensure('no-time-series', s.d_inner_h_array is None)


for band_ in BANDS:
    @contract("P18", "RelativeBinning likelihood[%s]" % band_, floats=FL, bound="nine frequencies", samples=40)
    def _(c, band=band_):
        """at the fiducial parameters the likelihood is the exact one"""
        last = c.choice('last', [8, 6])
        if c.sym:
            c.callee(lb, 'float', lambda x: x)
        like, ifos, wf = relative(c, band, last, c.choice('epsilon', [1.5, 30.]))
        c.ensure('parameters-reset', like.parameters == dict(fiducial=0))
        like.parameters.update(id='A', ra=0., dec=0., geocent_time=0., psi=0.)
        want = 0
        for ifo in ifos:
            w = cobj(c, [wf.value('A', j / 2) * ifo.response('A', j / 2) if m else 0 for j, m in enumerate(ifo.frequency_mask)])
            want = want + np.real(masked_inner(c, ifo, w, ifo.strain_data.frequency_domain_strain, 2)) \
                - np.real(masked_inner(c, ifo, w, w, 2)) / 2
        c.ensure_eq('exact-at-fiducial', like.log_likelihood_ratio(), want)


# ------------------------------------------------------------------------------------------------ reduced order quadrature
ROQ = rq.ROQGravitationalWaveTransient


@contract("P18", "ROQ interpolation of five samples")
def _(c):
    """exact for cubic functions of time, hence continuous and the sample values at the samples"""
    dt, t0, x = c.pos('dt'), c.real('t0'), c.unit('x')
    k = [c.complexes('k%d' % i) for i in range(4)]
    f = lambda s: k[0] + k[1] * s + k[2] * s ** 2 + k[3] * s ** 3
    t = [t0 + i * dt for i in range(5)]
    v = [f(i) for i in range(5)]
    c.ensure_eq('cubic', ROQ._interp_five_samples(t, v, t[2] + x * dt), f(2 + x))
    w = [c.complexes('v%d' % i) for i in range(5)]
    c.ensure_eq('at-sample', ROQ._interp_five_samples(t, w, t[2]), w[2])
    c.ensure_eq('at-next-sample', ROQ._interp_five_samples(t, w, t[3]), w[3])


@contract("P18", "ROQ closest samples", bound="1 to 9 samples, times on and between them")
def _(c):
    n = c.choice('n', [4, 5, 6, 9])
    start = c.choice('start', [0., 3.])
    t = start + np.arange(n) * 0.25
    q = c.choice('quarters', range(-8, 44))
    time = start + q / 16
    idx, inside = ROQ._closest_time_indices(time, t)
    lo = np.floor(q / 4)
    c.ensure('in-bounds', bool(inside) == (lo - 2 >= 0 and lo + 2 <= n - 1))
    if inside:
        c.ensure('around', idx == [int(lo) + i for i in (-2, -1, 0, 1, 2)] and t[idx[2]] <= time < t[idx[3]])


class Calibration(object):
    def __init__(self, c):
        self.c, self.seen = c, []

    def get_calibration_factor(self, frequency_array, prefix, **params):
        self.seen.append((prefix, params.get('cal')))
        return cobj(self.c, [fixed('cal', prefix, float(f)) for f in frequency_array])


class Site(Interferometer):
    """antenna response and time delay are unknown functions, here fixed numbers for each argument"""

    def __init__(self, c, name, start=0., delay=0.):
        super().__init__(name, None, 1, 1, 4, 46., -119., 142., 126., 216.)
        self.c, self.delay = c, delay
        self.strain_data = type('D', (), dict(start_time=start, duration=1.))()
        self.calibration_model = Calibration(c)
        self.times = set()

    def antenna_response(self, ra, dec, time, psi, mode):
        self.times.add(float(time))
        return fixed(self.name, mode, float(time)).real

    def time_delay_from_geocenter(self, ra, dec, time):
        self.times.add(float(time))
        return self.delay


class Nodes(object):
    def __init__(self, c):
        self.c, self.waveform_arguments = c, {}


TS = 0.25 + np.arange(12) * 0.03125
UNIQUE, LIN, QUAD = np.array([20., 25., 30., 40.]), [0, 2], [1, 3, 0]


def roq(c, nb=1, numbers=False, **k):
    """likelihood with given weights: two linear and three quadratic nodes, sharing one frequency"""
    free_converters(c)
    like = object.__new__(ROQ)
    number = (lambda *a: fixed(*a)) if numbers else (lambda *a: c.complexes('w_%s' % '_'.join(map(str, a))))
    like._interferometers = [Site(c, 'H1', 0.), Site(c, 'L1', 0., 0.01)]
    like._waveform_generator = Nodes(c)
    like._waveform_generator.waveform_arguments.update(frequency_nodes=UNIQUE, linear_indices=np.array(LIN), quadratic_indices=np.array(QUAD))
    like.number_of_bases_linear = like.number_of_bases_quadratic = 1
    like.weights = dict(time_samples=TS)
    for i in like._interferometers:
        w = cobj(c, [number(i.name, j, b) for j in range(len(TS)) for b in range(2)]).reshape(len(TS), 2)
        like.weights[i.name + '_linear'] = [w]
        like.weights[i.name + '_quadratic'] = [obj(c, [np.real(number(i.name, 'q', b)) for b in range(3)])]
    like.time_marginalization = like.jitter_time = like.phase_marginalization = False
    like.distance_marginalization = like.calibration_marginalization = False
    like._cache = dict(parameters=None, basis_number_linear=None, basis_number_quadratic=None)
    for q, v in k.items():
        setattr(like, q, v)
    return like


def nodes_of(c, like, ifo, pol, tref):
    """template in the detector at the nodes, without the time shift"""
    f = [fixed(ifo.name, m, tref).real for m in ('plus', 'cross')]
    cal = [fixed('cal', 'recalib_%s_' % ifo.name, float(x)) for x in UNIQUE]
    return ([sum(pol['linear'][m][n] * r for m, r in zip(('plus', 'cross'), f)) * cal[i] for n, i in enumerate(LIN)],
            [sum(pol['quadratic'][m][n] * r for m, r in zip(('plus', 'cross'), f)) * cal[i] for n, i in enumerate(QUAD)])


def at_time(c, like, ifo, hl, t):
    """<d|h> for a template arriving at t: the five-sample interpolation of sum_i conj(h_i) w_ti; None out of the samples"""
    q = (t - TS[0]) / (TS[1] - TS[0])
    j = int(np.floor(q))
    if j < 2 or j + 2 >= len(TS):
        return None
    w = like.weights[ifo.name + '_linear'][0]
    v = [sum(np.conj(hl[i]) * w[j + s][i] for i in range(2)) for s in (-2, -1, 0, 1, 2)]
    return ROQ._interp_five_samples(TS[j - 2:j + 3], v, t)


TIMES = [0.25, 0.3, 0.32, 0.4, 0.4375, 0.5, 0.53, 0.55, 0.56, 0.6, 0.7]


@contract("P18", "ROQ snrs", floats=FL, bound="two nodes, twelve time samples")
def _(c):
    like = roq(c)
    t = c.choice('time', TIMES)
    like.parameters = dict(ra=0., dec=0., psi=0., geocent_time=t, cal=1)
    pol = {k: {m: cobj(c, [c.complexes('h_%s_%s_%d' % (k, m, i)) for i in range(n)]) for m in ('plus', 'cross')}
           for k, n in (('linear', 2), ('quadratic', 3))}
    for ifo in like._interferometers:
        hl, hq = nodes_of(c, like, ifo, pol, t)
        wq = like.weights[ifo.name + '_quadratic'][0]
        hh = sum(np.real(x * np.conj(x)) * y for x, y in zip(hq, wq))
        c.assume(hh > 0)
        s = like.calculate_snrs(pol, ifo)
        c.ensure_eq('h-inner-h', s.optimal_snr_squared, hh)
        dh = at_time(c, like, ifo, hl, t + ifo.delay)
        if dh is None:
            c.ensure('no-likelihood', s.d_inner_h == -np.inf and s.complex_matched_filter_snr == -np.inf)
        else:
            c.ensure_eq('d-inner-h', s.d_inner_h, dh)
            c.ensure_eq('snr', s.complex_matched_filter_snr * hh ** 0.5, dh)
        c.ensure('times', ifo.times == {t} and set(ifo.calibration_model.seen) == {('recalib_%s_' % ifo.name, 1)})
        c.ensure('no-time-series', s.d_inner_h_array is None)


@contract("P18", "ROQ snrs[time marginalised]", floats=FL, bound="two nodes, twelve time samples")
def _(c):
    like = roq(c)
    times = c.choice('times', [[0.4, 0.42, 0.44], [0.35, 0.55], [0.45], [0.26, 0.31, 0.36], [0.5, 0.54, 0.58],
                               [0.2, 0.4, 0.6]])
    jitter = c.choice('jitter', [None, 0.004, -0.004])
    like.time_marginalization, like._times = True, np.array(times)
    like.jitter_time = jitter is not None
    like._beam_pattern_reference_time = 0.4
    like.parameters = dict(ra=0., dec=0., psi=0., geocent_time=0.37, cal=1, time_jitter=jitter)
    pol = {k: {m: cobj(c, [c.complexes('h_%s_%s_%d' % (k, m, i)) for i in range(n)]) for m in ('plus', 'cross')}
           for k, n in (('linear', 2), ('quadratic', 3))}
    for ifo in like._interferometers:
        hl, hq = nodes_of(c, like, ifo, pol, 0.4)
        wq = like.weights[ifo.name + '_quadratic'][0]
        hh = sum(np.real(x * np.conj(x)) * y for x, y in zip(hq, wq))
        c.assume(hh > 0)
        s = like.calculate_snrs(pol, ifo)
        c.ensure_eq('h-inner-h', s.optimal_snr_squared, hh)
        c.ensure('length', len(s.d_inner_h_array) == len(times))
        for t, got in zip(times, s.d_inner_h_array):
            dh = at_time(c, like, ifo, hl, t + ifo.delay + (jitter or 0))
            if dh is None:
                c.ensure('no-likelihood', np.real(got) == -np.inf)
            else:
                c.ensure_eq('d-inner-h-of-each-time', got, dh)
        c.ensure_eq('times-unchanged', list(like._times), times)
        c.ensure('no-time-series', like.calculate_snrs(pol, ifo, return_array=False).d_inner_h_array is None)


@contract("P18", "ROQ marginalised likelihood out of the time samples", bound="fixed numbers")
def _(c):
    """no marginalisation turns a time without data into anything but zero likelihood"""
    like = roq(c, numbers=True)
    marg = c.choice('marginalised', [(), ('phase',), ('distance',), ('phase', 'distance')])
    for m in marg:
        setattr(like, m + '_marginalization', True)
    seen = []

    def table(x, y, grid):
        seen.append((x, y))
        return np.asarray(x) * 1.0
    if 'distance' in marg:
        like._interp_dist_margd_loglikelihood = table
        like._setup_rho = lambda d, h: (d, h)
    d = c.choice('array', [False, True])
    x = np.array([1 + 1j, -np.inf, 2.]) if d else complex(-np.inf)
    snr = lb.GravitationalWaveTransient._CalculatedSNRs(d_inner_h=0 if d else x, optimal_snr_squared=4.)
    if d:
        if not marg:
            return
        f = like.distance_marginalized_likelihood if 'distance' in marg else like.phase_marginalized_likelihood
        out = f(x, 4.)
        c.ensure('only-that-time', len(out) == 3 and out[1] == -np.inf and np.isfinite(out[0]) and np.isfinite(out[2]))
    else:
        c.ensure('zero', float(like.compute_log_likelihood_from_snrs(snr)) == -np.inf)


def detectors(names, T, fs, bands, seed=3, start=0.):
    """real interferometers with arbitrary numbers as data and as spectral density"""
    r = np.random.default_rng(seed)
    ifos = bilby.gw.detector.InterferometerList(names)
    for ifo, (lo, hi, notches) in zip(ifos, bands):
        ifo.minimum_frequency, ifo.maximum_frequency = lo, hi
        f = bilby.core.utils.create_frequency_series(fs, T)
        ifo.power_spectral_density = bilby.gw.detector.PowerSpectralDensity(frequency_array=f, psd_array=r.uniform(1, 3, len(f)))
        ifo.set_strain_data_from_frequency_domain_strain(r.normal(size=len(f)) + 1j * r.normal(size=len(f)), sampling_frequency=fs,
                                                        duration=T, start_time=start)
        ifo.strain_data.notch_list = notches
    return ifos


def roq_model(f, m, **k):
    x = k['frequency_nodes']
    h = np.exp(1j * m * x) * (1 + x / 10)
    g = 1j * h + x / 20
    return dict(linear=dict(plus=h[k['linear_indices']], cross=g[k['linear_indices']]),
                quadratic=dict(plus=h[k['quadratic_indices']], cross=g[k['quadratic_indices']]))


def full_model(f, m, **k):
    h = np.exp(1j * m * f) * (1 + f / 10)
    return dict(plus=h, cross=1j * h + f / 20)


def time_prior(T, lo=0.4, hi=0.6, start=0., **k):
    u = bilby.core.prior.Uniform
    return bilby.core.prior.PriorDict(dict(geocent_time=u(start + lo * T, start + hi * T), m=u(0, 2), phase=u(0, 6)), **k)


def generator_for(model, T, fs, start=0., **k):
    return bilby.gw.WaveformGenerator(T, fs, start, frequency_domain_source_model=model, waveform_arguments=dict(k))


NOTCHES = [(11.2, 12.9), (15.5, 17.5)]
LAYOUTS = dict(plain=[(8, 24, [])] * 2, notched=[(8, 24, NOTCHES), (8, 24, [(9.1, 10.9), (20.5, 22.5)])],
               bands=[(8, 20, []), (10, 24, [])], gaps=[(8, 20, NOTCHES), (10, 24, [(18.5, 19.5)])])


@contract("P18", "ROQ weights", concrete_only=True, samples=60, bound="random choices: three basis elements, segments of 1 to 4 seconds, four layouts of bands and notches")
def _(c):
    """weights are 4/T sum_k d_k conj(B_k) / S_k exp(2 pi i f_k t) and 4/T sum_k B_k / S_k over the analysed frequencies"""
    T, fs = c.choice('T', [(1., 64.), (2., 64.), (10 / 3, 60.), (1.1, 60.), (3., 60.)])
    start = c.choice('start', [0., 100.])
    layout = c.choice('layout', list(LAYOUTS))
    params = layout in ('bands', 'gaps') or c.choice('roq_params', [False, True])
    ifos = detectors(['H1', 'L1'], T, fs, LAYOUTS[layout], start=start)
    masks = [i.frequency_mask for i in ifos]
    if not params and sum(masks[0]) != sum(masks[1]):
        return
    pri = time_prior(T, start=start, *c.choice('range', [(0.4, 0.6), (0.01, 0.3), (0.8, 0.99)]))
    r = np.random.default_rng(5)
    f = ifos[0].frequency_array
    if params:
        high = 25. if T == 1.1 else 27.
        grid = bilby.core.utils.create_frequency_series(2 * high, T)
        grid = grid[grid >= 7.]
        p = np.array([(7., high, T)], dtype=[('flow', float), ('fhigh', float), ('seglen', float)])
        column = {}
        for k, x in enumerate(grid):
            column[int(round(x * T))] = k
    else:
        grid, p = f[masks[0]], None
    B = r.normal(size=(len(grid), 3)) + 1j * r.normal(size=(len(grid), 3))
    Q = r.normal(size=(len(grid), 2))
    like = ROQ(ifos, generator_for(roq_model, T, fs, start, frequency_nodes_linear=np.array([9., 12., 15.]),
                                   frequency_nodes_quadratic=np.array([9., 14.])), pri, linear_matrix=B, quadratic_matrix=Q, roq_params=p)
    t = like.weights['time_samples']
    step = t[1] - t[0]
    n = T / step
    c.ensure('samples-divide-the-segment', abs(n - round(n)) < 1e-6 and int(round(n)) & (int(round(n)) - 1) == 0 and n > f[-1] * T)
    k = t / step
    c.ensure('samples-on-the-grid', np.allclose(k, np.round(k), atol=1e-6) and np.allclose(np.diff(t), step, atol=1e-9))
    light = 2 * bilby.core.utils.radius_of_earth / bilby.core.utils.speed_of_light
    lo, hi = [pri['geocent_time'].minimum - start - light, pri['geocent_time'].maximum - start + light]
    c.ensure('samples-cover-the-prior', t[0] <= max(lo, 0) and t[-1] >= min(hi, T - 1.0001 * step))
    for ifo, mask in zip(ifos, masks):
        idx = np.where(mask)[0]
        cols = [column.get(int(j)) for j in idx] if params else list(range(len(idx)))
        rows = [j for j, q in zip(idx, cols) if q is not None]
        cols = [q for q in cols if q is not None]
        d, S = ifo.frequency_domain_strain[rows], ifo.power_spectral_density_array[rows]
        E = np.exp(2j * np.pi * np.outer(t, np.array(rows) / T))
        want = 4 / T * E @ (d[:, None] * np.conj(B[cols]) / S[:, None])
        got = like.weights[ifo.name + '_linear'][0]
        c.ensure('linear', got.shape == want.shape and np.allclose(got, want, rtol=1e-6, atol=1e-8 * np.abs(want).max()))
        c.ensure('quadratic', np.allclose(like.weights[ifo.name + '_quadratic'][0], 4 / T * (Q[cols].T @ (1 / S)), rtol=1e-9))


@contract("P18", "ROQ likelihood of a complete basis", concrete_only=True, samples=25, bound="random choices: segments of 1 and 2 seconds, two detectors")
def _(c):
    """with one basis element for each frequency the likelihood is the exact one at the time samples"""
    T, fs, start = c.choice('T', [1., 2.]), 64., c.choice('start', [0., 50.])
    layout = c.choice('layout', ['plain', 'notched'])
    det = c.choice('detectors', [['H1'], ['L1'], ['V1']])
    marg = c.choice('marginalised', [False, True])
    ifos = detectors(det, T, fs, LAYOUTS[layout][:1], start=start)
    f = ifos[0].frequency_array[ifos[0].frequency_mask]
    pri = [time_prior(T, start=start) for _ in range(2)]
    like = ROQ(ifos, generator_for(roq_model, T, fs, start, frequency_nodes_linear=f, frequency_nodes_quadratic=f), pri[0],
               linear_matrix=np.eye(len(f)), quadratic_matrix=np.eye(len(f)), phase_marginalization=marg)
    exact = lb.GravitationalWaveTransient(ifos, generator_for(full_model, T, fs, start), priors=pri[1], phase_marginalization=marg)
    sample = like.weights['time_samples'][c.choice('sample', [4, 6, 7])]
    p = dict(m=c.choice('m', [0.5, 1.1]), ra=1., dec=0.3, psi=0.4, geocent_time=start + sample, phase=0.)
    for _ in range(8):
        p['geocent_time'] = start + sample - ifos[0].time_delay_from_geocenter(p['ra'], p['dec'], p['geocent_time'])
    like.parameters, exact.parameters = dict(p), dict(p)
    a, b = like.log_likelihood_ratio(), exact.log_likelihood_ratio()
    c.ensure('exact', abs(a - b) < 1e-5 * (1 + abs(b)), "%s %s" % (a, b))
    c.ensure('noise', like.noise_log_likelihood() == exact.noise_log_likelihood())


def bases(T=1., fs=64., ranges=([[0., 0.5], [0.5, 1.2], [1.2, 2.]], [[0., 1.], [1., 2.]]), priors=None, n=1, keys=('m',), **k):
    """weights of several bases given as a dictionary"""
    r = np.random.default_rng(11)
    ifos = detectors(['H1', 'L1'][:n], T, fs, LAYOUTS['plain'])
    t = 0.3 + np.arange(24) / 64
    w = dict(time_samples=t)
    nl, nq = [len(x) for x in ranges]
    for i in ifos:
        w[i.name + '_linear'] = [r.normal(size=(len(t), 2 + b % 2)) + 1j * r.normal(size=(len(t), 2 + b % 2)) for b in range(nl)]
        w[i.name + '_quadratic'] = [r.uniform(1, 2, 2 + b) for b in range(nq)]
    w['frequency_nodes_linear'] = [10. + b + np.arange(2 + b % 2) * 3 for b in range(nl)]
    w['frequency_nodes_quadratic'] = [9. + np.arange(2 + b) * 4 for b in range(nq)]
    for key in keys:
        w['prior_range_linear'] = w.get('prior_range_linear', {})
        w['prior_range_linear'][key] = np.array(ranges[0])
        w['prior_range_quadratic'] = w.get('prior_range_quadratic', {})
        w['prior_range_quadratic'][key] = np.array(ranges[1])
    make = lambda w_, **q: ROQ(ifos, generator_for(roq_model, T, fs), priors or time_prior(T), weights=w_, **dict(k, **q))
    return make, w, ifos


def basis_of(ranges, m):
    return [i for i, (a, b) in enumerate(ranges) if a <= m <= b]


@contract("P18", "ROQ several bases", bound="three linear and two quadratic bases, histories of three calls")
def _(c):
    """each call uses a basis whose range holds the parameters, whatever was called before"""
    ranges = ([[0., 0.5], [0.5, 1.2], [1.2, 2.]], [[0., 1.], [1., 2.]])
    make, w, ifos = bases(ranges=ranges)
    like = make(copy.deepcopy(w))
    place = c.choice('in-place', [False, True])
    read = c.choice('read-in-between', [False, True])
    like.parameters = dict(m=0.2, ra=1., dec=0.3, psi=0.1, geocent_time=0.5)
    for n in range(3):
        m = c.choice('m%d' % n, [0.2, 0.7, 1.1, 1.7])
        if place:
            like.parameters['m'] = m
        else:
            like.parameters = dict(like.parameters, m=m)
        if read:
            (like.basis_number_linear, like.basis_number_quadratic, like.waveform_generator)
        got = like.log_likelihood_ratio()
        c.ensure('basis', like.basis_number_linear in basis_of(ranges[0], m) and like.basis_number_quadratic in basis_of(ranges[1], m))
        one = dict(time_samples=w['time_samples'])
        bl, bq = basis_of(ranges[0], m)[0], basis_of(ranges[1], m)[0]
        for key in ('H1_linear', 'frequency_nodes_linear'):
            one[key] = [w[key][bl]]
        for key in ('H1_quadratic', 'frequency_nodes_quadratic'):
            one[key] = [w[key][bq]]
        fresh = make(one)
        fresh.parameters = dict(like.parameters)
        c.ensure('likelihood-of-that-basis', abs(fresh.log_likelihood_ratio() - got) < 1e-9 * (1 + abs(got)))


@contract("P18", "ROQ basis chosen by a derived parameter", bound="fixed numbers")
def _(c):
    """ranges of parameters that are not sampled are looked up after the parameter conversion"""
    make, w, ifos = bases(keys=('double',))
    def conversion(p):
        return dict(p, double=2 * p['m'])
    like = make(w, parameter_conversion=conversion)
    m = c.choice('m', [0.1, 0.4, 0.55, 0.9])
    like.parameters = dict(m=m, ra=1., dec=0.3, psi=0.1, geocent_time=0.5)
    like.log_likelihood_ratio()
    c.ensure('linear', like.basis_number_linear in basis_of(w['prior_range_linear']['double'], 2 * m))
    c.ensure('quadratic', like.basis_number_quadratic in basis_of(w['prior_range_quadratic']['double'], 2 * m))


@contract("P18", "ROQ weights in files", bound="fixed numbers, three formats, one or several bases")
def _(c):
    fmt = c.choice('format', ['hdf5', 'npz', 'json'])
    single = fmt != 'hdf5' or c.choice('single', [False, True])
    ranges = c.choice('ranges', [([[0., 2.]], [[0., 2.]])] if single else
                      [([[0., 0.5], [0.5, 1.2], [1.2, 2.]], [[0., 1.], [1., 2.]]), ([[0., 2.]], [[0., 1.], [1., 2.]])])
    make, w, ifos = bases(ranges=ranges, n=2)
    like = make(copy.deepcopy(w))
    d = tempfile.mkdtemp()
    try:
        ext = c.choice('extension', ['', '.' + fmt])
        folder = os.path.join(d, c.choice('folder', ['out', 'weights_' + fmt]))
        os.mkdir(folder)
        with np.testing.suppress_warnings() as sup:
            sup.filter(DeprecationWarning)
            like.save_weights(os.path.join(folder, 'w' + ext), format=fmt)
            c.ensure('file', os.listdir(folder) == ['w.' + fmt])
            q = os.path.join(folder, 'w.' + fmt)
            lo, hi = c.choice('prior', [(0., 2.), (0.6, 0.9), (1.3, 1.4), (0.4, 0.6)])
            pri = time_prior(1.)
            pri['m'] = bilby.core.prior.Uniform(lo, hi)
            nodes = {} if fmt == 'hdf5' else dict(frequency_nodes_linear=w['frequency_nodes_linear'][0],
                                                  frequency_nodes_quadratic=w['frequency_nodes_quadratic'][0])
            back = ROQ(ifos, generator_for(roq_model, 1., 64., **nodes), pri, weights=q)
    finally:
        shutil.rmtree(d)
    for kind, nb in (('linear', len(ranges[0])), ('quadratic', len(ranges[1]))):
        kept = [i for i, (a, b) in enumerate(ranges[kind == 'quadratic']) if b >= lo and a <= hi]
        for i in ifos:
            got = back.weights[i.name + '_' + kind]
            c.ensure('weights-' + kind, len(got) == len(kept) and all(np.array_equal(x, w[i.name + '_' + kind][k]) for x, k in zip(got, kept)))
        c.ensure('nodes-' + kind, all(np.array_equal(x, w['frequency_nodes_' + kind][k]) for x, k in
                                      zip(back.weights['frequency_nodes_' + kind], kept)))
        if fmt == 'hdf5':
            c.ensure('ranges-' + kind, np.array_equal(back.weights['prior_range_' + kind]['m'], np.array(ranges[kind == 'quadratic'])[kept]))
    c.ensure('times', np.array_equal(back.weights['time_samples'], w['time_samples']))
    m = (lo + hi) / 2 + 0.013
    like.parameters = dict(m=m, ra=1., dec=0.3, psi=0.1, geocent_time=0.5)
    back.parameters = dict(like.parameters)
    c.ensure('same-likelihood', like.log_likelihood_ratio() == back.log_likelihood_ratio())


@contract("P18", "ROQ refuses what the basis does not cover", bound="fixed numbers")
def _(c):
    case = c.choice('case', ['fine', 'fmin', 'fmax', 'duration', 'prior low', 'prior high', 'columns', 'number of ranges', 'number of nodes', 'no nodes', 'scale'])
    T, fs = 1., 64.
    ifos = detectors(['H1'], T, fs, [(8, 24, [])])
    if case in ('prior low', 'prior high', 'number of ranges', 'number of nodes'):
        make, w, _ = bases()
        if case == 'prior low':
            w['prior_range_linear']['m'][0, 0] = 0.1
        elif case == 'prior high':
            w['prior_range_quadratic']['m'][-1, 1] = 1.9
        elif case == 'number of ranges':
            w['prior_range_linear']['m'] = w['prior_range_linear']['m'][1:]
        else:
            w['frequency_nodes_linear'] = w['frequency_nodes_linear'][1:]
        c.ensure(case, c.raises(ValueError if 'number' in case else rq.BilbyROQParamsRangeError, make, w))
        return
    p = [7., 28., T]
    scale = 1
    if case == 'fmin':
        p[0] = 8.5
    if case == 'fmax':
        p[1] = 23.
    if case == 'duration':
        p[2] = 2.
    if case == 'scale':
        scale, p = 2, [4., 12., 2.]
    p = np.array([tuple(p)], dtype=[('flow', float), ('fhigh', float), ('seglen', float)])
    grid = bilby.core.utils.create_frequency_series(2 * p['fhigh'][0] * scale, T)
    grid = grid[grid >= p['flow'][0] * scale]
    n = dict(frequency_nodes_linear=np.array([9., 12.]), frequency_nodes_quadratic=np.array([9., 14.]))
    if case == 'no nodes':
        n = {}
    B = np.ones((len(grid) - (case == 'columns'), 2), dtype=complex)
    make = lambda: ROQ(ifos, generator_for(roq_model, T, fs, **n), time_prior(T), linear_matrix=B, quadratic_matrix=B,
                       roq_params=None if case == 'columns' else p, roq_scale_factor=scale)
    if case in ('fine', 'scale'):
        like = make()
        want = 4 / T * np.sum(1 / ifos[0].power_spectral_density_array[ifos[0].frequency_mask])
        c.ensure('covered', np.allclose(like.weights['H1_quadratic'][0], want))
    else:
        c.ensure(case, c.raises(dict(columns=ValueError).get(case, AttributeError if case == 'no nodes' else rq.BilbyROQParamsRangeError), make))


# ------------------------------------------------------------------------------------------------ fiducial parameters
def relative_model(f, m, fiducial, **k):
    return full_model(f if fiducial == 1 else k['frequency_bin_edges'], m)


POINT = dict(ra=1., dec=0.3, psi=0.4, phase=0.3)


def close(a, b, tol=1e-8):
    return abs(a - b) <= tol * (1 + abs(b))


@contract("P18", "RelativeBinning fiducial parameters", concrete_only=True, bound="random choices: two detectors, at most three iterations", samples=25)
def _(c):
    """given, drawn or updated fiducial parameters: the state is the one of a likelihood made with the final ones, and exact there"""
    T, fs, start = c.choice('T', [1., 2.]), 64., c.choice('start', [0., 50.])
    ifos = detectors(['H1', 'L1'], T, fs, LAYOUTS[c.choice('layout', list(LAYOUTS))], start=start)
    marg = c.choice('marginalised', [(), ('phase',), ('time',), ('distance',), ('phase', 'time')])
    how = c.choice('how', ['given', 'drawn', 'updated', 'updated within bounds', 'updated drawn'])
    def priors():
        u = bilby.core.prior.Uniform
        pri = bilby.core.prior.PriorDict(dict(POINT, m=u(0.2, 1.5), geocent_time=u(start + 0.45, start + 0.55), phase=u(0, 6)))
        if 'distance' in marg:
            pri['luminosity_distance'] = u(100, 200)
        return pri
    kw = {k + '_marginalization': True for k in marg}
    c.setattr(lb.GravitationalWaveTransient, '_setup_distance_marginalization', lambda self, *a: None)
    c.setattr(lb.GravitationalWaveTransient, 'distance_marginalized_likelihood', lambda self, d_inner_h, h_inner_h: np.real(d_inner_h) - h_inner_h / 2)
    p0 = dict(POINT, m=c.choice('m', [0.3, 0.9]), geocent_time=start + 0.5)
    if 'distance' in marg:
        p0['luminosity_distance'] = 150.
    seen = []
    def optimum(fun, bounds, x0, **k):
        seen.append((bounds, list(x0), k))
        x = [lo + (hi - lo) * c.rng.random() for lo, hi in bounds] if not c.sym else list(x0)
        v = fun(x)
        c.ensure('objective', np.isfinite(v))
        return dict(x=x)
    c.setattr(rl, 'differential_evolution', optimum)
    bilby.core.utils.random.seed(int(c.choice('seed', [1, 2, 3])))
    pri = priors()
    opt = dict(update_fiducial_parameters='updated' in how)
    if how == 'updated within bounds':
        opt['parameter_bounds'] = dict(m=[0.6, 0.7], geocent_time=[start + 0.46, start + 0.47], time_jitter=[-1e-3, 1e-3], phase=[1, 2], luminosity_distance=[120, 130])
        opt['maximization_kwargs'] = dict(popsize=3)
    if True:
        like = rl.RelativeBinningGravitationalWaveTransient(
            ifos, generator_for(relative_model, T, fs, start), priors=pri, fiducial_parameters=None if 'drawn' in how else dict(p0), **opt, **kw)
        f = like.fiducial_parameters
        c.ensure('parameters-reset', like.parameters == dict(fiducial=0))
        c.ensure('used-now', f['fiducial'] == 0)
        free = [k for k in ('m', 'geocent_time', 'phase', 'luminosity_distance') if k in priors() and k.replace('geocent_', '').replace('luminosity_', '') not in marg] + ['time_jitter'] * ('time' in marg)
        if 'drawn' not in how:
            c.ensure('given-unchanged', p0 == dict(p0) and 'fiducial' not in p0)
        if 'updated' in how:
            b = opt.get('parameter_bounds')
            for got, x0, k in seen:
                names = like.parameters_to_be_updated
                c.ensure('free-parameters', sorted(names) == sorted(free))
                for key, (lo, hi) in zip(names, got):
                    want = b[key] if b else [pri[key].minimum, pri[key].maximum]
                    c.ensure('bounds-of-' + key, [lo, hi] == list(want))
                    c.ensure('updated-within-bounds', lo <= f[key] <= hi)
                c.ensure('optimizer-arguments', k == opt.get('maximization_kwargs', {}))
            c.ensure('optimized', 1 <= len(seen) <= 5)
        elif how == 'given':
            c.ensure('as-given', all(f[k] == v for k, v in p0.items() if k in free or k in POINT and k != 'phase'))
        if 'time' in marg:
            c.ensure('time-at-start', f['geocent_time'] == start)
            c.ensure('no-jitter', 'updated' in how or f['time_jitter'] == 0)
        if 'phase' in marg:
            c.ensure('phase-zero', f['phase'] == 0)
        if 'distance' in marg:
            c.ensure('reference-distance', f['luminosity_distance'] == like._ref_dist)
        fresh = rl.RelativeBinningGravitationalWaveTransient(
            ifos, generator_for(relative_model, T, fs, start), priors=priors(), fiducial_parameters={k: v for k, v in f.items() if k != 'fiducial'}, **kw)
        c.ensure('bins', np.array_equal(fresh.bin_freqs, like.bin_freqs) and np.array_equal(fresh.bin_sizes, like.bin_sizes))
        c.ensure('bins-handed-over', np.array_equal(like.waveform_generator.waveform_arguments['frequency_bin_edges'], like.bin_freqs))
        for i in ifos:
            c.ensure('summary-data', all(np.allclose(a, b, rtol=1e-9) for a, b in zip(fresh.summary_data[i.name], like.summary_data[i.name])))
        if 'distance' not in marg and 'time' not in marg:
            exact = lb.GravitationalWaveTransient(ifos, generator_for(full_model, T, fs, start), priors=priors(), **kw)
            exact.parameters = {k: v for k, v in f.items() if k != 'fiducial'}
            like.parameters = dict(f)
            c.ensure('exact-at-fiducial', close(like.log_likelihood_ratio(), exact.log_likelihood_ratio()))


@contract("P18", "RelativeBinning without fiducial waveform")
def _(c):
    """a failing fiducial waveform is refused"""
    free_converters(c)
    ifos = [Response(c, 'H1', 2, BANDS['single'][0])]
    wf = Model(c, ifos[0].strain_data.frequency_array, 4)
    wf.fails = True
    c.ensure('refused', c.raises(ValueError, rl.RelativeBinningGravitationalWaveTransient, ifos, wf,
                                 fiducial_parameters=dict(id='A', ra=0., dec=0., geocent_time=0., psi=0.)))


# ------------------------------------------------------------------------------------------------ multi-banding
MB = mb.MBGravitationalWaveTransient


def band_model(f, m, **k):
    return full_model(k['frequencies'], m)


def chirp(f, mc, **k):
    """newtonian chirp ending at the given time"""
    f = np.asarray(k.get('frequencies', f), dtype=float)
    u = bilby.core.utils
    x = np.pi * u.gravitational_constant * mc * u.solar_mass / u.speed_of_light ** 3 * np.where(f > 0, f, 1.)
    h = np.where(f > 0, np.exp(-1j * 3 / 128 * x ** (-5 / 3)) * np.where(f > 0, f / 50, 1.) ** (-7 / 6), 0)
    return dict(plus=h, cross=1j * h)


@contract("P18", "multi-banding windows", concrete_only=True, bound="random edges of two to four bands on grids of up to 400 frequencies", samples=120)
def _(c):
    """zero outside the band, one inside the edges, and adjacent windows add to one"""
    like = object.__new__(MB)
    n = c.choice('bands', [1, 2, 3, 4])
    edges, f, w = [[c.real('f0', 0, 20), 0.]], None, 0.
    f = edges[0][0]
    for b in range(n):
        w2 = c.real('w%d' % b, 0.05, 6)
        f = f + w + w2 + c.real('g%d' % b, 0, 9)
        w = w2
        edges.append([f, w2])
    # the window falls between f_next - df_next and f_next, and rises between f - df and f
    like.fb_dfb = np.array(edges)
    df = c.choice('df', [0.25, 1., 1 / 3])
    total = np.zeros(400)
    x = np.arange(400) * df
    for b in range(n):
        (lo, wlo), (hi, whi) = edges[b], edges[b + 1]
        start = c.choice('start', [0, 'band'])
        k0 = 0 if start == 0 else max(int(np.ceil((lo - wlo) / df)), 0)
        length = 400 - k0 if start == 0 else max(min(int(np.floor(hi / df)) - k0 + 1, 400 - k0), 0)
        s = like._get_window_sequence(df, k0, length, b)
        c.ensure('length', len(s) == length)
        y = x[k0:k0 + length]
        up = np.where(y >= lo, 1., np.where(y <= lo - wlo, 0., (1 + np.cos(np.pi * (y - lo) / max(wlo, 1e-30))) / 2))
        down = np.where(y <= hi - whi, 1., np.where(y >= hi, 0., (1 - np.cos(np.pi * (y - hi) / whi)) / 2))
        sharp = np.minimum.reduce([abs(y - lo), abs(y - hi), abs(y - lo + wlo), abs(y - hi + whi)]) > 1e-9 if length else np.array([], bool)
        c.ensure('definition', np.allclose(s[sharp], np.minimum(up, down)[sharp], atol=1e-12))
        total[k0:k0 + length] += s
    inside = (x >= edges[0][0]) & (x <= edges[-1][0] - edges[-1][1])
    c.ensure('partition-of-unity', np.allclose(total[inside & (abs(x - edges[0][0]) > 1e-9)], 1., atol=1e-12))


@contract("P18", "multi-banding with one band", concrete_only=True, bound="random choices: two detectors, segments of 1 and 2 seconds", samples=40)
def _(c):
    """without a shorter band the likelihood is the exact one"""
    T, fs, start = c.choice('T', [1., 2.]), 64., c.choice('start', [0., 50.])
    ifos = detectors(['H1', 'L1'], T, fs, LAYOUTS[c.choice('layout', list(LAYOUTS))], start=start)
    for i in ifos:
        if c.choice('calibrated', [False, True]):
            i.calibration_model = bilby.gw.calibration.CubicSpline('recalib_%s_' % i.name, 5, 24, 5)
    marg = c.choice('marginalised', [(), ('phase',), ('distance',), ('phase', 'distance')])
    linear = c.choice('linear', [True, False])
    def priors():
        u = bilby.core.prior.Uniform
        return bilby.core.prior.PriorDict(dict(POINT, m=u(0.2, 1.5), geocent_time=u(start + 0.3, start + 0.45), phase=u(0, 6), luminosity_distance=u(100, 200)))
    kw = {k + '_marginalization': True for k in marg}
    c.setattr(lb.GravitationalWaveTransient, '_setup_distance_marginalization', lambda self, *a: None)
    c.setattr(lb.GravitationalWaveTransient, 'distance_marginalized_likelihood', lambda self, d_inner_h, h_inner_h: np.real(d_inner_h) - h_inner_h / 2)
    kwm = dict(reference_chirp_mass=c.choice('mc', [1.2, 30.]), linear_interpolation=linear, delta_f_end=c.choice('end', [2., 9., 53., None]),
               minimum_banding_duration=c.choice('minimum', [0., 10.]))
    if kwm['minimum_banding_duration'] == 0:
        kwm['time_offset'] = T
    def distance(model):
        def scaled(f, m, luminosity_distance=150., **k):
            return {q: 150. / luminosity_distance * v for q, v in model(f, m, **k).items()}
        return scaled
    if True:
        like = MB(ifos, generator_for(distance(band_model), T, fs, start), priors=priors(), **kwm, **kw)
        exact = lb.GravitationalWaveTransient(ifos, generator_for(distance(full_model), T, fs, start), priors=priors(), **kw)
        c.ensure('one-band', like.number_of_bands == 1)
        for n in range(2):
            p = dict(POINT, m=c.choice('m%d' % n, [0.5, 1.1]), geocent_time=start + 0.5, luminosity_distance=c.choice('d%d' % n, [110., 190.]))
            for i in ifos:
                for k in range(5):
                    p['recalib_%s_amplitude_%d' % (i.name, k)], p['recalib_%s_phase_%d' % (i.name, k)] = 0.02 * k, 0.03 * k - 0.05
            like.parameters, exact.parameters = dict(p), dict(p)
            a, b = like.log_likelihood_ratio(), exact.log_likelihood_ratio()
            c.ensure('exact', close(a, b), '%s %s' % (a, b))
        c.ensure('noise', close(like.noise_log_likelihood(), exact.noise_log_likelihood()))


@contract("P18", "multi-banding with several bands", concrete_only=True, bound="random choices: newtonian chirps in segments of 16 and 32 seconds", samples=12)
def _(c):
    """the error of the likelihood is small compared with the squared signal-to-noise ratio, however the bands are made"""
    T, fs, start = c.choice('T', [16., 32.]), 256., c.choice('start', [0., 50.])
    ifos = detectors(['H1', 'L1'], T, fs, c.choice('bands', [[(20, 100, [])] * 2, [(20, 110, []), (25, 95, [(30, 31)])]]), start=start)
    for i in ifos:
        r = np.random.default_rng(3)
        i.power_spectral_density = bilby.gw.detector.PowerSpectralDensity(
            frequency_array=i.frequency_array, psd_array=1 + (30 / np.maximum(i.frequency_array, 5)) ** 4)
    linear = c.choice('linear', [True, False])
    mc = c.choice('mc', [6., 8.])
    p = dict(POINT, mc=mc * 1.01, geocent_time=start + T - 2.0, phase=0.)
    for i in ifos:
        s = i.get_detector_response(chirp(i.frequency_array, p['mc']), p)
        i.set_strain_data_from_frequency_domain_strain(s, sampling_frequency=fs, duration=T, start_time=start)
    wf = generator_for(chirp, T, fs, start)
    like = MB(ifos, wf, reference_chirp_mass=mc, linear_interpolation=linear, time_offset=c.choice('offset', [None, 2.5]),
              accuracy_factor=c.choice('accuracy', [5, 8]))
    c.ensure('several-bands', like.number_of_bands > 1)
    points = wf.waveform_arguments['frequencies']
    c.ensure('points', np.array_equal(points[like.unique_to_original_frequencies], like.banded_frequency_points) and np.all(np.diff(points) > 0))
    for (s, e), (ks, ke), d in zip(like.start_end_idxs, like.Ks_Ke, like.durations):
        c.ensure('band-points', np.allclose(like.banded_frequency_points[s:e + 1] * d, np.arange(ks, ke + 1)))
    c.ensure('halving', np.allclose(like.durations * 2 ** np.arange(like.number_of_bands), T))
    exact = lb.GravitationalWaveTransient(ifos, generator_for(chirp, T, fs, start))
    for d in (0., c.choice('shift', [0.01, -0.02])):
        like.parameters = dict(p, geocent_time=p['geocent_time'] + d)
        exact.parameters = dict(like.parameters)
        wfd, wfe = like.waveform_generator.frequency_domain_strain(dict(like.parameters)), exact.waveform_generator.frequency_domain_strain(dict(exact.parameters))
        for i in ifos:
            a, b = like.calculate_snrs(wfd, i), exact.calculate_snrs(wfe, i)
            c.ensure('h-inner-h', close(a.optimal_snr_squared, b.optimal_snr_squared, 2e-4), '%s %s' % (a.optimal_snr_squared, b.optimal_snr_squared))
            c.ensure('d-inner-h', abs(a.d_inner_h - b.d_inner_h) < 2e-4 * b.optimal_snr_squared, '%s %s' % (a.d_inner_h, b.d_inner_h))
            c.ensure('snr', close(a.complex_matched_filter_snr * a.optimal_snr_squared ** 0.5, a.d_inner_h))


@contract("P18", "multi-banding weights kept", concrete_only=True, bound="random choices: one and several bands", samples=8)
def _(c):
    """a likelihood made with the weights of another, as object or file, is the same likelihood"""
    T, fs, start = c.choice('T', [2., 16.]), 128., 0.
    ifos = detectors(['H1', 'L1'], T, fs, [(20, 60, []), (25, 50, [(30, 31)])], start=start)
    like = MB(ifos, generator_for(chirp, T, fs, start), reference_chirp_mass=1.2, linear_interpolation=c.choice('linear', [True, False]),
              time_offset=c.choice('offset', [1., 2.5]), highest_mode=c.choice('mode', [2, 3]))
    d = tempfile.mkdtemp()
    try:
        how = c.choice('how', ['object', 'file', 'file.hdf5'])
        if how == 'object':
            w = like.weights
        else:
            w = os.path.join(d, 'w' + how[4:])
            like.save_weights(w)
            w = os.path.join(d, 'w.hdf5')
            c.ensure('file', os.listdir(d) == ['w.hdf5'])
        other = MB(ifos, generator_for(chirp, T, fs, start), weights=w)
    finally:
        shutil.rmtree(d)
    for n in range(3):
        p = dict(POINT, mc=c.choice('mc%d' % n, [1.2, 1.21]), geocent_time=T - 1.1 - c.choice('t%d' % n, [0, 0.1]), phase=0.)
        like.parameters, other.parameters = dict(p), dict(p)
        c.ensure('same-likelihood', like.log_likelihood_ratio() == other.log_likelihood_ratio())
    for k in ('reference_chirp_mass', 'highest_mode', 'linear_interpolation', 'accuracy_factor', 'time_offset', 'delta_f_end',
              'maximum_banding_frequency', 'minimum_banding_duration', 'number_of_bands', 'minimum_frequency', 'maximum_frequency'):
        c.ensure('same-' + k, getattr(like, k) == getattr(other, k))


@contract("P18", "multi-banding settings", bound="fixed numbers")
def _(c):
    """settings come from the argument, else from the priors, else are the documented ones"""
    u = bilby.core.prior.Uniform
    start, T = 10., 8.
    ifos = detectors(['H1', 'L1'], T, 64., LAYOUTS['bands'], start=start)
    ref = c.choice('reference', ['geocent', 'H1'])
    lo, hi = start + 5.25, start + 6.5
    given = c.choice('priors', [True, False])
    like = object.__new__(MB)
    like._interferometers = ifos
    like.time_reference = ref
    like.time_marginalization = like.phase_marginalization = like.distance_marginalization = False
    like.priors = bilby.core.prior.PriorDict({ref + '_time': u(lo, hi)}) if given else None
    light = bilby.core.utils.radius_of_earth / bilby.core.utils.speed_of_light * (1 if ref == 'geocent' else 2)
    v = c.choice('value', [None, 3.5])
    c.setattr(MB, 'interferometers', property(lambda self: self._interferometers))
    like.time_offset, like.delta_f_end = v, v
    c.ensure('offset', close(like.time_offset, v or (start + T - lo + light if given else 2.12)))
    c.ensure('end', close(like.delta_f_end, v or (100 / (start + T - hi - light) if given else 53.)))
    for name in ('time_offset', 'delta_f_end', 'highest_mode', 'accuracy_factor', 'minimum_banding_duration', 'linear_interpolation', 'maximum_banding_frequency'):
        like.reference_chirp_mass, like.highest_mode = 1.2, 2
        c.ensure('refuses-' + name, c.raises(TypeError, setattr, like, name, 'x'))
    c.ensure('refuses-mass', c.raises(TypeError, setattr, like, 'reference_chirp_mass', None))
    like.reference_chirp_mass, like.highest_mode = mc, mode = 1.2, c.choice('mode', [2, 4])
    like.maximum_banding_frequency = None
    limit = like.maximum_banding_frequency
    m = like.reference_chirp_mass_in_second
    c.ensure('limit', close(np.sqrt(-like._dtaudf(limit)) * 1., np.sqrt(8 / 3 * 5 / 256 * m * (np.pi * m * 2 * limit / mode) ** (-8 / 3) / limit)))
    like.maximum_banding_frequency = limit / 2
    c.ensure('smaller', like.maximum_banding_frequency == limit / 2)
    like.maximum_banding_frequency = limit * 2
    c.ensure('not-larger', like.maximum_banding_frequency == limit)


@contract("P18", "multi-banding duration of the signal")
def _(c):
    """time to merger of the newtonian chirp and its derivative"""
    like = object.__new__(MB)
    c.setattr(MB, 'reference_chirp_mass_in_second', property(lambda self: m))
    m, f, mode = c.pos('m'), c.pos('f'), c.choice('mode', [2, 3, 4])
    like._highest_mode = mode
    x = np.pi * m * 2 * f / mode
    c.ensure_eq('tau', like._tau(f), 5 * m / 256 * x ** (-8 / 3))
    c.ensure_eq('derivative', like._dtaudf(f) * f, -8 / 3 * like._tau(f))
