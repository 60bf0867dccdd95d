"""P11: spectral densities, coloured noise and the Fourier conventions."""
import numpy as np
from pydv.contract import contract
import bilby
import bilby.core.utils.series as us
import bilby.core.utils.random as ur
import bilby.gw.detector.psd as gp
import bilby.gw.utils as gu
from bilby.gw.detector.interferometer import Interferometer
from bilby.gw.detector.psd import PowerSpectralDensity
from contracts.p10 import obj, rfft4, cdata, rdata, INF


class Linear(object):
    """contract of scipy.interpolate.interp1d (linear, increasing table) on explicit arrays"""

    def __init__(self, x, y, bounds_error=None, fill_value=None):
        self.x, self.y, self.error, self.fill = np.array(x), np.array(y), bounds_error, fill_value

    def __call__(self, v):
        if np.ndim(v):
            from pydv.sym import as_nd
            return as_nd([self(a) for a in v])
        x, y = self.x, self.y
        if bool(v < x[0]) or bool(v > x[-1]):
            if self.error:
                raise ValueError("out of the table")
            return self.fill
        for i in range(len(x) - 1):
            if bool(v <= x[i + 1]):
                break
        return y[i] + (y[i + 1] - y[i]) * (v - x[i]) / (x[i + 1] - x[i])


def table(c, name, n=3):
    x0, d = c.real('f0' + name, 0), [c.pos('d%d%s' % (i, name)) for i in range(n - 1)]
    xs = [x0]
    for w in d:
        xs.append(xs[-1] + w)
    return xs, [c.real('%s%d' % (name, i), 0, scale=1.0, lo_open=True) for i in range(n)]


def density(xs, ys, kind, v):
    """the power spectral density at frequency v described by the table"""
    s = [y ** 2 if kind == 'asd' else y for y in ys]
    if bool(v < xs[0]) or bool(v > xs[-1]):
        return INF
    for i in range(len(xs) - 1):
        if bool(v <= xs[i + 1]):
            return s[i] + (s[i + 1] - s[i]) * (v - xs[i]) / (xs[i + 1] - xs[i])


def root(c, v):
    return INF if v is INF else v ** 0.5


FILE = 'aLIGO_ZERO_DET_high_P_psd.txt'


def make(c, how, xs, ys, p=None):
    """-> spectral density, which quantity the table holds"""
    f, y = obj(c, xs), obj(c, ys)
    c.setattr(np, 'genfromtxt', lambda name: obj2(c, [f, y]))
    if how == 'psd':
        return PowerSpectralDensity(frequency_array=f, psd_array=y), 'psd'
    if how == 'asd':
        return PowerSpectralDensity(frequency_array=f, asd_array=y), 'asd'
    if how == 'from psd array':
        return PowerSpectralDensity.from_power_spectral_density_array(f, y), 'psd'
    if how == 'from asd array':
        return PowerSpectralDensity.from_amplitude_spectral_density_array(f, y), 'asd'
    if how == 'psd file':
        return PowerSpectralDensity.from_power_spectral_density_file(FILE), 'psd'
    if how == 'asd file':
        return PowerSpectralDensity.from_amplitude_spectral_density_file(FILE), 'asd'
    if how == 'aligo':
        return PowerSpectralDensity.from_aligo(), 'psd'
    if how == 'list':
        return PowerSpectralDensity(frequency_array=list(xs), psd_array=list(ys)), 'psd'
    if how == 'asd list':
        return PowerSpectralDensity(frequency_array=list(xs), asd_array=list(ys)), 'asd'


def obj2(c, rows):
    a = np.empty((2, len(rows[0])), dtype=object if c.sym else float)
    for i, r in enumerate(rows):
        for j, x in enumerate(r):
            a[i, j] = x
    if c.sym:
        from pydv.sym import SymNd
        return a.view(SymNd).T
    return a.T


HOW = ['psd', 'asd', 'from psd array', 'from asd array', 'psd file', 'asd file', 'aligo', 'list', 'asd list']


def agrees(c, tag, p, xs, ys, kind, query):
    want = [density(xs, ys, kind, v) for v in query]
    first = c.choice('first' + tag, ['psd', 'asd'])
    for what in [first, 'asd' if first == 'psd' else 'psd']:
        if what == 'psd':
            c.ensure_eq('psd' + tag, list(p.get_power_spectral_density_array(obj(c, query))), want)
        else:
            c.ensure_eq('asd' + tag, list(p.get_amplitude_spectral_density_array(obj(c, query))), [root(c, v) for v in want])


for how_ in HOW:
    @contract("P11", "PowerSpectralDensity[%s]" % how_, bound="tables of 3 entries, one or two frequencies", samples=100)
    def _(c, how=how_):
        c.callee(gp, 'interp1d', Linear)
        xs, ys = table(c, 's')
        p, kind = make(c, how, xs, ys)
        c.ensure_eq('table-frequencies', list(p.frequency_array), xs)
        c.ensure_eq('table-psd', list(p.psd_array), [y ** 2 if kind == 'asd' else y for y in ys])
        c.ensure_eq('table-asd', list(p.asd_array), [y if kind == 'asd' else y ** 0.5 for y in ys])
        agrees(c, '', p, xs, ys, kind, [c.real('v0', 0)])
        c.ensure_eq('own-frequencies', list(p.get_power_spectral_density_array(p.frequency_array)), list(p.psd_array))
        c.ensure_eq('interpolated', list(p.power_spectral_density_interpolated(obj(c, xs))), list(p.psd_array))


def history(c, change):
    c.callee(gp, 'interp1d', Linear)
    xs, ys = table(c, 's', 2)
    p, kind = make(c, 'psd', xs, ys)
    q1 = list(xs) if change in ('psd', 'asd') and c.choice('own', [False, True]) else [c.real('v0', 0)]
    if c.choice('asked', [True, False]):
        agrees(c, '-before', p, xs, ys, kind, q1)
    if change == 'query':
        agrees(c, '-other', p, xs, ys, kind, [c.real('v1', 0)])
    elif change == 'own array changed':
        mine = obj(c, q1)
        p.get_power_spectral_density_array(mine)
        q1 = [c.real('v1', 0)]
        mine[0] = q1[0]
        c.ensure_eq('psd-of-the-changed-array', list(p.get_power_spectral_density_array(mine)), [density(xs, ys, kind, q1[0])])
        return
    elif change == 'mismatch':
        c.ensure('refused', c.raises(ValueError, setattr, p, 'psd_array', obj(c, ys[:1])))
        c.ensure('refused-asd', c.raises(ValueError, setattr, p, 'asd_array', obj(c, ys[:1])))
    else:
        new = [c.real('n%d' % i, 0, scale=1.0, lo_open=True) for i in range(2)]
        if change == 'psd':
            p.psd_array = obj(c, new)
            ys, kind = new, 'psd'
        elif change == 'asd':
            p.asd_array = obj(c, new)
            ys, kind = new, 'asd'
        elif change == 'frequencies and psd':
            xs, ys = table(c, 'n', 2)
            p.frequency_array = obj(c, xs)
            p.psd_array = obj(c, ys)
        else:
            xs, ys = table(c, 'n', 2)
            c.setattr(np, 'genfromtxt', lambda name, v=[obj(c, xs), obj(c, ys)]: obj2(c, v))
            p.asd_file = FILE
            kind = 'asd'
    agrees(c, '-after', p, xs, ys, kind, q1)


for change_ in ['query', 'psd', 'asd', 'frequencies and psd', 'file', 'own array changed', 'mismatch']:
    @contract("P11", "PowerSpectralDensity[history: %s]" % change_, bound="tables of 2 entries, one change", samples=100, max_paths=1500)
    def _(c, change=change_):
        history(c, change)


def series(c, n, name='n'):
    """sampling frequency and duration of n samples"""
    fs = c.real('fs', 1e-3)
    return fs, n / fs


def draws(c):
    """the standard normal draws behind rng.normal, in the order they are used"""
    seen = []

    class Rng(object):
        def normal(self, loc, scale, size):
            a = np.empty(size, dtype=object if c.sym else float)
            for i in np.ndindex(*np.atleast_1d(size)) if np.ndim(size) else [(i,) for i in range(size)]:
                x = c.real('draw' + '_'.join(map(str, i)))
                seen.append((i, x))
                a[i] = loc + scale * x
            from pydv.sym import SymNd
            return a.view(SymNd) if c.sym else a
    c.setattr(ur, 'rng', Rng())
    return seen


@contract("P11", "create_white_noise", bound="2 to 8 samples", samples=100)
def _(c):
    n = c.choice('n', [2, 4, 6, 8])
    fs, T = series(c, n)
    seen = draws(c)
    x, f = us.create_white_noise(fs, T)
    d = dict(seen)
    m = n // 2 + 1
    c.ensure_eq('frequencies', list(f), [k / T for k in range(m)])
    want = [0] + [(d[0, k] + 1j * d[1, k]) * (T / 4) ** 0.5 for k in range(1, m - 1)] + [0]
    c.ensure_eq('variance-T/4-per-component', list(x), want)
    c.ensure('independent', len(seen) == len(set(i for i, v in seen)))


@contract("P11", "get_noise_realisation", bound="tables of 3 entries, 4 samples", samples=150)
def _(c):
    c.callee(gp, 'interp1d', Linear)
    xs, ys = table(c, 's')
    p, kind = make(c, c.choice('how', ['psd', 'asd']), xs, ys)
    fs, T = series(c, 4)
    seen = draws(c)
    x, f = p.get_noise_realisation(fs, T)
    d = dict(seen)
    c.ensure_eq('frequencies', list(f), [k / T for k in range(3)])
    c.ensure_eq('dc-and-nyquist', [x[0], x[2]], [0, 0])
    s = density(xs, ys, kind, 1 / T)
    c.ensure_eq('one-sided-density', x[1], 0 if s is INF else (d[0, 1] + 1j * d[1, 1]) * (T / 4) ** 0.5 * s ** 0.5)


@contract("P11", "create series", bound="1 to 8 samples", samples=200)
def _(c):
    n = c.choice('n', [1, 2, 3, 4, 6, 8])
    fs, T = series(c, n)
    t0 = c.real('t0')
    t = us.create_time_series(fs, T, t0)
    c.ensure_eq('times', list(t), [t0 + i / fs for i in range(n)])
    c.ensure_eq('times-from-zero', list(us.create_time_series(fs, T)), [i / fs for i in range(n)])
    if n % 2 == 0:
        c.ensure_eq('frequencies', list(us.create_frequency_series(fs, T)), [k / T for k in range(n // 2 + 1)])


@contract("P11", "create series[decimal durations]", concrete_only=True, bound="all durations of 0.01 to 0.99 s at 100 Hz", samples=3)
def _(c):
    for k in range(1, 100):
        T = k / 100
        try:
            t = us.create_time_series(100, T, 3)
        except us.IllegalDurationAndSamplingFrequencyException:
            continue
        c.ensure_eq('times', list(t), [3 + i / 100 for i in range(k)])
        if k % 2 == 0:
            c.ensure_eq('frequencies', list(us.create_frequency_series(100, T)), [i / T for i in range(k // 2 + 1)])


@contract("P11", "illegal series")
def _(c):
    fs, T = c.pos('fs'), c.pos('T')
    n = c.choice('n', [1, 2, 5])
    c.assume(c.both(fs * T > n + 0.01, fs * T < n + 0.99))
    E = us.IllegalDurationAndSamplingFrequencyException
    c.ensure('times-refused', c.raises(E, us.create_time_series, fs, T))
    c.ensure('frequencies-refused', c.raises(E, us.create_frequency_series, fs, T))


@contract("P11", "series from arrays", bound="2 to 6 samples", samples=150)
def _(c):
    n = c.choice('n', [2, 3, 4, 6])
    fs, T = series(c, n)
    t0 = c.real('t0')
    t = obj(c, [t0 + i / fs for i in range(n)])
    close = lambda label, a, b: c.ensure_within(label, b - 1e-14, a, b + 1e-14)       # rounded to 14 decimals
    close('sampling-frequency', us.get_sampling_frequency(t), fs)
    a, b = us.get_sampling_frequency_and_duration_from_time_array(t)
    close('sampling-frequency-from-times', a, fs)
    c.ensure_eq('duration-from-times', b, n / a)
    if n % 2 == 0:
        f = obj(c, [k / T for k in range(n // 2 + 1)])
        a, b = us.get_sampling_frequency_and_duration_from_frequency_array(f)
        close('duration-from-frequencies', b, T)
        close('sampling-frequency-from-frequencies', a, n / b)


@contract("P11", "uneven arrays are refused", bound="3 samples")
def _(c):
    a, b = c.pos('a'), c.pos('b')
    c.assume(c.either(a > b + 1e-3, b > a + 1e-3))
    x = obj(c, [0, a, a + b])
    for f in (us.get_sampling_frequency, us.get_sampling_frequency_and_duration_from_time_array,
              us.get_sampling_frequency_and_duration_from_frequency_array):
        c.ensure(f.__name__, c.raises(ValueError, f, x))


def phase(m, n):
    """exp(-2 pi i m / n)"""
    z = complex(np.exp(-2j * np.pi * (m % n) / n))
    r = lambda v: round(v) if abs(v - round(v)) < 1e-12 else v
    return complex(r(z.real), r(z.imag))


@contract("P11", "nfft and infft", bound="2, 4 and 8 samples", samples=150)
def _(c):
    if c.sym:
        rfft4(c)
    n = c.choice('n', [2, 4, 8])
    fs = c.pos('fs')
    x = rdata(c, 'x', n)
    h, f = us.nfft(obj(c, list(x)), fs)
    c.ensure_eq('frequencies', list(f), [k * fs / n for k in range(n // 2 + 1)])
    c.ensure_eq('transform', list(h), [sum(phase(j * k, n) * x[j] for j in range(n)) / fs for k in range(n // 2 + 1)])
    c.ensure_eq('round-trip', list(us.infft(h, fs)), list(x))
    c.ensure_eq('transform-of-constant', list(us.nfft(obj(c, [1.] * n), fs)[0]), [n / fs] + [0] * (n // 2))


@contract("P11", "spectral density of a series")
def _(c):
    x = c.complexes('x')
    df = c.pos('df')
    mag = (np.real(x) ** 2 + np.imag(x) ** 2)
    c.ensure_eq('psd', gu.psd_from_freq_series(x, df), 4 * mag * df)
    c.ensure_eq('asd', gu.asd_from_freq_series(x, df) ** 2, 4 * mag * df)
    c.ensure_le('asd-positive', 0, gu.asd_from_freq_series(x, df))


@contract("P11", "inner_product", bound="3 frequencies")
def _(c):
    a, b = cdata(c, 'a', 3), cdata(c, 'b', 3)
    s = [c.pos('s%d' % i) for i in range(3)]
    f0, df = c.real('f0', 0), c.pos('df')

    class P(object):
        @staticmethod
        def power_spectral_density_interpolated(f):
            return obj(c, s)
    got = gu.inner_product(a, b, obj(c, [f0 + i * df for i in range(3)]), P)
    c.ensure_eq('4 Re sum a* b / S df', got, 4 * df * sum(np.real(np.conj(a[i]) * b[i]) / s[i] for i in range(3)))


@contract("P11", "whitening", bound="4 samples")
def _(c):
    if c.sym:
        rfft4(c)
    ifo = Interferometer('H1', None, 0, INF, 4, 46., -119., 142., 126., 216.)
    d = ifo.strain_data
    d.set_from_frequency_domain_strain(cdata(c, 'd', 3), sampling_frequency=4, duration=1)
    lo = c.choice('lo', [0, 1])
    if lo:
        ifo.minimum_frequency = lo
    s = [c.pos('s%d' % i) for i in range(3)]

    class P(object):
        @staticmethod
        def get_amplitude_spectral_density_array(frequency_array):
            return obj(c, [v ** 0.5 for v in s])
    ifo.power_spectral_density = P()
    w = c.pos('w')
    d.window_factor = w
    got = ifo.whitened_frequency_domain_strain
    x = d.frequency_domain_strain
    want = [x[i] / (s[i] * w * 1 / 4) ** 0.5 for i in range(3)]
    c.ensure_eq('unit-variance-of-each-component', list(got), want)
    m = 2 if lo else 3
    t = [v * m ** 0.5 / (m / 3) for v in np.fft.irfft(obj(c, want))]
    c.ensure_eq('time-domain', list(ifo.whitened_time_domain_strain), t)
    c.ensure_eq('any-series', list(ifo.whiten_frequency_series(cdata(c, 'h', 3))), [v / (u * w / 4) ** 0.5 for v, u in zip(cdata(c, 'h', 3), s)])
