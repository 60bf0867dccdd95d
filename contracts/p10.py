"""P10: the data of an interferometer (strain, frequencies, mask, window, spectral density) agree with each other after any
history of setting, changing and reading them."""
import numpy as np
from pydv.contract import contract
import bilby
import bilby.core.utils.series as us
from bilby.core.series import CoupledTimeAndFrequencySeries
from bilby.gw.detector.strain_data import InterferometerStrainData, Notch, NotchList
from bilby.gw.detector.psd import PowerSpectralDensity
from bilby.gw.detector.interferometer import Interferometer

INF = np.inf


def obj(c, v):
    if not c.sym:
        return np.array(v)
    from pydv.sym import as_nd
    a = np.empty(len(v), dtype=object)
    for i, x in enumerate(v):
        a[i] = x
    return as_nd(a)


# ------------------------------------------------------------------------------------------------ mask
class Series(object):
    """frequencies of any data set"""

    def __init__(self, c, name):
        self.frequency_array = c.array('f' + name, 0, size=name)
        self.sampling_frequency = c.pos('fs' + name)
        self.duration = c.pos('T' + name)


def analysed(c, f, lo, hi, fs, notches):
    ok = (f >= lo) & (f <= hi) & (f * 2 <= fs)
    for a, b in notches:
        ok = ok & ((f <= a) | (f >= b))
    return ok


def same_mask(c, label, mask, want):
    if c.sym:
        c.ensure(label, c.iff(mask.elem, want.elem))
    else:
        c.ensure(label, np.array_equal(mask, want))


@contract("P10", "frequency mask")
def _(c):
    n = c.choice('notches', [0, 1, 2])
    notches = []
    for i in range(n):
        a = c.pos('a%d' % i)
        b = a + c.pos('w%d' % i)
        notches.append((a, b))
    lo, hi = c.real('lo', 0), c.real('hi', 0)
    d = InterferometerStrainData(minimum_frequency=lo, maximum_frequency=hi, notch_list=list(notches) if n else None)
    d._times_and_frequencies = s = Series(c, 'one')
    m = d.frequency_mask
    same_mask(c, 'band-without-notches', m, analysed(c, s.frequency_array, lo, hi, s.sampling_frequency, notches))
    c.ensure_eq('nyquist', d.maximum_frequency, s.sampling_frequency / 2 if bool(2 * hi > s.sampling_frequency) else hi)
    what = c.choice('change', ['minimum', 'maximum', 'notches', 'notch-object', 'no-notches', 'data'])
    if what == 'minimum':
        lo = d.minimum_frequency = c.real('lo2', 0)
    elif what == 'maximum':
        hi = d.maximum_frequency = c.real('hi2', 0)
    elif what == 'notches':
        a = c.pos('a9')
        notches = [(a, a + c.pos('w9'))]
        d.notch_list = list(notches)
    elif what == 'notch-object':
        a = c.pos('a9')
        notches = [(a, a + c.pos('w9'))]
        d.notch_list = NotchList(notches)
    elif what == 'no-notches':
        notches = []
        d.notch_list = c.choice('none', [None, 'empty']) and []
    else:
        d._times_and_frequencies = s = Series(c, 'two')
    same_mask(c, 'mask-follows-changes', d.frequency_mask,
              analysed(c, s.frequency_array, lo, hi, s.sampling_frequency, notches))


@contract("P10", "Notch")
def _(c):
    a, b = c.real('a'), c.real('b')
    valid = c.both(a > 0, b > a)
    if not bool(valid):
        c.ensure('refused', c.raises(ValueError, Notch, a, b))
        return
    x = Notch(a, b)
    f = c.real('f')
    inside = c.both(f > a, f < b)
    c.ensure('check', bool(x.check_frequency(f)) == bool(inside))
    c.ensure('list', bool(NotchList([(a, b)]).check_frequency(f)) == bool(inside))
    c.ensure('infinite-refused', c.raises(ValueError, Notch, a, INF))
    g = c.array('g')
    if c.sym:
        c.ensure('indices', c.iff(x.get_idxs(g).elem, ((g > a) & (g < b)).elem))
    else:
        c.ensure('indices', np.array_equal(x.get_idxs(g), (g > a) & (g < b)))


# ------------------------------------------------------------------------------------------------ histories
def rfft4(c):
    """numpy.fft.rfft, irfft by definition for up to eight samples"""
    from pydv.sym import SymComplex

    def w(n, m):
        return np.exp(-2j * np.pi * (m % n) / n)

    def ex(z):
        z = complex(z)
        r = lambda v: round(v) if abs(v - round(v)) < 1e-12 else v
        return complex(r(z.real), r(z.imag))

    def rfft(x, *a, **k):
        n = len(x)
        return obj(c, [SymComplex.of(sum(x[j] * ex(w(n, j * m)) for j in range(n))) for m in range(n // 2 + 1)])

    def irfft(x, *a, **k):
        m = len(x)
        n = 2 * (m - 1)
        out = []
        for j in range(n):
            t = np.real(x[0])
            for i in range(1, m - 1):
                t = t + 2 * np.real(x[i] * np.conj(ex(w(n, i * j))))
            t = t + np.real(x[m - 1] * ex(w(n, (m - 1) * j)))
            out.append(t / n)
        return obj(c, out)
    c.callee(np.fft, 'rfft', rfft)
    c.callee(np.fft, 'irfft', irfft)


def tukey(c):
    """scipy tukey window: an arbitrary function of the sample, the length and alpha"""
    import scipy.signal.windows as w
    f = c.func('tukey', 3)

    def stub(n, alpha=0.5, sym=True):
        return obj(c, [f(i, n, alpha) for i in range(int(n))])
    c.setattr(w, 'tukey', stub)
    return stub


class Density(object):
    def __init__(self, c):
        self.c = c

    def get_noise_realisation(self, fs, T):
        n = int(fs * T) // 2 + 1
        return cdata(self.c, 'noise_%d_%d' % (fs, T), n), np.linspace(0, fs / 2, n)


def cdata(c, name, n):
    m = c.__dict__.setdefault('memo', {})
    if (name, n) not in m:
        m[name, n] = [c.complexes('%s%d' % (name, i)) for i in range(n)]
    return obj(c, list(m[name, n]))


def rdata(c, name, n):
    m = c.__dict__.setdefault('memo', {})
    if (name, n) not in m:
        m[name, n] = [c.real('%s%d' % (name, i)) for i in range(n)]
    return obj(c, list(m[name, n]))


SETS = ['time', 'time-array', 'frequency', 'frequency-array', 'noise', 'zero']


def put(c, d, how, fs, T, t0):
    n = int(fs * T)
    tag = '%d_%d' % (fs, T)
    if how == 'time':
        d.set_from_time_domain_strain(rdata(c, 'td' + tag, n), sampling_frequency=fs, duration=T, start_time=t0)
    elif how == 'time-array':
        d.set_from_time_domain_strain(rdata(c, 'td' + tag, n), time_array=t0 + np.arange(n) / fs)
    elif how == 'frequency':
        d.set_from_frequency_domain_strain(cdata(c, 'fd' + tag, n // 2 + 1), sampling_frequency=fs, duration=T, start_time=t0)
    elif how == 'frequency-array':
        d.set_from_frequency_domain_strain(cdata(c, 'fd' + tag, n // 2 + 1), start_time=t0,
                                           frequency_array=np.arange(n // 2 + 1) / T)
    elif how == 'noise':
        d.set_from_power_spectral_density(Density(c), sampling_frequency=fs, duration=T, start_time=t0)
    else:
        d.set_from_zero_noise(sampling_frequency=fs, duration=T, start_time=t0)


def fresh(c, how, fs, T, t0, lo, hi, roll):
    """what the documentation says the data are after the last setting"""
    n = int(fs * T)
    f = np.arange(n // 2 + 1) / T
    mask = (f >= lo) & (f <= min(hi, fs / 2))
    tag = '%d_%d' % (fs, T)
    factor = 1
    if how.startswith('time'):
        td = rdata(c, 'td' + tag, n)
        import scipy.signal.windows as w
        win = w.tukey(n, alpha=2 * roll / T)
        fd = np.fft.rfft(td * win) / fs
        factor = sum(x ** 2 for x in win) / n
    else:
        fd = (cdata(c, 'fd' + tag, n // 2 + 1) if how.startswith('freq') else
              cdata(c, 'noise_' + tag, n // 2 + 1) if how == 'noise' else np.zeros(n // 2 + 1, dtype=complex))
        td = None
    fd = fd * mask
    if td is None:
        td = np.fft.irfft(fd) * fs
    return dict(f=f, mask=mask, fd=fd, td=td, factor=factor, t=t0 + np.arange(n) / fs)


def compare(c, d, w, order):
    for what in order:
        if what == 'fd':
            c.ensure_eq('frequency-domain-strain', d.frequency_domain_strain, w['fd'])
        elif what == 'td':
            c.ensure_eq('time-domain-strain', d.time_domain_strain, w['td'])
        elif what == 'factor':
            c.ensure_eq('window-factor', d.window_factor, w['factor'])
        elif what == 'mask':
            c.ensure('frequency-mask', list(d.frequency_mask) == list(w['mask']))
            c.ensure_eq('frequencies', list(d.frequency_array), list(w['f']))
            c.ensure_eq('times', list(d.time_array), list(w['t']))


SIZES = [(4, 1), (4, 2), (8, 1)]


def read(d, what):
    for w in what:
        if w == 'td':
            d.time_domain_strain
        elif w == 'fd':
            d.frequency_domain_strain
        elif w == 'all':
            d.time_domain_strain, d.frequency_domain_strain, d.time_array, d.frequency_array, d.frequency_mask, d.maximum_frequency


for last_ in SETS:
    @contract("P10", "strain data[%s]" % last_, bound="4 or 8 samples, histories of two data sets", samples=120)
    def _(c, last=last_):
        if c.sym:
            rfft4(c)
        tukey(c)
        d = InterferometerStrainData(minimum_frequency=0, maximum_frequency=INF, roll_off=0.3)
        first = c.choice('first', [None] + SETS)
        if first:
            put(c, d, first, 4, 1, 5)
            read(d, c.choice('read', [[], ['td'], ['all']]))
        if c.choice('narrow', [False, True]):
            d.minimum_frequency, d.maximum_frequency = 1, 3
            lo, hi = 1, 3
        else:
            lo, hi = 0, INF
        fs, T = c.choice('size', SIZES)
        put(c, d, last, fs, T, 7)
        order = c.choice('order', [['factor', 'mask', 'fd', 'td'], ['td', 'fd', 'mask', 'factor']])
        compare(c, d, fresh(c, last, fs, T, 7, lo, hi, 0.3), order)


for last_ in SETS:
    @contract("P10", "strain data settings[%s]" % last_, bound="4 samples", samples=120)
    def _(c, last=last_):
        if c.sym:
            rfft4(c)
        tukey(c)
        d = InterferometerStrainData(minimum_frequency=0, maximum_frequency=INF, roll_off=0.3)
        put(c, d, last, 4, 1, 7)
        what = c.choice('read', [[], ['td'], ['all']])
        roll = 0.3
        if not what and c.choice('roll', [False, True]):
            roll = d.roll_off = c.real('roll', 0.01, 0.5)
        read(d, what)
        lo, hi = 0, INF
        for k in range(2):
            change = c.choice('change%d' % k, ['minimum', 'maximum', 'open', 'none'])
            if change == 'minimum':
                lo = d.minimum_frequency = 1
            elif change == 'maximum':
                hi = d.maximum_frequency = 1
            elif change == 'open':
                lo, hi = d.minimum_frequency, d.maximum_frequency = 0, 100
            compare(c, d, fresh(c, last, 4, 1, 7, lo, hi, roll), ['fd', 'td', 'mask'])
        c.ensure_eq('window-factor', d.window_factor, fresh(c, last, 4, 1, 7, lo, hi, roll)['factor'])


@contract("P10", "strain data[assigned]", bound="4 samples")
def _(c):
    if c.sym:
        rfft4(c)
    tukey(c)
    d = InterferometerStrainData(minimum_frequency=0, maximum_frequency=INF, roll_off=0.3)
    how = c.choice('first', SETS)
    put(c, d, how, 4, 1, 7)
    read(d, c.choice('read', [[], ['td'], ['all']]))
    before = d.frequency_domain_strain
    add = cdata(c, 'add', 3)
    d.frequency_domain_strain = before + add
    c.ensure_eq('assigned', d.frequency_domain_strain, before + add)
    c.ensure_eq('time-domain-follows', d.time_domain_strain, np.fft.irfft(before + add) * 4)
    c.ensure('wrong-length-refused', c.raises(ValueError, setattr, d, 'frequency_domain_strain', cdata(c, 'x', 4)))
    c.ensure('wrong-length-refused', c.raises(ValueError, d.set_from_time_domain_strain, rdata(c, 'y', 3), sampling_frequency=4, duration=1))
    c.ensure('wrong-length-refused', c.raises(ValueError, d.set_from_frequency_domain_strain, cdata(c, 'z', 4), sampling_frequency=4, duration=1))


@contract("P10", "CoupledTimeAndFrequencySeries", bound="eight or fewer samples")
def _(c):
    s = CoupledTimeAndFrequencySeries(duration=1, sampling_frequency=4, start_time=5)
    fs, T, t0 = 4, 1, 5
    for k in range(2):
        if c.choice('read%d' % k, [False, True]):
            s.time_array, s.frequency_array
        op = c.choice('op%d' % k, ['duration', 'sampling', 'start', 'times', 'frequencies'])
        if op == 'duration':
            T = s.duration = 2
        elif op == 'sampling':
            fs = s.sampling_frequency = 8
        elif op == 'start':
            t0 = s.start_time = 9
        elif op == 'times':
            fs, T, t0 = 2, 3, 1
            s.time_array = 1 + np.arange(6) / 2
        else:
            fs, T = 6, 1
            s.frequency_array = np.arange(4.)
    n = int(fs * T)
    c.ensure_eq('times', list(s.time_array), list(t0 + np.arange(n) / fs))
    c.ensure_eq('frequencies', list(s.frequency_array), list(np.arange(n // 2 + 1) / T))
    c.ensure_eq('attributes', [s.duration, s.sampling_frequency, s.start_time], [T, fs, t0])


# ------------------------------------------------------------------------------------------------ other ways in, and out
def gwpy_series(c, data, fs, t0, channel='H1:X'):
    """a gwpy TimeSeries; symbolically its values are symbols and its start time (which gwpy converts through astropy with an
    error of 1e-12 s) is exact"""
    from types import SimpleNamespace
    from gwpy.timeseries import TimeSeries
    if c.sym:
        class Sym(TimeSeries):
            value = property(lambda self: data)
            epoch = property(lambda self: SimpleNamespace(value=float(t0)))
        x = TimeSeries(np.zeros(len(data)), sample_rate=fs, t0=t0, channel=channel).view(Sym)
        x.sample_rate, x.t0, x.channel = fs, t0, channel
        return x
    return TimeSeries(data, sample_rate=fs, t0=t0, channel=channel)


@contract("P10", "set_from_gwpy_timeseries", bound="4 samples", samples=60)
def _(c):
    if c.sym:
        rfft4(c)
    tukey(c)
    d = InterferometerStrainData(minimum_frequency=0, maximum_frequency=INF, roll_off=0.3)
    first = c.choice('first', [None] + SETS)
    if first:
        put(c, d, first, 4, 2, 5)
        read(d, c.choice('read', [[], ['all']]))
    data = rdata(c, 'td4_1', 4)
    how = c.choice('how', ['series', 'frame', 'csv'])
    ts = gwpy_series(c, data, 4, 7)
    if how == 'series':
        d.set_from_gwpy_timeseries(ts)
        c.ensure('channel', str(d.channel) == 'H1:X')
        c.ensure('only-series', c.raises(ValueError, d.set_from_gwpy_timeseries, data))
    elif how == 'frame':
        asked = []

        def rd(*a, **k):
            asked.append((a, k))
            return ts
        c.setattr(bilby.gw.utils, 'read_frame_file', rd)
        d.set_from_frame_file('file.gwf', sampling_frequency=4, duration=1, start_time=7, channel='H1:X', buffer_time=2)
        a, k = asked[0]
        c.ensure('asked-for-the-segment', a == ('file.gwf',) and k == dict(
            start_time=7, end_time=8, buffer_time=2, channel='H1:X', resample=4))
    else:
        from gwpy.timeseries import TimeSeries
        c.setattr(TimeSeries, 'read', staticmethod(lambda *a, **k: ts))
        d.set_from_csv('file.csv')
    compare(c, d, fresh(c, 'time', 4, 1, 7, 0, INF, 0.3), c.choice('order', [['factor', 'mask', 'fd', 'td'], ['td', 'fd', 'mask', 'factor']]))


@contract("P10", "create_power_spectral_density", bound="8 samples", samples=60)
def _(c):
    import gwpy.timeseries as g
    import tempfile
    import os
    d = InterferometerStrainData(roll_off=0.3)
    tukey(c)
    data = rdata(c, 'x', 8)
    d.set_from_time_domain_strain(data, sampling_frequency=2, duration=4, start_time=10)
    seen = []

    class Values(object):
        def __init__(self, value):
            self.value = value

    class Out(object):
        frequencies = Values([0., 0.5, 1.])

        def __init__(self):
            self.value = [c.real('p%d' % i) for i in range(3)]
    out = Out()

    class TimeSeries(object):
        def __init__(self, data=None, sample_rate=None):
            self.d, self.fs = data, sample_rate

        def psd(self, **k):
            seen.append((self.d, self.fs, k))
            return out
    c.setattr(g, 'TimeSeries', TimeSeries)
    t = c.choice('segment', [None, 9., 10.5, 11., 12.5])
    L = c.choice('length', [1., 1.5, 2.])
    f, p = d.create_power_spectral_density(L, overlap=0.5, analysis_segment_start_time=t)
    inside = t is not None and t > 10 and t + L < 13.5
    keep = [i for i in range(8) if not (inside and t <= 10 + i / 2 <= t + L)]
    got, fs, k = seen[0]
    c.ensure_eq('data-outside-the-analysis-segment', list(got), [data[i] for i in keep])
    c.ensure_eq('sampling', fs, 2)
    c.ensure_eq('overlap', [k['fftlength'], k['overlap']], [L, 0.5])
    c.ensure_eq('window', k['window'][1], 0.6 / L)
    c.ensure('tukey', k['window'][0] == 'tukey')
    c.ensure_eq('result', list(f) + list(p), [0., 0.5, 1.] + out.value)


@contract("P10", "time_within_data")
def _(c):
    d = InterferometerStrainData()
    d.start_time, d.duration = c.real('start'), c.pos('T')
    t = c.real('t')
    c.ensure('within', bool(d.time_within_data(t)) == bool(c.both(t >= d.start_time, t <= d.start_time + d.duration)))


@contract("P10", "Interferometer data access", bound="4 samples", samples=60)
def _(c):
    if c.sym:
        rfft4(c)
    tukey(c)
    ifo = Interferometer('H1', None, 0, INF, 4, 46., -119., 142., 126., 216.)
    ifo.strain_data.roll_off = 0.3
    class PSD(object):
        def __init__(self):
            self.noise = Density(c)
            self.get_noise_realisation = self.noise.get_noise_realisation

        def get_power_spectral_density_array(self, frequency_array):
            return obj(c, rdata(c, 'psd', len(frequency_array)))
    ifo.power_spectral_density = PSD()
    td, fd = rdata(c, 'td4_1', 4), cdata(c, 'fd4_1', 3)
    how = c.choice('how', ['time', 'frequency', 'frequency-array', 'noise', 'zero'])
    if how == 'time':
        ifo.set_strain_data_from_gwpy_timeseries(gwpy_series(c, td, 4, 7))
    elif how == 'frequency':
        ifo.set_strain_data_from_frequency_domain_strain(fd, sampling_frequency=4, duration=1, start_time=7)
    elif how == 'frequency-array':
        ifo.set_strain_data_from_frequency_domain_strain(fd, frequency_array=np.arange(3.), start_time=7)
    elif how == 'noise':
        ifo.set_strain_data_from_power_spectral_density(sampling_frequency=4, duration=1, start_time=7)
    else:
        ifo.set_strain_data_from_zero_noise(sampling_frequency=4, duration=1, start_time=7)
    lo, hi = 0, INF
    if c.choice('band', [False, True]):
        lo = ifo.minimum_frequency = 1
        hi = ifo.maximum_frequency = 1.5
    w = fresh(c, how, 4, 1, 7, lo, hi, 0.3)
    c.ensure_eq('psd-carries-the-window-factor', ifo.power_spectral_density_array, [x * w['factor'] for x in rdata(c, 'psd', 3)])
    compare(c, ifo.strain_data, w, ['fd', 'td', 'mask', 'factor'])
    c.ensure_eq('access', [ifo.duration, ifo.sampling_frequency, ifo.start_time, ifo.minimum_frequency, ifo.maximum_frequency],
                [1, 4, 7, lo, min(hi, 2)])
    c.ensure_eq('strain', ifo.frequency_domain_strain, w['fd'])
    c.ensure_eq('strain-time', ifo.time_domain_strain, w['td'])
    c.ensure('mask', list(ifo.frequency_mask) == list(w['mask']))
    c.ensure_eq('arrays', list(ifo.frequency_array) + list(ifo.time_array), list(w['f']) + list(w['t']))


@contract("P10", "inject_signal_from_waveform_polarizations", bound="4 samples", samples=60)
def _(c):
    if c.sym:
        rfft4(c)
    tukey(c)
    ifo = Interferometer('H1', None, 0, INF, 4, 46., -119., 142., 126., 216.)
    how = c.choice('how', [s for s in SETS if s != 'zero'])
    put(c, ifo.strain_data, how, 4, 1, 7)
    ifo.strain_data.roll_off = 0.3
    lo, hi = 0, INF
    if c.choice('band', [False, True]):
        lo, hi = ifo.minimum_frequency, ifo.maximum_frequency = 1, 1.5
    w = fresh(c, how, 4, 1, 7, lo, hi, 0.3)
    h = [cdata(c, 'h%d_' % k, 3) * w['mask'] for k in range(2)]
    given = []

    def response(self, pol, par, frequencies=None):
        given.append((pol, par))
        return h[pol['id']] * 1
    c.setattr(Interferometer, 'get_detector_response', response)
    c.setattr(Interferometer, 'optimal_snr_squared', lambda self, signal: 4.0)
    c.setattr(Interferometer, 'matched_filter_snr', lambda self, signal: 5.0 + 1j)
    par = dict(geocent_time=7.5, a=1)
    ifo.inject_signal_from_waveform_polarizations(par, dict(id=0))
    c.ensure_eq('added', ifo.frequency_domain_strain, w['fd'] + h[0])
    c.ensure('parameters-kept', ifo.meta_data['parameters'] == par and given[0][1] == par)
    ifo.inject_signal_from_waveform_polarizations(par, dict(id=1))
    c.ensure_eq('added-twice', ifo.frequency_domain_strain, w['fd'] + h[0] + h[1])
    c.ensure_eq('time-domain', ifo.time_domain_strain, np.fft.irfft(w['fd'] + h[0] + h[1]) * 4)
    c.ensure_eq('window-factor-kept', ifo.strain_data.window_factor, w['factor'])
