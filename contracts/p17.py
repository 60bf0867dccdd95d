"""P17: waveforms and derived quantities of a sample are those of its own parameters and of the current settings."""
import copy
import os
import shutil
import tempfile
import types
import numpy as np
import pandas as pd
from pydv.contract import contract
import bilby
import bilby.core.prior as bp
import bilby.core.utils as bu
import bilby.core.utils.random as brandom
import bilby.gw.conversion as cv
import bilby.gw.source as gs
import bilby.gw.waveform_generator as wg
from contracts.p10 import obj, rfft4, INF
from contracts.p15 import frame

ASSUMPTIONS = ["lalsimulation waveform functions are replaced by functions returning given series of the documented kind",
               "multiprocessing.Pool.map is replaced by map in the same process"]


def same(a, b):
    return list(np.asarray(a).reshape(-1)), list(np.asarray(b).reshape(-1))


# -- WaveformGenerator

def models(c, kind):
    """source models: plus and cross are unknown functions of time or frequency, parameters and settings"""
    F = {(d, p): c.func(d + p, 4) for d in 'ft' for p in ('plus', 'cross')}
    log = []

    def make(d):
        if kind == 'array':
            def model(x, m, d_l, **kw):
                log.append((d, m, d_l, dict(kw)))
                return obj(c, [F[d, 'plus'](v, m, d_l, kw.get('setting', 0)) for v in x])
        else:
            def model(x, m, d_l, **kw):
                log.append((d, m, d_l, dict(kw)))
                return {p: obj(c, [F[d, p](v, m, d_l, kw.get('setting', 0)) for v in x]) for p in ('plus', 'cross')}
        return model
    return make('f'), make('t'), log


def conversion(parameters):
    out = dict(parameters)
    out['m'] = out.pop('M') * 2
    return out, ['m']


def generator(have, mods, setup, arguments):
    return wg.WaveformGenerator(duration=setup[0], sampling_frequency=setup[1], start_time=setup[2],
                                frequency_domain_source_model=mods[0] if 'f' in have else None,
                                time_domain_source_model=mods[1] if 't' in have else None,
                                parameter_conversion=conversion, waveform_arguments=dict(arguments))


def strain(g, domain, p):
    return g.frequency_domain_strain(p) if domain == 'f' else g.time_domain_strain(p)


@contract("P17", "WaveformGenerator", bound="four time samples", samples=60)
def _(c):
    if c.sym:
        rfft4(c)
    have = c.choice('models', ['f', 't', 'ft'])
    mods = models(c, 'dict')
    arguments = c.choice('arguments', [{}, dict(setting=3.)])
    setup = (1, 4, c.choice('start', [0, 2]))
    g = generator(have, mods, setup, arguments)
    p = dict(M=c.real('M'), d_l=c.real('d'))
    if c.choice('extra', [False, True]):
        p['ra'] = c.real('ra')
    before = dict(p)
    domain = c.choice('domain', ['f', 't'])
    out = strain(g, domain, p)
    c.ensure('input-unchanged', dict(p) == before)
    d = domain if domain in have else have
    x = g.frequency_array if d == 'f' else g.time_array
    c.ensure_eq('points', list(x), [0, 1, 2] if d == 'f' else [setup[2] + k / 4 for k in range(4)])
    log = mods[2]
    c.ensure('one-model', len(log) == 1 and log[0][0] == d and log[0][3] == arguments)
    c.ensure_eq('model-parameters', log[0][1:3], [2 * p['M'], p['d_l']])
    raw = mods[0 if d == 'f' else 1](x, 2 * p['M'], p['d_l'], **arguments)
    c.ensure('polarizations', set(out) == {'plus', 'cross'})
    for k in out:
        want = raw[k] if d == domain else (np.fft.rfft(raw[k]) / 4 if domain == 'f' else np.fft.irfft(raw[k]) * 4)
        c.ensure_eq(k, list(out[k]), list(want))
    bad = dict(p)
    bad.pop('d_l')
    c.ensure('missing-parameter', c.raises(KeyError, strain, g, domain, bad))


CHANGES = ['nothing', 'parameters', 'other domain', 'duration', 'sampling_frequency', 'start_time', 'frequency_array', 'time_array',
           'array changed', 'waveform_arguments', 'model', 'failed call']


for change_ in CHANGES:
    @contract("P17", "WaveformGenerator[history: %s]" % change_, bound="four to eight time samples, one change between two calls", samples=60)
    def _(c, change=change_):
        if c.sym:
            rfft4(c)
        have = c.choice('models', ['f', 't', 'ft'])
        domain = c.choice('domain', ['f', 't'])
        mods = models(c, 'dict')
        setup = [1, 4, 0]
        arguments = dict(setting=1.)
        g = generator(have, mods, setup, arguments)
        p = dict(M=c.real('M'), d_l=c.real('d'))
        strain(g, domain, p)
        after = dict(p)
        fresh_arrays = {}
        if change == 'parameters':
            k = c.choice('key', ['M', 'd_l'])
            after[k] = c.real('new')
        elif change == 'other domain':
            domain = 't' if domain == 'f' else 'f'
        elif change == 'duration':
            setup[0] = 2
            g.duration = 2
        elif change == 'sampling_frequency':
            setup[1] = 8
            g.sampling_frequency = 8
        elif change == 'start_time':
            setup[2] = 3
            g.start_time = 3
        elif change in ('frequency_array', 'time_array'):
            new = np.array([0., 2., 4.]) if change == 'frequency_array' else np.array([1., 1.5, 2., 2.5])
            setattr(g, change, new)
            fresh_arrays[change] = new
        elif change == 'array changed':
            name = c.choice('which', ['frequency_array', 'time_array'])
            old = getattr(g, name)
            setattr(g, name, old)
            strain(g, domain, p)
            old += 1
            fresh_arrays[name] = old.copy()
        elif change == 'waveform_arguments':
            how = c.choice('how', ['replaced', 'edited'])
            arguments = dict(setting=2.)
            if how == 'replaced':
                g.waveform_arguments = dict(arguments)
            else:
                g.waveform_arguments['setting'] = 2.
        elif change == 'model':
            other = models(c, 'dict') if not c.sym else mods
            one, two, log = mods
            mods = (lambda x, m, d_l, **kw: {k: -v for k, v in one(x, m, d_l, **kw).items()},
                    lambda x, m, d_l, **kw: {k: -v for k, v in two(x, m, d_l, **kw).items()}, log)
            if 'f' in have:
                g.frequency_domain_source_model = mods[0]
            if 't' in have:
                g.time_domain_source_model = mods[1]
        elif change == 'failed call':
            bad = dict(M=c.real('M2'))
            c.ensure('missing', c.raises(KeyError, strain, g, domain, bad))
        fresh = generator(have, mods, setup, arguments)
        for k, v in fresh_arrays.items():
            setattr(fresh, k, v.copy())
        again = c.choice('asked', ['with parameters', 'in place'])
        if again == 'in place' and change != 'waveform_arguments' and change != 'failed call':
            g.parameters = after
            got = strain(g, domain, None)
        else:
            got = strain(g, domain, after)
        want = strain(fresh, domain, after)
        c.ensure('polarizations', set(got) == set(want))
        for k in want:
            c.ensure('length', len(got[k]) == len(want[k]))
            c.ensure_eq(k, list(got[k]), list(want[k]))


# -- source models

BBH = ['mass_1', 'mass_2', 'luminosity_distance', 'a_1', 'tilt_1', 'phi_12', 'a_2', 'tilt_2', 'phi_jl', 'theta_jn', 'phase']
SOURCES = dict(
    lal_binary_black_hole=(BBH, 'IMRPhenomPv2', 50.0),
    lal_binary_neutron_star=(BBH + ['lambda_1', 'lambda_2'], 'IMRPhenomPv2_NRTidal', 50.0),
    lal_eccentric_binary_black_hole_no_spins=(['mass_1', 'mass_2', 'eccentricity', 'luminosity_distance', 'theta_jn', 'phase'],
                                              'EccentricFD', 10.0),
    lal_binary_black_hole_relative_binning=(BBH, 'IMRPhenomPv2', 50.0),
    lal_binary_neutron_star_relative_binning=(BBH + ['lambda_1', 'lambda_2'], 'IMRPhenomPv2_NRTidal', 50.0),
    binary_black_hole_frequency_sequence=(BBH, 'IMRPhenomPv2', 50.0),
    binary_neutron_star_frequency_sequence=(BBH + ['lambda_1', 'lambda_2'], 'IMRPhenomPv2_NRTidal', 50.0),
    binary_black_hole_roq=(BBH, 'IMRPhenomPv2', 20.0),
    binary_neutron_star_roq=(BBH + ['lambda_1', 'lambda_2'], 'IMRPhenomD_NRTidal', 20.0),
)
FREQ = ['lal_binary_black_hole', 'lal_binary_neutron_star', 'lal_eccentric_binary_black_hole_no_spins']
SEQ = ['binary_black_hole_frequency_sequence', 'binary_neutron_star_frequency_sequence']
SPIN_ARGS = ['theta_jn', 'phi_jl', 'tilt_1', 'tilt_2', 'phi_12', 'a_1', 'a_2', 'mass_1', 'mass_2', 'reference_frequency', 'phase']


class Lal(object):
    """the waveform library: records what it is asked for and returns given series"""

    def __init__(self, c, n):
        self.calls, self.inserted, self.modes = [], {}, []
        self.n, self.error = n, None
        self.plus = [c.real('p%d' % i) + 1j * c.real('pi%d' % i) for i in range(n)]
        self.cross = [c.real('c%d' % i) + 1j * c.real('ci%d' % i) for i in range(n)]
        self.epoch = (-1, 250000000)
        import lalsimulation
        for k in dir(lalsimulation):
            if k.startswith('SimInspiralWaveformParamsInsert'):
                c.setattr(lalsimulation, k, lambda d, v, k=k[len('SimInspiralWaveformParamsInsert'):]: self.inserted.update({k: v}))
        c.setattr(lalsimulation, 'SimInspiralCreateModeArray', lambda: [])
        c.setattr(lalsimulation, 'SimInspiralModeArrayActivateMode', lambda a, l, m: a.append((l, m)))
        names = ['mass_1', 'mass_2', 's1x', 's1y', 's1z', 's2x', 's2y', 's2z', 'distance', 'iota', 'phase', 'nodes', 'eccentricity', 'anomaly',
                 'df', 'fmin', 'fmax', 'fref', 'dict', 'approximant']
        c.setattr(gs, 'lalsim_SimInspiralChooseFDWaveform', lambda *a: self.run(c, 'fd', dict(zip(names, a))))
        c.setattr(gs, 'lalsim_SimInspiralFD', lambda *a: self.run(c, 'td', dict(zip(names, a))))
        seq = ['phase', 'mass_1', 'mass_2', 's1x', 's1y', 's1z', 's2x', 's2y', 's2z', 'fref', 'distance', 'iota', 'dict', 'approximant', 'frequencies']
        c.setattr(gs, 'lalsim_SimInspiralChooseFDWaveformSequence', lambda *a: self.run(c, 'seq', dict(zip(seq, a))))
        self.spins = [c.func('spin%d' % i, 11) for i in range(7)]
        c.setattr(gs, 'bilby_to_lalsimulation_spins', lambda **k: tuple(f(*[k[a] for a in SPIN_ARGS]) for f in self.spins))

    def run(self, c, how, asked):
        asked['how'] = how
        self.calls.append(asked)
        if self.error is not None:
            raise self.error
        t = types.SimpleNamespace(gpsSeconds=self.epoch[0], gpsNanoSeconds=self.epoch[1])
        return tuple(types.SimpleNamespace(data=types.SimpleNamespace(data=obj(c, list(v))), deltaF=asked.get('df', 0.5), epoch=t)
                     for v in (self.plus, self.cross))


def arguments_agree(c, lal, name, p, settings, approximant, fref):
    """what the waveform library was asked for, in its units"""
    import lalsimulation
    a = lal.calls[-1]
    c.ensure_eq('masses', [a['mass_1'], a['mass_2']], [p['mass_1'] * bu.solar_mass, p['mass_2'] * bu.solar_mass])
    c.ensure_eq('distance', a['distance'], p['luminosity_distance'] * 1e6 * bu.parsec)
    q = dict({k: 0.0 for k in ['phi_jl', 'tilt_1', 'tilt_2', 'phi_12', 'a_1', 'a_2']}, **p)
    q.update(mass_1=p['mass_1'] * bu.solar_mass, mass_2=p['mass_2'] * bu.solar_mass, reference_frequency=fref)
    want = [f(*[q[k] for k in SPIN_ARGS]) for f in lal.spins]
    c.ensure_eq('inclination-and-spins', [a[k] for k in ['iota', 's1x', 's1y', 's1z', 's2x', 's2y', 's2z']], want)
    c.ensure_eq('phase', a['phase'], p['phase'])
    c.ensure_eq('reference-frequency', a['fref'], fref)
    c.ensure('approximant', a['approximant'] == lalsimulation.GetApproximantFromString(approximant))
    c.ensure_eq('tides', [lal.inserted['TidalLambda1'], lal.inserted['TidalLambda2']], [p.get('lambda_1', 0), p.get('lambda_2', 0)])
    c.ensure('post-newtonian-orders', [lal.inserted['PN%sOrder' % k] for k in ('Spin', 'Tidal', 'Phase', 'Amplitude')] == [
        settings.get('pn_%s_order' % k, d) for k, d in [('spin', -1), ('tidal', -1), ('phase', -1), ('amplitude', 0)]])
    c.ensure('modes', lal.inserted.get('ModeArray') == settings.get('mode_array') and lal.inserted.get('PhenomXHMReleaseVersion') == settings.get(
        'PhenomXHMReleaseVersion'))


def common_settings(c):
    return c.choice('settings', [dict(), dict(mode_array=[(2, 2), (3, -3)], PhenomXHMReleaseVersion=122019, pn_spin_order=3, pn_tidal_order=5,
                                              pn_phase_order=6)])


for name_ in FREQ + ['lal_binary_black_hole_relative_binning', 'lal_binary_neutron_star_relative_binning']:
    @contract("P17", name_, bound="six frequencies, series of five to eight entries", samples=40, max_paths=3000)
    def _(c, name=name_):
        import lalsimulation
        keys, approximant, fref = SOURCES[name]
        p = {k: c.real(k, 0.1) for k in keys}
        lal = Lal(c, c.choice('length', [5, 6, 8]))
        f = np.array([0., 4., 8., 12., 16., 20.])
        settings = dict(common_settings(c))
        band = c.choice('band', ['default', 'given'])
        fmin, fmax = (10. if 'eccentric' in name else 20.), f[-1]
        if band == 'given':
            fmin, fmax = 4., 12.
            settings.update(minimum_frequency=fmin, maximum_frequency=fmax)
        if c.choice('domain', ['fd', 'td']) == 'td':
            approximant = 'SEOBNRv4'
            settings['waveform_approximant'] = approximant
        if c.choice('reference', ['default', 'given']) == 'given':
            settings['reference_frequency'] = fref = 33.
        order = c.choice('amplitude order', [0, 1])
        if order:
            settings['pn_amplitude_order'] = 1
        extra = {}
        if 'relative' in name:
            extra['fiducial'] = 1
            if 'black' in name:
                settings['frequency_bin_edges'] = np.array([4., 8.])
        before = copy.deepcopy(settings)
        out = getattr(gs, name)(obj(c, list(f)), **p, **extra, **settings)
        c.ensure('settings-unchanged', repr(before) == repr(settings))
        a = lal.calls[-1]
        c.ensure('one-call', len(lal.calls) == 1)
        td = not lalsimulation.SimInspiralImplementedFDApproximants(lalsimulation.GetApproximantFromString(approximant))
        c.ensure('function', a['how'] == ('td' if td else 'fd'))
        arguments_agree(c, lal, name, p, settings, approximant, fref)
        start = lalsimulation.SimInspiralfLow2fStart(fmin, 1, lalsimulation.GetApproximantFromString(approximant)) if order else fmin
        c.ensure_eq('band-asked-for', [a['df'], a['fmin'], a['fmax']], [4., start, fmax])
        c.ensure_eq('orbit', [a['nodes'], a['anomaly'], a['eccentricity']], [0, 0, p.get('eccentricity', 0)])
        c.ensure('polarizations', set(out) == {'plus', 'cross'} and all(len(v) == len(f) for v in out.values()))
        dt = 1 / 4. - 0.75
        for k, v in [('plus', lal.plus), ('cross', lal.cross)]:
            want = []
            for i in range(len(f)):
                inside = fmin <= f[i] <= fmax and i < len(v)
                want.append((v[i] * (np.exp(-2j * np.pi * dt * f[i]) if td else 1)) if inside else 0)
            c.ensure_eq(k, list(out[k]), want)


for name_ in SEQ + ['lal_binary_black_hole_relative_binning', 'lal_binary_neutron_star_relative_binning', 'binary_black_hole_roq',
                    'binary_neutron_star_roq']:
    @contract("P17", name_ + "[sequence]", bound="two to four frequencies", samples=40)
    def _(c, name=name_):
        keys, approximant, fref = SOURCES[name]
        p = {k: c.real(k, 0.1) for k in keys}
        f = np.array([0., 4., 8., 12., 16., 20.])
        settings = dict(common_settings(c))
        if c.choice('reference', ['default', 'given']) == 'given':
            settings['reference_frequency'] = fref = 33.
        if c.choice('approximant', ['default', 'given']) == 'given':
            settings['waveform_approximant'] = approximant = 'IMRPhenomXP'
        extra = {}
        lin, quad = np.array([4., 12., 16.]), np.array([8., 12.])
        where = None
        if 'roq' in name:
            if c.choice('nodes', ['two lists', 'combined']) == 'two lists':
                settings.update(frequency_nodes_linear=lin, frequency_nodes_quadratic=quad)
                asked = np.array([4., 8., 12., 16.])
                where = dict(linear=[0, 2, 3], quadratic=[1, 2])
            else:
                asked = np.array([4., 8., 12., 16.])
                where = dict(linear=[3, 0, 2], quadratic=[2, 1])
                settings.update(frequency_nodes=asked, linear_indices=np.array(where['linear']), quadratic_indices=np.array(where['quadratic']))
                if c.choice('both', [False, True]):
                    settings.update(frequency_nodes_linear=lin, frequency_nodes_quadratic=quad)
        elif 'relative' in name:
            asked = np.array([4., 10., 16.])
            extra['fiducial'] = 0
            settings['frequency_bin_edges'] = asked
            if c.choice('band', [False, True]):
                settings.update(minimum_frequency=8., maximum_frequency=12.)
        else:
            asked = np.array([3., 5.])
            settings['frequencies'] = asked
        lal = Lal(c, len(asked))
        before = copy.deepcopy(settings)
        for again in range(2):
            out = getattr(gs, name)(f, **p, **extra, **settings)
            c.ensure('settings-unchanged', repr(before) == repr(settings))
            a = lal.calls[-1]
            c.ensure('function', a['how'] == 'seq' and len(lal.calls) == again + 1)
            arguments_agree(c, lal, name, p, settings, approximant, fref)
            c.ensure('frequencies', list(a['frequencies']) == list(asked))
            if where is None:
                c.ensure_eq('plus', list(out['plus']), lal.plus)
                c.ensure_eq('cross', list(out['cross']), lal.cross)
            else:
                for part, idx in where.items():
                    for k, v in [('plus', lal.plus), ('cross', lal.cross)]:
                        c.ensure_eq(part + '-' + k, list(out[part][k]), [v[i] for i in idx])


@contract("P17", "waveform errors", bound="every kind of source model", samples=40)
def _(c):
    name = c.choice('name', list(SOURCES))
    keys, approximant, fref = SOURCES[name]
    p = {k: c.real(k, 0.1) for k in keys}
    f = np.array([0., 4., 8., 12., 16., 20.])
    settings = {}
    if 'relative' in name:
        p['fiducial'] = c.choice('fiducial', [0, 1])
        settings['frequency_bin_edges'] = np.array([4., 8.])
    elif 'roq' in name:
        settings.update(frequency_nodes_linear=f[1:3], frequency_nodes_quadratic=f[2:3])
    elif 'sequence' in name:
        settings['frequencies'] = f[1:3]
    lal = Lal(c, 2)
    domain = c.choice('error', [True, False])
    lal.error = RuntimeError('Internal function call failed: Input domain error' if domain else 'XLAL out of memory')
    catch = c.choice('catch', ['default', False, True])
    if catch != 'default':
        settings['catch_waveform_errors'] = catch
    func = getattr(gs, name)
    if catch is True and domain:
        c.ensure('no-waveform', func(f, **p, **settings) is None)
    else:
        c.ensure('raised', c.raises(RuntimeError, func, f, **p, **settings))


@contract("P17", "sinegaussian", bound="two frequencies")
def _(c):
    hrss, Q, f0 = c.real('hrss', 1e-3), c.real('Q', 0.1, 30), c.real('f0', 1e-3)
    f = [c.real('f1', 0), c.real('f2', 0)]
    before = list(f)
    out = gs.sinegaussian(obj(c, f), hrss, Q, f0, unused=1)
    c.ensure('polarizations', set(out) == {'plus', 'cross'})
    tau = Q / (2 ** 0.5 * np.pi * f0)
    for k, sign in [('plus', 1), ('cross', -1)]:
        # Fourier transform of A cos(2 pi f0 t) exp(-t^2 / tau^2) and of the sine; the energy of either is hrss^2
        A2 = hrss ** 2 * 4 * np.pi ** 0.5 * f0 / (Q * (1 + sign * np.exp(-Q ** 2)))
        for v, got in zip(before, out[k]):
            e1, e2 = np.exp(-((v - f0) * np.pi * tau) ** 2), np.exp(-((v + f0) * np.pi * tau) ** 2)
            want = A2 ** 0.5 * np.pi ** 0.5 * tau / 2 * (e1 + sign * e2)
            c.ensure_eq(k, got, want if sign > 0 else -1j * want)


@contract("P17", "supernova", bound="two frequencies")
def _(c):
    rows = np.empty((2, 4), dtype=object if c.sym else float)
    for i in np.ndindex(2, 4):
        rows[i] = c.real('x%d%d' % i)
    if c.sym:
        from pydv.sym import SymNd
        rows = rows.view(SymNd)
    seen = []
    c.setattr(np, 'genfromtxt', lambda name: (seen.append(name), rows)[1])
    d = c.real('d', 1e-3)
    out = gs.supernova(np.array([1., 2.]), d, file_path='catalogue.txt')
    c.ensure('file', seen == ['catalogue.txt'])
    for k, j in [('plus', 0), ('cross', 2)]:
        c.ensure_eq(k, list(out[k] * d), [(rows[i, j] + 1j * rows[i, j + 1]) / 100 for i in range(2)])


@contract("P17", "supernova_pca_model", bound="two frequencies")
def _(c):
    re, im = np.empty((2, 5), dtype=object if c.sym else float), np.empty((2, 5), dtype=object if c.sym else float)
    for i in np.ndindex(2, 5):
        re[i], im[i] = c.real('r%d%d' % i), c.real('i%d%d' % i)
    if c.sym:
        from pydv.sym import SymNd
        re, im = re.view(SymNd), im.view(SymNd)
    d = c.real('d', 1e-3)
    k = [c.real('k%d' % i) for i in range(5)]
    out = gs.supernova_pca_model(np.array([1., 2.]), *k, luminosity_distance=d, realPCs=re, imagPCs=im)
    want = [sum(k[j] * (re[i, j] + 1j * im[i, j]) for j in range(5)) for i in range(2)]
    c.ensure_eq('plus', list(out['plus'] * d * 1e22), want)
    c.ensure_eq('cross', list(out['cross'] * d * 1e22), want)


@contract("P17", "calls to the waveform library", concrete_only=True, bound="random arguments", samples=40)
def _(c):
    """the wrappers hand every argument on in the order of the library's documented signature"""
    import lalsimulation
    import lal
    import bilby.gw.utils as gu
    seen = []
    for k in ['SimInspiralFD', 'SimInspiralChooseFDWaveform', 'SimInspiralChooseFDWaveformSequence', 'SimInspiralTransformPrecessingNewInitialConditions']:
        c.setattr(lalsimulation, k, lambda *a, k=k: (seen.append((k,) + a), k)[1])
    names = ['mass_1', 'mass_2', 'spin_1x', 'spin_1y', 'spin_1z', 'spin_2x', 'spin_2y', 'spin_2z', 'luminosity_distance', 'iota', 'phase',
             'longitude_ascending_nodes', 'eccentricity', 'mean_per_ano', 'delta_frequency', 'minimum_frequency', 'maximum_frequency',
             'reference_frequency']
    v = {k: c.real(k, -100, 100) for k in names}
    as_text = c.choice('kind', [float, np.float64, lambda x: np.array(x)])
    arg = {k: as_text(x) for k, x in v.items()}
    d, approx = lal.CreateDict(), c.choice('approximant', [lalsimulation.IMRPhenomPv2, 'IMRPhenomPv2'])
    for f in ['SimInspiralFD', 'SimInspiralChooseFDWaveform']:
        got = getattr(gu, 'lalsim_' + f)(waveform_dictionary=d, approximant=approx, **arg)
        c.ensure('returned', got == f)
        c.ensure(f, seen.pop() == (f,) + tuple(float(v[k]) for k in names) + (d, lalsimulation.IMRPhenomPv2))
    freqs = np.array([c.real('f0', 1), c.real('f1', 1)])
    seq = ['phase', 'mass_1', 'mass_2', 'spin_1x', 'spin_1y', 'spin_1z', 'spin_2x', 'spin_2y', 'spin_2z', 'reference_frequency', 'luminosity_distance',
           'iota']
    given = freqs
    if c.choice('vector', [False, True]):
        given = lal.CreateREAL8Vector(2)
        given.data = freqs
    got = gu.lalsim_SimInspiralChooseFDWaveformSequence(waveform_dictionary=d, approximant=approx, frequency_array=given, **{k: arg[k] for k in seq})
    c.ensure('returned-sequence', got == 'SimInspiralChooseFDWaveformSequence')
    last = seen.pop()
    c.ensure('sequence', last[1:13] == tuple(float(v[k]) for k in seq) and last[13] is d and last[14] == lalsimulation.IMRPhenomPv2)
    c.ensure('sequence-frequencies', list(last[15].data) == list(freqs))
    spin = ['theta_jn', 'phi_jl', 'tilt_1', 'tilt_2', 'phi_12', 'a_1', 'a_2', 'mass_1', 'mass_2', 'reference_frequency', 'phase']
    w = {k: c.real('w' + k, -10, 10) for k in spin}
    gu.lalsim_SimInspiralTransformPrecessingNewInitialConditions(**{k: as_text(x) for k, x in w.items()})
    c.ensure('spins', seen.pop()[1:] == tuple(float(w[k]) for k in spin))


@contract("P17", "gwsignal_binary_black_hole", concrete_only=True, bound="six frequencies, series of five to eight entries", samples=60)
def _(c):
    import lalsimulation.gwsignal as lg
    import lalsimulation.gwsignal.models as lm
    import astropy.units as u
    keys = BBH
    p = {k: c.real(k, 0.1, 0.9 if k in ('a_1', 'a_2') else 3) for k in keys}
    p['mass_2'] = p['mass_1'] * c.real('q', 0.1, 1)
    f = np.array([0., 4., 8., 12., 16., 20.])
    n = c.choice('length', [5, 6, 8])
    td = c.choice('domain', ['fd', 'td']) == 'td'
    plus, cross = [np.array([c.real('%s%d' % (k, i), -1, 1) + 1j * c.real('%si%d' % (k, i), -1, 1) for i in range(n)]) for k in 'pc']
    seen = []

    class Series(np.ndarray):
        pass

    def series(v):
        s = v.copy().view(Series)
        s.df, s.epoch = types.SimpleNamespace(value=4.), types.SimpleNamespace(value=-0.75)
        return s

    def generate(d, g):
        seen.append((dict(d), g))
        if error is not None:
            raise error
        return types.SimpleNamespace(hp=series(plus), hc=series(cross))
    error = None
    gen = types.SimpleNamespace(metadata=dict(implemented_domain='time' if td else 'freq'))
    c.setattr(lg, 'GenerateFDWaveform', generate)
    c.setattr(lm, 'gwsignal_get_waveform_generator', lambda name: (seen.append(name), gen)[1])
    settings = {}
    fmin, fmax, fref, approx = 20., 20., 50., 'SEOBNRv5PHM'
    if c.choice('band', ['default', 'given']) == 'given':
        fmin, fmax = 4., 12.
        settings.update(minimum_frequency=fmin, maximum_frequency=fmax)
    if c.choice('reference', ['default', 'given']) == 'given':
        settings['reference_frequency'] = fref = 33.
        settings['waveform_approximant'] = approx = 'SEOBNRv5HM'
        settings['another_setting'] = 7
        settings['mode_array'] = [(2, 2)]
    order = c.choice('order', [0, 2, -1])
    settings['pn_amplitude_order'] = order
    out = gs.gwsignal_binary_black_hole(f, **p, **settings)
    d = seen[1][0]
    c.ensure('generator', seen[0] == approx and seen[1][1] is gen)
    want = dict(mass1=p['mass_1'] * u.solMass, mass2=p['mass_2'] * u.solMass, deltaF=4 * u.Hz, f_max=fmax * u.Hz, f22_ref=fref * u.Hz,
                f22_start=fmin * 2 / ({0: 0, 2: 2, -1: 6}[order] + 2) * u.Hz, phi_ref=p['phase'] * u.rad,
                distance=p['luminosity_distance'] * u.Mpc, eccentricity=0 * u.one, longAscNodes=0 * u.rad, meanPerAno=0 * u.rad, condition=int(td))
    spins = cv.bilby_to_lalsimulation_spins(**{k: dict(p, mass_1=p['mass_1'] * bu.solar_mass, mass_2=p['mass_2'] * bu.solar_mass,
                                                       reference_frequency=fref)[k] for k in SPIN_ARGS})
    want.update(zip(['inclination', 'spin1x', 'spin1y', 'spin1z', 'spin2x', 'spin2y', 'spin2z'], spins))
    if 'mode_array' in settings:
        want.update(another_setting=7, ModeArray=[(2, 2)])
    c.ensure('asked', set(want) == set(d))
    for k, v in want.items():
        if k == 'inclination':
            v = v * u.rad
        if k in d:
            c.ensure('asked-' + k, d[k] == v if k in ('ModeArray', 'condition') else bool(u.isclose(d[k], v)))
    shift = 1 / 4. - 0.75
    for k, v in [('plus', plus), ('cross', cross)]:
        w = [(v[i] * (np.exp(-2j * np.pi * shift * f[i]) if td else 1)) if fmin <= f[i] <= fmax and i < n else 0 for i in range(len(f))]
        c.ensure_eq(k, list(np.asarray(out[k])), w)
    error = RuntimeError('Internal function call failed: Input domain error' if c.choice('error', [True, False]) else 'memory')
    c.ensure('raised', c.raises(RuntimeError, gs.gwsignal_binary_black_hole, f, **p, **settings))
    settings['catch_waveform_errors'] = True
    if 'domain' in error.args[0]:
        c.ensure('caught', gs.gwsignal_binary_black_hole(f, **p, **settings) is None)
    else:
        c.ensure('not-caught', c.raises(RuntimeError, gs.gwsignal_binary_black_hole, f, **p, **settings))


# -- quantities generated for every posterior sample

class Snr(object):
    def __init__(self, d):
        self.complex_matched_filter_snr = d['matched_filter_snr']
        self.optimal_snr_squared = types.SimpleNamespace(real=d['optimal_snr'] ** 2)
        self.snrs_as_sample = d


class PoolStub(object):
    log = []

    def __init__(self, processes=None, initializer=None, initargs=()):
        PoolStub.log.append((processes, initargs))
        initializer(*initargs)

    def map(self, f, args):
        return [f(a) for a in args]

    def close(self):
        pass

    join = close


class Like(object):
    """likelihood whose outputs are unknown functions of the parameters it holds when asked"""

    def __init__(self, c, keys, marginalized=(), scratch=None):
        self.c, self.keys, self._marginalized_parameters = c, list(keys), list(marginalized)
        self.parameters = dict()
        self.interferometers = [types.SimpleNamespace(name=n) for n in ('H1', 'L1')]
        self.F = {(n, k): c.func(n + k, len(keys)) for n in ('H1', 'L1') for k in ('mf', 'opt', 'lnl')}
        self.G = {k: c.func('new_' + k, len(keys) + 1) for k in marginalized}
        self.waveform_generator = types.SimpleNamespace(frequency_domain_strain=lambda p: dict(p))
        self.limit, self.count = None, 0
        if scratch is not None:
            self.outdir, self.label = scratch, 'run'

    def _args(self, p):
        return [p[k] for k in self.keys]

    def calculate_snrs(self, waveform, ifo, return_array=True):
        a = self._args(waveform)
        a2 = self._args(self.parameters)
        self.c.ensure_eq('parameters-of-the-waveform', a2, a)
        mf = self.F[ifo.name, 'mf'](*a)
        return Snr(dict(matched_filter_snr=mf, optimal_snr=self.F[ifo.name, 'opt'](*a) ** 2))

    def compute_per_detector_log_likelihood(self):
        out = dict(self.parameters)
        out['spoil'] = 1
        for i in self.interferometers:
            out[i.name + '_log_likelihood'] = self.F[i.name, 'lnl'](*self._args(self.parameters))
        self.parameters['spoil'] = 2
        return out

    def generate_posterior_sample_from_marginalized_likelihood(self):
        self.count += 1
        if self.limit is not None and self.count > self.limit:
            raise KeyboardInterrupt
        from bilby.core.utils.random import rng
        u = rng.uniform(0, 1)
        out = dict(self.parameters)
        for k in self._marginalized_parameters:
            out[k] = self.G[k](*(self._args(self.parameters) + [u]))
        self.draws = getattr(self, 'draws', []) + [u]
        return out


def table(c, keys, n):
    rows = [{k: c.real('%s%d' % (k, i)) for k in keys} for i in range(n)]
    index = c.choice('index', ['plain', 'shuffled', 'repeated'])
    index = dict(plain=list(range(n)), shuffled=[(3 * i + 1) % 7 for i in range(n)], repeated=[0] * n)[index]
    return rows, pd.DataFrame(frame(c, {k: [r[k] for r in rows] for k in keys}, index=index))


def pools(c):
    c.setattr(cv.multiprocessing, 'Pool', PoolStub)
    import bilby.core.sampler.base_sampler as bs
    c.setattr(bs, '_sampling_convenience_dump', bs._SamplingContainer())
    return c.choice('npool', [1, 2])


def snr_ok(c, lk, got, p):
    a = [p[k] for k in lk.keys]
    for n in ('H1', 'L1'):
        c.ensure_eq(n + '-matched-filter', got[n + '_matched_filter_snr'], lk.F[n, 'mf'](*a))
        c.ensure_eq(n + '-optimal', got[n + '_optimal_snr'], lk.F[n, 'opt'](*a) ** 2)


@contract("P17", "compute_snrs", bound="three samples of two parameters", samples=60)
def _(c):
    keys = ['a', 'b']
    npool = pools(c)
    lk = Like(c, keys)
    lk.parameters = dict(a=9., b=9., other=3.)
    if c.choice('kind', ['dict', 'table']) == 'dict':
        s = dict(a=c.real('a'), b=c.real('b'))
        cv.compute_snrs(s, lk, npool=npool)
        snr_ok(c, lk, s, s)
        return
    rows, df = table(c, keys, 3)
    cv.compute_snrs(df, lk, npool=npool)
    c.ensure('columns', list(df.columns) == ['a', 'b', 'H1_matched_filter_snr', 'H1_optimal_snr', 'L1_matched_filter_snr', 'L1_optimal_snr'])
    for i, r in enumerate(rows):
        got = df.iloc[i]
        c.ensure_eq('row-kept', [got[k] for k in keys], [r[k] for k in keys])
        snr_ok(c, lk, got, r)


@contract("P17", "compute_per_detector_log_likelihoods", bound="three samples of two parameters, blocks of one to four", samples=60)
def _(c):
    keys = ['a', 'b']
    npool = pools(c)
    lk = Like(c, keys)
    lk.parameters = dict(a=9., b=9.)
    if c.choice('kind', ['dict', 'table']) == 'dict':
        s = dict(a=c.real('a'), b=c.real('b'))
        out = cv.compute_per_detector_log_likelihoods(s, lk, npool=npool)
        c.ensure_eq('values', [out[n + '_log_likelihood'] for n in ('H1', 'L1')], [lk.F[n, 'lnl'](s['a'], s['b']) for n in ('H1', 'L1')])
        return
    rows, df = table(c, keys, 3)
    out = cv.compute_per_detector_log_likelihoods(df, lk, npool=npool, block=c.choice('block', [1, 2, 3, 4]))
    c.ensure('same-table', out is df)
    c.ensure('columns', list(df.columns) == ['a', 'b', 'H1_log_likelihood', 'L1_log_likelihood'])
    for i, r in enumerate(rows):
        got = df.iloc[i]
        c.ensure_eq('row-kept', [got[k] for k in keys], [r[k] for k in keys])
        c.ensure_eq('values', [got[n + '_log_likelihood'] for n in ('H1', 'L1')], [lk.F[n, 'lnl'](r['a'], r['b']) for n in ('H1', 'L1')])


@contract("P17", "reconstructed parameters", bound="five samples, an interruption after every number of samples, blocks of one to six", samples=80, max_paths=4000)
def _(c):
    """also after an interruption, with other block sizes and with a cache of other samples"""
    keys = ['a', 'b']
    npool = pools(c)
    brandom.seed(1234)
    scratch = tempfile.mkdtemp()
    try:
        rows = [dict(a=float(i) + 0.5, b=float(-i) ** 2 + 0.25) for i in range(5)]
        new = c.choice('new', [['c'], ['a'], ['c', 'd']])
        lk = Like(c, keys, new, scratch if c.choice('outdir', [True, False]) else None)
        lk.G = {k: (lambda a, b, u, s=3. + j: s * a - 7 * b + 0.1 * u) for j, k in enumerate(new)}
        first = c.choice('first', ['none', 'interrupted', 'other samples', 'complete', 'empty file'])
        index = c.choice('index', [[0, 1, 2, 3, 4], [3, 3, 1, 0, 9]])

        def build(shift=0):
            return pd.DataFrame([{k: v + shift for k, v in r.items()} for r in rows], index=index)
        if first == 'interrupted':
            lk.limit = c.choice('after', [0, 2, 4])
            c.ensure('interrupted', c.raises(KeyboardInterrupt, cv.generate_posterior_samples_from_marginalized_likelihood,
                                             build(), lk, npool=npool, block=c.choice('first block', [1, 2, 3])))
        elif first in ('other samples', 'complete'):
            cv.generate_posterior_samples_from_marginalized_likelihood(build(1 if first == 'other samples' else 0), lk, block=2)
        elif first == 'empty file':
            open(scratch + '/.run_generate_posterior_cache.pickle', 'w').close()
        lk.limit = None
        df = build()
        out = cv.generate_posterior_samples_from_marginalized_likelihood(df, lk, npool=npool, block=c.choice('block', [1, 2, 4, 6]),
                                                                         use_cache=c.choice('cache', [True, False]))
        c.ensure('same-table', out is df and list(df.columns) == keys + [k for k in new if k not in keys] and list(df.index) == index)
        used = []
        for i, r in enumerate(rows):
            got = df.iloc[i]
            c.ensure_eq('row-kept', [got[k] for k in keys if k not in new], [r[k] for k in keys if k not in new])
            fits = [u for u in lk.draws if all(abs(lk.G[k](r['a'], r['b'], u) - got[k]) < 1e-9 for k in new)]
            c.ensure('value-of-its-own-sample', len(fits) >= 1)
            used += fits[:1]
        c.ensure('independent-draws', len(set(used)) == len(rows))
    finally:
        shutil.rmtree(scratch)


@contract("P17", "reconstructed parameters[kinds]", samples=20)
def _(c):
    lk = Like(c, ['a'], c.choice('new', [[], ['c']]))
    d = dict(a=c.real('a'))
    c.ensure('dictionaries-pass', cv.generate_posterior_samples_from_marginalized_likelihood(d, lk) is d and set(d) == {'a'})
    if lk._marginalized_parameters:
        c.ensure('others-refused', c.raises(ValueError, cv.generate_posterior_samples_from_marginalized_likelihood, [1, 2], lk))


@contract("P17", "waveform settings of a sample", bound="one sample", samples=60)
def _(c):
    """from the likelihood's waveform generator if there is one, else the sample's own, else the documented defaults"""
    from contracts.p07 import cosmo
    cosmo(c)
    which = c.choice('which', ['bbh', 'bns'])
    p = dict(mass_1=c.pos('m1'), mass_2=c.pos('m2'), chi_1=c.real('chi_1', -1, 1), chi_2=c.real('chi_2', -1, 1))
    if which == 'bns':
        p['lambda_1'], p['lambda_2'] = c.real('l1', 0, None, scale=300), c.real('l2', 0, None, scale=300)
    c.callee(cv, 'generate_component_spins', lambda s: dict(
        s, spin_1x=0, spin_1y=0, spin_2x=0, spin_2y=0, spin_1z=s['chi_1'], spin_2z=s['chi_2']))
    defaults = dict(reference_frequency=50.0, minimum_frequency=20.0,
                    waveform_approximant='IMRPhenomPv2' if which == 'bbh' else 'TaylorF2')
    want = dict(defaults)
    own = c.choice('own', [(), ('reference_frequency',), tuple(defaults)])
    for k in own:
        p[k] = want[k] = 'IMRPhenomD' if 'approximant' in k else c.real(k, 1)
    lk = None
    if c.choice('likelihood', [False, True]):
        lk = Like(c, ['mass_1'])
        args = {k: 'IMRPhenomXP' if 'approximant' in k else c.real('w' + k, 1) for k in
                c.choice('of the waveform', [(), ('reference_frequency',), tuple(defaults)])}
        lk.waveform_generator = types.SimpleNamespace(waveform_arguments=args, frequency_domain_strain=lambda p: dict(p))
        want.update(args)
    before = dict(p)
    out = (cv.generate_all_bbh_parameters if which == 'bbh' else cv.generate_all_bns_parameters)(p, likelihood=lk)
    c.ensure('input-unchanged', dict(p) == before)
    for k in defaults:
        c.ensure_eq(k, out[k], want[k]) if 'approximant' not in k else c.ensure(k, out[k] == want[k])


def by_row(c):
    zl, dc = c.func('z_of_luminosity_distance', 1, positive=True), c.func('comoving_distance', 1, positive=True)

    def rows(f):
        return lambda x, cosmology=None: x.map(f) if isinstance(x, pd.Series) else f(x)
    c.callee(cv, 'luminosity_distance_to_redshift', rows(zl))
    c.callee(cv, 'redshift_to_comoving_distance', rows(dc))
    for k in ('lambda_1_lambda_2_to_lambda_tilde', 'lambda_1_lambda_2_to_delta_lambda_tilde'):
        F = c.func(k, 4)
        c.callee(cv, k, lambda a, b, m, n, F=F: pd.Series([F(*v) for v in zip(a, b, m, n)], index=a.index) if isinstance(
            a, pd.Series) else F(a, b, m, n))


@contract("P17", "generate_all_parameters with a likelihood", bound="two samples", samples=60)
def _(c):
    """quantities of the likelihood and derived quantities follow the reconstructed parameters of the same sample"""
    by_row(c)
    brandom.seed(5)
    npool = pools(c)
    which = c.choice('which', ['bbh', 'bns', 'identity'])
    keys = ['luminosity_distance', 'mass_1', 'mass_2', 'ra', 'dec', 'psi']
    rows = [{k: c.pos('%s%d' % (k, i)) for k in keys if k != 'luminosity_distance'} for i in range(2)]
    for i, r in enumerate(rows):
        r['luminosity_distance'] = 400.
        if which == 'bns':
            r['lambda_1'], r['lambda_2'] = c.real('l1%d' % i, 0, None, scale=300), c.real('l2%d' % i, 0, None, scale=300)
    new = c.choice('marginalised', [[], ['luminosity_distance']])
    lk = Like(c, keys, new)
    fixed = c.choice('fixed', [None, 'psi'])
    pri = None
    psi = None
    if fixed:
        psi = c.real('fixed psi')
        pri = bp.PriorDict(dict(psi=bp.DeltaFunction(psi), ra=bp.Uniform(0, 1)))
        for r in rows:
            r.pop('psi')
    lk.priors = bp.PriorDict(dict(luminosity_distance=bp.Uniform(1, 2)))
    lk.distance_marginalization = bool(new)
    df = pd.DataFrame(frame(c, {k: [r[k] for r in rows] for k in rows[0]}, index=c.choice('index', [[0, 1], [4, 4]])))
    before = df.copy()
    f = dict(bbh=cv.generate_all_bbh_parameters, bns=cv.generate_all_bns_parameters, identity=cv.identity_map_generation)[which]
    out = f(df, likelihood=lk, priors=pri, npool=npool)
    c.ensure('input-unchanged', list(df.columns) == list(before.columns))
    for i, r in enumerate(rows):
        c.ensure_eq('input-values', [df.iloc[i][k] for k in r], [before.iloc[i][k] for k in r])
        full = dict(r)
        if fixed:
            full['psi'] = psi
        for n in ('H1', 'L1'):
            c.ensure_eq(n + '-log-likelihood', out[n + '_log_likelihood'].iloc[i], lk.F[n, 'lnl'](*[full[k] for k in keys]))
        if new:
            full['luminosity_distance'] = lk.G[new[0]](*([full[k] for k in keys] + [lk.draws[i]]))
        got = {k: out[k].iloc[i] for k in out}
        c.ensure_eq('parameters', [got[k] for k in keys], [full[k] for k in keys])
        snr_ok(c, lk, got, full)
        if which != 'identity':
            z = cv.luminosity_distance_to_redshift(full['luminosity_distance'])
            c.ensure_eq('redshift', got['redshift'], z)
            c.ensure_eq('mass_1_source', got['mass_1_source'] * (1 + z), full['mass_1'])
            c.ensure_eq('total_mass', got['total_mass'], full['mass_1'] + full['mass_2'])
        if which == 'bns':
            c.ensure_eq('lambda_tilde', got['lambda_tilde'], cv.lambda_1_lambda_2_to_lambda_tilde(
                full['lambda_1'], full['lambda_2'], full['mass_1'], full['mass_2']))
    if new and pri is not None and which != 'identity':
        c.ensure('prior-of-the-marginalised', pri['luminosity_distance'] is lk.priors['luminosity_distance'])
