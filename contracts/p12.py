"""P12: how a detector sees a signal: antenna pattern, delays, calibration, geometry, networks and sky frames."""
import os
import numpy as np
from fractions import Fraction
from pydv.contract import contract
import bilby
import bilby.gw.utils as gu
import bilby.gw.detector.interferometer as gi
import bilby.gw.detector.geometry as gg
import bilby.gw.detector.calibration as gc
import bilby.gw.detector.networks as gn
import bilby.gw.likelihood.base as lb
import bilby.gw.conversion as gconv
from bilby.gw.detector import Interferometer, InterferometerList, TriangularInterferometer
from contracts.p09 import Strain
from contracts.p10 import obj, INF


def blank(name='H1', lat=46., model=None):
    x = Interferometer(name, None, 1, 1, 4, lat, -119., 142., 126., 216.)
    if model:
        x.calibration_model = model
    return x


# ------------------------------------------------------------------------------------------------ response
class Calibration(object):
    """a calibration model whose factor is (1 + a f) exp(i b f) with parameters recalib_<name>_a, _b"""

    def __init__(self, name):
        self.name = name

    def get_calibration_factor(self, frequency_array, **p):
        return (1 + p['recalib_%s_a' % self.name] * frequency_array) * np.exp(1j * p['recalib_%s_b' % self.name] * frequency_array)


MODES = ['plus', 'cross', 'breathing', 'longitudinal', 'x', 'y', 'H1', 'L1']


def sky(c, ifo):
    """uninterpreted geometry of the dependency bilby_cython -> (pattern(mode), delay) of the parameters"""
    pol, delay = c.func('polarization', 5), c.func('delay', 3)

    def tensor(ra, dec, time, psi, mode):
        return (ra, dec, time, psi, MODES.index(mode))

    def contract_(D, p):
        assert D is ifo.geometry.detector_tensor
        return pol(*p)
    c.setattr(gi, 'get_polarization_tensor', tensor)
    c.setattr(gi, 'three_by_three_matrix_contraction', contract_)

    def dt(vertex, ra, dec, time):
        assert vertex is ifo.geometry.vertex
        return delay(ra, dec, time)
    c.setattr(gi, 'time_delay_from_geocenter', dt)
    return pol, delay


def parameters(c):
    p = {k: c.real(k) for k in ('ra', 'dec', 'psi', 'geocent_time')}
    p['recalib_H1_a'], p['recalib_H1_b'] = c.real('ca'), c.real('cb')
    p['mass_1'] = 30.
    return p


@contract("P12", "antenna_response")
def _(c):
    ifo = blank()
    pol, delay = sky(c, ifo)
    p = parameters(c)
    m = c.choice('mode', MODES)
    got = ifo.antenna_response(p['ra'], p['dec'], p['geocent_time'], p['psi'], m)
    if m == 'H1':
        c.ensure_eq('own-strain-mode', got, 1)
    elif m == 'L1':
        c.ensure_eq('unknown-mode', got, 0)
    else:
        c.ensure_eq('pattern', got, pol(p['ra'], p['dec'], p['geocent_time'], p['psi'], MODES.index(m)))


for calib_ in ['none', 'model']:
    @contract("P12", "get_detector_response[calibration: %s]" % calib_)
    def _(c, calib=calib_):
        ifo = blank(model=Calibration('H1') if calib == 'model' else None)
        t0, T = c.real('t0'), c.pos('T')
        ifo.strain_data = s = Strain(c, 'H1', T, t0)
        pol, delay = sky(c, ifo)
        p = parameters(c)
        modes = c.choice('modes', [['plus', 'cross'], ['plus'], ['plus', 'cross', 'x', 'y', 'breathing', 'longitudinal'], ['H1', 'L1']])
        given = c.choice('frequencies', [False, True])
        f = c.array('given-freq', 0) if given else s.frequency_array
        n = None
        h = {m: c.carray('h' + m) for m in modes}
        before = {m: h[m] * 1 for m in modes}
        args = dict(p)
        got = ifo.get_detector_response(h, args, frequencies=f) if given else ifo.get_detector_response(h, args)
        F = {m: 1 if m == 'H1' else 0 if m == 'L1' else pol(p['ra'], p['dec'], p['geocent_time'], p['psi'], MODES.index(m)) for m in modes}
        dt = p['geocent_time'] - t0 + delay(p['ra'], p['dec'], p['geocent_time'])
        cal = (1 + p['recalib_H1_a'] * f) * np.exp(1j * p['recalib_H1_b'] * f) if calib == 'model' else 1
        want = sum(h[m] * F[m] for m in modes) * np.exp(-2j * np.pi * f * dt) * cal
        if not given:
            want = want * s.frequency_mask
        same(c, 'pattern-delay-calibration', got, want)
        for m in modes:
            same(c, 'input-unchanged', h[m], before[m])
        c.ensure('parameters-unchanged', args == p)


def same(c, label, a, b):
    if c.sym and hasattr(a, 'elem'):
        c.ensure_eq(label, a.elem, b.elem)
    else:
        c.ensure_eq(label, a, b)


@contract("P12", "dependency: antenna pattern and delay", concrete_only=True, bound="random sky positions of real detectors", samples=100)
def _(c):
    """bilby_cython is an assumed callee; here compared with the textbook formulae"""
    from bilby_cython.time import greenwich_mean_sidereal_time
    net = c.__dict__.setdefault('net', InterferometerList(['H1', 'V1', 'K1']))
    ifo = net[c.choice('ifo', [0, 1, 2])]
    ra, dec, psi = c.real('ra', 0, 6.28), c.real('dec', -1.57, 1.57), c.real('psi', 0, 3.14)
    t = 1126259460. + c.real('t', 0, 1e6)
    phi, th = (ra - greenwich_mean_sidereal_time(t)), np.pi / 2 - dec
    u = np.array([np.cos(phi) * np.cos(th), np.cos(th) * np.sin(phi), -np.sin(th)])
    v = np.array([-np.sin(phi), np.cos(phi), 0])
    w = np.array([np.sin(th) * np.cos(phi), np.sin(th) * np.sin(phi), np.cos(th)])       # towards the source
    m = -u * np.sin(psi) - v * np.cos(psi)
    n = -u * np.cos(psi) + v * np.sin(psi)
    D = (np.outer(ifo.x, ifo.x) - np.outer(ifo.y, ifo.y)) / 2
    want = dict(plus=np.outer(m, m) - np.outer(n, n), cross=np.outer(m, n) + np.outer(n, m), breathing=np.outer(m, m) + np.outer(n, n))
    for k in want:
        c.ensure_eq(k, ifo.antenna_response(ra, dec, t, psi, k), np.sum(D * want[k]), atol=1e-6)
    c.ensure_eq('delay', ifo.time_delay_from_geocenter(ra, dec, t), -np.dot(ifo.vertex, w) / 299792458., atol=1e-9)
    c.ensure_eq('orthonormal', [np.dot(ifo.x, ifo.x), np.dot(ifo.y, ifo.y)], [1, 1])


class Polarizations(object):
    def __init__(self):
        self.asked = []

    def frequency_domain_strain(self, parameters):
        self.asked.append(dict(parameters))
        return dict(plus='polarizations %d' % len(self.asked))


@contract("P12", "inject_signal", bound="three detectors")
def _(c):
    net = InterferometerList([blank('A'), blank('B'), blank('C')])
    seen, checked = [], []
    c.setattr(Interferometer, 'inject_signal_from_waveform_polarizations',
              lambda self, parameters, injection_polarizations: seen.append((self.name, parameters, injection_polarizations)))
    c.setattr(Interferometer, 'check_signal_duration', lambda self, parameters, raise_error=True: checked.append((self.name, raise_error)))
    par = dict(mass_1=c.real('m'), geocent_time=0)
    wg = Polarizations()
    how = c.choice('how', ['generator', 'polarizations', 'neither'])
    err = c.choice('raise', [True, False])
    kw = dict(generator=dict(waveform_generator=wg), polarizations=dict(injection_polarizations=dict(plus='polarizations 1')), neither={})[how]
    if how == 'neither':
        c.ensure('refused', c.raises(ValueError, net.inject_signal, par))
        c.ensure('refused-by-detector', c.raises(ValueError, net[0].inject_signal, par))
        return
    got = net.inject_signal(par, raise_error=err, **kw)
    one = dict(plus='polarizations 1')
    c.ensure('same-signal-everywhere', [(a, d) for a, b, d in seen] == [(n, one) for n in 'ABC'])
    c.ensure('parameters', all(b == par for a, b, d in seen))
    c.ensure('generated-once', len(wg.asked) == (how == 'generator'))
    c.ensure('returned', got == [one] * 3)
    c.ensure('duration-checked', checked == [(n, err) for n in 'ABC'])
    net[1].inject_signal(par, raise_error=err, **kw)
    c.ensure('single-detector', seen[-1][0] == 'B' and seen[-1][1] == par and 'plus' in seen[-1][2])


@contract("P12", "check_signal_duration")
def _(c):
    ifo = blank()
    t = c.pos('t')
    seen = []
    c.setattr(gu, 'calculate_time_to_merger', lambda frequency, mass_1, mass_2: seen.append((frequency, mass_1, mass_2)) or t)
    ifo.strain_data.minimum_frequency = 17
    T = c.pos('T')
    ifo.strain_data._times_and_frequencies._duration = T
    c.assume(c.either(t < T - 0.06, t > T + 0.06))
    par = dict(mass_1=36., mass_2=29.)
    long = c.raises(ValueError, ifo.check_signal_duration, par, True)
    c.ensure('refused-iff-longer-than-the-data', long == bool(t > T))
    c.ensure('from-the-lowest-frequency', seen[0] == (17, 36., 29.))
    ifo.check_signal_duration(par, False)
    c.ensure('without-masses', c.raises(AttributeError, ifo.check_signal_duration, dict(ra=1.), True))


# ------------------------------------------------------------------------------------------------ geometry
NAMES = ['latitude', 'longitude', 'elevation', 'xarm_azimuth', 'yarm_azimuth', 'xarm_tilt', 'yarm_tilt']


def vertex(lat, lon, h):
    """WGS 84"""
    a, b = 6378137, 6356752.314
    N = a ** 2 / (a ** 2 * np.cos(lat) ** 2 + b ** 2 * np.sin(lat) ** 2) ** 0.5
    return [(N + h) * np.cos(lat) * np.cos(lon), (N + h) * np.cos(lat) * np.sin(lon), ((b / a) ** 2 * N + h) * np.sin(lat)]


@contract("P12", "vertex")
def _(c):
    lat, lon, h = c.real('lat'), c.real('lon'), c.real('h')
    c.ensure_eq('wgs84', gu.get_vertex_position_geocentric(lat, lon, h), vertex(lat, lon, h))


def arms(c):
    arm = [c.func('arm%d' % i, 4) for i in range(3)]
    c.setattr(gg, 'calculate_arm', lambda arm_tilt, arm_azimuth, longitude, latitude:
              obj(c, [f(arm_tilt, arm_azimuth, longitude, latitude) for f in arm]))
    c.setattr(gg, 'detector_tensor', lambda x, y: obj(c, [(x[i] * x[j] - y[i] * y[j]) / 2 for i in range(3) for j in range(3)]))
    return arm


def state(c, arm, v, vertex=vertex):
    k = np.pi / 180
    x = [f(v['xarm_tilt'], v['xarm_azimuth'] * k, v['longitude'] * k, v['latitude'] * k) for f in arm]
    y = [f(v['yarm_tilt'], v['yarm_azimuth'] * k, v['longitude'] * k, v['latitude'] * k) for f in arm]
    return dict(x=x, y=y, vertex=vertex(v['latitude'] * k, v['longitude'] * k, v['elevation']),
                detector_tensor=[(x[i] * x[j] - y[i] * y[j]) / 2 for i in range(3) for j in range(3)])


READ = [[], ['x'], ['y'], ['vertex'], ['detector_tensor']]
ORDER = [['x', 'y', 'vertex', 'detector_tensor'], ['detector_tensor', 'vertex', 'y', 'x']]


def surface(c):
    v = [c.func('vertex%d' % i, 3) for i in range(3)]
    c.setattr(gu, 'get_vertex_position_geocentric', lambda a, b, h: obj(c, [f(a, b, h) for f in v]))
    return lambda a, b, h: [f(a, b, h) for f in v]


def follows(c, g, v, arm, ver):
    w = state(c, arm, v, ver)
    for r in c.choice('order', ORDER):
        c.ensure_eq(r, list(getattr(g, r)), w[r])
    c.ensure_eq('attributes', [getattr(g, k) for k in NAMES], [v[k] for k in NAMES])


for last_ in NAMES:
    @contract("P12", "geometry follows changes[%s]" % last_, bound="two changes with reads in between", samples=60)
    def _(c, last=last_):
        arm, ver = arms(c), surface(c)
        v = {k: c.real(k) for k in NAMES}
        g = gg.InterferometerGeometry(4, **v)
        for i, k in enumerate([c.choice('first', ['latitude', 'elevation', 'xarm_azimuth', 'yarm_tilt']), last]):
            for r in c.choice('read%d' % i, READ):
                getattr(g, r)
            v[k] = c.real('%s-%d' % (k, i))
            setattr(g, k, v[k])
        follows(c, g, v, arm, ver)


@contract("P12", "Interferometer geometry access", bound="one change", samples=60)
def _(c):
    arm, ver = arms(c), surface(c)
    v = {k: c.real(k) for k in NAMES}
    g = Interferometer('H1', None, 1, 1, 4, **v)
    for r in c.choice('read', READ):
        getattr(g, r)
    k = c.choice('set', NAMES)
    v[k] = c.real(k + '-1')
    setattr(g, k, v[k])
    follows(c, g, v, arm, ver)
    follows(c, g.geometry, v, arm, ver)


@contract("P12", "arms")
def _(c):
    arm = arms(c)
    v = {k: c.real(k) for k in NAMES}
    g = gg.InterferometerGeometry(4, **v)
    w = state(c, arm, v)
    c.ensure_eq('x', list(g.unit_vector_along_arm('x')), w['x'])
    c.ensure_eq('y', list(g.unit_vector_along_arm('y')), w['y'])
    c.ensure('neither', c.raises(ValueError, g.unit_vector_along_arm, 'z'))
    h = gg.InterferometerGeometry(4, **v)
    c.ensure('equal', g == h)
    k = c.choice('other', NAMES)
    u = c.real('u')
    c.assume(c.either(u > v[k] + 1e-3, u < v[k] - 1e-3))
    setattr(h, k, u)
    c.ensure('different', not (g == h))


# ------------------------------------------------------------------------------------------------ calibration
def solve(A, b):
    """contract of numpy.linalg.solve on rational matrices: the exact solution"""
    n = len(A)
    M = [[Fraction(float(x)).limit_denominator(1000) for x in A[i]] + [Fraction(float(x)).limit_denominator(1000) for x in b[i]] for i in range(n)]
    for i in range(n):
        p = next(r for r in range(i, n) if M[r][i] != 0)
        M[i], M[p] = M[p], M[i]
        M[i] = [x / M[i][i] for x in M[i]]
        for r in range(n):
            if r != i and M[r][i] != 0:
                M[r] = [x - M[r][i] * y for x, y in zip(M[r], M[i])]
    return [r[n:] for r in M]


def exact(c):
    def f(A, b):
        from pydv.sym import SymReal, as_nd
        import pydv.terms as tm
        return as_nd([[SymReal(tm.const(x)) for x in r] for r in solve(A, b)])
    c.callee(np.linalg, 'solve', f)


def notaknot(n, y):
    """second derivatives at equally spaced nodes of the not-a-knot cubic spline: solved from its defining equations"""
    A = [[0] * n for _ in range(n)]
    B = [[0] * n for _ in range(n)]
    A[0][:3] = [1, -2, 1]
    A[-1][-3:] = [1, -2, 1]
    for i in range(1, n - 1):
        A[i][i - 1:i + 2] = [1, 4, 1]
        B[i][i - 1:i + 2] = [6, -12, 6]
    M = solve(A, B)
    return [sum(float(a) * x for a, x in zip(r, y)) for r in M]


def spline(n, y, k, u):
    """the not-a-knot cubic spline through y at 0 ... n - 1, at k + u"""
    M = notaknot(n, y)
    k0 = min(max(k, 0), n - 2)
    b = k - k0 + u
    a = 1 - b
    return a * y[k0] + b * y[k0 + 1] + ((a ** 3 - a) * M[k0] + (b ** 3 - b) * M[k0 + 1]) / 6


def factor(n, A, p, k, u):
    dA, dp = spline(n, A, k, u), spline(n, p, k, u)
    return (1 + dA) * (2 + 1j * dp) / (2 - 1j * dp)


def nodes(c, n, tag=''):
    return [c.real('A%d%s' % (i, tag), -0.5, 0.5) for i in range(n)], [c.real('p%d%s' % (i, tag), -0.5, 0.5) for i in range(n)]


def given(A, p, name='H1'):
    r = {'recalib_%s_amplitude_%d' % (name, i): v for i, v in enumerate(A)}
    r.update({'recalib_%s_phase_%d' % (name, i): v for i, v in enumerate(p)})
    return r


for what_ in ['amplitude', 'phase', 'nodes']:
    @contract("P12", "CubicSpline[%s]" % what_, bound="4 and 5 nodes")
    def _(c, what=what_):
        """(1 + amplitude) (2 + i phase) / (2 - i phase), each a not-a-knot cubic spline in log frequency"""
        exact(c)
        n = c.choice('n', [4] if what == 'phase' else [4, 5])
        lo = c.real('lo', 1, 100)
        hi = lo * c.real('ratio', 2, 100)
        k = c.choice('segment', list(range(n)) if what == 'nodes' else list(range(-1, n)))
        u = 0 if what == 'nodes' else c.real('u', 0, 0.999)
        f = lo * (hi / lo) ** ((k + u) / (n - 1))
        m = gc.CubicSpline('recalib_H1_', lo, hi, n)
        for tag in ['', '-new']:
            A, p = nodes(c, n, tag)
            if what == 'amplitude':
                p = [x * 0 for x in p]
            elif what == 'phase':
                A = [x * 0 for x in A]
            g = m.get_calibration_factor(obj(c, [f]), prefix='recalib_H1_', recalib_L1_amplitude_0=9., **given(A, p))[0]
            if what == 'amplitude':
                c.ensure_eq('one-plus-spline' + tag, g, 1 + spline(n, A, k, u))
            elif what == 'phase':
                d = spline(n, p, k, u)
                c.ensure_eq('unit-modulus-rotation' + tag, g * (2 - 1j * d), 2 + 1j * d)
            else:
                c.ensure_eq('node-values' + tag, g * (2 - 1j * p[k]), (1 + A[k]) * (2 + 1j * p[k]))
        c.ensure('too-few-nodes', c.raises(ValueError, gc.CubicSpline, 'x', 1, 2, 3))


@contract("P12", "CubicSpline[continuity]", bound="4 to 10 nodes", samples=40)
def _(c):
    """the spline has the node values at the nodes; first and second derivative are continuous"""
    exact(c)
    n = c.choice('n', list(range(4, 11)))
    m = gc.CubicSpline('x', 1., 10., n)
    k = c.choice('node', list(range(1, n - 1)))
    C = m.nodes_to_spline_coefficients
    y = [c.real('y%d' % i) for i in range(n)]
    M = list(C.dot(obj(c, y)))
    # derivative from the left and the right of node k, in units of the node distance
    left = y[k] - y[k - 1] + (2 * M[k] + M[k - 1]) / 6
    right = y[k + 1] - y[k] - (2 * M[k] + M[k + 1]) / 6
    c.ensure_eq('smooth', left, right)
    c.ensure_eq('not-a-knot-left', M[1] - M[0], M[2] - M[1])
    c.ensure_eq('not-a-knot-right', M[-1] - M[-2], M[-2] - M[-3])


@contract("P12", "Recalibrate")
def _(c):
    f = c.array('f', 0)
    m = gc.Recalibrate('recalib_H1_')
    same(c, 'unity', m.get_calibration_factor(f, recalib_H1_amplitude_0=c.real('x')), f * 0 + 1)


@contract("P12", "Precomputed", bound="three curves at three frequencies")
def _(c):
    f = obj(c, [c.pos('f0'), 2., 3.])
    curves = np.array([[c.complexes('c%d%d' % (i, j)) for j in range(3)] for i in range(3)], dtype=object if c.sym else complex)
    m = gc.Precomputed('H1', curves, f)
    i = c.choice('index', [0, 1, 2])
    name = 'recalib_index_H1'
    c.ensure_eq('drawn-curve', list(m.get_calibration_factor(f, **{name: float(i), 'recalib_index_L1': 0})), list(curves[i]))
    c.ensure('other-frequencies', c.raises(ValueError, m.get_calibration_factor, obj(c, [f[0], 2.5, 3.]), **{name: i}))
    c.ensure('no-index', c.raises((KeyError, TypeError), m.get_calibration_factor, f, recalib_index_L1=1))


class Ifo(object):
    """what the calibration look-up needs of a detector"""

    def __init__(self, name, f, lo, model):
        self.name, self.frequency_array, self.calibration_model = name, f, model
        self.frequency_mask = f >= lo


@contract("P12", "calibration draws", bound="5 nodes, three draws, four analysed frequencies", samples=20)
def _(c):
    """each response curve is the factor of the detector's own calibration model for the parameters kept with it"""
    import pandas as pd
    exact(c)
    f = np.array([0., 10., 20., 40., 80.])
    lo, hi = c.choice('range', [(10., 80.), (5., 160.), (10., 40.)])
    ifo = Ifo('H1', f, 10, gc.CubicSpline('recalib_H1_', lo, hi, 5))
    draws = [nodes(c, 5, '-%d' % i) for i in range(3)]

    class Priors(dict):
        def sample(self, n):
            rows = [given(*draws[i]) for i in range(n)]
            return {k: np.array([r[k] for r in rows], dtype=object if c.sym else float) for k in self}
    c.setattr(gc, 'PriorDict', Priors)
    pri = {k: k for k in given(*draws[0])}
    pri['recalib_L1_amplitude_0'] = pri['mass_1'] = 'other'
    got, par = gc._generate_calibration_draws(ifo, pri, 3)
    c.ensure('only-this-detector', sorted(par.columns) == sorted(given(*draws[0])))
    for i in range(3):
        w = gc.CubicSpline('recalib_H1_', lo, hi, 5).get_calibration_factor(f[1:], **given(*draws[i]))
        c.ensure_eq('curves', list(got[i]), list(w))
        c.ensure_eq('parameters', [par.iloc[i][k] for k in par.columns], [given(*draws[i])[k] for k in par.columns])


@contract("P12", "calibration files", concrete_only=True, bound="6 draws of 8 frequencies, written to a scratch folder", samples=15)
def _(c):
    """draws and parameters read back from a file belong together for every starting index and number of curves"""
    import pandas as pd
    import tempfile
    n, f = 6, np.linspace(10, 80, 8)
    rng = np.random.RandomState(c.choice('seed', list(range(50))))
    rows = [(rng.normal(0, .1, 5), rng.normal(0, .1, 5)) for _ in range(n)]
    model = gc.CubicSpline('recalib_H1_', f[0], f[-1], 5)
    par = pd.DataFrame([given(*r) for r in rows])
    curves = np.array([model.get_calibration_factor(f, **given(*r)) for r in rows])
    start, k = c.choice('start', [0, 1, 3]), c.choice('count', [1, 2, 3])
    kept = c.choice('parameters', [True, False])
    with tempfile.TemporaryDirectory() as d:
        file = os.path.join(d, 'c.h5')
        gc.write_calibration_file(file, f, curves, par if kept else None)
        got, p = gc.read_calibration_file(file, f, k, start)
        wide, _ = gc.read_calibration_file(file, np.array([5., f[2], 100.]), k, start)
        pre = gc.Precomputed.from_calibration_file('H1', file, f, k, start)
        ifo = Ifo('H1', np.append(0., f), 10, model)
        look, lp = gc.build_calibration_lookup([ifo], lookup_files=dict(H1=file), number_of_response_curves=k, starting_index=start)
        ifo2 = Ifo('H1', np.append(0., f), 10, pre)
        m = min(2, k)
        look2, lp2 = gc.build_calibration_lookup([ifo2], lookup_files=dict(H1=file + 'none'), number_of_response_curves=m, starting_index=k - m)
    want = curves[start:start + k]
    c.ensure_eq('curves', got, want)
    c.ensure_eq('outside-the-file', wide[:, [0, 2]], np.ones((k, 2)))
    c.ensure_eq('inside-the-file', wide[:, 1], want[:, 2])
    c.ensure_eq('precomputed', pre.curves, want)
    c.ensure_eq('lookup', look['H1'], want)
    c.ensure_eq('lookup-precomputed', look2['H1'], want[k - m:])
    c.ensure('model-is-reset', type(ifo.calibration_model) is gc.Recalibrate and type(ifo2.calibration_model) is gc.Recalibrate)
    if kept:
        for label, q, w in [('parameters', p, par[start:start + k]), ('precomputed-parameters', pre.parameters, par[start:start + k]),
                            ('lookup-parameters', lp['H1'], par[start:start + k]),
                            ('lookup-precomputed-parameters', lp2['H1'], par[start + k - m:start + k])]:
            c.ensure_eq(label, np.array(q[list(par.columns)]), np.array(w))
    else:
        c.ensure('no-parameters', p is None)


# ------------------------------------------------------------------------------------------------ networks
@contract("P12", "InterferometerList consistency", bound="two or three detectors")
def _(c):
    """detectors with different data segments never get into one network"""
    att = c.choice('attribute', ['start_time', 'duration', 'sampling_frequency'])
    base = c.choice('scale', [0., 1126259460.])
    a = base + c.real('a', 1, 10)
    d = c.real('d', -5, 5)
    b = a + d
    c.assume(c.either(abs(d) < 0.9e-5, abs(d) > 2e-5))
    ifos = [blank('A'), blank('B'), blank('C')]
    for x, v in zip(ifos, [a, b, a]):
        x.strain_data._times_and_frequencies = t = Times()
        for k in ['start_time', 'duration', 'sampling_frequency']:
            setattr(t, k, 4.)
        setattr(t, att, v)
    how = c.choice('how', ['list', 'append', 'extend', 'insert', 'append list'])
    net = None

    def build():
        if how == 'list':
            return InterferometerList(ifos)
        net = InterferometerList(ifos[:1])
        if how == 'append':
            net.append(ifos[1])
        elif how == 'extend':
            net.extend(ifos[1:])
        elif how == 'insert':
            net.insert(0, ifos[1])
        else:
            net.append(InterferometerList(ifos[1:2]))
        return net
    refused = c.raises(ValueError, build)
    c.ensure('refused-iff-different', refused == bool(abs(d) > 1e-5))
    if not refused:
        net = build()
        c.ensure_eq('attributes', [net.duration, net.start_time, net.sampling_frequency],
                    [getattr(net[0].strain_data, k) for k in ('duration', 'start_time', 'sampling_frequency')])
        names = [i.name for i in net]
        c.ensure('members', names == dict(list=['A', 'B', 'C'], append=['A', 'B'], extend=['A', 'B', 'C'], insert=['B', 'A']).get(how, ['A', 'B']))
        c.ensure('number', net.number_of_interferometers == len(names) and list(net.meta_data) == names)


class Times(object):
    pass


@contract("P12", "InterferometerList members")
def _(c):
    c.ensure('string', c.raises(TypeError, InterferometerList, 'H1'))
    c.ensure('other', c.raises(TypeError, InterferometerList, [3]))
    c.ensure('unknown', c.raises(ValueError, InterferometerList, ['Q9']))
    net = InterferometerList(['H1', blank('X')])
    c.ensure('by-name', [i.name for i in net] == ['H1', 'X'] and net[0].length == 4.0)


@contract("P12", "TriangularInterferometer", bound="three detectors")
def _(c):
    v = dict(length=10., latitude=c.real('lat', -60, 60), longitude=c.real('lon', -170, 170), elevation=c.real('h'),
             xarm_azimuth=c.real('ax'), yarm_azimuth=c.real('ay'), xarm_tilt=c.real('tx'), yarm_tilt=c.real('ty'))
    from bilby.gw.detector import PowerSpectralDensity
    lists = c.choice('lists', [False, True])
    psd = PowerSpectralDensity(frequency_array=np.array([1., 2.]), psd_array=np.array([1., 1.]))
    lo, hi = ([5, 6, 7], [50, 60, 70]) if lists else (5, 50)
    t = TriangularInterferometer('ET', [psd] * 3 if lists else psd, lo, hi, **v)
    c.ensure('names', t.name == 'ET' and [i.name for i in t] == ['ET1', 'ET2', 'ET3'])
    c.ensure('limits', [(i.minimum_frequency, i.maximum_frequency) for i in t] == (list(zip(lo, hi)) if lists else [(5, 50)] * 3))
    c.ensure_eq('arms-turn-by-240-degrees', [(i.xarm_azimuth, i.yarm_azimuth) for i in t],
                [(v['xarm_azimuth'] + 240 * k, v['yarm_azimuth'] + 240 * k) for k in range(3)])
    c.ensure('density', all(i.power_spectral_density is psd for i in t))
    c.ensure_eq('first-vertex', [t[0].latitude, t[0].longitude], [v['latitude'], v['longitude']])
    c.ensure_eq('common', [x for i in t for x in (i.elevation, i.length, i.xarm_tilt, i.yarm_tilt)],
                [v['elevation'], 10., v['xarm_tilt'], v['yarm_tilt']] * 3)


@contract("P12", "saved detectors", concrete_only=True, bound="one detector and one network in a scratch folder", samples=2)
def _(c):
    import tempfile
    ifo = blank('H1')
    ifo.set_strain_data_from_frequency_domain_strain(np.arange(3.) + 1j, sampling_frequency=4, duration=1)
    ifo.power_spectral_density = bilby.gw.detector.PowerSpectralDensity(frequency_array=np.array([0., 2.]), psd_array=np.array([1., 3.]))
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            out = os.path.join(d, 'new')
            ifo.to_pickle(outdir=out, label='x')
            c.ensure('only-the-given-folder', os.listdir(d) == ['new'] and os.listdir(out) == ['x.pkl'])
            c.ensure('same', Interferometer.from_pickle(os.path.join(out, 'x.pkl')) == ifo)
            net = InterferometerList([ifo])
            net.to_pickle(outdir=out, label='n')
            c.ensure('same-list', InterferometerList.from_pickle(os.path.join(out, 'n_H1.pkl'))[0] == ifo)
            c.ensure('other-class', c.raises(TypeError, InterferometerList.from_pickle, os.path.join(out, 'x.pkl')))
        finally:
            os.chdir(cwd)


# ------------------------------------------------------------------------------------------------ sky frames
class Frame(object):
    """GravitationalWaveTransient without its data: sky frame and time reference"""


def frames(c, ref, time_ref):
    from bilby.gw.likelihood import GravitationalWaveTransient as G
    x = G.__new__(G)
    x.parameters = {}
    x._reference_frame = ref if ref == 'sky' else [blank('H1'), blank('L1', 30.)]
    x.time_reference = time_ref
    delay, conv = c.func('delay', 3), [c.func('ra', 3), c.func('dec', 3)]
    if time_ref != 'geocent':
        x.reference_ifo = blank(time_ref)

        def dt(vertex, ra, dec, time):
            assert vertex is x.reference_ifo.geometry.vertex
            return delay(ra, dec, time)
        c.setattr(gi, 'time_delay_from_geocenter', dt)

    def za(zenith, azimuth, geocent_time, ifos):
        assert ifos is x._reference_frame and geocent_time is not None
        return conv[0](zenith, azimuth, geocent_time), conv[1](zenith, azimuth, geocent_time)
    c.setattr(lb, 'zenith_azimuth_to_ra_dec', za)
    return x, delay, conv


@contract("P12", "get_sky_frame_parameters")
def _(c):
    ref, tr = c.choice('frame', ['sky', 'H1L1']), c.choice('time', ['geocent', 'H1'])
    x, delay, conv = frames(c, ref, tr)
    p = {}
    angles = c.choice('angles', ['sky', 'zenith', 'both'])
    if angles in ('sky', 'both'):
        p['ra'], p['dec'] = c.real('r'), c.real('d')
    if angles in ('zenith', 'both'):
        p['zenith'], p['azimuth'] = c.real('z'), c.real('a')
    times = c.choice('times', ['geocent', 'H1', 'both'])
    if times in ('geocent', 'both'):
        p['geocent_time'] = c.real('t')
    if times in ('H1', 'both'):
        p['H1_time'] = c.real('tH')
    missing = (ref == 'sky' and angles == 'zenith') or (tr == 'geocent' and times == 'H1')
    c.assume(not missing)
    arg = c.choice('argument', [True, False])
    if arg:
        x.parameters = dict(ra=9., dec=9., geocent_time=9., H1_time=9., zenith=9., azimuth=9.)
        got = x.get_sky_frame_parameters(dict(p))
    else:
        x.parameters = dict(p)
        got = x.get_sky_frame_parameters()
    t = p['H1_time'] if tr == 'H1' and 'H1_time' in p else p['geocent_time']
    if ref == 'sky' or angles == 'sky':
        ra, dec = p['ra'], p['dec']
    else:
        ra, dec = conv[0](p['zenith'], p['azimuth'], t), conv[1](p['zenith'], p['azimuth'], t)
    geo = t - delay(ra, dec, t) if tr == 'H1' and 'H1_time' in p else p['geocent_time']
    c.ensure('keys', sorted(got) == ['dec', 'geocent_time', 'ra'])
    c.ensure_eq('sky-frame', [got['ra'], got['dec'], got['geocent_time']], [ra, dec, geo])


@contract("P12", "generate_sky_frame_parameters", bound="three samples", samples=60)
def _(c):
    import pandas as pd
    x, delay, conv = frames(c, 'H1L1', 'H1')
    rows = [dict(zenith=c.real('z%d' % i), azimuth=c.real('a%d' % i), H1_time=c.real('t%d' % i)) for i in range(3)]

    def want(r):
        ra, dec = conv[0](r['zenith'], r['azimuth'], r['H1_time']), conv[1](r['zenith'], r['azimuth'], r['H1_time'])
        return [ra, dec, r['H1_time'] - delay(ra, dec, r['H1_time'])]
    if c.choice('kind', ['dict', 'frame']) == 'dict':
        s = dict(rows[0])
        gconv.generate_sky_frame_parameters(s, x)
        c.ensure_eq('sample', [s['ra'], s['dec'], s['geocent_time']], want(rows[0]))
        return
    index = c.choice('index', [[0, 1, 2], [2, 0, 1], [5, 7, 9]])
    df = pd.DataFrame(rows, index=index, dtype=object if c.sym else float)
    gconv.generate_sky_frame_parameters(df, x)
    for i in range(3):
        c.ensure_eq('row', [df.iloc[i][k] for k in ('ra', 'dec', 'geocent_time')], want(rows[i]))
        c.ensure_eq('row-kept', [df.iloc[i][k] for k in rows[i]], [rows[i][k] for k in rows[i]])
