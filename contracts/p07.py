"""P07: completing binary parameters: every added key is the documented function of the given ones, which stay as they were."""
import numpy as np
from pydv.contract import contract
import bilby.gw.conversion as cv
from bilby.gw.conversion import DeltaFunction

PI2 = 2 * np.pi


def cosmo(c):
    """modular calls of the cosmology: uninterpreted positive functions (property 'cosmological distances' is about them)"""
    dl, dc = c.func('luminosity_distance', 1, positive=True), c.func('comoving_distance', 1, positive=True)
    zl, zc = c.func('z_of_luminosity_distance', 1, positive=True), c.func('z_of_comoving_distance', 1, positive=True)
    c.callee(cv, 'redshift_to_luminosity_distance', lambda z, cosmology=None: dl(z))
    c.callee(cv, 'redshift_to_comoving_distance', lambda z, cosmology=None: dc(z))
    c.callee(cv, 'luminosity_distance_to_redshift', lambda d, cosmology=None: zl(d))
    c.callee(cv, 'comoving_distance_to_redshift', lambda d, cosmology=None: zc(d))
    c.callee(cv, 'comoving_distance_to_luminosity_distance', lambda d, cosmology=None: dl(zc(d)))
    c.callee(cv, 'luminosity_distance_to_comoving_distance', lambda d, cosmology=None: dc(zl(d)))


def value(c, name, lo, hi, kind, **k):
    if kind == 'scalar':
        return c.real(name, lo, hi, **k)
    return c.array(name, lo, hi, **k)


def unchanged(c, before, now):
    c.ensure('input-unchanged', list(before) == list(now) and all(before[x] is now[x] for x in before))


def added(c, given, out, new):
    c.ensure('added-keys', sorted(new) == sorted(x for x in out if x not in given) and len(set(new)) == len(new))
    c.ensure('given-values-kept', all(out[x] is given[x] for x in given))
    c.ensure('result-type', type(out) is type(given))


CONVERT = [('bbh', cv.convert_to_lal_binary_black_hole_parameters), ('bns', cv.convert_to_lal_binary_neutron_star_parameters)]


@contract("P07", "convert_to_lal[distance and source masses]", samples=60)
def _(c):
    cosmo(c)
    name, f = c.choice('function', CONVERT)
    kind = c.choice('kind', ['scalar', 'array'])
    dist = c.choice('distance', ['luminosity_distance', 'redshift', 'comoving_distance', 'both'])
    p = {}
    if dist == 'both':
        p['redshift'] = value(c, 'redshift', 0.01, 3, kind)
        p['luminosity_distance'] = value(c, 'dl', 10, 9000, kind)
    elif dist == 'redshift':
        p['redshift'] = value(c, 'redshift', 0.01, 3, kind)
    else:
        p[dist] = value(c, 'd', 10, 9000, kind)
    masses = c.choice('masses', ['component', 'chirp', 'total', 'detector'])
    if masses == 'detector':
        p['chirp_mass'] = value(c, 'mc', 0, None, kind, open=True)
        p['mass_ratio'] = value(c, 'q', 0.01, 1, kind)
    elif masses == 'component':
        p['mass_1_source'] = value(c, 'm1', 0, None, kind, open=True)
        p['mass_2_source'] = value(c, 'm2', 0, None, kind, open=True)
    else:
        p[masses + '_mass_source' if masses == 'chirp' else 'total_mass_source'] = value(c, 'mc', 0, None, kind, open=True)
        p['mass_ratio'] = value(c, 'q', 0.01, 1, kind)
    before = dict(p)
    out, new = f(p)
    unchanged(c, before, p)
    added(c, p, out, new)
    want = {'luminosity_distance': lambda: p['luminosity_distance'],
            'redshift': lambda: cv.redshift_to_luminosity_distance(p['redshift']),
            'comoving_distance': lambda: cv.comoving_distance_to_luminosity_distance(p['comoving_distance']),
            'both': lambda: p['luminosity_distance']}[dist]()
    c.ensure_eq('luminosity-distance', out['luminosity_distance'], want)
    c.ensure('luminosity-distance-added', ('luminosity_distance' in new) == (dist in ('redshift', 'comoving_distance')))
    if masses == 'detector':
        c.ensure('no-redshift-needed', ('redshift' in out) == ('redshift' in p))
        m1 = p['chirp_mass'] * (1 + p['mass_ratio']) ** 0.2 / p['mass_ratio'] ** 0.6
        c.ensure_eq('mass_1', out['mass_1'], m1)
        c.ensure_eq('mass_2', out['mass_2'], m1 * p['mass_ratio'])
        return
    z = p['redshift'] if 'redshift' in p else cv.luminosity_distance_to_redshift(want)
    c.ensure_eq('redshift', out['redshift'], z)
    if masses == 'component':
        c.ensure_eq('mass_1', out['mass_1'], p['mass_1_source'] * (1 + z))
        c.ensure_eq('mass_2', out['mass_2'], p['mass_2_source'] * (1 + z))
    elif masses == 'total':
        c.ensure_eq('total_mass', out['total_mass'], p['total_mass_source'] * (1 + z))
        c.ensure_eq('mass_1', out['mass_1'], p['total_mass_source'] * (1 + z) / (1 + p['mass_ratio']))
        c.ensure_eq('mass_2', out['mass_2'], p['total_mass_source'] * (1 + z) / (1 + p['mass_ratio']) * p['mass_ratio'])
    else:
        c.ensure_eq('chirp_mass', out['chirp_mass'], p['chirp_mass_source'] * (1 + z))
        m1 = p['chirp_mass_source'] * (1 + z) * (1 + p['mass_ratio']) ** 0.2 / p['mass_ratio'] ** 0.6
        c.ensure_eq('mass_1', out['mass_1'], m1)
        c.ensure_eq('mass_2', out['mass_2'], m1 * p['mass_ratio'])


@contract("P07", "convert_to_lal[spins]", samples=60)
def _(c):
    name, f = c.choice('function', CONVERT)
    kind = c.choice('kind', ['scalar', 'array'])
    i, j = c.choice('idx', [('1', '2'), ('2', '1')])
    p = dict(mass_1=value(c, 'm1', 0, None, kind, open=True), mass_2=value(c, 'm2', 0, None, kind, open=True))
    form = c.choice('form', ['chi', 'chi+plane', 'chi+a', 'a+cos_tilt', 'a+tilt', 'none'])
    phis = c.choice('phis', [True, False])
    if phis:
        p['phi_jl'], p['phi_12'] = value(c, 'phi_jl', 0, 6.28, kind), value(c, 'phi_12', 0, 6.28, kind)
    p['a_' + j] = value(c, 'other_a', 0, 1, kind)
    p['tilt_' + j] = value(c, 'other_tilt', 0, 3.14, kind)
    chi = None
    if form.startswith('chi'):
        chi = p['chi_' + i] = value(c, 'chi', -1, 1, kind)
    if form == 'chi+plane':
        p['chi_%s_in_plane' % i] = value(c, 'in_plane', 0, 1, kind)
    if form == 'chi+a':
        p['a_' + i] = value(c, 'a', 0, 1, kind)
    if form.startswith('a+'):
        p['a_' + i] = value(c, 'a', 0, 1, kind)
    if form == 'a+cos_tilt':
        p['cos_tilt_' + i] = value(c, 'cos_tilt', -1, 1, kind)
    if form == 'a+tilt':
        p['tilt_' + i] = value(c, 'tilt', 0, 3.14, kind)
    if form == 'chi+a':
        c.assume(abs(elem(c, chi)) <= elem(c, p['a_' + i]))
    before = dict(p)
    out, new = f(p)
    unchanged(c, before, p)
    added(c, p, out, new)
    if phis:
        c.ensure_eq('phi_jl-kept', out['phi_jl'], p['phi_jl'])
    else:
        c.ensure_eq('phi_jl-zero', out['phi_jl'], 0)
        c.ensure_eq('phi_12-zero', out['phi_12'], 0)
    c.ensure_eq('other-spin', out['a_' + j], p['a_' + j])
    c.ensure_eq('other-tilt', out['tilt_' + j], p['tilt_' + j])
    if form == 'none':
        c.ensure('nothing-invented', 'a_' + i not in out and 'tilt_' + i not in out)
        return
    a, t = out['a_' + i], out['tilt_' + i]
    c.ensure_within('tilt-range', 0, t, np.pi)
    if chi is not None:
        c.ensure_eq('aligned-component', a * np.cos(t), chi)
        c.ensure_within('spin-nonnegative', 0, a, 2)
    if form == 'chi':
        c.ensure_eq('magnitude', a, abs(chi))
    if form == 'chi+plane':
        c.ensure_eq('magnitude-squared', a ** 2, chi ** 2 + p['chi_%s_in_plane' % i] ** 2)
        c.ensure_eq('in-plane-component', a * np.sin(t), p['chi_%s_in_plane' % i])
    if form == 'chi+a':
        c.ensure_eq('magnitude-kept', a, p['a_' + i])
        c.ensure_within('cos-tilt-range', -1, out['cos_tilt_' + i], 1)
    if form == 'a+cos_tilt':
        c.ensure_eq('cos-tilt', np.cos(t), p['cos_tilt_' + i])


def elem(c, x):
    return x.elem if c.sym and hasattr(x, 'elem') else x


@contract("P07", "convert_to_lal[zero spins]")
def _(c):
    name, f = c.choice('function', CONVERT)
    form = c.choice('form', ['chi', 'chi+plane', 'chi+a'])
    p = dict(mass_1=c.pos('m1'), mass_2=c.pos('m2'), chi_1=0.0, a_2=0.0, tilt_2=0.0)
    if form == 'chi+plane':
        p['chi_1_in_plane'] = 0.0
    if form == 'chi+a':
        p['a_1'] = 0.0
    out, new = f(p)
    c.ensure_eq('no-spin', out['a_1'], 0)
    c.ensure_within('tilt-range', 0, out['tilt_1'], np.pi)


@contract("P07", "convert_to_lal[inclination and phase]", samples=60)
def _(c):
    name, f = c.choice('function', CONVERT)
    kind = c.choice('kind', ['scalar', 'array'])
    p = dict(mass_1=value(c, 'm1', 0, None, kind, open=True), mass_2=value(c, 'm2', 0, None, kind, open=True))
    if c.choice('inclination', ['theta_jn', 'cos_theta_jn']) == 'theta_jn':
        p['theta_jn'] = value(c, 'theta', 0, 3.14, kind)
    else:
        p['cos_theta_jn'] = value(c, 'costheta', -1, 1, kind)
    dp = c.choice('phase', ['phase', 'delta_phase', 'both'])
    p['psi'] = value(c, 'psi', 0, 3.14, kind)
    if dp != 'delta_phase':
        p['phase'] = value(c, 'phase', 0, 6.28, kind)
    if dp != 'phase':
        p['delta_phase'] = value(c, 'delta', 0, 6.28, kind)
    before = dict(p)
    out, new = f(p)
    unchanged(c, before, p)
    if 'cos_theta_jn' in p:
        c.ensure_eq('cos-theta', np.cos(out['theta_jn']), p['cos_theta_jn'])
        c.ensure_within('theta-range', 0, out['theta_jn'], np.pi)
    if dp == 'phase':
        c.ensure_eq('phase-kept', out['phase'], p['phase'])
    else:
        x = elem(c, p['delta_phase']) - np.sign(np.cos(elem(c, out['theta_jn']))) * elem(c, p['psi'])
        c.ensure_eq('phase', elem(c, out['phase']), x - PI2 * np.floor(x / PI2), atol=1e-6)
        c.ensure_within('phase-range', 0, elem(c, out['phase']), PI2)


def lmasses(c, kind='scalar'):
    m1 = value(c, 'm1', 0, None, kind, open=True)
    q = value(c, 'q', 0.05, 1, kind)
    return m1, m1 * q, q


def lt_spec(l1, l2, m1, m2):
    """Wade et al, eq 5 in its textbook form 16/13 [(m1 + 12 m2) m1^4 l1 + (m2 + 12 m1) m2^4 l2] / M^5"""
    return 16 / 13 * ((m1 + 12 * m2) * m1 ** 4 * l1 + (m2 + 12 * m1) * m2 ** 4 * l2) / (m1 + m2) ** 5


@contract("P07", "lambda_1_lambda_2_to_lambda_tilde")
def _(c):
    m1, m2, q = lmasses(c)
    l1, l2 = c.real('lambda_1', 0, None, scale=300), c.real('lambda_2', 0, None, scale=300)
    c.ensure_eq('textbook-form', cv.lambda_1_lambda_2_to_lambda_tilde(l1, l2, m1, m2), lt_spec(l1, l2, m1, m2))
    l = c.real('lambda', 0, None, scale=300)
    c.ensure_eq('equal-stars', cv.lambda_1_lambda_2_to_lambda_tilde(l, l, m1, m1), l)
    c.ensure_eq('equal-stars-delta', cv.lambda_1_lambda_2_to_delta_lambda_tilde(l, l, m1, m1), 0, atol=1e-4)


@contract("P07", "lambda_tilde_delta_lambda_tilde_to_lambda_1_lambda_2")
def _(c):
    m1, m2, q = lmasses(c)
    lt, dl = c.real('lambda_tilde', 0, None, scale=300), c.real('delta', scale=300)
    r = cv.lambda_tilde_delta_lambda_tilde_to_lambda_1_lambda_2(lt, dl, m1, m2)
    c.ensure_eq('lambda-tilde-back', cv.lambda_1_lambda_2_to_lambda_tilde(r[0], r[1], m1, m2), lt, rtol=1e-4, atol=1e-3)
    c.ensure_eq('delta-back', cv.lambda_1_lambda_2_to_delta_lambda_tilde(r[0], r[1], m1, m2), dl, rtol=1e-4, atol=1e-3)


@contract("P07", "lambda_tilde_to_lambda_1_lambda_2")
def _(c):
    m1, m2, q = lmasses(c)
    lt = c.real('lambda_tilde', 0, None, scale=300)
    r = cv.lambda_tilde_to_lambda_1_lambda_2(lt, m1, m2)
    c.ensure_eq('lambda-tilde-back', cv.lambda_1_lambda_2_to_lambda_tilde(r[0], r[1], m1, m2), lt)
    c.ensure_eq('mass-scaling', r[0] * m1 ** 5, r[1] * m2 ** 5, rtol=1e-5)


@contract("P07", "lambda_symmetric and lambda_antisymmetric")
def _(c):
    l1, l2 = c.real('lambda_1'), c.real('lambda_2')
    s, a = cv.lambda_1_lambda_2_to_lambda_symmetric(l1, l2), cv.lambda_1_lambda_2_to_lambda_antisymmetric(l1, l2)
    c.ensure_eq('mean', s, (l1 + l2) / 2)
    c.ensure_eq('half-difference', a, (l2 - l1) / 2)
    r = cv.lambda_symmetric_lambda_antisymmetric_to_lambda_1_lambda_2(s, a)
    c.ensure_eq('lambda_1-back', r[0], l1)
    c.ensure_eq('lambda_2-back', r[1], l2)


@contract("P07", "convert_to_lal_binary_neutron_star_parameters[tides]", samples=60)
def _(c):
    kind = c.choice('kind', ['scalar', 'array'])
    m1, m2, q = lmasses(c, kind)
    how = c.choice('masses', ['components', 'total'])
    p = dict(mass_1=m1, mass_2=m2) if how == 'components' else dict(total_mass=m1 + m2, mass_ratio=q)
    form = c.choice('form', ['none', 'both', 'lambda_1', 'None', 'tilde', 'tilde+delta', 'sym+antisym'])
    if form in ('both', 'lambda_1', 'None'):
        p['lambda_1'] = value(c, 'l1', 0, None, kind, scale=300)
    if form == 'both':
        p['lambda_2'] = value(c, 'l2', 0, None, kind, scale=300)
    if form == 'None':
        p['lambda_2'] = None
    if form.startswith('tilde'):
        p['lambda_tilde'] = value(c, 'lt', 0, None, kind, scale=300)
    if form == 'tilde+delta':
        p['delta_lambda_tilde'] = value(c, 'dl', None, None, kind, scale=300)
    if form == 'sym+antisym':
        p['lambda_symmetric'] = value(c, 'ls', 0, None, kind, scale=300)
        p['lambda_antisymmetric'] = value(c, 'la', None, None, kind, scale=300)
    before = dict(p)
    fs = [c.func(n, k) for n, k in (('t1', 3), ('t2', 3), ('d1', 4), ('d2', 4))]
    c.setattr(cv, 'lambda_tilde_to_lambda_1_lambda_2', lambda *a: (fs[0](*a), fs[1](*a)))
    c.setattr(cv, 'lambda_tilde_delta_lambda_tilde_to_lambda_1_lambda_2', lambda *a: (fs[2](*a), fs[3](*a)))
    out, new = cv.convert_to_lal_binary_neutron_star_parameters(p)
    unchanged(c, before, p)
    c.ensure('added-keys', set(new) == set(x for x in out if x not in p) and len(set(new)) == len(new))
    c.ensure('given-values-kept', all(out[x] is p[x] or p[x] is None for x in p))
    m1, m2 = out['mass_1'], out['mass_2']
    l1, l2 = out['lambda_1'], out['lambda_2']
    if form == 'none':
        c.ensure_eq('no-tides', [l1, l2], [0, 0])
    elif form == 'both':
        c.ensure_eq('lambda_1', l1, p['lambda_1'])
        c.ensure_eq('lambda_2', l2, p['lambda_2'])
    elif form in ('lambda_1', 'None'):
        c.ensure_eq('lambda_1', l1, p['lambda_1'])
        c.ensure_eq('lambda_2-scaling', l2 * m2 ** 5, l1 * m1 ** 5)
    elif form == 'tilde':
        w = cv.lambda_tilde_to_lambda_1_lambda_2(p['lambda_tilde'], m1, m2)
        c.ensure_eq('lambda_1', l1, w[0])
        c.ensure_eq('lambda_2', l2, w[1])
    elif form == 'tilde+delta':
        w = cv.lambda_tilde_delta_lambda_tilde_to_lambda_1_lambda_2(p['lambda_tilde'], p['delta_lambda_tilde'], m1, m2)
        c.ensure_eq('lambda_1', l1, w[0])
        c.ensure_eq('lambda_2', l2, w[1])
    else:
        c.ensure_eq('sum', l1 + l2, 2 * p['lambda_symmetric'])
        c.ensure_eq('difference', l2 - l1, 2 * p['lambda_antisymmetric'])


EOSF = ['SimNeutronStarEOS4ParamSDGammaCheck', 'SimNeutronStarEOS4ParameterSpectralDecomposition',
        'SimNeutronStarEOS4ParamSDViableFamilyCheck', 'SimNeutronStarEOS3PieceDynamicPolytrope',
        'SimNeutronStarEOS3PieceCausalAnalytic', 'SimNeutronStarEOS3PDViableFamilyCheck']


@contract("P07", "neutron_star_family_physical_check")
def _(c):
    cs, mn, mx = c.pos('cs'), c.pos('min_mass'), c.pos('max_mass')
    r, k2 = c.func('radius', 1, positive=True), c.func('k2', 1, positive=True)
    for n, f in dict(CreateSimNeutronStarFamily=lambda e: ('family', e), SimNeutronStarEOSMaxPseudoEnthalpy=lambda e: ('h', e),
                     SimNeutronStarEOSSpeedOfSoundGeometerized=lambda h, e: cs if h == ('h', e) else None,
                     SimNeutronStarFamMinimumMass=lambda f: mn, SimNeutronStarMaximumMass=lambda f: mx,
                     SimNeutronStarRadius=lambda m, f: r(m), SimNeutronStarLoveNumberK2=lambda m, f: k2(m)).items():
        c.setattr(cv, 'lalsim_' + n, f)
    m1, m2 = c.pos('m1'), c.pos('m2')
    l1, l2, ok = cv.neutron_star_family_physical_check('eos', m1, m2)
    S, G, C = cv.solar_mass, cv.gravitational_constant, cv.speed_of_light
    valid = c.both(cs <= 1.1, mn / S <= m1, m1 <= mx / S, mn / S <= m2, m2 <= mx / S)
    if bool(valid):
        c.ensure('accepted', ok)
        for m, l in ((m1, l1), (m2, l2)):
            c.ensure_eq('love-number', l, 2 / 3 * k2(m * S) * (r(m * S) * C ** 2 / (G * m * S)) ** 5)
    else:
        c.ensure('rejected', not ok)
        c.ensure_eq('no-tides', [l1, l2], [0, 0])


@contract("P07", "log_pressure_reparameterization_conversion")
def _(c):
    a, b = c.real('ratio'), c.real('p2')
    r = cv.log_pressure_reparameterization_conversion(a, b)
    c.ensure_eq('log10-pressure-1', r[0], 33 + a * b)
    c.ensure_eq('log10-pressure-2', r[1], 33 + b)


@contract("P07", "polytrope_or_causal_params_to_lambda_1_lambda_2")
def _(c):
    l1, l2, okf = c.real('l1'), c.real('l2'), c.choice('family_ok', [True, False])
    viable = c.choice('viable', [0, 1])
    causal = c.choice('causal', [0, 1])
    p1, p2, p3 = c.real('p1'), c.real('p2'), c.real('p3')
    a, b = c.real('log10p1'), c.real('log10p2')
    calls = []
    c.setattr(cv, 'lalsim_SimNeutronStarEOS3PieceDynamicPolytrope', lambda *x: calls.append(('poly', x)) or 'poly')
    c.setattr(cv, 'lalsim_SimNeutronStarEOS3PieceCausalAnalytic', lambda *x: calls.append(('causal', x)) or 'causal')
    c.setattr(cv, 'lalsim_SimNeutronStarEOS3PDViableFamilyCheck', lambda *x: calls.append(('viable', x)) or viable)
    c.setattr(cv, 'neutron_star_family_physical_check', lambda e, x, y: (calls.append((e, (x, y))), (l1, l2, okf))[1])
    m1, m2 = c.pos('m1'), c.pos('m2')
    r = cv.polytrope_or_causal_params_to_lambda_1_lambda_2(p1, a, p2, b, p3, m1, m2, causal)
    if bool(a >= b):
        c.ensure('pressures-must-increase', r[2] is False)
        c.ensure_eq('no-tides', list(r[:2]), [0, 0])
        return
    kind = 'causal' if causal else 'poly'
    c.ensure('equation-of-state', calls[0][0] == kind and calls[1][0] == 'viable')
    c.ensure_eq('pressures-in-SI', list(calls[0][1]), [p1, a - 1, p2, b - 1, p3])
    c.ensure_eq('viability-of-the-same', list(calls[1][1]), [p1, a - 1, p2, b - 1, p3, causal])
    if viable:
        c.ensure('rejected', r[2] is False)
        c.ensure_eq('no-tides', list(r[:2]), [0, 0])
    else:
        c.ensure_eq('lambdas', list(r[:2]), [l1, l2])
        c.ensure('check', r[2] is okf)
        c.ensure('family-of-the-same', calls[2][0] == kind)
        c.ensure_eq('masses', list(calls[2][1]), [m1, m2])


@contract("P07", "spectral_params_to_lambda_1_lambda_2")
def _(c):
    l1, l2, okf = c.real('l1'), c.real('l2'), c.choice('family_ok', [True, False])
    gamma, viable = c.choice('gamma', [0, 1]), c.choice('viable', [0, 1])
    calls = []
    c.setattr(cv, 'lalsim_SimNeutronStarEOS4ParamSDGammaCheck', lambda *x: calls.append(x) or gamma)
    c.setattr(cv, 'lalsim_SimNeutronStarEOS4ParameterSpectralDecomposition', lambda *x: calls.append(x) or 'eos')
    c.setattr(cv, 'lalsim_SimNeutronStarEOS4ParamSDViableFamilyCheck', lambda *x: calls.append(x) or viable)
    c.setattr(cv, 'neutron_star_family_physical_check', lambda e, x, y: (calls.append((x, y)), (l1, l2, okf))[1])
    g = [c.real('g%d' % i) for i in range(4)]
    m1, m2 = c.pos('m1'), c.pos('m2')
    r = cv.spectral_params_to_lambda_1_lambda_2(*g, m1, m2)
    for x in calls[:3]:
        c.ensure_eq('same-equation-of-state', list(x), g)
    if gamma or viable:
        c.ensure('rejected', r[2] is False)
        c.ensure_eq('no-tides', list(r[:2]), [0, 0])
    else:
        c.ensure_eq('lambdas', list(r[:2]), [l1, l2])
        c.ensure('check', r[2] is okf)
        c.ensure_eq('masses', list(calls[3]), [m1, m2])


EOS = {
    'spectral': (['eos_spectral_pca_gamma_%d' % i for i in range(4)]),
    'poly': ['eos_polytrope_gamma_0', 'eos_polytrope_log10_pressure_1', 'eos_polytrope_gamma_1',
             'eos_polytrope_log10_pressure_2', 'eos_polytrope_gamma_2'],
    'scaled': ['eos_polytrope_gamma_0', 'eos_polytrope_scaled_pressure_ratio', 'eos_polytrope_gamma_1',
               'eos_polytrope_scaled_pressure_2', 'eos_polytrope_gamma_2'],
    'causal': ['eos_v1', 'eos_log10_pressure1_cgs', 'eos_v2', 'eos_log10_pressure2_cgs', 'eos_v3'],
}


@contract("P07", "convert_to_lal_binary_neutron_star_parameters[equation of state]", samples=80, bound="arrays of two samples")
def _(c):
    cosmo(c)
    fam = c.choice('family', sorted(EOS))
    keys = EOS[fam]
    n = 7
    F1, F2 = c.func('L1', n), c.func('L2', n)
    G = [c.func('pca%d' % i, 4) for i in range(4)]
    if fam == 'spectral':
        c.setattr(cv, 'spectral_pca_to_spectral', lambda *g: [f(*g) for f in G])
        c.setattr(cv, 'spectral_params_to_lambda_1_lambda_2', lambda *a: (F1(*a, 0), F2(*a, 0), True))
    else:
        c.setattr(cv, 'polytrope_or_causal_params_to_lambda_1_lambda_2',
                  lambda *a, causal: (F1(*a), F2(*a), causal == (1 if fam == 'causal' else 0)))
    kind = c.choice('kind', ['scalar', 'array', 'mixed'])

    def val(name, i=0):
        if kind == 'scalar' or (kind == 'mixed' and i % 2):
            return c.pos(name)
        return np.array([c.pos(name + '[0]'), c.pos(name + '[1]')])
    p = dict(mass_1=val('m1'), mass_2=val('m2', 1), luminosity_distance=val('dl', 1))
    for i, k in enumerate(keys):
        p[k] = val(k, i)
    before = {k: v.copy() if isinstance(v, np.ndarray) else v for k, v in p.items()}
    out, new = cv.convert_to_lal_binary_neutron_star_parameters(p)
    c.ensure('input-keys-unchanged', list(before) == list(p))
    for k in p:
        c.ensure_eq('input-unchanged', p[k], before[k])
        c.ensure_eq('given-values-kept', out[k], p[k])
    c.ensure('added-keys', set(new) == set(x for x in out if x not in p))

    def args(j):
        g = lambda k: p[k][j] if isinstance(p[k], np.ndarray) else p[k]
        z = cv.luminosity_distance_to_redshift(g('luminosity_distance'))
        ms = [g('mass_1') / (1 + z), g('mass_2') / (1 + z)]
        v = [g(k) for k in keys]
        if fam == 'spectral':
            return [f(*v) for f in G] + ms + [0]
        if fam == 'scaled':
            v[1], v[3] = 33 + v[1] * v[3], 33 + v[3]
        return v + ms
    for j in range(1 if kind == 'scalar' else 2):
        pick = lambda x: x if kind == 'scalar' else x[j]
        c.ensure_eq('lambda_1', pick(out['lambda_1']), F1(*args(j)))
        c.ensure_eq('lambda_2', pick(out['lambda_2']), F2(*args(j)))
        c.ensure('eos_check', bool(pick(out['eos_check'])))
    c.ensure_eq('length', len(np.atleast_1d(out['lambda_1'])), 1 if kind == 'scalar' else 2)


@contract("P07", "generate_source_frame_parameters")
def _(c):
    cosmo(c)
    kind = c.choice('kind', ['scalar', 'array'])
    p = dict(luminosity_distance=value(c, 'dl', 10, 9000, kind))
    for k in ['mass_1', 'mass_2', 'chirp_mass', 'total_mass']:
        if c.choice(k, [True, False]):
            p[k] = value(c, k, 0, None, kind, open=True)
    before = dict(p)
    out = cv.generate_source_frame_parameters(p)
    unchanged(c, before, p)
    z = cv.luminosity_distance_to_redshift(p['luminosity_distance'])
    c.ensure_eq('redshift', out['redshift'], z)
    c.ensure_eq('comoving_distance', out['comoving_distance'], cv.redshift_to_comoving_distance(z))
    for k in ['mass_1', 'mass_2', 'chirp_mass', 'total_mass']:
        c.ensure('present', (k + '_source' in out) == (k in p))
        if k in p:
            c.ensure_eq('source-mass', out[k + '_source'] * (1 + z), p[k])


@contract("P07", "bilby_to_lalsimulation_spins[aligned]")
def _(c):
    t1, t2 = c.choice('tilt_1', [0, np.pi, 'any']), c.choice('tilt_2', [0, np.pi, 'any'])
    a1 = c.unit('a_1') if t1 != 'any' else 0.0
    a2 = c.unit('a_2') if t2 != 'any' else 0.0
    t1 = c.real('t1', 0, 3) if t1 == 'any' else t1
    t2 = c.real('t2', 0, 3) if t2 == 'any' else t2
    th = c.real('theta_jn')
    r = cv.bilby_to_lalsimulation_spins(th, c.real('phi_jl'), t1, t2, c.real('phi_12'), a1, a2, c.pos('m1'), c.pos('m2'),
                                        c.pos('fref'), c.real('phase'))
    c.ensure_eq('iota', r[0], th)
    c.ensure_eq('in-plane-zero', [r[1], r[2], r[4], r[5]], [0, 0, 0, 0])
    c.ensure_eq('aligned-1', r[3], a1 * np.cos(t1))
    c.ensure_eq('aligned-2', r[6], a2 * np.cos(t2))


@contract("P07", "bilby_to_lalsimulation_spins[precessing]")
def _(c):
    """the arguments reach the external transformation unchanged and in order, its results are returned in order"""
    out = [c.real('out%d' % i) for i in range(7)]
    seen = []
    c.setattr(cv, 'lalsim_SimInspiralTransformPrecessingNewInitialConditions', lambda *a: (seen.append(a), out)[1])
    args = [c.real(n) for n in ['theta_jn', 'phi_jl']] + [c.real('tilt_1', 0.1, 3), c.real('tilt_2', 0, 3.1), c.real('phi_12')]
    args += [c.real('a_1', 0.01, 1), c.real('a_2', 0, 1), c.pos('m1'), c.pos('m2'), c.pos('fref'), c.real('phase')]
    r = cv.bilby_to_lalsimulation_spins(*args)
    c.ensure('called-once', len(seen) == 1)
    c.ensure_eq('arguments', list(seen[0]), args)
    c.ensure_eq('results', list(r), out)


@contract("P07", "generate_spin_parameters[aligned]")
def _(c):
    kind = c.choice('kind', ['scalar', 'array'])
    p = dict(chi_1=value(c, 'chi_1', -1, 1, kind), chi_2=value(c, 'chi_2', -1, 1, kind),
             mass_ratio=value(c, 'q', 0, 1, kind, lo_open=True))
    before = dict(p)
    out = cv.generate_spin_parameters(p)
    unchanged(c, before, p)
    q = p['mass_ratio']
    c.ensure_eq('chi_eff', out['chi_eff'] * (1 + q), p['chi_1'] + q * p['chi_2'])
    c.ensure_eq('chi_p-zero', out['chi_p'], 0 * q if kind == 'array' and c.sym else 0 * out['chi_p'])
    c.ensure_eq('spin_1z', out['spin_1z'], p['chi_1'])
    c.ensure_eq('spin_2z', out['spin_2z'], p['chi_2'])


@contract("P07", "generate_spin_parameters[precessing]")
def _(c):
    s = {x: c.real(x, -1, 1) for x in ['spin_1x', 'spin_1y', 'spin_1z', 'spin_2x', 'spin_2y', 'spin_2z']}
    c.setattr(cv, 'generate_component_spins', lambda sample: dict(sample, **s))
    q = c.real('q', 0, 1, lo_open=True)
    p = dict(mass_ratio=q, tilt_1=c.real('tilt_1'), tilt_2=c.real('tilt_2'))
    before = dict(p)
    out = cv.generate_spin_parameters(p)
    unchanged(c, before, p)
    c.ensure_eq('chi_eff', out['chi_eff'] * (1 + q), s['spin_1z'] + q * s['spin_2z'])
    p1 = np.sqrt(s['spin_1x'] ** 2 + s['spin_1y'] ** 2)
    p2 = np.sqrt(s['spin_2x'] ** 2 + s['spin_2y'] ** 2)
    c.ensure_eq('chi_1_in_plane', out['chi_1_in_plane'], p1)
    c.ensure_eq('chi_2_in_plane', out['chi_2_in_plane'], p2)
    w = (4 * q + 3) / (3 * q + 4) * q * p2
    c.ensure_le('chi_p-at-least-1', p1, out['chi_p'])
    c.ensure_le('chi_p-at-least-2', w, out['chi_p'])
    c.ensure('chi_p-attained', c.either(out['chi_p'] == p1, abs(out['chi_p'] - w) < 1e-12))
    c.ensure_eq('cos_tilt_1', out['cos_tilt_1'], np.cos(p['tilt_1']))
    c.ensure_eq('cos_tilt_2', out['cos_tilt_2'], np.cos(p['tilt_2']))


@contract("P07", "generate_tidal_parameters")
def _(c):
    p = dict(lambda_1=c.pos('l1'), lambda_2=c.pos('l2'), mass_1=c.pos('m1'), mass_2=c.pos('m2'))
    c.assume(p['mass_2'] <= p['mass_1'])
    before = dict(p)
    out = cv.generate_tidal_parameters(p)
    unchanged(c, before, p)
    c.ensure_eq('lambda_tilde', out['lambda_tilde'], lt_spec(p['lambda_1'], p['lambda_2'], p['mass_1'], p['mass_2']))
    c.ensure_eq('delta', out['delta_lambda_tilde'], cv.lambda_1_lambda_2_to_delta_lambda_tilde(
        p['lambda_1'], p['lambda_2'], p['mass_1'], p['mass_2']))


@contract("P07", "fill_from_fixed_priors and identity maps")
def _(c):
    import bilby.core.prior as bp
    a, b = c.real('a'), c.real('b')
    pr = bp.PriorDict(dict(a=bp.DeltaFunction(a), b=bp.Uniform(0, 1), d=bp.DeltaFunction(b)))
    s = dict(b=c.real('sb'), e=c.real('se'))
    before = dict(s)
    out = cv.fill_from_fixed_priors(s, pr)
    unchanged(c, before, s)
    c.ensure('keys', set(out) == {'a', 'b', 'd', 'e'})
    c.ensure_eq('values', [out[k] for k in 'abde'], [a, s['b'], b, s['e']])
    c.ensure('none', dict(cv.fill_from_fixed_priors(s, None)) == s)
    r, new = cv.identity_map_conversion(s)
    c.ensure('identity', r is s and new == [])
    out = cv.identity_map_generation(s, priors=pr)
    unchanged(c, before, s)
    c.ensure_eq('generated', [out[k] for k in 'abde'], [a, s['b'], b, s['e']])


@contract("P07", "generate_all_parameters", samples=40)
def _(c):
    """the completed sample agrees with every single definition and the input sample is untouched"""
    import bilby.core.prior as bp
    cosmo(c)
    which = c.choice('which', ['bbh', 'bns'])
    fixed = c.choice('fixed', ['none', 'mass_ratio', 'luminosity_distance'])
    p = dict(chirp_mass=c.pos('mc'), mass_ratio=c.real('q', 0.01, 1), chi_1=c.real('chi_1', -1, 1), chi_2=c.real('chi_2', -1, 1),
             luminosity_distance=c.real('dl', 10, 9000), theta_jn=c.real('theta_jn', 0, 3.1))
    if which == 'bns':
        p['lambda_1'], p['lambda_2'] = c.real('l1', 0, None, scale=300), c.real('l2', 0, None, scale=300)
    full = dict(p)
    pr = None
    if fixed != 'none':
        pr = bp.PriorDict({k: bp.DeltaFunction(v) if k == fixed else bp.Uniform(0, 1) for k, v in p.items()})
        del p[fixed]
    before = dict(p)
    # the precessing transformation is external: tilts are 0 or pi here, so every term must use the aligned branch
    f = cv.generate_all_bbh_parameters if which == 'bbh' else cv.generate_all_bns_parameters
    c.callee(cv, 'generate_component_spins', lambda s: dict(
        s, spin_1x=0, spin_1y=0, spin_2x=0, spin_2y=0, spin_1z=s['chi_1'], spin_2z=s['chi_2']))
    out = f(p, priors=pr)
    unchanged(c, before, p)
    for k in full:
        c.ensure_eq('given-' + k, out[k], full[k])
    q = full['mass_ratio']
    m1 = full['chirp_mass'] * (1 + q) ** 0.2 / q ** 0.6
    c.ensure_eq('mass_1', out['mass_1'], m1)
    c.ensure_eq('mass_2', out['mass_2'], m1 * q)
    c.ensure_eq('total_mass', out['total_mass'], m1 * (1 + q))
    c.ensure_eq('eta', out['symmetric_mass_ratio'], q / (1 + q) ** 2)
    c.ensure_eq('chi_eff', out['chi_eff'] * (1 + q), full['chi_1'] + q * full['chi_2'])
    z = cv.luminosity_distance_to_redshift(full['luminosity_distance'])
    c.ensure_eq('redshift', out['redshift'], z)
    for k in ['mass_1', 'mass_2', 'chirp_mass', 'total_mass']:
        c.ensure_eq(k + '_source', out[k + '_source'] * (1 + z), out[k])
    if which == 'bns':
        c.ensure_eq('lambda_tilde', out['lambda_tilde'], cv.lambda_1_lambda_2_to_lambda_tilde(
            full['lambda_1'], full['lambda_2'], out['mass_1'], out['mass_2']))
    else:
        c.ensure('no-tides', 'lambda_tilde' not in out)
