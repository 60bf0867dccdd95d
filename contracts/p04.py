"""P04: conversions between binary mass parameters are mutually consistent."""
import numpy as np
from pydv.contract import contract
import bilby.gw.conversion as cv


def masses(c, q1=True):
    m1 = c.pos('mass_1')
    q = c.real('q', 0, 1, lo_open=True)
    return m1, m1 * q, q


def spec(m1, m2):
    return dict(chirp_mass=(m1 * m2) ** 0.6 / (m1 + m2) ** 0.2, total_mass=m1 + m2, mass_ratio=m2 / m1,
                symmetric_mass_ratio=m1 * m2 / (m1 + m2) ** 2)


@contract("P04", "component_masses_to_*")
def _(c):
    m1, m2, q = masses(c)
    s = spec(m1, m2)
    c.ensure_eq('chirp_mass', cv.component_masses_to_chirp_mass(m1, m2), s['chirp_mass'])
    c.ensure_eq('total_mass', cv.component_masses_to_total_mass(m1, m2), s['total_mass'])
    c.ensure_eq('mass_ratio', cv.component_masses_to_mass_ratio(m1, m2), q)
    c.ensure_eq('symmetric_mass_ratio', cv.component_masses_to_symmetric_mass_ratio(m1, m2), s['symmetric_mass_ratio'])
    c.ensure_within('eta-range', 0, cv.component_masses_to_symmetric_mass_ratio(m1, m2), 0.25)


@contract("P04", "chirp_mass_and_mass_ratio_to_component_masses")
def _(c):
    m1, m2, q = masses(c)
    s = spec(m1, m2)
    a, b = cv.chirp_mass_and_mass_ratio_to_component_masses(s['chirp_mass'], q)
    c.ensure_eq('mass_1', a, m1)
    c.ensure_eq('mass_2', b, m2)
    mc = c.pos('chirp_mass')
    a, b = cv.chirp_mass_and_mass_ratio_to_component_masses(mc, q)
    c.ensure_eq('chirp-mass-back', cv.component_masses_to_chirp_mass(a, b), mc)
    c.ensure_eq('mass-ratio-back', cv.component_masses_to_mass_ratio(a, b), q)
    c.ensure_eq('total-mass', cv.chirp_mass_and_mass_ratio_to_total_mass(mc, q), a + b)
    c.ensure_le('primary-is-heavier', b, a)


@contract("P04", "total_mass_and_mass_ratio_to_component_masses")
def _(c):
    M = c.pos('total_mass')
    q = c.real('q', 0, 1, lo_open=True)
    a, b = cv.total_mass_and_mass_ratio_to_component_masses(q, M)
    c.ensure_eq('total-mass-back', cv.component_masses_to_total_mass(a, b), M)
    c.ensure_eq('mass-ratio-back', cv.component_masses_to_mass_ratio(a, b), q)
    m1, m2, q = masses(c)
    a, b = cv.total_mass_and_mass_ratio_to_component_masses(mass_ratio=m2 / m1, total_mass=m1 + m2)
    c.ensure_eq('mass_1', a, m1)
    c.ensure_eq('mass_2', b, m2)


@contract("P04", "symmetric_mass_ratio_to_mass_ratio")
def _(c):
    m1, m2, q = masses(c)
    c.ensure_eq('inverse-on-masses', cv.symmetric_mass_ratio_to_mass_ratio(
        cv.component_masses_to_symmetric_mass_ratio(m1, m2)), q, rtol=1e-4, atol=1e-6)
    eta = c.real('eta', 0, 0.25, lo_open=True)
    q = cv.symmetric_mass_ratio_to_mass_ratio(eta)
    c.ensure_within('mass-ratio-at-most-one', 0, q, 1)
    c.ensure_eq('inverse', q / (1 + q) ** 2, eta)


@contract("P04", "chirp_mass_and_total_mass_to_symmetric_mass_ratio")
def _(c):
    m1, m2, q = masses(c)
    s = spec(m1, m2)
    c.ensure_eq('eta', cv.chirp_mass_and_total_mass_to_symmetric_mass_ratio(s['chirp_mass'], s['total_mass']),
                s['symmetric_mass_ratio'])


def cardano(c, q):
    # u + v = q with u, v = q / 2 * (1 +- sqrt((3 - q) / (3 * (1 + q)))): the cube roots in the closed-form solution
    if c.sym:
        c.root_hint(1 + ((3 - q) / (3 * (1 + q))) ** 0.5, 3)


@contract("P04", "mass_1_and_chirp_mass_to_mass_ratio")
def _(c):
    m1, m2, q = masses(c)
    cardano(c, q)
    c.ensure_eq('mass_ratio', cv.mass_1_and_chirp_mass_to_mass_ratio(m1, spec(m1, m2)['chirp_mass']), q)


@contract("P04", "chirp_mass_and_primary_mass_to_mass_ratio")
def _(c):
    m1, m2, q = masses(c)
    cardano(c, q)
    c.ensure_eq('mass_ratio', cv.chirp_mass_and_primary_mass_to_mass_ratio(spec(m1, m2)['chirp_mass'], m1), q)


@contract("P04", "mass_2_and_chirp_mass_to_mass_ratio")
def _(c):
    m1, m2, q = masses(c)
    if c.sym:
        # the root of the depressed cubic is w = sqrt(3 (1 + q)) / 2, with cosh(3 acosh w) / cos(3 acos w) = 4 w^3 - 3 w
        w = (3 * (1 + q)) ** 0.5 / 2
        if 3 * q == 1:
            pass
        elif 3 * q > 1:
            c.root_hint(w + (w * w - 1) ** 0.5, 3)
        else:
            c.triple_hint(w)
    c.ensure_eq('mass_ratio', cv.mass_2_and_chirp_mass_to_mass_ratio(m2, spec(m1, m2)['chirp_mass']), q)


def modular(c, m1, m2, q):
    """callees whose own contracts are above are used through those contracts"""
    if not c.sym:
        return

    def one(mass_1, chirp_mass):
        c.ensure_eq('callee-pre:mass_1', mass_1, m1)
        c.ensure_eq('callee-pre:chirp_mass', chirp_mass, spec(m1, m2)['chirp_mass'])
        return q

    def two(mass_2, chirp_mass):
        c.ensure_eq('callee-pre:mass_2', mass_2, m2)
        c.ensure_eq('callee-pre:chirp_mass', chirp_mass, spec(m1, m2)['chirp_mass'])
        return q

    def eta(symmetric_mass_ratio):
        c.ensure_eq('callee-pre:symmetric_mass_ratio', symmetric_mass_ratio, spec(m1, m2)['symmetric_mass_ratio'])
        return q
    c.callee(cv, 'mass_1_and_chirp_mass_to_mass_ratio', one)
    c.callee(cv, 'mass_2_and_chirp_mass_to_mass_ratio', two)
    c.callee(cv, 'symmetric_mass_ratio_to_mass_ratio', eta)


PAIRS = [("mass_1", "mass_2"), ("mass_1", "total_mass"), ("mass_1", "mass_ratio"), ("mass_1", "symmetric_mass_ratio"),
         ("mass_1", "chirp_mass"), ("mass_2", "total_mass"), ("mass_2", "mass_ratio"),
         ("mass_2", "symmetric_mass_ratio"), ("mass_2", "chirp_mass"), ("total_mass", "mass_ratio"),
         ("total_mass", "symmetric_mass_ratio"), ("total_mass", "chirp_mass"), ("chirp_mass", "mass_ratio"),
         ("chirp_mass", "symmetric_mass_ratio")]


def _mk(pair, source):
    suf = "_source" if source else ""

    def key(k):
        return k + suf if k in ("mass_1", "mass_2", "chirp_mass", "total_mass") else k

    @contract("P04", "generate_mass_parameters[%s,%s%s]" % (pair + (suf,)))
    def _(c):
        m1, m2, q = masses(c)
        if not c.sym and 'mass_ratio' not in pair:
            c.assume(q < 1 - 1e-9)    # rounding: eta computed from q = 1 may exceed 1/4 by one ulp
        full = dict(spec(m1, m2), mass_1=m1, mass_2=m2)
        other = c.real('other')
        sample = {key(k): full[k] for k in pair}
        sample['luminosity_distance'] = other
        modular(c, m1, m2, q)
        before = dict(sample)
        out = cv.generate_component_masses(sample, require_add=True, source=source)
        c.ensure_eq('mass_1', out[key('mass_1')], m1, rtol=1e-4, atol=1e-6)
        c.ensure_eq('mass_2', out[key('mass_2')], m2, rtol=1e-4, atol=1e-6)
        c.ensure('input-unchanged', sample.keys() == before.keys() and all(sample[k] is before[k] for k in before))
        for k in before:
            c.ensure('supplied-kept', out[k] is before[k])
        out = cv.generate_mass_parameters(sample, source=source)
        for k in full:
            c.ensure_eq('filled-' + k, out[key(k)], full[k], rtol=1e-4, atol=1e-6)
        c.ensure('generate-input-unchanged', sample.keys() == before.keys() and
                 all(sample[k] is before[k] for k in before))
        for k in before:
            c.ensure('generate-supplied-kept', out[k] is before[k])
        c.ensure('no-extra-keys', set(out) == set(before) | {key(k) for k in full})


for _p in PAIRS:
    for _s in (False, True):
        _mk(_p, _s)


@contract("P04", "generate_component_masses[insufficient]")
def _(c):
    source = c.choice('source', [False, True])
    k = c.choice('key', [(), ('mass_1',), ('mass_2',), ('chirp_mass',), ('total_mass',), ('mass_ratio',),
                         ('symmetric_mass_ratio',), ('mass_ratio', 'symmetric_mass_ratio')])
    suf = "_source" if source else ""
    sample = {(x + suf if 'ratio' not in x else x): c.pos('v' + x) for x in k}
    before = dict(sample)
    out = cv.generate_component_masses(sample, require_add=False, source=source)
    c.ensure('returned-unchanged', out == before and sample == before)
    c.ensure('required-raises', c.raises(KeyError, cv.generate_component_masses, sample, True, source))
