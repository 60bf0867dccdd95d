"""Prior families shared by the P01 / P02 / P03 contracts: how to build a valid symbolic instance of each."""
import numpy as np
import bilby.core.prior as bp
import bilby.gw.prior as gp
INF = np.inf


class Fam(object):
    """lo/hi: end points of the support (None = infinite); closed: density contract valid for all x in (lo,hi)"""

    def __init__(self, name, make, **o):
        self.name = name
        self.make = make
        self.o = o

    def __getattr__(self, k):
        if k in ("o",):
            raise AttributeError(k)
        return self.o.get(k)


def _powerlaw(c):
    lo = c.pos('minimum')
    hi = c.real('maximum', lo, open=True)
    a = c.real('alpha', special=[-1.0, 0.0, 1.0, 2.0, -2.0])
    c.split(a < -1, a == -1)
    return bp.PowerLaw(a, lo, hi)


def _uniform(c):
    lo = c.real('minimum')
    return bp.Uniform(lo, c.real('maximum', lo, open=True))


def _loguniform(c):
    lo = c.pos('minimum')
    return bp.LogUniform(lo, c.real('maximum', lo, open=True))


def _symlog(c):
    lo = c.pos('minimum')
    return bp.SymmetricLogUniform(lo, c.real('maximum', lo, open=True))


def _cosine(c):
    lo = c.real('minimum', -np.pi / 2, np.pi / 2)
    hi = c.real('maximum', lo, np.pi / 2, lo_open=True)
    return bp.Cosine(lo, hi)


def _sine(c):
    lo = c.real('minimum', 0, np.pi)
    hi = c.real('maximum', lo, np.pi, lo_open=True)
    return bp.Sine(lo, hi)


def _trunc(c):
    mu = c.real('mu')
    s = c.pos('sigma')
    lo = c.real('minimum')
    hi = c.real('maximum', lo, open=True)
    if not c.sym:
        # numerically meaningful range of erf/erfinv (the proof has no such restriction)
        c.assume(abs(lo - mu) < 3.5 * s and abs(hi - mu) < 3.5 * s)
        c.assume(hi - lo > 1e-3 * s)
    return bp.TruncatedGaussian(mu, s, lo, hi)


def _beta(c):
    a = c.pos('alpha')
    b = c.pos('beta')
    lo = c.real('minimum')
    hi = c.real('maximum', lo, open=True)
    return bp.Beta(a, b, lo, hi)


def _triangular(c):
    lo = c.real('minimum')
    hi = c.real('maximum', lo, open=True)
    mode = c.real('mode', lo, hi)
    c.split(mode == lo, mode == hi)
    return bp.Triangular(mode, lo, hi)


FAMILIES = [
    Fam("PowerLaw", _powerlaw, cost=9, pos=True),
    Fam("Uniform", _uniform),
    Fam("LogUniform", _loguniform, pos=True),
    Fam("SymmetricLogUniform", _symlog, support=lambda p, x, c: c.either(
        c.both(-p.maximum <= x, x <= -p.minimum), c.both(p.minimum <= x, x <= p.maximum)),
        lo=lambda p: -p.maximum, kinks=lambda p: [-p.minimum, p.minimum], closed01=True),
    Fam("Cosine", _cosine),
    Fam("Sine", _sine),
    Fam("Gaussian", lambda c: bp.Gaussian(c.real('mu'), c.pos('sigma')), unbounded=True),
    Fam("TruncatedGaussian", _trunc),
    Fam("HalfGaussian", lambda c: bp.HalfGaussian(c.pos('sigma')), unbounded=True),
    Fam("LogNormal", lambda c: bp.LogNormal(c.real('mu', scale=1.0), c.pos('sigma')), unbounded=True),
    Fam("Exponential", lambda c: bp.Exponential(c.pos('mu')), unbounded=True),
    Fam("StudentT", lambda c: bp.StudentT(c.pos('df'), c.real('mu'), c.pos('scale')), unbounded=True),
    Fam("Beta", _beta),
    Fam("Logistic", lambda c: bp.Logistic(c.real('mu'), c.pos('scale')), unbounded=True),
    Fam("Cauchy", lambda c: bp.Cauchy(c.real('alpha'), c.pos('beta')), unbounded=True),
    Fam("Gamma", lambda c: bp.Gamma(c.pos('k'), c.pos('theta')), unbounded=True),
    Fam("ChiSquared", lambda c: bp.ChiSquared(c.integer('nu', 1)), unbounded=True),
    Fam("FermiDirac", lambda c: bp.FermiDirac(sigma=c.pos('sigma'), mu=c.pos('mu')), unbounded=True, nocdf=True, noupper=True),
    Fam("FermiDirac-r", lambda c: bp.FermiDirac(sigma=c.pos('sigma'), r=c.pos('r')), unbounded=True, nocdf=True, noupper=True),
    Fam("Triangular", _triangular, kinks=lambda p: [p.mode]),
    Fam("UniformInComponentsChirpMass", lambda c: _uicm(c), cost=2, pos=True),
]


def _uicm(c):
    lo = c.pos('minimum')
    return gp.UniformInComponentsChirpMass(lo, c.real('maximum', lo, open=True))
