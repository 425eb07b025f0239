"""Fresnel reflectance"""
from symx.reg import harness
from harness.hu import *
from pytracer.reflection import FresnelDielectric, FresnelConductor, FresnelFullReflect, fr_diel, fr_cond
from pytracer.spectral import Spectrum

META = {
    'bounds': 'indices of refraction in [1, 3], cosines in [-1, 1] (at least 0.001 from where the light is just totally reflected), conductor indices and absorptions in [0.05, 10]',
    'outside': 'indices below 1 on either side; equality with the exact conductor formula (the code states an approximation); floating-point rounding',
}


def indices(c):
    return c.real('ei', 1, 3), c.real('et', 1, 3)


@harness('C23', params=[1, -1], ite=False)
def range_(c, side):
    """reflectance is between zero and one, also for total reflection"""
    a, b = indices(c)
    x = side * c.real('cos', 0.001, 1)
    F = FresnelDielectric(a, b)(x)
    c.check_ge(F, 0., 'at least zero')
    c.check_le(F, 1., 'at most one')


def snell(c):
    """cosine before and beyond, index before and beyond, of light that is refracted"""
    x, s = c.unit_vec2('before')
    y, t = c.unit_vec2('beyond')
    for v in (x, s, y, t):
        c.assume(v >= 0.01)
    c.square(s)
    c.square(y)
    c.square(t)
    m = c.real('m', 0.1, 300)
    return x, y, m * t, m * s


@harness('C23', params=[1, -1], ite=False)
def formula(c, side):
    """Fresnel's equations with Snell's law, seen from either side"""
    x, y, n, m = snell(c)
    F = FresnelDielectric(*((n, m) if side > 0 else (m, n)))(side * x)
    ra, rb = m * x - n * y, m * x + n * y
    pa, pb = n * x - m * y, n * x + m * y
    c.check_eq(2. * F * rb * rb * pb * pb, ra * ra * pb * pb + pa * pa * rb * rb, 'mean of the polarisations')


@harness('C23', params=[1, -1], ite=False)
def total(c, side):
    """light beyond the critical angle is reflected entirely"""
    x, s = c.unit_vec2('before')
    c.assume(s >= 0.01)
    c.assume(x >= 0.01)
    c.square(s)
    m = c.real('m', 1, 3)
    n = m * c.real('k', 1.001, 10) / s
    F = FresnelDielectric(*((n, m) if side > 0 else (m, n)))(side * x)
    c.check_eq(F, 1., 'total reflection')


@harness('C23', ite=False)
def reversible(c):
    """light travelling back along the refracted ray is reflected alike"""
    x, y, a, b = snell(c)
    G = FresnelDielectric(a, b)
    c.check_eq(G(x), G(-y), 'the same from the other side')
    c.check_eq(G(x), FresnelDielectric(b, a)(y), 'the same with the media exchanged')
    c.check_eq(G(x), FresnelDielectric(b, a)(-x), 'sides are told by the sign')


@harness('C23', ite=False)
def special(c):
    """perpendicular and grazing light, and media that are the same"""
    a, b = indices(c)
    F = FresnelDielectric(a, b)
    d, s = a - b, a + b
    for x in (1., -1.):
        c.check_eq(F(x) * s * s, d * d, 'perpendicular')
    c.check_eq(F(1.5), F(1.), 'cosines are clamped')
    x = c.real('cos', 0.001, 1)
    c.check_eq(FresnelDielectric(a, a)(x), 0., 'no surface')
    c.check_eq(FresnelDielectric(a, a)(-x), 0., 'no surface, from inside')
    c.assume(b > a + 0.01)
    c.check_eq(F(0.), 1., 'grazing')
    k = b / c.sqrt(a * a + b * b)         # sine at Brewster's angle
    x = a / c.sqrt(a * a + b * b)
    p = (b * b - a * a) / (a * a + b * b)
    c.check_eq(F(x), p * p / 2., "only one polarisation at Brewster's angle")


@harness('C23', ite=False)
def fresnel_function(c):
    """the function of both cosines, for numbers and for spectra"""
    a, b = indices(c)
    x, y = c.real('cos', 0.01, 1), c.real('cost', 0.01, 1)
    F = fr_diel(x, y, a, b)
    ra, rb = b * x - a * y, b * x + a * y
    pa, pb = a * x - b * y, a * x + b * y
    c.check_eq(2. * F * rb * rb * pb * pb, ra * ra * pb * pb + pa * pa * rb * rb, 'mean of the polarisations')
    G = fr_diel(x, y, Spectrum(a), Spectrum(b))
    c.check_eq(lst(G), [F, F, F], 'by component')


@harness('C23', ite=False)
def conductor(c):
    """conductors: in range, equal from both sides, perpendicular and grazing light"""
    e, k = c.real('eta', 0.05, 10), c.real('k', 0.05, 10)
    x = c.real('cos', 0, 1)
    F = FresnelConductor(e, k)
    v = F(x)
    c.check_ge(v, 0., 'at least zero')
    c.check_le(v, 1., 'at most one')
    c.check_eq(F(-x), v, 'from either side')
    c.check_eq(F(0.), 1., 'grazing')
    c.check_eq(F(1.) * ((e + 1.) * (e + 1.) + k * k), (e - 1.) * (e - 1.) + k * k, 'perpendicular')
    # the approximation documented: squared amplitudes of each polarisation
    t = e * e + k * k
    c.check_eq(2. * v * (t * x * x + 2. * e * x + 1.) * (t + 2. * e * x + x * x),
               (t * x * x - 2. * e * x + 1.) * (t + 2. * e * x + x * x) + (t - 2. * e * x + x * x) * (t * x * x + 2. * e * x + 1.), 'mean of the polarisations')
    e2, k2 = c.real('eta2', 0.05, 10), c.real('k2', 0.05, 10)
    S = FresnelConductor(Spectrum.create_from_list([e, e2, e]), Spectrum.create_from_list([k, k2, k]))(x)
    c.check_eq(lst(S), [v, FresnelConductor(e2, k2)(x), v], 'by component')


@harness('C23', ite=False)
def full(c):
    """a perfect mirror reflects everything"""
    x = c.real('cos', -1, 1)
    c.check_eq(lst(FresnelFullReflect()(x)), [1., 1., 1.], 'everything')
