"""Specular reflection and transmission"""
from symx.reg import harness
from harness.hu import *
from pytracer.reflection import SpecularReflection, SpecularTransmission, FresnelDielectric, FresnelFullReflect, BDFType
from pytracer.spectral import Spectrum

META = {
    'bounds': 'all directions with a cosine of at least 0.02, from either side; ratios of the indices between 0.05 and 20 for refraction; reflectances and transmittances in [0, 1]',
    'outside': 'directions in the surface; the critical angle itself; floating-point rounding',
    'assumptions': "Fresnel terms are stand-ins where the direction matters only; Fresnel's equations are the subject of C23",
}


def spec(c, n):
    v = [c.real('%s%d' % (n, i), 0, 1) for i in range(3)]
    return v, Spectrum.create_from_list(v)


class Fr(object):
    def __call__(self, x):
        return 0.5 + x * 0.25


@harness('C26', params=[1, -1], ite=False)
def mirror(c, side):
    """reflection in the surface, with all of the light left by the Fresnel term"""
    v, s = spec(c, 'r')
    o = uvec(c, 'o')
    c.assume(side * o[2] >= 0.02)
    b = SpecularReflection(s, Fr())
    u = c.real('u1', 0, 1), c.real('u2', 0, 1)
    pdf, i, f = b.sample_f(o, *u)
    c.check_eq(lst(i), [-o[0], -o[1], o[2]], 'direction')
    c.check_eq(pdf, 1., 'density')
    c.check_eq([x * side * i[2] for x in f], [x * (0.5 + 0.25 * o[2]) for x in v], 'light')
    c.check_eq(lst(b.sample_f(i, *u)[1]), lst(o), 'reversible')
    w = uvec(c, 'w')
    c.check(b.f(o, w).is_black() and b.pdf(o, w) == 0., 'nothing else')
    c.check(b.type == BDFType.REFLECTION | BDFType.SPECULAR, 'type')


def refracted(c, side):
    x, s = c.unit_vec2('before')
    y, t = c.unit_vec2('beyond')
    for v in (x, s, y, t):
        c.assume(v >= 0.02)
    for v in (s, y, t):
        c.square(v)
    m = c.real('m', 0.1, 300)
    n, m = m * t, m * s                    # index on the side of the viewer, and beyond
    p, q = c.choice('azimuth', [[1., 0.], [-0.6, 0.8], [0.28, -0.96]])
    o = geo.Vector(s * p, s * q, side * x)
    ei, et = (n, m) if side > 0 else (m, n)
    return o, [-t * p, -t * q, -side * y], ei, et, n, m, x, y


@harness('C26', params=[1, -1], ite=False)
def refraction(c, side):
    """transmission by Snell's law to the other side, with all the light that is not reflected, scaled by the squared ratio of the indices"""
    v, sp = spec(c, 't')
    o, want, ei, et, n, m, x, y = refracted(c, side)
    b = SpecularTransmission(sp, ei, et)
    F = FresnelDielectric(ei, et)(side * x)
    pdf, i, f = b.sample_f(o, 0.5, 0.5)
    c.check_eq(lst(i), want, 'direction')
    c.check_eq(pdf, 1., 'density')
    c.check_eq([e * y * m * m for e in f], [e * (1. - F) * n * n for e in v], 'light')
    w = uvec(c, 'w')
    c.check(b.f(o, w).is_black() and b.pdf(o, w) == 0., 'nothing else')
    c.check(b.type == BDFType.TRANSMISSION | BDFType.SPECULAR, 'type')


@harness('C26', params=[1, -1], ite=False)
def reversible(c, side):
    """light travels the refracted path both ways"""
    o, want, ei, et, n, m, x, y = refracted(c, side)
    b = SpecularTransmission(Spectrum(1.), ei, et)
    pdf, i, f = b.sample_f(geo.Vector(*want), 0.5, 0.5)
    c.check_eq(lst(i), lst(o), 'back')
    c.check_eq(f[0] * x * n * n, (1. - FresnelDielectric(ei, et)(side * x)) * m * m, 'light')


@harness('C26', params=[1, -1], ite=False)
def straight(c, side):
    """equal media let light pass unchanged"""
    v, sp = spec(c, 't')
    o = uvec(c, 'o')
    c.assume(side * o[2] >= 0.02)
    e = c.real('e', 1, 3)
    z = o[2]
    c.square(z)
    pdf, i, f = SpecularTransmission(sp, e, e).sample_f(o, 0., 0.)
    c.check_eq(lst(i), [-o[0], -o[1], -o[2]], 'direction')
    c.check_eq([x * side * z for x in f], v, 'light')


@harness('C26', params=[1, -1], ite=False)
def total(c, side):
    """nothing passes beyond the critical angle"""
    x, s = c.unit_vec2('before')
    c.assume(s >= 0.02)
    c.assume(x >= 0.02)
    c.square(s)
    m = c.real('m', 1, 3)
    n = m * c.real('k', 1.001, 10) / s
    ei, et = (n, m) if side > 0 else (m, n)
    pdf, i, f = SpecularTransmission(Spectrum(1.), ei, et).sample_f(geo.Vector(0.6 * s, 0.8 * s, side * x), 0.5, 0.5)
    c.check(pdf == 0., 'no density')


@harness('C26', params=[1, -1], ite=False)
def balance(c, side):
    """what a surface reflects and lets through adds up to all of the light"""
    o, want, ei, et, n, m, x, y = refracted(c, side)
    _, i, f = SpecularReflection(Spectrum(1.), FresnelDielectric(ei, et)).sample_f(o, 0.5, 0.5)
    _, j, g = SpecularTransmission(Spectrum(1.), ei, et).sample_f(o, 0.5, 0.5)
    c.check_eq(f[0] * x * n * n + g[0] * y * m * m, n * n, 'sum')
    _, i, f = SpecularReflection(Spectrum(1.), FresnelFullReflect()).sample_f(o, 0.5, 0.5)
    c.check_eq(f[0] * x, 1., 'perfect mirror')
