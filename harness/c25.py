"""Reflection models"""
import math
from symx.reg import harness
from harness.hu import *
from pytracer.reflection import (Lambertian, Microfacet, Blinn, Anisotropic, FresnelBlend, ScaledBDF, BRDF2BTDF, BDF, BDFType,
                                 IrIsotropicBRDF, IrIsotropicBRDFSample, ReHalfangleBRDF, brdf_remap, SpecularReflection, SpecularTransmission)
from pytracer.reflection.bdf.orennayar import OrenNayar
from pytracer.reflection.utility import cos_theta, abs_cos_theta, sin_theta_sq, sin_theta, cos_phi, sin_phi
from pytracer.spectral import Spectrum

META = {
    'bounds': 'unit directions with cosines to the normal of at least 0.05; exponents 0, 1, 2, 3, 7 and 20; reflectances in [0, 1]; roughness 0, 20 and 90 degrees; random numbers in [0.01, 0.99]; '
              'tables of 4 by 3 by 5 entries; up to 4 measured samples',
    'outside': 'that densities of microfacet distributions integrate to one over directions above the surface (samples below carry no light and are counted); exactly opposite directions; '
               'energy conservation of microfacet models; reading of measurement files; floating-point rounding',
    'assumptions': 'Fresnel terms and microfacet distributions are stand-ins where the other is checked; powers with varying exponents are axiomatised',
}


def direction(c, n, side=1):
    v = uvec(c, n)
    c.assume(side * v[2] >= 0.05)
    return v


def spec(c, n, lo=0, hi=1):
    v = [c.real('%s%d' % (n, i), lo, hi) for i in range(3)]
    return v, Spectrum.create_from_list(v)


@harness('C25')
def frame_functions(c):
    """sine and cosine of the polar angle and the azimuth of a local direction"""
    w = uvec(c, 'w')
    x, y, z = w
    c.check_eq(cos_theta(w), z, 'cosine')
    c.check_eq(abs_cos_theta(w) * abs_cos_theta(w), z * z, 'cosine without sign')
    c.check_ge(abs_cos_theta(w), 0., 'cosine without sign')
    c.check_eq(sin_theta_sq(w), x * x + y * y, 'squared sine')
    s = sin_theta(w)
    c.check_eq(s * s, x * x + y * y, 'sine')
    c.check_ge(s, 0., 'sine')
    c.assume(x * x + y * y >= 0.0001)
    c.check_eq(cos_phi(w) * s, x, 'cosine of the azimuth')
    c.check_eq(sin_phi(w) * s, y, 'sine of the azimuth')


@harness('C25')
def at_pole(c):
    """azimuth at the poles"""
    for z in (1., -1.):
        w = geo.Vector(0., 0., z)
        c.check_eq([cos_phi(w), sin_phi(w), sin_theta(w)], [1., 0., 0.], 'zero azimuth')


@harness('C25')
def lambertian(c):
    """diffuse surfaces reflect alike in all directions"""
    v, s = spec(c, 'r')
    b = Lambertian(s)
    c.check_eq(lst(b.f(direction(c, 'o'), direction(c, 'i'))), [e / np.pi for e in v], 'value')
    c.check_eq(lst(b.rho_hd(direction(c, 'o'), [])) + lst(b.rho_hh(1, [], [])), v + v, 'reflectances')
    k = c.real('k', 0, 1)
    c.check_eq(lst(Lambertian(k).f(direction(c, 'o'), direction(c, 'i'))), [k / np.pi] * 3, 'of a number')
    c.check(b.type == BDFType.REFLECTION | BDFType.DIFFUSE, 'type')


def azimuths(c, st_o, st_i, flip):
    p, q = c.unit_vec2('ao'), c.unit_vec2('ai')
    return p, q, geo.Vector(st_o[1] * p[0], st_o[1] * p[1], flip[0] * st_o[0]), geo.Vector(st_i[1] * q[0], st_i[1] * q[1], flip[1] * st_i[0])


@harness('C25', ite=False, params=[[s, f] for s in (0., 20., 90.) for f in ([1, 1], [-1, -1])])
def oren_nayar(c, p):
    """the qualitative model with its two constants, equal both ways and never negative"""
    sig, flip = p
    v, s = spec(c, 'r')
    b = OrenNayar(s, sig)
    a = sig * np.pi / 180.
    A, B = 1. - a * a / (2. * (a * a + 0.33)), 0.45 * a * a / (a * a + 0.09)
    to, ti = c.unit_vec2('to'), c.unit_vec2('ti')      # cosine and sine of the polar angles
    for t in (to, ti):
        c.assume(t[0] >= 0.05)
        c.assume(t[1] >= 0.01)
        c.square(t[1])
    po, pi, wo, wi = azimuths(c, to, ti, flip)
    d = po[0] * pi[0] + po[1] * pi[1]
    f = b.f(wo, wi)
    g = b.f(wi, wo)
    inside = to[0] > ti[0]
    al, be = (ti, to) if bool(inside) else (to, ti)
    if bool(d > 0.):
        want = A * be[0] + B * d * al[1] * be[1]
    else:
        want = A * be[0]
    c.check_eq([x * np.pi * be[0] for x in f], [e * want for e in v], 'value')
    for i in range(3):
        c.check_ge(f[i], 0., 'not negative')
    if sig == 0.:
        c.check_eq(lst(f), [e / np.pi for e in v], 'smooth is diffuse')
    c.check_eq([x * np.pi * be[0] for x in g], [e * want for e in v], 'value the other way')


@harness('C25', params=[0., 20.])
def oren_nayar_pole(c, sig):
    """perpendicular light"""
    b = OrenNayar(Spectrum(1.), sig)
    a = sig * np.pi / 180.
    A = 1. - a * a / (2. * (a * a + 0.33))
    w = direction(c, 'w')
    n = geo.Vector(0., 0., 1.)
    c.check_eq(lst(b.f(w, n)) + lst(b.f(n, w)), [A / np.pi] * 6, 'value')


class Fr(object):
    """stand-in Fresnel term"""

    def __call__(self, x):
        return 0.25 + x * 0.5


class Dist(object):
    """stand-in distribution"""

    def __init__(self, wi=None, p=None):
        self.wi = wi
        self.p = p

    def D(self, w):
        return 2. + w[0] + w[1] * w[1]

    def sample_f(self, wo, u1, u2):
        self.u = (u1, u2)
        return [self.p, self.wi]

    def pdf(self, wo, wi):
        return self.p


HALF = [([0., 0., 1.], [1., 0., 0.]), ([0.6, 0., 0.8], [0.8, 0., -0.6]), ([0.48, -0.6, 0.64], [0.8, 0., -0.6]), ([-0.28, 0.576, 0.768], [0., 0.8, -0.6])]


def half(c, side=1):
    """outgoing, incident and half direction, cosine between; by the half direction, the plane and the angle"""
    h, t = c.choice('half', HALF)
    b = [round(x, 9) for x in cross3(h, t)]
    p, q = c.choice('plane', [[1., 0.], [0.6, 0.8], [-0.8, 0.6], [0., -1.]])
    t = [round(p * t[j] + q * b[j], 9) for j in range(3)]
    k, m = c.unit_vec2('angle')
    c.assume(k >= 0.05)
    c.assume(m >= 0.)
    o = [side * (k * h[j] + m * t[j]) for j in range(3)]
    i = [side * (k * h[j] - m * t[j]) for j in range(3)]
    c.assume(side * o[2] >= 0.05)
    c.assume(side * i[2] >= 0.05)
    c.square(k)
    return geo.Vector(*o), geo.Vector(*i), [side * x for x in h], k


@harness('C25', params=[1, -1], ite=False)
def microfacet(c, side):
    """distribution times shadowing times Fresnel over four cosines, both ways, never negative"""
    v, s = spec(c, 'r')
    o, i, h, k = half(c, side)
    d = Dist()
    f = Microfacet(s, Fr(), d).f(o, i)
    g = Microfacet(s, Fr(), d).f(i, o)
    a, b = 2. * side * h[2] * side * o[2], 2. * side * h[2] * side * i[2]
    if bool(c.both(a >= k, b >= k)):
        G = k
    elif bool(a <= b):
        G = a
    else:
        G = b
    m = 4. * o[2] * i[2] * k
    c.check_eq([x * m for x in f], [e * (2. + h[0] + h[1] * h[1]) * G * (0.25 + 0.5 * k) for e in v], 'value')
    c.check_eq([x * m for x in g], [e * (2. + h[0] + h[1] * h[1]) * G * (0.25 + 0.5 * k) for e in v], 'value the other way')


@harness('C25', ite=False)
def microfacet_sides(c):
    """nothing negative for directions on different sides, and no density there"""
    k, m = c.unit_vec2('angle')
    c.assume(k >= 0.05)
    c.assume(m >= 0.05)
    c.square(k)
    x, z = c.choice('half', [[0.8, 0.6], [0.96, 0.28], [1., 0.]])
    h = [x, 0., z]
    o, i = geo.Vector(k * x - m * z, 0., k * z + m * x), geo.Vector(k * x + m * z, 0., k * z - m * x)
    c.assume(i[2] <= -0.01)
    d = Dist(i, c.real('p', 0.01, 10))
    b = Microfacet(Spectrum(1.), Fr(), d)
    c.check_ge(b.f(o, i)[0], 0., 'not negative')
    c.check_eq(b.pdf(o, i), 0., 'no density')
    u1, u2 = c.real('u1', 0, 1), c.real('u2', 0, 1)
    pdf, w, f = b.sample_f(o, u1, u2)
    c.check(f.is_black(), 'no light')
    c.check_eq(list(d.u), [u1, u2], 'random numbers')


@harness('C25', ite=False, params=[1, -1])
def microfacet_sample(c, side):
    """samples are those of the distribution, with their value"""
    o, i, h, k = half(c, side)
    d = Dist(i, c.real('p', 0.01, 10))
    m = Microfacet(Spectrum(1.), Fr(), d)
    pdf, w, f = m.sample_f(o, 0.5, 0.25)
    c.check_eq(lst(w) + [pdf, m.pdf(o, i)], lst(i) + [d.p, d.p], 'direction and density')
    c.check_eq(lst(f), lst(m.f(o, i)), 'value')


EXP = [0., 1., 2., 3., 7., 20.]


@harness('C25', params=[[e, s] for e in EXP for s in (1, -1)], ite=False)
def blinn(c, p):
    """the lobe is the power of the cosine, normalised; sampled directions are reflected about half directions drawn with the density reported"""
    e, side = p
    D = Blinn(e)
    z, s = c.unit_vec2('t')
    c.assume(side * z >= 0.05)
    h = geo.Vector(0.6 * s, 0.8 * s, z)
    n = int(e)
    z = np.fabs(h[2])
    pw = 1.
    for _ in range(n):
        pw = pw * z
    c.check_eq(D.D(h) * 2. * np.pi, (e + 2.) * pw, 'distribution')
    o, i, h, k = half(c, side)
    pw = 1.
    for _ in range(n):
        pw = pw * (side * h[2])
    c.check_eq(D.pdf(o, i) * 8. * np.pi * k, (e + 1.) * pw, 'density')


@harness('C25', params=[[e, s] for e in EXP[:4] for s in (1, -1)], ite=False)
def blinn_sample(c, p):
    """directions are reflected about half directions, whose cosine to the power of one more than the exponent is the random number"""
    e, side = p
    n = int(e)
    t = c.real('t', 0.05, 0.99)
    u = t
    for _ in range(n):
        u = u * t
    ph = c.choice('phi', [0.125, 0.3, 0.6, 0.9])
    o = geo.Vector(*c.choice('o', [[0.6, 0., 0.8 * side], [0., -0.96, 0.28 * side]]))
    pdf, i = Blinn(e).sample_f(o, u, ph)
    s = c.sqrt(1. - t * t)
    h = [side * s * np.cos(2. * np.pi * ph), side * s * np.sin(2. * np.pi * ph), side * t]
    k = dot3(o, h)
    c.assume(c.either(k >= 0.01, k <= -0.01))
    c.check_eq(lst(i), [2. * k * h[j] - o[j] for j in range(3)], 'reflected about the half direction')
    if bool(k > 0.):
        pw = 1.
        for _ in range(n):
            pw = pw * t
        c.check_eq(pdf * 8. * np.pi * k, (e + 1.) * pw, 'density')
    else:
        c.check_eq(pdf, 0., 'no density below')


def quadrants(c, ex, ey):
    q, v = c.choice('place', [[0, 0.5], [1, 0.5], [2, 0.5], [3, 0.5]] if ex == ey else [[0, 0.5], [2, 0.5]] if c.tier == 'quick' else [[q, v] for q in range(4) for v in (0.125, 0.5, 0.75)])
    u = [v / 4., (2. - v) / 4., (2. + v) / 4., (4. - v) / 4.][q]
    return v, u, [1, -1, -1, 1][q], [1, 1, -1, -1][q]


@harness('C25', params=[[[1., 1.], 1], [[3., 3.], -1], [[2., 6.], 1]], thorough={'params': [[e, s] for e in ([1., 1.], [3., 3.], [2., 6.], [7., 1.], [0., 3.]) for s in (1, -1)]}, ite=False)
def anisotropic_sample(c, p):
    """half directions are drawn quadrant by quadrant with the azimuth stretched by the exponents, and the density reported is that looked up"""
    (ex, ey), side = p
    D = Anisotropic(ex, ey)
    v, u, sx, sy = quadrants(c, ex, ey)
    o = geo.Vector(0.36, 0.48, 0.8 * side)
    u2 = c.real('u2', 0.05, 0.95)
    pdf, i = D.sample_f(o, u, u2)
    th = np.arctan(np.sqrt((ex + 1.) / (ey + 1.)) * np.tan(np.pi * v / 2.))
    cp, sp = sx * np.cos(th), sy * np.sin(th)
    E = ex * cp * cp + ey * sp * sp
    t = np.power(u2, 1. / (E + 1.))
    s = np.sqrt(1. - t * t)
    h = [side * s * cp, side * s * sp, side * t]
    k = dot3(o, h)
    c.assume(c.either(k >= 0.01, k <= -0.01))
    c.check_eq(lst(i), [2. * k * h[j] - o[j] for j in range(3)], 'reflected about the half direction', tol=1e-5)
    if bool(k > 0.):
        c.check_eq(pdf * 8. * np.pi * k, np.sqrt((ex + 1.) * (ey + 1.)) * np.power(t, E), 'density', tol=1e-5)
    else:
        c.check_eq(pdf, 0., 'no density below')


@harness('C25', params=[[1., 1.], [3., 3.], [2., 6.]], ite=False)
def anisotropic(c, p):
    """the distribution is a power of the cosine with the exponent of the azimuth"""
    ex, ey = p
    D = Anisotropic(ex, ey)
    x, y = c.choice('azimuth', [[1., 0.], [0., -1.]] + ([[0.6, 0.8], [-0.8, 0.6]] if ex == ey else []))
    t = c.unit_vec2('t')
    c.assume(t[0] >= 0.05)
    c.assume(t[1] >= 0.05)
    h = geo.Vector(t[1] * x, t[1] * y, t[0])
    E = ex * x * x + ey * y * y
    c.check_eq(D.D(h) * 2. * np.pi, np.sqrt((ex + 2.) * (ey + 2.)) * np.power(t[0], E), 'distribution', tol=1e-5)
    c.check_eq(D.D(geo.Vector(0., 0., 1.)), 0., 'not told at the pole')
    # light that comes back the way it went
    c.check_eq(D.pdf(h, h) * 8. * np.pi, np.sqrt((ex + 1.) * (ey + 1.)) * np.power(t[0], E), 'density', tol=1e-5)


@harness('C25', params=[1, -1], ite=False)
def blend(c, side):
    """diffuse under a glossy coat: both terms, both ways"""
    (dv, d), (sv, s) = spec(c, 'd'), spec(c, 's')
    o, i, h, k = half(c, side)
    b = FresnelBlend(d, s, Dist())
    f, g = b.f(o, i), b.f(i, o)
    a, z = 1. - 0.5 * side * i[2], 1. - 0.5 * side * o[2]
    e = 1. - k
    e5, a5, z5 = e * e * e * e * e, a * a * a * a * a, z * z * z * z * z
    m = side * (i[2] if bool(side * i[2] > side * o[2]) else o[2])
    want = [(28. / (23. * np.pi)) * x * (1. - y) * (1. - a5) * (1. - z5) * 4. * k * m + (2. + h[0] + h[1] * h[1]) * (y + e5 * (1. - y)) for x, y in zip(dv, sv)]
    c.check_eq([x * 4. * k * m for x in f], want, 'value')
    c.check_eq([x * 4. * k * m for x in g], want, 'value the other way')


@harness('C25', params=[[s, h] for s in (1, -1) for h in ('diffuse', 'glossy', 'lost')], ite=False)
def blend_sample(c, p):
    """half of the samples by cosine and half from the distribution, with the mean density"""
    side, which = p
    q = c.real('p', 0.01, 10)
    o = geo.Vector(0., 0.6, 0.8 * side)
    i = direction(c, 'i', -side if which == 'lost' else side)
    d = Dist(i, q)
    b = FresnelBlend(Spectrum(0.5), Spectrum(0.25), d)
    if which == 'diffuse':
        r, t = c.real('r', 0.01, 0.999), c.real('t', 0.01, 0.99)
        pdf, w, f = b.sample_f(o, (1. - r) / 4., (1. + t * r) / 2.)
        c.check_ge(side * w[2], 0., 'side of the viewer')
        c.check_eq(dot3(w, w), 1., 'unit')
        c.check_eq(2. * pdf * np.pi, side * w[2] + q * np.pi, 'mean density')
        return
    u, u2 = c.real('u', 0.5, 1), c.real('u2', 0, 1)
    pdf, w, f = b.sample_f(o, u, u2)
    c.check_eq(lst(w) + list(d.u), lst(i) + [2. * u - 1., u2], 'from the distribution')
    if which == 'lost':
        c.check(f.is_black(), 'no light')
        c.check_eq(b.pdf(o, i), 0., 'no density')
    else:
        c.check_eq(2. * pdf * np.pi, side * i[2] + q * np.pi, 'mean density')
        c.check_eq(b.pdf(o, i), pdf, 'density looked up')


class Inner(BDF):
    """stand-in for what an adapter holds; tells directions apart"""

    def __init__(self, t, wi):
        super().__init__(t)
        self.wi = wi

    def f(self, wo, wi):
        return Spectrum(wi[2] + 3. * wi[0] + 5. * wo[2] + 7.)

    def sample_f(self, wo, u1, u2):
        return [u1 + 1., self.wi, Spectrum(u2 + wo[2])]

    def pdf(self, wo, wi):
        return 2. + wi[2] + 3. * wi[1] + 5. * wo[2]

    def rho_hd(self, w, s):
        return Spectrum(w[0] + s[0])

    def rho_hh(self, n, a, b):
        return Spectrum(n + a[0] + 2. * b[0])


@harness('C25', params=['btdf', 'scaled'])
def adapters(c, kind):
    """a reflection turned into transmission mirrors the incident direction; a scaled one multiplies values only"""
    o, i = uvec(c, 'o'), uvec(c, 'i')
    u1, u2 = c.real('u1', 0, 1), c.real('u2', 0, 1)
    k, s = spec(c, 'k')
    b = Inner(BDFType.REFLECTION | BDFType.GLOSSY, i)
    m = geo.Vector(i[0], i[1], -i[2])
    if kind == 'btdf':
        a, k, t = BRDF2BTDF(b), [1.] * 3, BDFType.TRANSMISSION | BDFType.GLOSSY
    else:
        a, m, t = ScaledBDF(b, s), i, BDFType.REFLECTION | BDFType.GLOSSY
    c.check(a.type == t, 'type')
    c.check_eq(lst(a.f(o, i)), [x * y for x, y in zip(k, b.f(o, m))], 'value')
    c.check_eq(a.pdf(o, i), b.pdf(o, m), 'density')
    pdf, w, f = a.sample_f(o, u1, u2)
    c.check_eq(lst(w), lst(m), 'direction')
    c.check_eq(pdf, u1 + 1., 'density of the sample')
    c.check_eq(lst(f), [x * (u2 + o[2]) for x in k], 'value of the sample')
    c.check_eq(lst(a.rho_hd(o, [u1])), [x * (o[0] + u1) for x in k], 'directional')
    c.check_eq(lst(a.rho_hh(2, [u1], [u2])), [x * (2. + u1 + 2. * u2) for x in k], 'hemispherical')


AZ = [[0.96, 0.28], [0.6, 0.8], [-0.28, 0.96], [-0.96, 0.28], [-0.8, -0.6], [0.28, -0.96], [0.8, -0.6]]


@harness('C25', params=[[i, j] for i in range(len(AZ)) for j in (0, 2, 3, 5, 6)], ite=False)
def remap(c, p):
    """pairs of directions are told by the products of sines and of cosines and the difference of azimuths, folded; both ways alike"""
    a, b = AZ[p[0]], AZ[p[1]]
    s, t = c.unit_vec2('o'), c.unit_vec2('i')
    for v in (s, t):
        c.assume(v[1] >= 0.05)
        c.square(v[1])
    o = geo.Vector(s[1] * a[0], s[1] * a[1], s[0])
    i = geo.Vector(t[1] * b[0], t[1] * b[1], t[0])
    d = math.acos(max(-1., min(1., a[0] * b[0] + a[1] * b[1])))
    want = [s[1] * t[1], d / math.pi, s[0] * t[0]]
    for x, y, n in ((o, i, ''), (i, o, ' the other way')):
        g = brdf_remap(x, y)
        c.check_eq(g[0], want[0], 'product of sines' + n)
        c.check_eq(g[1], want[1], 'azimuth' + n, tol=1e-5)
        c.check_eq(g[2], want[2], 'product of cosines' + n)


class Tree(object):
    """stand-in for the search tree: a sample turns up from its radius on"""

    def __init__(self, radii):
        self.radii = radii
        self.asked = []

    def query_ball_point(self, m, r):
        self.asked.append((m, r))
        return [k for k in range(len(self.radii)) if self.radii[k] <= r]


@harness('C25', params=[[0.005, 0.006, 0.007, 9.], [0.005, 0.012, 0.5, 0.6], [1.7, 9., 9., 9.], [0.013, 0.013, 0.013, 0.02]], ite=False)
def measured(c, radii):
    """the mean of the samples nearby weighted by distance, over a ball that grows until it holds three of them"""
    o, i = geo.Vector(0.6, 0., 0.8), geo.Vector(0., 0.6, 0.8)
    m = lst(brdf_remap(o, i))
    dist = [c.real('d%d' % k, 0, 1) for k in range(4)]
    pts = [geo.Point(*[m[j] + (dist[k] if j == k % 3 else 0.) for j in range(3)]) for k in range(4)]
    val = [spec(c, 'v%d' % k, 0.01) for k in range(4)]
    data = np.empty(4, dtype=object)
    for k in range(4):
        data[k] = IrIsotropicBRDFSample(pts[k], val[k][1])
    t = Tree(radii)
    f = IrIsotropicBRDF(t, data).f(o, i)
    r = 0.01
    while sum(x <= r for x in radii) < 3 and r <= 1.5:
        r *= 1.414
    c.check(abs(t.asked[-1][1] - r) < 1e-9, 'ball')
    c.check_eq(lst(t.asked[-1][0]), m, 'centre')
    use = [k for k in range(4) if radii[k] <= r]
    if not use:
        return
    w = [np.exp(dist[k] * dist[k] * -100.) for k in use]
    W = sum(w[1:], w[0])
    c.check_eq([x * W for x in f], [sum([w[n] * val[k][0][j] for n, k in enumerate(use)][1:], w[0] * val[use[0]][0][j]) for j in range(3)], 'weighted mean')


NT, ND, NP = 4, 3, 5
DIFF = [[0., 0.96, 0.28], [0., -0.6, 0.8]]
FIXED = [[0.36, 0.48, 0.8], [0.576, 0.768, 0.28], [-0.36, 0.48, 0.8], [-0.768, 0.576, 0.28], [0.168, 0.224, 0.96], [-0.48, -0.64, 0.6], [0.48, -0.36, 0.8]]


@harness('C25', params=[[k, L, True] for k in range(NT) for L in DIFF], thorough=[[k, L, True] for k in range(NT) for L in DIFF + FIXED], ite=False)
def table(c, p):
    """the cell of the half angle (by square root), the difference angle and its azimuth"""
    kh, L, sym = p
    w = (kh + (c.real('e', 0.05, 0.95) if sym else c.choice('e', [0.25, 0.75]))) / NT
    td, pd = math.acos(L[2]), math.atan2(L[1], L[0]) % math.pi
    kd, kp = int(td / math.pi * ND), int(pd / math.pi * NP + 1e-9)
    tab = [[[[100. * a + 10. * b + k, 1., 2.] for k in range(NP)] for b in range(ND)] for a in range(NT)]
    th = w * w * np.pi / 2.
    s, z = np.sin(th), np.cos(th)
    c.square(s)
    H = [s * 0.6, s * 0.8, z]
    X = [z * 0.6, z * 0.8, -s]
    Y = [-0.8, 0.6, 0.]
    wi = [L[0] * X[j] + L[1] * Y[j] + L[2] * H[j] for j in range(3)]
    wo = [-L[0] * X[j] - L[1] * Y[j] + L[2] * H[j] for j in range(3)]
    b = ReHalfangleBRDF(tab, NT, ND, NP)
    f = b.f(geo.Vector(*wo), geo.Vector(*wi))
    c.check_eq(lst(f), [100. * kh + 10. * kd + kp, 1., 2.], 'entry')
