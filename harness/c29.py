"""Participating media"""
from symx.reg import harness
from harness.hu import *
import pytracer.volume.utility as vu
from pytracer import PI
from pytracer.volume.volume import HomogeneousVolumeDensity, VolumeGridDensity, ExponentialDensity, AggregateVolume, DensityRegion, VolumeRegion
from pytracer.volume import BSSRDF
from pytracer.montecarlo.utility import sample_hg
from pytracer.spectral import Spectrum

META = {
    'bounds': 'any box, coefficients, densities (up to 3 by 2 by 2) and points; rays of four directions with any origin and range; asymmetry in [-0.9, 0.9]; three placements; up to two regions; optical thickness in up to four steps',
    'outside': "phase functions of overlapping regions; points within 1e-9 of a box; measured data beyond their order; floating-point rounding",
}
DIRS = [[0., 0., 1.], [0.6, 0., -0.8], [0.64, 0.6, 0.48], [-0.6, 0.64, -0.48]]
PLACES = ['translate', 'turn', 'mirror']


def spec(c, n, hi=5):
    return [c.real('%s%d' % (n, i), 0., hi) for i in range(3)]


def S(v):
    return Spectrum.create_from_list(list(v))


def box(c, n='b', lo=None):
    lo = [c.real(n + 'l%d' % i, -2, 2) for i in range(3)]
    hi = [a + c.real(n + 's%d' % i, 0.5, 4) for i, a in enumerate(lo)]
    return lo, hi, geo.BBox(geo.Point(*lo), geo.Point(*hi))


class Coeff(object):
    def __init__(self, c, n=''):
        self.a, self.s, self.e, self.g = spec(c, n + 'a'), spec(c, n + 's'), spec(c, n + 'e'), c.real(n + 'g', -0.9, 0.9)

    def args(self):
        return S(self.a), S(self.s), self.g, S(self.e)


def inside(c, q, lo, hi):
    """decides, away from the border"""
    ok = True
    for x, a, b in zip(q, lo, hi):
        c.assume(c.either(x > a + 1e-9, x < a - 1e-9))
        c.assume(c.either(x > b + 1e-9, x < b - 1e-9))
        ok = c.both(ok, x > a, x < b)
    return bool(ok)


W, W2 = [0.6, 0., 0.8], [0.36, 0.48, -0.8]


def hg(ct, g):
    d = 1. + g * g - 2. * g * ct
    return (1. - g * g) / (d * np.sqrt(d)) / (4. * PI)


def properties(c, v, p, k, d, co, label, phase=True):
    """coefficients at p are those of the medium times its density there"""
    w, w2 = geo.Vector(*W), geo.Vector(*W2)
    for f, want in (('sigma_a', co.a), ('sigma_s', co.s), ('sigma_t', add3(co.a, co.s)), ('lve', co.e)):
        c.check_eq(lst(getattr(v, f)(p, w, 0.5)), scl3(want, d), label + ': ' + f)
    if phase:
        c.check_eq(v.p(p, w, w2, 0.5), hg(dot3(W, W2), co.g), label + ': phase function', tol=1e-9)


@harness('C29', params=PLACES, ite=False)
def homogeneous(c, where):
    """the same within a box placed anywhere, and nothing outside"""
    place = PLACE[where]()
    lo, hi, b = box(c)
    co = Coeff(c)
    v = HomogeneousVolumeDensity(*(co.args() + (b, place)))
    q = [c.real('q%d' % i, -4, 6) for i in range(3)]
    p = place(geo.Point(*q))
    if inside(c, q, lo, hi):
        properties(c, v, p, None, 1., co, 'inside')
    else:
        properties(c, v, p, None, 0., co, 'outside', False)
        c.check_eq(v.p(p, geo.Vector(*W), geo.Vector(*W2), 0.5), 0., 'outside: no phase function')
    w = v.world_bound()
    r = lst(p)
    if inside(c, q, lo, hi):
        for i in range(3):
            c.check_le(w.pMin[i], r[i], 'bounded', tol=1e-9)
            c.check_ge(w.pMax[i], r[i], 'bounded', tol=1e-9)


def overlap(c, o, d, lo, hi, m, M):
    """range of parameters of a ray within a box"""
    a, b = m, M
    for i in range(3):
        if d[i] == 0.:
            if not bool(c.both(o[i] > lo[i], o[i] < hi[i])):
                return None
            continue
        x, y = (lo[i] - o[i]) / d[i], (hi[i] - o[i]) / d[i]
        if d[i] < 0.:
            x, y = y, x
        a = x if bool(x > a) else a
        b = y if bool(y < b) else b
    if bool(a > b):
        return None
    return a, b


MEDIA = ['homogeneous', 'exponential', 'grid']


def medium(c, kind, co, b, place):
    if kind == 'homogeneous':
        return HomogeneousVolumeDensity(*(co.args() + (b, place)))
    if kind == 'exponential':
        return ExponentialDensity(*(co.args() + (b, place, 1., 0., geo.Vector(0., 0., 1.))))
    return VolumeGridDensity(*(co.args() + (b, place, np.array([[[1.]]]))))


@harness('C29', params=[[k, w] for k in MEDIA for w in PLACES], ite=False)
def crossing(c, p):
    """the part of a ray within the medium is that within its box, wherever it is placed"""
    kind, where = p
    place = PLACE[where]()
    lo, hi, b = box(c)
    co = Coeff(c)
    v = medium(c, kind, co, b, place)
    i = c.choice('dir', [0, 1, 2, 3])
    d = DIRS[i]
    k = c.choice('len', [1., 2.])
    o = [c.real('o%d' % j, -6, 6) for j in range(3)]
    m, M = c.real('m', 0, 2), c.real('M', 2, 20)
    for j in range(3):
        if d[j] == 0.:
            c.assume(c.either(o[j] > lo[j] + 1e-6, o[j] < lo[j] - 1e-6))
            c.assume(c.either(o[j] > hi[j] + 1e-6, o[j] < hi[j] - 1e-6))
    want = overlap(c, o, scl3(d, k), lo, hi, m, M)
    ray = geo.Ray(place(geo.Point(*o)), place(geo.Vector(*scl3(d, k))), m, M, time=0.5)
    hit, t0, t1 = v.intersect_p(ray)
    c.check(bool(hit) == (want is not None), 'crosses')
    if hit and want is not None:
        c.check_eq([t0, t1], [want[0], want[1]], 'where', tol=1e-9)
    if kind == 'homogeneous':
        t = v.tau(ray)
        n = 0. if want is None else (want[1] - want[0]) * k
        c.check_eq(lst(t), scl3(add3(co.a, co.s), n), 'optical thickness', tol=1e-6)


@harness('C29', params=[1., 2.], ite=False)
def thickness(c, k):
    """optical thickness adds up attenuation at the offset of each step within the medium"""
    place = PLACE['translate']()
    lo = [-1., -1., c.real('lo', -1, 1)]
    hi = [1., 1., lo[2] + c.real('h', 0.5, 3)]
    co = Coeff(c)
    a = c.real('a', 0.1, 2)
    seen = []

    class Layer(DensityRegion):
        """density told by the height"""
        def __call__(self, p):
            seen.append(p[2])
            return 1. + a * p[2] * p[2]

        def world_bound(self):
            return None

        def intersect_p(self, ray):
            return self.box.intersect_p(self.w2v(ray))
    v = Layer(*(co.args() + (place,)))
    v.box = geo.BBox(geo.Point(*lo), geo.Point(*hi))
    z = c.real('z', -4, 4)
    m, M = c.real('m', 0, 2), c.real('M', 2, 6)
    step, u = c.real('step', 1., 3.), c.real('u', 0, 0.99)
    ray = geo.Ray(place(geo.Point(0.25, 0.5, z)), place(geo.Vector(0., 0., k)), m / k, M / k, time=0.5)
    tau = v.tau(ray, step, u)
    x, y = lo[2] - z, hi[2] - z
    x = x if bool(x > m) else m
    y = y if bool(y < M) else M
    want, t = 0., x + u * step
    for i in range(4):
        c.assume(c.either(t + i * step < y - 1e-6, t + i * step > y + 1e-6))
        if bool(t + i * step < y):
            h = z + t + i * step
            want = want + (1. + a * h * h) * step
    c.check_eq(lst(tau), scl3(add3(co.a, co.s), want), 'optical thickness', tol=1e-6)


@harness('C29', params=['translate', 'turn'], ite=False)
def exponential(c, where):
    """density falls exponentially along the axis, within the box"""
    place = PLACE[where]()
    lo, hi, b = box(c)
    co = Coeff(c)
    up = c.choice('up', DIRS)
    A, B = c.real('A', 0.1, 2), c.choice('B', [0.5, 2.])
    v = ExponentialDensity(*(co.args() + (b, place, A, B, geo.Vector(*scl3(up, 2.5)))))
    q = [c.real('q%d' % i, -4, 6) for i in range(3)]
    p = place(geo.Point(*q))
    if not inside(c, q, lo, hi):
        properties(c, v, p, None, 0., co, 'outside', False)
        c.check_eq(v(geo.Point(*q)), 0., 'density')
        return
    h = dot3(sub3(q, lo), up)
    d = v(geo.Point(*q))
    # A exp(-B h), by its ratio to the density h higher or lower
    c.check_eq(d, A * np.exp(-(B * h)), 'density', tol=1e-9)
    properties(c, v, geo.Point(*lst(p)), None, d, co, 'inside') if where == 'translate' else None


@harness('C29', params=[[1, 1, 1], [3, 1, 1], [1, 3, 1], [1, 1, 3], [2, 2, 1], [3, 2, 2]], ite=False)
def grid(c, s):
    """densities at the centres of the cells are given, and linear in between"""
    nx, ny, nz = s
    co = Coeff(c)
    d = [[[c.real('d%d%d%d' % (z, y, x), 0, 4) for x in range(nx)] for y in range(ny)] for z in range(nz)]
    b = geo.BBox(geo.Point(-1., 0., 2.), geo.Point(2., 4., 4.))
    place = PLACE['translate']()
    arr = np.array(d)
    v = VolumeGridDensity(*(co.args() + (b, place, arr)))
    c.check([v.nx, v.ny, v.nz] == s, 'sizes')
    u = [c.real('u%d' % i, -0.25, 1.25) for i in range(3)]
    q = [-1. + 3. * u[0], 4. * u[1], 2. + 2. * u[2]]
    if not inside(c, u, [0.] * 3, [1.] * 3):
        c.check_eq(v(geo.Point(*q)), 0., 'nothing outside')
        return
    cell, fr = [], []
    for x, n in zip(u, s):
        e = x * n - 0.5
        i = [j for j in range(-1, n) if bool(c.both(j <= e, e < j + 1))][0]
        cell.append(i)
        fr.append(e - i)

    def at(x, y, z):
        cl = lambda i, n: min(max(i, 0), n - 1)
        return d[cl(z, nz)][cl(y, ny)][cl(x, nx)]
    want = 0.
    for i in range(8):
        k = [i & 1, (i >> 1) & 1, i >> 2]
        w = 1.
        for j in range(3):
            w = w * (fr[j] if k[j] else 1. - fr[j])
        want = want + w * at(*[a + e for a, e in zip(cell, k)])
    c.check_eq(v(geo.Point(*q)), want, 'linear', tol=1e-9)
    arr[0][0][0] = 9.
    c.check_eq(v(geo.Point(*q)), want, 'its own copy', tol=1e-9)
    if s == [1, 1, 1]:
        properties(c, v, place(geo.Point(*q)), None, want, co, 'inside')


@harness('C29', params=['apart', 'one'], ite=False)
def aggregate(c, how):
    """regions add up"""
    place = [PLACE['translate'](), PLACE['turn']()]
    co = [Coeff(c, 'r'), Coeff(c, 's')]
    bs = [geo.BBox(geo.Point(-1., -1., -1.), geo.Point(1., 1., 1.)), geo.BBox(geo.Point(-1., 0., -2.), geo.Point(2., 1., 1.))]
    n = 2 if how == 'apart' else 1
    rs = [HomogeneousVolumeDensity(*(co[i].args() + (bs[i], place[i]))) for i in range(n)]
    v = AggregateVolume(rs)
    p = geo.Point(*[c.real('p%d' % i, -6, 6) for i in range(3)])
    w, w2 = geo.Vector(*W), geo.Vector(*W2)
    ins = []
    for r in rs:
        q = lst(r.w2v(p))
        ins.append(inside(c, q, lst(r.extent.pMin), lst(r.extent.pMax)))
    for f in ('a', 's', 'e'):
        want = [sum(getattr(co[i], f)[k] for i in range(n) if ins[i]) for k in range(3)]
        c.check_eq(lst({'a': v.sigma_a, 's': v.sigma_s, 'e': v.lve}[f](p, w, 0.5)), want, 'coefficients')
    want = [sum(co[i].a[k] + co[i].s[k] for i in range(n) if ins[i]) for k in range(3)]
    c.check_eq(lst(v.sigma_t(p, w, 0.5)), want, 'attenuation')
    if sum(ins) < 2:
        k = [i for i in range(n) if ins[i]]
        c.check_eq(v.p(p, w, w2, 0.5), hg(dot3(W, W2), co[k[0]].g) if k else 0., 'phase function', tol=1e-9)
    b = v.world_bound()
    if any(ins):
        for i in range(3):
            c.check(c.both(b.pMin[i] <= p[i] + 1e-9, p[i] <= b.pMax[i] + 1e-9), 'bounded')


class Region(object):
    def __init__(self, hit, a, b, t):
        self.hit, self.a, self.b, self.t, self.asked = hit, a, b, t, []

    def world_bound(self):
        return geo.BBox(geo.Point(0., 0., 0.), geo.Point(1., 1., 1.))

    def intersect_p(self, ray):
        return [self.hit, self.a, self.b]

    def tau(self, ray, step=1., offset=0.5):
        self.asked.append((ray, step, offset))
        return S(self.t)


@harness('C29', params=[1, 2, 3])
def several(c, n):
    """a ray crosses from the first to the last of the regions it meets, and thicknesses add up"""
    rs = []
    for i in range(n):
        a = c.real('a%d' % i, 0, 5)
        rs.append(Region(c.boolean('h%d' % i), a, a + c.real('l%d' % i, 0.01, 5), spec(c, 't%d' % i)))
    v = AggregateVolume(rs)
    ray = geo.Ray(geo.Point(0., 0., 0.), geo.Vector(0., 0., 1.))
    hit, t0, t1 = v.intersect_p(ray)
    on = [r for r in rs if r.hit]
    c.check(bool(hit) == bool(on), 'crosses any')
    if on:
        c.check(c.both(*[c.both(t0 <= r.a, t1 >= r.b) for r in on]), 'all of them')
        c.check(c.both(c.either(*[t0 == r.a for r in on]), c.either(*[t1 == r.b for r in on])), 'no more')
    s, u = c.real('step', 0.1, 2), c.real('u', 0, 1)
    c.check_eq(lst(v.tau(ray, s, u)), [sum(r.t[k] for r in rs) for k in range(3)], 'thickness')
    for r in rs:
        c.check(len(r.asked) == 1 and r.asked[0][0] is ray, 'asked once')
        c.check_eq([r.asked[0][1], r.asked[0][2]], [s, u], 'with the steps given')


@harness('C29', params=['isotropic', 'rayleigh', 'hazy', 'murky', 'hg', 'schlick'], ite=False)
def phase(c, kind):
    """phase functions depend on the angle only and have their formula"""
    w, w2 = uvec(c, 'v'), uvec(c, 'w')
    t = dot3(w, w2)
    g = c.real('g', -0.9, 0.9)
    p4 = 4. * PI
    if kind == 'isotropic':
        c.check_eq(vu.phase_isotrophic(w, w2) * p4, 1., 'value')
    elif kind == 'rayleigh':
        c.check_eq(vu.phase_rayleigh(w, w2) * p4, 0.75 * (1. + t * t), 'value', tol=1e-9)
    elif kind in ('hazy', 'murky'):
        x = c.real('ct', -1, 1)
        s = c.sqrt(1. - x * x)
        w, w2 = geo.Vector(0., 0., 1.), geo.Vector(s, 0., x)
        h = 0.5 * (1. + x)
        h8 = (h * h) * (h * h)
        h8 = h8 * h8
        if kind == 'hazy':
            c.check_eq(vu.phase_mie_hazy(w, w2) * p4, 0.5 + 4.5 * h8, 'value', tol=1e-9)
        else:
            h32 = (h8 * h8) * (h8 * h8)
            c.check_eq(vu.phase_mie_murky(w, w2) * p4, 0.5 + 16.5 * h32, 'value', tol=1e-9)
    elif kind == 'hg':
        got = vu.phase_hg(w, w2, g)
        d = 1. + g * g - 2. * g * t
        c.check_eq(got * got * p4 * p4 * d * d * d, (1. - g * g) * (1. - g * g), 'value', tol=1e-6)
        c.check_ge(got, 0., 'not negative')
    else:
        x = c.real('ct', -1, 1)
        w, w2, t = geo.Vector(0., 0., 1.), geo.Vector(0.5, -2., x), x
        k = 1.55 * g - 0.55 * g * g * g
        got = vu.phase_schlick(w, w2, g)
        c.check_eq(got * p4 * (1. - k * t) * (1. - k * t), 1. - k * k, 'value', tol=1e-6)


@harness('C29')
def measured(c):
    """measured media are returned as absorption and reduced scattering"""
    for name, a, s in (('Apple', [0.0030, 0.0034, 0.046], [2.29, 2.39, 1.97]), ('Wholemilk', [0.0011, 0.0024, 0.014], [2.55, 3.21, 3.77]),
                       ('Espresso', [0.166900, 0.228700, 0.307800], [0.437600, 0.511500, 0.604800])):
        got = vu.get_volume_scattering(name)
        c.check_eq([lst(got[0]), lst(got[1])], [lst(Spectrum.from_rgb(a)), lst(Spectrum.from_rgb(s))], name)
    c.check(vu.get_volume_scattering('nothing of this name') == [None, None], 'unknown')
    a, s, e = spec(c, 'a'), spec(c, 's'), c.real('e', 1, 2)
    b = BSSRDF(S(a), S(s), e)
    c.check_eq([lst(b.sigma_a), lst(b.sigma_prime_s), b.eta], [a, s, e], 'kept')
    if not c.symbolic:
        c.check('sigma' in repr(b), 'shown')


@harness('C29')
def own(c):
    """a region that states only what it absorbs and scatters attenuates by their sum"""
    co = Coeff(c, 'r')

    class Bare(VolumeRegion):
        def world_bound(self):
            return None

        def intersect_p(self, ray):
            return [True, 0., 1.]

        def sigma_a(self, pnt, vec, tm):
            return S(co.a)

        def sigma_s(self, pnt, vec, tm):
            return S(co.s)

        def lve(self, pnt, vec, tm):
            return S(co.e)

        def p(self, pnt, wi, wo, tm):
            return 1.

        def tau(self, ray, step=1., offset=.5):
            return S(co.a)

    c.check_eq(lst(Bare().sigma_t(geo.Point(0., 0., 0.), geo.Vector(*W), 0.5)), add3(co.a, co.s), 'attenuation')
