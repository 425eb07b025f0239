"""Surface integrators"""
from symx.reg import harness
from harness.hu import *
from pytracer.integrator.utility import *
from pytracer.integrator.surface import DirectLightingIntegrator, WhittedIntegrator, PathIntegrator, LightStrategy
from pytracer.reflection import BDFType, BSDFSample
from pytracer.light.utility import LightSample
from pytracer.sampler import Sample
from pytracer.spectral import Spectrum

META = {
    'bounds': 'any radiance, reflectance, transmittance and density (zero, or in [0.01, 10]); four directions around two normals; up to three lights and three samples of each; '
              'paths of up to six vertices; any differentials of normals and rays for reflected and refracted rays',
    'outside': 'values between zero and 1e-5, which count as black; floating-point rounding',
    'assumptions': 'lights, BSDFs, scenes and renderers are stand-ins giving any value and recording what they are asked; the real ones are the subject of C13, C24, C27, C28 and C31',
}
NORMALS = [[0., 0., 1.], [0.64, 0.6, 0.48]]
DIRS = [[0., 0., 1.], [0.6, 0., -0.8], [-0.6, 0.64, -0.48], [0.8, 0.6, 0.]]
REFLECT, TRANSMIT = BDFType.REFLECTION | BDFType.SPECULAR, BDFType.TRANSMISSION | BDFType.SPECULAR
DIFFUSE = BDFType.REFLECTION | BDFType.DIFFUSE


def spec(c, n, zero=False, hi=10):
    """a spectrum; black if asked for"""
    if zero and c.choice(n + '?', [False, True]):
        return [0., 0., 0.]
    return [c.real('%s%d' % (n, i), 0.01, hi) for i in range(3)]


def S(v):
    return Spectrum.create_from_list(list(v))


def mul(*vs):
    out = [1., 1., 1.]
    for v in vs:
        out = [a * b for a, b in zip(out, v)] if isinstance(v, list) else [a * v for a in out]
    return out


def dens(c, n):
    return 0. if c.choice(n + '?', [False, True]) else c.real(n, 0.01, 10)


class Vis(object):
    def __init__(self, clear=True, T=(1., 1., 1.)):
        self.clear, self.T, self.calls = clear, T, []

    def unoccluded(self, scene):
        self.calls.append(scene)
        return self.clear

    def transmittance(self, scene, renderer, sample, rng=None):
        return S(self.T)


class Light(object):
    """a light giving what it is told to"""
    ns = 1

    def __init__(self, L=(0., 0., 0.), wi=(0., 0., 1.), pdf=1., vis=None, delta=True, far=(0., 0., 0.), dpdf=0.):
        self.L, self.wi, self.pd, self.vis, self.delta, self.far, self.dpdf = L, wi, pdf, vis or Vis(), delta, far, dpdf
        self.asked, self.seen = [], []

    def sample_l(self, p, eps, ls, time):
        self.asked.append((p, eps, ls, time))
        L = self.L(ls) if callable(self.L) else self.L
        return S(L), geo.Vector(*self.wi), self.pd, self.vis

    def is_delta_light(self):
        return self.delta

    def pdf(self, p, wi):
        return self.dpdf

    def le(self, ray):
        self.seen.append(ray)
        return S(self.far)

    def power(self, scene):
        return S(self.L)


class Bsdf(object):
    """a BSDF giving what it is told to"""
    def __init__(self, dg, f=(1., 1., 1.), pdf=1., smp=None, eta=1.):
        self.dgs, self.val, self.pd, self.smp, self.eta = dg, f, pdf, smp, eta
        self.asked, self.sampled = [], []

    def f(self, wo, wi, flags=None):
        self.asked.append((wo, wi, flags))
        return S(self.val)

    def pdf(self, wo, wi, flags=None):
        return self.pd

    def sample_f(self, wo, smp, flags=None):
        self.sampled.append((wo, smp, flags))
        r = self.smp(smp, flags) if callable(self.smp) else self.smp
        if r is None:
            return [0., geo.Vector(0., 0., 1.), 0, S([0., 0., 0.])]
        pdf, wi, typ, f = r
        return [pdf, geo.Vector(*wi), typ, S(f)]


class Prim(object):
    def __init__(self, light):
        self.light = light

    def get_area_light(self):
        return self.light


class Scene(object):
    """a scene hit as told: each entry is None or a function filling the intersection"""
    def __init__(self, lights, hits=()):
        self.lights, self.hits, self.rays = lights, list(hits), []

    def intersect(self, ray, isect):
        self.rays.append(ray)
        h = self.hits.pop(0) if self.hits else None
        if h is None:
            return False
        h(isect)
        return True

    def intersect_p(self, ray):
        return False


class Renderer(object):
    def __init__(self, T=(1., 1., 1.), L=(0., 0., 0.)):
        self.T, self.L, self.rays, self.lit = T, L, [], []

    def transmittance(self, scene, ray, sample, rng=None):
        self.rays.append(ray)
        T = self.T.pop(0) if isinstance(self.T, list) and isinstance(self.T[0], list) else self.T
        return S(T)

    def li(self, scene, ray, sample, isect, rng=None):
        self.lit.append((ray, isect))
        L = self.L(ray) if callable(self.L) else self.L
        return S(L), S([1., 1., 1.])


def geometry(p, n):
    z, m = geo.Vector(0., 0., 0.), geo.Normal(0., 0., 0.)
    dg = geo.DifferentialGeometry(geo.Point(*p), geo.Vector(1., 0., 0.), geo.Vector(0., 1., 0.), m, m, 0., 0., None)
    dg.nn = geo.Normal(*n)
    dg.dpdx, dg.dpdy, dg.dpdu, dg.dpdv = z, z, geo.Vector(1., 0., 0.), geo.Vector(0., 1., 0.)
    dg.dndu, dg.dndv = geo.Normal(0., 0., 0.), geo.Normal(0., 0., 0.)
    dg.dudx = dg.dudy = dg.dvdx = dg.dvdy = 0.
    return dg


def adot(a, b):
    return abs(dot3(a, b))


def same_ray(c, ray, o, d, mint, time, depth, label):
    c.check_eq([lst(ray.o), lst(ray.d), ray.mint, ray.time], [lst(o), lst(d), mint, time], label)
    if depth is not None:
        c.check(ray.depth == depth, label + ': depth')


def never():
    raise AssertionError('no random number is needed')


class LightIsect(object):
    pass


@harness('C30', params=[False, True], ite=False)
def delta(c, black):
    """light of a point-like light is what it gives, reflected, attenuated and foreshortened, unless something is between"""
    n, wi = c.choice('n', NORMALS), c.choice('wi', DIRS)
    L, f, T = spec(c, 'L', black), spec(c, 'f', black), spec(c, 'T', black, 1)
    pdf = dens(c, 'pdf') if black else c.real('pdf', 0.01, 10)
    clear = c.boolean('clear')
    light = Light(L, wi, pdf, Vis(clear, T))
    p, eps, tm = [c.real('p%d' % i, -5, 5) for i in range(3)], c.real('eps', 0, 0.01), c.real('time', 0, 1)
    dg = geometry(p, n)
    bsdf = Bsdf(dg, f, smp=lambda *a: never())
    wo = geo.Vector(0.36, -0.48, 0.8)
    ls = LightSample(0.25, 0.5, 0.75)
    fl = BDFType(BDFType.ALL & ~BDFType.SPECULAR)
    Ld = estimate_direct(Scene([light]), Renderer(), light, dg.p, dg.nn, wo, eps, tm, bsdf, ls, BSDFSample(), fl)
    lit = clear and not (L == [0., 0., 0.] or f == [0., 0., 0.] or bool(pdf == 0.))
    c.check_eq([x * pdf if lit else x for x in Ld], mul(L, f, T, adot(wi, n)) if lit else [0., 0., 0.], 'light')
    a = light.asked[0]
    c.check(a[2] is ls and len(light.asked) == 1, 'one sample')
    c.check_eq([lst(a[0]), a[1], a[3]], [p, eps, tm], 'seen from the point')
    for a in bsdf.asked:
        c.check_eq([lst(a[0]), lst(a[1])], [lst(wo), lst(wi)], 'reflected from the light to the viewer')
        c.check(a[2] == fl, 'of the kinds asked for')


HIT = ['none', 'own', 'other', 'dark']


@harness('C30', params=[[h, s] for h in HIT for s in (False, True)], ite=False)
def area(c, p):
    """both ways of finding an extended light add up to one, weighted by the squares of their densities"""
    what, spc = p
    n, wi, w2 = c.choice('n', NORMALS), c.choice('wi', DIRS[1:3]), c.choice('w2', DIRS[2:])
    side = c.choice('found by', ['light', 'bsdf', 'both'])
    L = [0., 0., 0.] if side == 'bsdf' else spec(c, 'L')
    f, T, T2 = spec(c, 'f'), spec(c, 'T', False, 1), spec(c, 'U', False, 1)
    f2 = [0., 0., 0.] if side == 'light' else spec(c, 'g')
    lp, bp, lp2, bp2 = dens(c, 'lp'), c.real('bp', 0.01, 10), dens(c, 'lq'), dens(c, 'bq')
    clear = c.boolean('clear') if side == 'light' else True
    E = spec(c, 'E')
    light = Light(L, wi, lp, Vis(clear, T), False, E, lp2)
    other = Light()
    x, eps, tm = [c.real('p%d' % i, -5, 5) for i in range(3)], c.real('eps', 0, 0.01), c.real('time', 0, 1)
    dg = geometry(x, n)
    bs = BSDFSample(0.25, 0.5, 0.75)
    bsdf = Bsdf(dg, f, bp, (bp2, w2, REFLECT if spc else DIFFUSE, f2))
    seen = []

    def hit(isect):
        isect.primitive = Prim({'own': light, 'other': other, 'dark': None}[what])
        isect.le = lambda w: seen.append(lst(w)) or S(E)
    ren = Renderer(T2)
    sc = Scene([light], [None if what == 'none' else hit])
    fl = BDFType(BDFType.ALL)
    wo = geo.Vector(0.36, -0.48, 0.8)
    Ld = estimate_direct(sc, ren, light, dg.p, dg.nn, wo, eps, tm, bsdf, LightSample(), bs, fl)
    want = [0., 0., 0.]
    if clear and L != [0., 0., 0.] and bool(lp > 0.):
        want = add3(want, mul(L, f, T, adot(wi, n), lp / (lp * lp + bp * bp)))
    if f2 != [0., 0., 0.] and bool(bp2 > 0.):
        wt = 1. / bp2
        if not spc:
            wt = 0. if not bool(lp2 > 0.) else bp2 / (bp2 * bp2 + lp2 * lp2)
        if what in ('none', 'own'):
            want = add3(want, mul(E, f2, T2, adot(w2, n), wt))
        for r in sc.rays:
            same_ray(c, r, x, w2, eps, tm, None, 'ray towards the light')
            c.check(r.maxt == np.inf, 'unlimited')
        for r in ren.rays:
            c.check(r is sc.rays[0], 'attenuated along the ray traced')
        for w in seen:
            c.check_eq(w, scl3(w2, -1.), 'emitted back along the ray')
    c.check_eq(lst(Ld), want, 'light')
    for a in bsdf.sampled:
        c.check(a[1] is bs and a[2] == fl, 'sampled as asked')
        c.check_eq(lst(a[0]), lst(wo), 'for the viewer')


def told(u):
    return [0.25 + u.u_pos[0], 0.5 + u.u_pos[1], 1. + u.u_com]


def told2(u):
    return [0.25 + u.u_dir[0], 0.5 + u.u_dir[1], 1. + u.u_com]


class Seq(object):
    """random numbers, kept"""
    def __init__(self, c, n='r'):
        self.c, self.n, self.seen = c, n, []

    def __call__(self):
        self.seen.append(self.c.real('%s%d' % (self.n, len(self.seen)), 0, 0.999))
        return self.seen[-1]


def filled(c, s, shift=0.):
    """values of the samples requested"""
    s.oneD = [np.array([c.real('o%d_%d' % (i, j), 0, 0.999) for j in range(k)]) for i, k in enumerate(s.n1D)]
    s.twoD = [np.array([[c.real('t%d_%d_%d' % (i, j, x), 0, 1) for x in range(2)] for j in range(k)]) for i, k in enumerate(s.n2D)]
    return s


class Counted(object):
    def round_size(self, n):
        return n + 1


@harness('C30', params=[[1, 0], [1, 1], [2, 1], [3, 2], [2, 3]], ite=False)
def all_lights(c, p):
    """each light is the mean of its estimates, and the lights add up"""
    nl, extra = p
    lights = []
    for i in range(nl):
        l = Light(told, DIRS[i + 1], 1. + i, delta=bool(i % 2 == 0), far=[1., 2., 3.], dpdf=2.)
        l.ns = 1 + (extra + i) % 3
        lights.append(l)
    n = NORMALS[1]
    dg = geometry([1., 2., 3.], n)
    bsdf = Bsdf(dg, [0.5, 0.25, 0.75], 1., lambda u, fl: (1., DIRS[3], DIFFUSE, told2(u)))
    sc = Scene(lights)
    integ = DirectLightingIntegrator(LightStrategy.SAMPLE_ALL_UNIFORM, 1)
    smp = Sample()
    given = c.choice('samples', ['given', 'drawn', 'rounded'])
    wo = geo.Vector(0.36, -0.48, 0.8)
    rng = Seq(c)
    if given == 'drawn':
        L = uniform_sample_all_lights(sc, Renderer(), dg.p, dg.nn, wo, 0., 0.5, bsdf, smp, None, None, rng)
        cnt = [1] * nl
    else:
        integ.request_samples(Counted() if given == 'rounded' else None, smp, sc)
        filled(c, smp)
        cnt = [l.ns + (given == 'rounded') for l in lights]
        isect = LightIsect()
        isect.rEps = 0.
        isect.get_bsdf = lambda r: bsdf
        isect.le = lambda w: S([0., 0., 0.])
        L = integ.li(sc, Renderer(), geo.RayDifferential(dg.p, wo * -1., 0., np.inf, time=0.5), isect, smp, rng)
        c.check(len(rng.seen) == 0, 'no other random numbers')
    want = [0., 0., 0.]
    got = list(bsdf.sampled)
    used = []
    for i, l in enumerate(lights):
        c.check(len(l.asked) == cnt[i], 'number of samples')
        for a in l.asked:
            used += [a[2].u_pos[0], a[2].u_pos[1], a[2].u_com]
            lp = 1. + i
            k = 1. if l.delta else lp * lp / (lp * lp + 1.)
            want = add3(want, mul(told(a[2]), bsdf.val, adot(l.wi, n), k / lp / cnt[i]))
            if not l.delta:
                b = got.pop(0)[1]
                used += [b.u_dir[0], b.u_dir[1], b.u_com]
                want = add3(want, mul(told2(b), l.far, adot(DIRS[3], n), 1. / 5. / cnt[i]))
    c.check(not got, 'no further samples')
    c.check_eq(lst(L), want, 'light')
    names = [c.val(u) for u in used] if not c.symbolic else [str(u) for u in used]
    if c.symbolic:
        c.check(len(set(names)) == len(names), 'every random number used once')
    for a in bsdf.asked:
        c.check(a[2] == BDFType.ALL & ~BDFType.SPECULAR, 'not specular')
    for a in bsdf.sampled:
        c.check(a[2] == BDFType.ALL & ~BDFType.SPECULAR, 'not specular')


@harness('C30', params=[1, 2, 3], ite=False)
def one_light(c, nl):
    """one light stands for all, picked with equal chances"""
    lights = [Light([1. + i, 2., 3.], DIRS[i + 1], 1. + i) for i in range(nl)]
    n = NORMALS[1]
    dg = geometry([1., 2., 3.], n)
    bsdf = Bsdf(dg, [0.5, 0.25, 0.75])
    sc = Scene(lights)
    wo = geo.Vector(0.36, -0.48, 0.8)
    smp, rng = Sample(), Seq(c)
    given = c.boolean('given')
    if given:
        integ = DirectLightingIntegrator(LightStrategy.SAMPLE_ONE_UNIFORM, 1)
        integ.request_samples(Counted(), smp, sc)
        filled(c, smp)
        isect = LightIsect()
        isect.rEps = 0.
        isect.get_bsdf = lambda r: bsdf
        isect.le = lambda w: S([0., 0., 0.])
        L = integ.li(sc, Renderer(), geo.RayDifferential(dg.p, wo * -1., 0., np.inf, time=0.5), isect, smp, rng)
        c.check(len(rng.seen) == 0, 'no other random numbers')
        used = [float(len(smp.n1D)), float(len(smp.n2D))]
        u = None
    else:
        L = uniform_sample_one_light(sc, Renderer(), dg.p, dg.nn, wo, 0., 0.5, bsdf, smp, rng=rng)
        u = rng.seen[0]
    hit = [i for i in range(nl) if lights[i].asked]
    c.check(len(hit) == 1 and len(lights[hit[0]].asked) == 1, 'one light, once')
    i = hit[0]
    ls = lights[i].asked[0][2]
    if given:
        us = [x[0] for x in smp.oneD]
        others = [k for k in range(len(us)) if c.symbolic and us[k] is not ls.u_com or not c.symbolic]
        c.check(c.either(*[c.both(i <= us[k] * nl, us[k] * nl < i + 1) for k in others]), 'by its own number')
    else:
        c.check(c.both(i <= u * nl, u * nl < i + 1), 'with equal chances')
    c.check_eq([x * (1. + i) for x in L], mul(lights[i].L, bsdf.val, adot(lights[i].wi, n), float(nl)), 'stands for all')


@harness('C30')
def no_light(c):
    """without lights there is no light"""
    dg = geometry([1., 2., 3.], NORMALS[0])
    bsdf = Bsdf(dg)
    wo = geo.Vector(0.36, -0.48, 0.8)
    c.check_eq(lst(uniform_sample_one_light(Scene([]), Renderer(), dg.p, dg.nn, wo, 0., 0.5, bsdf, Sample())), [0., 0., 0.], 'one')
    c.check_eq(lst(uniform_sample_all_lights(Scene([]), Renderer(), dg.p, dg.nn, wo, 0., 0.5, bsdf, Sample(), None, None)), [0., 0., 0.], 'all')


@harness('C30')
def power_table(c):
    """lights are chosen by the luminance of their power"""
    Ls = [spec(c, 'L%d' % i, i == 1) for i in range(3)]
    d = compute_light_sampling_cdf(Scene([Light(L) for L in Ls]))
    ys = [S(L).y() for L in Ls]
    u = c.real('u', 0, 0.999)
    t = sum(ys)
    acc = 0.
    for y in ys:
        acc = acc + y
        c.assume(c.either(u * t - acc > 1e-6, acc - u * t > 1e-6))
    i, pdf = d.sample_dis(u)
    i = int(i)
    c.check(c.both(sum(ys[:i]) <= u * t, u * t <= sum(ys[:i + 1])), 'in proportion')
    c.check_eq(pdf * t, ys[i], 'probability')


def bent(c, kind, wo, wi, n, eta, f, L, pdf, dn=None, dwo=None):
    """the specular ray of a surface with everything differing across the pixel"""
    p, eps, tm = [c.real('p%d' % i, -5, 5) for i in range(3)], c.real('eps', 0, 0.01), c.real('time', 0, 1)
    dg = geometry(p, n)
    isect = LightIsect()
    isect.rEps, isect.dg = eps, dg
    ray = geo.RayDifferential(dg.p, geo.Vector(*scl3(wo, -1.)), 0., np.inf, 2, time=tm)
    if dn is not None:
        dg.dpdx, dg.dpdy = geo.Vector(0.5, 0.25, 0.), geo.Vector(-0.25, 0.75, 0.5)
        dg.dudx, dg.dvdx, dg.dudy, dg.dvdy = 1., 0., 0., 1.
        dg.dndu, dg.dndv = geo.Normal(*dn[0]), geo.Normal(*dn[1])
        if len(dn) > 2:
            dg.dudx, dg.dvdx, dg.dudy, dg.dvdy = dn[2]
        ray.has_differentials = True
        ray.rxOrigin = ray.ryOrigin = geo.Point(0., 0., 0.)
        ray.rxDirection = geo.Vector(*scl3(add3(wo, dwo[0]), -1.))
        ray.ryDirection = geo.Vector(*scl3(add3(wo, dwo[1]), -1.))
    kinds = REFLECT if kind == 'reflect' else TRANSMIT
    asked = []
    bsdf = Bsdf(dg, smp=lambda u, fl: asked.append((u, fl)) or (pdf, wi, kinds, f), eta=eta)
    ren = Renderer(L=L)
    rng = Seq(c)
    mine = object()
    before = dict(isect.__dict__)
    out = (specular_reflect if kind == 'reflect' else specular_transmit)(ray, bsdf, isect, ren, Scene([]), Sample(), rng)
    c.check(len(asked) == 1 and asked[0][1] == kinds, 'only such reflection')
    c.check(isect.__dict__ == before and dg.p is before['dg'].p, 'the intersection is left alone')
    for r, i in ren.lit:
        same_ray(c, r, p, wi, eps, tm, 3, 'ray on')
        c.check(r.maxt == np.inf, 'unlimited')
        c.check(i is not isect, 'another intersection')
    c.check(len(ren.lit) <= 1, 'one ray')
    return out, ren, p, dg


KINDS = ['reflect', 'transmit']


@harness('C30', params=KINDS, ite=False)
def mirror(c, kind):
    """what a specular surface shows is what comes along the ray it sends light from"""
    n, wi = c.choice('n', NORMALS), c.choice('wi', DIRS)
    f, L, pdf = spec(c, 'f', True), spec(c, 'L', True), dens(c, 'pdf')
    out, ren, p, dg = bent(c, kind, [0.36, -0.48, 0.8], wi, n, 1.5, f, L, pdf)
    lit = not (f == [0., 0., 0.] or bool(pdf == 0.) or dot3(wi, n) == 0.)
    c.check_eq([x * pdf if lit else x for x in out], mul(f, L, adot(wi, n)) if lit else [0., 0., 0.], 'light')
    if not lit:
        c.check(not ren.lit, 'no ray is wasted')


def differ(c):
    dn = [[c.real('n%d%d' % (k, i), -2, 2) for i in range(3)] for k in range(2)]
    dwo = [[c.real('w%d%d' % (k, i), -0.5, 0.5) for i in range(3)] for k in range(2)]
    return dn, dwo


def vsum(*vs):
    out = [0., 0., 0.]
    for v in vs:
        out = add3(out, v)
    return out


@harness('C30', ite=False)
def mirror_differentials(c):
    """neighbouring rays leave a mirror as reflected at the neighbouring points"""
    n = c.choice('n', NORMALS)
    wo = c.choice('wo', [[0.36, -0.48, 0.8], [-0.6, 0.64, -0.48]])
    wi = sub3(scl3(n, 2. * dot3(wo, n)), wo)
    dn, dwo = differ(c)
    k = [c.real('k%d' % i, -2, 2) for i in range(4)]
    dn.append(k)
    out, ren, p, dg = bent(c, 'reflect', wo, wi, n, 1., [1., 1., 1.], [1., 1., 1.], 1., dn, dwo)
    r = ren.lit[0][0]
    c.check(r.has_differentials, 'has differentials')
    c.check_eq([lst(r.rxOrigin), lst(r.ryOrigin)], [add3(p, lst(dg.dpdx)), add3(p, lst(dg.dpdy))], 'start at the neighbouring points')
    for i, got in enumerate((r.rxDirection, r.ryDirection)):
        m = vsum(scl3(dn[0], k[2 * i]), scl3(dn[1], k[2 * i + 1]))
        d = vsum(scl3(dwo[i], -1.), scl3(n, 2. * (dot3(dwo[i], n) + dot3(wo, m))), scl3(m, 2. * dot3(wo, n)))
        c.check_eq(lst(got), add3(wi, d), 'reflected')


@harness('C30', params=['in', 'out', 'straight'], ite=False)
def lens_differentials(c, way):
    """neighbouring rays pass a surface as refracted at the neighbouring points"""
    if way == 'straight':
        wo, wi = [0., 0., 1.], [0., 0., -1.]
        rel = c.real('eta', 0.4, 2.5)
    else:
        a, b = c.choice('a', [0.6, 0.8, 0.28, 0.]), c.choice('b', [0.6, 0.8, 0.28])
        rt = {0.6: 0.8, 0.8: 0.6, 0.28: 0.96, 0.: 1.}
        s = 1. if way == 'in' else -1.
        wo, wi = [a, 0., s * rt[a]], [-b if a else 0., 0., -s * (rt[b] if a else 1.)]
        rel = b / a if a else 1.25
    n = [0., 0., 1.]
    # relative index from the side of the viewer to the other; the BSDF holds that of below to above
    eta = 1. / rel if dot3(wo, n) > 0. else rel
    dn, dwo = differ(c)
    for m in dn:
        m[2] = 0.                      # normals stay unit
    for i, d in enumerate(dwo):        # and directions
        d[0], d[2] = wo[2] * d[2], -wo[0] * d[2]
    out, ren, p, dg = bent(c, 'transmit', wo, wi, n, eta, [1., 1., 1.], [1., 1., 1.], 1., dn, dwo)
    r = ren.lit[0][0]
    c.check(r.has_differentials, 'has differentials')
    c.check_eq([lst(r.rxOrigin), lst(r.ryOrigin)], [add3(p, lst(dg.dpdx)), add3(p, lst(dg.dpdy))], 'start at the neighbouring points')
    for i, got in enumerate((r.rxDirection, r.ryDirection)):
        m = dn[i]
        dc = dot3(dwo[i], n) + dot3(wo, m)
        dt = scl3(vsum(dwo[i], scl3(n, -dc), scl3(m, -dot3(wo, n))), -rel)       # Snell's law along the surface
        t = scl3(vsum(wo, scl3(n, -dot3(wo, n))), -rel)
        s = dot3(wi, n)
        d = vsum(dt, scl3(n, -dot3(t, dt) / s), scl3(m, s))                       # of unit length
        c.check_eq(lst(got), add3(wi, d), 'refracted', tol=1e-6)


def vertex(c, k, n, lobes, E, f=(0.5, 0.25, 0.75)):
    """an intersection at a fresh point"""
    isect = LightIsect()
    dg = geometry([1. * k, 2., 3.], n)
    isect.dg, isect.rEps = dg, 0.001 * (k + 1)
    isect.bsdf = Bsdf(dg, f, 1., lobes)
    isect.le = lambda w, k=k: isect.back.append(lst(w)) or S(E)
    isect.back = []
    isect.get_bsdf = lambda r: isect.bsdf
    return isect


@harness('C30', params=['direct', 'one', 'whitted'], ite=False)
def surface(c, kind):
    """light leaving a surface is its own, that of the lights, and that of its mirror images down to the depth allowed"""
    n = c.choice('n', NORMALS)
    E, f = spec(c, 'E'), spec(c, 'f')
    fr, ft = spec(c, 'fr', True), spec(c, 'ft', True)
    nl = c.choice('lights', [0, 1, 2])
    clear = [c.boolean('clear%d' % i) for i in range(nl)]
    pdfs = [c.real('lp%d' % i, 0.1, 10) for i in range(nl)]
    T = spec(c, 'T', False, 1)
    lights = [Light([1. + i, 2., 3. - i], DIRS[1 + i], pdfs[i], Vis(clear[i], T)) for i in range(nl)]
    depth, most = c.choice('depth', [0, 1, 3]), c.choice('most', [1, 2, 5])

    def lobes(u, fl):
        if fl == REFLECT:
            return (0.5, DIRS[0], REFLECT, fr)
        return (0.25, DIRS[2], TRANSMIT, ft)
    v = vertex(c, 1, n, lobes, E, f)
    wo = [0.36, -0.48, 0.8]
    ray = geo.RayDifferential(v.dg.p, geo.Vector(*scl3(wo, -1.)), 0., np.inf, depth, time=0.5)
    sc = Scene(lights)
    smp = Sample()
    if kind == 'whitted':
        integ = WhittedIntegrator(most)
    else:
        integ = DirectLightingIntegrator(LightStrategy.SAMPLE_ALL_UNIFORM if kind == 'direct' else LightStrategy.SAMPLE_ONE_UNIFORM, most)
    integ.request_samples(None, smp, sc)
    filled(c, smp)
    ren = Renderer(L=lambda r: [1., 0.5, 0.25] if lst(r.d) == DIRS[0] else [0.5, 2., 1.])
    L = integ.li(sc, ren, ray, v, smp, lambda: 0.5)
    want = E
    for i in range(nl):
        k = len(lights[i].asked)
        if kind == 'one':
            k = k * nl
        else:
            c.check(k == 1, 'every light')
        if clear[i]:
            want = add3(want, mul(lights[i].L, f, T, adot(lights[i].wi, n), k / pdfs[i]))
        for a in lights[i].asked:
            c.check_eq([lst(a[0]), a[1], a[3]], [lst(v.dg.p), v.rEps, 0.5], 'seen from the point')
    deep = depth + 1 < most
    if deep:
        want = vsum(want, mul(fr, [1., 0.5, 0.25], adot(DIRS[0], n), 2.), mul(ft, [0.5, 2., 1.], adot(DIRS[2], n), 4.))
    else:
        c.check(not ren.lit, 'no deeper than allowed')
    c.check_eq(lst(L), want, 'light')
    for w in v.back:
        c.check_eq(w, wo, 'emitted to the viewer')


PATHS = [['d', 0, 'out'], ['s', 0, 'out'], ['d', 1, 'out'], ['s', 1, 'out'], ['ds', 2, 'out'], ['sd', 2, 'out'], ['ss', 2, 'hit'], ['dd', 2, 'hit'], ['sds', 3, 'out'],
         ['dsd', 2, 'hit'], ['ddd', 5, 'black'], ['sss', 5, 'zero']]


@harness('C30', params=PATHS, ite=False)
def path(c, p):
    """light of a path is that found at each of its vertices, reflected and attenuated along it; a light met by chance counts after mirrors only"""
    kinds, most, end = p
    wo = [0.36, -0.48, 0.8]
    N = len(kinds) + 1
    wis = [DIRS[i % 3] for i in range(N)]
    E = [spec(c, 'E%d' % i) for i in range(N)]
    f = [spec(c, 'f%d' % i) for i in range(N)]
    T = [spec(c, 'T%d' % i, False, 1) for i in range(N)]
    pdf = [c.real('p%d' % i, 0.1, 10) for i in range(N)]
    sky = spec(c, 'sky')
    light = Light([1., 2., 3.], DIRS[3], 2., far=sky)
    vs = []
    for k in range(N):
        last = k == len(kinds)
        typ = DIFFUSE if last or kinds[k] == 'd' else REFLECT
        r = (pdf[k], wis[k], typ, f[k])
        if last and end != 'hit' and most > k or last and end in ('black', 'zero'):
            r = (1., wis[k], typ, [0., 0., 0.]) if end == 'black' else (0., wis[k], typ, f[k])
        vs.append(vertex(c, k, NORMALS[1], r, E[k]))
    todo = list(vs[1:])

    def nxt(isect):
        v = todo.pop(0)
        isect.__dict__.update(v.__dict__)
        isect.get_bsdf, isect.le = v.get_bsdf, v.le
    hits = [nxt] * len(kinds)
    if end == 'out':
        hits = [nxt] * (len(kinds) - 1) + [None]
    sc = Scene([light], hits)
    ren = Renderer([list(t) for t in T] + [[1., 1., 1.]] * 5)
    integ = PathIntegrator(most)
    smp = Sample()
    integ.request_samples(None, smp, sc)
    one = [[0.001 * (i + 1)] * k for i, k in enumerate(smp.n1D)]
    two = [[[0.001 * (i + 1) + 0.5, 0.001 * (i + 1) + 0.7]] * k for i, k in enumerate(smp.n2D)]
    smp.oneD, smp.twoD = [np.array(x) for x in one], [np.array(x) for x in two]
    ray = geo.RayDifferential(vs[0].dg.p, geo.Vector(*scl3(wo, -1.)), 0., np.inf, 0, time=0.5)
    L = integ.li(sc, ren, ray, vs[0], smp, lambda: 0.25)
    # what it should be
    want, beta, k, spc, back = [0., 0., 0.], [1., 1., 1.], 0, True, wo
    n = NORMALS[1]
    rays = 0
    while True:
        if spc:
            want = add3(want, mul(beta, E[k]))
            c.check(len(vs[k].back) == 1, 'emission once')
            c.check_eq(vs[k].back[0], back, 'emitted back along the path')
        else:
            c.check(True, '')
        want = add3(want, mul(beta, light.L, [0.5, 0.25, 0.75], adot(light.wi, n), 0.5))
        if k == most or k == len(kinds):
            break
        spc = kinds[k] == 's'
        beta = mul(beta, f[k], adot(wis[k], n), 1. / pdf[k])
        same_ray(c, sc.rays[rays], vs[k].dg.p, wis[k], vs[k].rEps, 0.5, k + 1, 'next ray')
        rays += 1
        if k == len(kinds) - 1 and end == 'out':
            if spc:
                want = add3(want, mul(beta, sky))
            break
        beta = mul(beta, T[k])
        back = scl3(wis[k], -1.)
        k += 1
    c.check(len(sc.rays) == rays, 'no further rays')
    c.check_eq(lst(L), want, 'light')
    # no two decisions of the path share a random number
    ls = [a[2] for a in light.asked]
    us = [u.u_com for u in ls] + [u[1].u_com for v in vs for u in v.bsdf.sampled]
    pos = [u.u_pos[0] for u in ls] + [u[1].u_dir[0] for v in vs for u in v.bsdf.sampled]
    c.check(len(set(us)) == len(us) or 0.25 in us, 'own random numbers')
    c.check(len(set(pos)) == len(pos) or 0.25 in pos, 'own random directions')


@harness('C30', params=[5, 6], ite=False)
def roulette(c, most):
    """a path ended by chance is weighted by the chance to go on"""
    N = 7
    fs = [1.] * 4 + [c.real('f', 0.05, 2.)] + [1.] * 2
    light = Light([1., 2., 3.], [0., 0., 1.], 1.)
    vs = [vertex(c, k, [0., 0., 1.], (1., [0., 0., 1.], DIFFUSE, [fs[k]] * 3), [0., 0., 0.], (1., 1., 1.)) for k in range(N)]
    todo = list(vs[1:])

    def nxt(isect):
        v = todo.pop(0)
        isect.__dict__.update(v.__dict__)
        isect.get_bsdf, isect.le = v.get_bsdf, v.le
    sc = Scene([light], [nxt] * (N - 1))
    integ = PathIntegrator(most)
    smp = Sample()
    integ.request_samples(None, smp, sc)
    smp.oneD = [np.array([0.5] * k) for k in smp.n1D]
    smp.twoD = [np.array([[0.5, 0.5]] * k) for k in smp.n2D]
    u, calls = c.real('u', 0, 1), []
    ray = geo.RayDifferential(vs[0].dg.p, geo.Vector(0., 0., -1.), 0., np.inf, 0, time=0.5)

    def rng():
        calls.append(1)
        return u
    L = integ.li(sc, Renderer(), ray, vs[0], smp, rng)
    y = fs[4] * S([1., 1., 1.]).y()
    q = c.ite(y < 0.5, y, 0.5)
    c.assume(c.either(u > q + 1e-6, u < q - 1e-6))
    w = 5.                                    # vertices 0 to 4, reached with certainty
    b = fs[4]
    if bool(u < q):
        w = w + b / q
        if most == 6:
            b = b / q
            y = b * S([1., 1., 1.]).y()
            q = c.ite(y < 0.5, y, 0.5)
            c.assume(c.either(u > q + 1e-6, u < q - 1e-6))
            if bool(u < q):
                w = w + b / q
    c.check_eq(lst(L), [w, 2. * w, 3. * w], 'light')
