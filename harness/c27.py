"""Lights"""
from symx.reg import harness
from harness.hu import *
from pytracer import PI
import pytracer.texture
import pytracer.utility.imageio as iio
from pytracer.light import *
from pytracer.light.utility import LightSample
from pytracer.spectral import Spectrum

META = {
    'bounds': 'intensities in [0, 10], distances in [0.1, 10], every direction; three placements of the light; spot cones 60/30 and 90/45 degrees; projection at 90 degrees of square, wide and tall images; '
              'area lights of up to two shapes; environment maps up to 2 by 4; random numbers in [0, 1]',
    'outside': 'directions within 0.02 of the poles of the environment for its density; floating-point rounding; several shapes of one area light in front of each other',
    'assumptions': 'texture look-ups are the subject of C33 and sampling routines of C20 and C21: maps are stand-ins recording where they are read, shapes of area lights stand-ins with given areas and densities',
}

PLACES = ['translate', 'turn']


def spec(c, n, b=10):
    v = [c.real('%s%d' % (n, i), 0, b) for i in range(3)]
    return v, Spectrum.create_from_list(v)


def samples(c):
    return LightSample(c.real('u1', 0, 1), c.real('u2', 0, 1), c.real('u3', 0, 1))


class Map(object):
    """a texture whose value tells where it was read"""
    def __init__(self, *a):
        self.img = a[1] if len(a) > 1 else None

    def look_up(self, param):
        if len(param) == 3:
            return Spectrum(0.75)
        return Spectrum.create_from_list([0.25 + param[0], 2. - param[1], 1. + param[0] * 0.5 + param[1] * 0.25])


def at(s, t):
    return [0.25 + s, 2. - t, 1. + s * 0.5 + t * 0.25]


class Textures(object):
    """images are given instead of read, and not filtered"""
    def __init__(self, img, cls=Map):
        self.img, self.cls = img, cls

    def __enter__(self):
        self.old = iio.read_image, pytracer.texture.MIPMap
        iio.read_image = lambda f: self.img
        pytracer.texture.MIPMap = self.cls

    def __exit__(self, *a):
        iio.read_image, pytracer.texture.MIPMap = self.old


class Bound(object):
    """a scene of the given centre and radius"""
    def __init__(self, c):
        self.c, self.r = [c.real('c%d' % i, -5, 5) for i in range(3)], c.real('rad', 0.1, 10)

    def world_bound(self):
        e = [0.48 * self.r, 0.6 * self.r, 0.64 * self.r]
        return geo.BBox(geo.Point(*sub3(self.c, e)), geo.Point(*add3(self.c, e)))


def here(place):
    return lst(place(geo.Point(0., 0., 0.)))


def arriving(c, light, place, wl, r, want, label):
    """sample_l() at the point lit in local direction wl at distance r"""
    w = place(geo.Vector(*wl))
    o = here(place)
    p = geo.Point(*add3(o, scl3(lst(w), r)))
    eps, tm = c.real('eps', 0, 0.01), c.real('time', 0, 1)
    L, wi, pdf, vis = light.sample_l(p, eps, LightSample(0.5, 0.5, 0.5), tm)
    c.check_eq(lst(wi), scl3(lst(w), -1.), label + ': towards the light')
    c.check_eq(pdf, 1., label + ': certain')
    c.check_eq([x * r * r for x in L], want, label + ': falls with the squared distance')
    y = vis.ray
    c.check_eq([lst(y.o), lst(y.d), y.mint, y.maxt, y.time], [lst(p), scl3(lst(w), -1.), eps, r, tm], label + ': shadow ray')
    c.check(light.is_delta_light(), label + ': not hit by chance')
    c.check_eq(light.pdf(p, wi), 0., label + ': no density')


def leaving(c, light, place, u, want, pdf, label, tm=0.25):
    """sample_r() starts at the light; want gives what leaves in a local direction"""
    ray, n, d, L = light.sample_r(None, u, 0.1, 0.2, tm)
    c.check_eq(lst(ray.o), here(place), label + ': origin')
    c.check_eq(dot3(ray.d, ray.d), 1., label + ': unit')
    c.check_eq(lst(n), lst(ray.d), label + ': normal')
    c.check_eq([d, ray.mint, ray.time], [pdf, 0., tm], label + ': density')
    c.check(ray.maxt == np.inf, label + ': unlimited')
    v = place.inverse()(ray.d)
    c.check_eq(lst(L), want(lst(v)), label + ': radiance')
    return lst(v)


@harness('C27', params=PLACES, ite=False)
def point(c, where):
    """the same in every direction"""
    v, I = spec(c, 'i')
    place = PLACE[where]()
    light = PointLight(place, I)
    r = c.real('r', 0.1, 10)
    arriving(c, light, place, c.unit_vec3('w'), r, v, 'arriving')
    leaving(c, light, place, samples(c), lambda d: v, 1. / (4. * PI), 'leaving')
    c.check_eq(lst(light.power(None)), [4. * PI * x for x in v], 'power')
    c.check(light.le(geo.RayDifferential()).is_black(), 'nothing seen elsewhere')


def cone(c, z, w, f):
    cw, cf = np.cos(PI * w / 180.), np.cos(PI * f / 180.)
    if z < cw:
        return 0.
    if z > cf:
        return 1.
    d = (z - cw) / (cf - cw)
    return d * d * d * d


SPOT = [['translate', 60., 30.], ['turn', 90., 45.]]


@harness('C27', params=SPOT, ite=False)
def spot(c, p):
    """full inside the inner cone, falling to nothing at the outer one"""
    v, I = spec(c, 'i')
    place = PLACE[p[0]]()
    light = SpotLight(place, I, p[1], p[2])
    r = c.real('r', 0.1, 10)
    w = c.unit_vec3('w')
    k = cone(c, w[2], p[1], p[2])
    arriving(c, light, place, w, r, [x * k for x in v], 'arriving')
    cw, cf = np.cos(PI * p[1] / 180.), np.cos(PI * p[2] / 180.)
    c.check_eq(lst(light.power(None)), [x * 2. * PI * (1. - 0.5 * (cw + cf)) for x in v], 'power')


@harness('C27', params=SPOT, ite=False)
def spot_rays(c, p):
    """rays leave within the outer cone, with what arrives along them"""
    v, I = spec(c, 'i')
    place = PLACE[p[0]]()
    light = SpotLight(place, I, p[1], p[2])
    cw = np.cos(PI * p[1] / 180.)
    u = samples(c)
    d = leaving(c, light, place, u, lambda d: [x * cone(c, d[2], p[1], p[2]) for x in v], 1. / (2. * PI * (1. - cw)), 'leaving')
    c.check_ge(d[2], cw, 'within the cone')


def window(h, w):
    a = float(w) / h
    return (a, 1.) if a > 1. else (1., 1. / a)


def projected(c, x, y, h, w):
    """what a projection light shows at screen position (x, y)"""
    X, Y = window(h, w)
    if not bool(c.both(x >= -X, x <= X, y >= -Y, y <= Y)):
        return [0., 0., 0.]
    return at((x + X) / (2. * X), (y + Y) / (2. * Y))


def projector(c, p, v):
    h, w = p[1], p[2]
    place = PLACE[p[0]]()
    I = Spectrum.create_from_list(v)
    with Textures(np.zeros([h, w, 3])):
        return place, ProjectionLight(place, I, 'image', 90.)


PROJ = [['translate', 2, 2], ['turn', 2, 4], ['translate', 4, 2]]


@harness('C27', params=PROJ, ite=False)
def projection(c, p):
    """the image is shown over the field of view, and nothing outside of it or behind"""
    v = [c.real('i%d' % i, 0, 10) for i in range(3)]
    place, light = projector(c, p, v)
    x, y, k = c.real('x', -3, 3), c.real('y', -3, 3), c.real('k', 0.1, 10)
    behind = c.boolean('behind')
    pl = [x * k, y * k, -k if behind else k]
    X, Y = window(p[1], p[2])
    if not behind:
        for a, A in ((x, X), (y, Y)):                      # off the border of the image
            c.assume(c.either(a - A > 1e-6, A - a > 1e-6))
            c.assume(c.either(a + A > 1e-6, -A - a > 1e-6))
    want = [0., 0., 0.] if behind else projected(c, x, y, p[1], p[2])
    q = place(geo.Point(*pl))
    L, wi, pdf, vis = light.sample_l(q, 0., LightSample(0.5, 0.5, 0.5), 0.)
    c.check_eq([e * dot3(pl, pl) for e in L], [a * b for a, b in zip(want, v)], 'light', tol=1e-4)
    c.check(pdf == 1. and light.is_delta_light(), 'certain')
    c.check_eq(lst(vis.ray.o), lst(q), 'shadow ray')
    # the sampled cone holds the image
    if not behind and not bool(c.both(want[0] == 0., want[1] == 0., want[2] == 0.)):
        c.check_le(light.cos_width * light.cos_width * (x * x + y * y + 1.), 1., 'rays reach all of the image', tol=1e-5)


@harness('C27', params=PROJ, ite=False)
def projection_rays(c, p):
    """rays leave with what arrives along them"""
    v = [c.real('i%d' % i, 0, 10) for i in range(3)]
    place, light = projector(c, p, v)
    X, Y = window(p[1], p[2])
    cw = 1. / np.sqrt(1. + X * X + Y * Y)
    u = LightSample(c.choice('u1', [0., 0.125, 0.375, 0.75]), c.choice('u2', [0.0625, 0.3125, 0.5625, 0.8125]), 0.5)

    def want(d):
        return [a * b for a, b in zip(projected(c, d[0] / d[2], d[1] / d[2], p[1], p[2]), v)]
    leaving(c, light, place, u, want, 1. / (2. * PI * (1. - cw)), 'leaving')
    c.check_eq(lst(light.power(None)), [x * 0.75 * 2. * PI * (1. - cw) for x in v], 'power')


@harness('C27', ite=False)
def no_image(c):
    """without an image the whole window, or sphere, is lit evenly"""
    v, I = spec(c, 'i')
    place = PLACE['turn']()
    light = ProjectionLight(place, I, None, 90.)
    x, y, k = c.real('x', -0.9, 0.9), c.real('y', -0.9, 0.9), c.real('k', 0.1, 10)
    pl = [x * k, y * k, k]
    q = place(geo.Point(*pl))
    c.check_eq([e * dot3(pl, pl) for e in light.sample_l(q, 0., LightSample(), 0.)[0]], v, 'projection')
    c.check_eq(lst(light.power(None)), [e * 2. * PI * (1. - 1. / np.sqrt(3.)) for e in v], 'power of a projection')
    light = GonioPhotometricLight(place, I, None)
    c.check_eq([e * dot3(pl, pl) for e in light.sample_l(q, 0., LightSample(), 0.)[0]], v, 'all around')
    c.check_eq(lst(light.power(None)), [e * 4. * PI for e in v], 'power all around')


@harness('C27', params=PLACES, ite=False)
def goniometric(c, where):
    """intensity is looked up by azimuth and polar angle around the local y axis"""
    v, I = spec(c, 'i')
    place = PLACE[where]()
    with Textures(np.zeros([2, 2, 3])):
        light = GonioPhotometricLight(place, I, 'image')
    r = c.real('r', 0.1, 10)
    w = c.unit_vec3('w')

    def want(d):
        s, t = gu.spherical_phi(geo.Vector(d[0], d[2], d[1])) / (2. * PI), gu.spherical_theta(geo.Vector(d[0], d[2], d[1])) / PI
        return [a * b for a, b in zip(at(s, t), v)]
    arriving(c, light, place, w, r, want(w), 'arriving')
    c.check_eq(lst(light.power(None)), [x * 4. * PI * 0.75 for x in v], 'power')


@harness('C27', params=PLACES, ite=False)
def goniometric_rays(c, where):
    """rays leave in all directions, with what arrives along them"""
    v, I = spec(c, 'i')
    place = PLACE[where]()
    with Textures(np.zeros([2, 2, 3])):
        light = GonioPhotometricLight(place, I, 'image')
    u = LightSample(c.choice('u1', [0.125, 0.375, 0.75]), c.choice('u2', [0.0625, 0.3125, 0.5625, 0.8125]), 0.5)

    def want(d):
        d = gu.normalize(geo.Vector(*d))
        s, t = gu.spherical_phi(geo.Vector(d[0], d[2], d[1])) / (2. * PI), gu.spherical_theta(geo.Vector(d[0], d[2], d[1])) / PI
        return [a * b for a, b in zip(at(s, t), v)]
    leaving(c, light, place, u, want, 1. / (4. * PI), 'leaving')


DIRS = [[0., 0., 1.], [0.6, 0., -0.8], [0.64, 0.6, 0.48], [-0.6, 0.64, -0.48]]


def on_disk(c, ray, scene, d, label, covers=True):
    """a ray in direction d starting on the disk before the scene"""
    c.check_eq(lst(ray.d), d, label + ': direction')
    q = sub3(lst(ray.o), scene.c)
    h = dot3(q, d)
    c.check_eq(h, -scene.r, label + ': before the scene')
    if covers:
        c.check_le(dot3(q, q), 2. * scene.r * scene.r, label + ': covers the scene', tol=1e-5)


@harness('C27', params=PLACES, ite=False)
def distant(c, where):
    """the same everywhere, from one direction"""
    v, I = spec(c, 'i')
    place = PLACE[where]()
    k = c.choice('dir', DIRS)
    light = DistantLight(place, I, geo.Vector(*scl3(k, 2.5)))
    w = lst(place(geo.Vector(*k)))
    p = pnt(c, 'p')
    eps, tm = c.real('eps', 0, 0.01), c.real('time', 0, 1)
    L, wi, pdf, vis = light.sample_l(p, eps, LightSample(), tm)
    c.check_eq([lst(L), lst(wi), pdf], [v, w, 1.], 'arriving')
    y = vis.ray
    c.check_eq([lst(y.o), lst(y.d), y.mint, y.time], [lst(p), w, eps, tm], 'shadow ray')
    c.check(y.maxt == np.inf, 'unlimited')
    c.check(light.is_delta_light() and light.pdf(p, wi) == 0., 'not hit by chance')


@harness('C27', params=[0, 1, 2, 3], ite=False)
def distant_rays(c, i):
    """rays leave from a disk that covers the scene"""
    v, I = spec(c, 'i')
    place = PLACE['turn']()
    light = DistantLight(place, I, geo.Vector(*DIRS[i]))
    w = lst(place(geo.Vector(*DIRS[i])))
    scene = Bound(c)
    ray, n, pdf, L = light.sample_r(scene, samples(c), 0.1, 0.2, 0.25)
    on_disk(c, ray, scene, scl3(w, -1.), 'ray')
    c.check_eq(lst(n), lst(ray.d), 'normal')
    c.check_eq(pdf * PI * scene.r * scene.r, 1., 'density')
    c.check_eq([lst(L), ray.time, ray.mint], [v, 0.25, 0.], 'radiance')
    c.check_eq(lst(light.power(scene)), [x * PI * scene.r * scene.r for x in v], 'power', tol=1e-3)


class Part(object):
    """a shape of given area, sampled at a given point and density"""
    def __init__(self, a, p, n, d):
        self.a, self.p, self.n, self.d, self.asked = a, p, n, d, []

    def can_intersect(self):
        return True

    def area(self):
        return self.a

    def sample(self, u1, u2):
        return [geo.Point(self.p[0] + u1, self.p[1], self.p[2]), self.n]

    def sample_p(self, p, u1, u2):
        self.asked.append(lst(p))
        return [geo.Point(self.p[0], self.p[1] + u1, self.p[2] + u2), self.n]

    def pdf(self, p):
        return 1. / self.a

    def pdf_p(self, p, w):
        self.asked.append(lst(p) + lst(w))
        return self.d


class Whole(object):
    def __init__(self, parts):
        self.parts = parts

    def can_intersect(self):
        return False

    def refine(self):
        return list(self.parts)


def emitter(c, n):
    v, I = spec(c, 'i')
    parts = [Part(c.real('a%d' % i, 0.1, 5), [2. * i, 1., 0.], geo.Normal(*c.choice('n%d' % i, [[0., 0., 1.], [0.6, 0., -0.8]])), c.real('d%d' % i, 0.01, 5)) for i in range(n)]
    light = DiffuseAreaLight(PLACE['translate'](), I, 3, Whole(parts) if n > 1 else parts[0])
    return v, light, parts, sum(p.a for p in parts)


def chosen(parts, u, total):
    """parts picked in proportion of their areas, in either order"""
    out = []
    for ps in (parts, parts[::-1]):
        acc = 0.
        for p in ps:
            acc = acc + p.a
            if u * total < acc:
                break
        out.append(p)
    return out


@harness('C27', params=[1, 2], ite=False)
def area(c, n):
    """a point on the surface is chosen by area and seen on the side of its normal, with the density of its direction"""
    v, light, parts, total = emitter(c, n)
    p = geo.Point(c.real('x', -1, 1), -1., c.choice('z', [3., -4.]))
    u = LightSample(c.choice('u1', [0., 0.5]), 0.25, c.real('u3', 0, 0.999))
    acc = 0.
    for q in parts:
        acc = acc + q.a
        c.assume(c.either(u.u_com * total - acc > 1e-6, acc - u.u_com * total > 1e-6))
        c.assume(c.either(u.u_com * total - total + acc > 1e-6, total - acc - u.u_com * total > 1e-6))
    L, wi, pdf, vis = light.sample_l(p, 0.01, u, 0.5)
    ray = vis.ray
    ok = []
    for q in chosen(parts, u.u_com, total):
        at = [q.p[0], q.p[1] + u.u_pos[0], q.p[2] + u.u_pos[1]]
        d = sub3(at, lst(p))
        s = -dot3(lst(q.n), d)
        hit = c.both(*[c.both(lst(ray.o)[i] + ray.d[i] * ray.maxt - at[i] < 1e-3, at[i] - lst(ray.o)[i] - ray.d[i] * ray.maxt < 1e-3) for i in range(3)])
        lit = c.both(*[L[i] == (v[i] if s > 0. else 0.) for i in range(3)])
        ok.append(c.both(hit, lit))
    c.check(c.either(*ok), 'where and how much')
    c.check_eq(pdf * total, sum(q.a * q.d for q in parts), 'density')
    c.check_eq([lst(ray.o), lst(ray.d), ray.mint, ray.time], [lst(p), lst(wi), 0.01, 0.5], 'shadow ray')
    c.check_eq(light.pdf(p, wi) * total, sum(q.a * q.d for q in parts), 'density of a direction')
    for q in parts:
        for k in q.asked:
            c.check_eq(k, lst(p) + (lst(wi) if len(k) > 3 else []), 'asked of the shapes')
    c.check(not light.is_delta_light() and light.ns == 3, 'kind')
    c.check_eq(lst(light.power(None)), [x * total * PI for x in v], 'power')


@harness('C27', params=[1, 2], ite=False)
def area_rays(c, n):
    """rays leave from any point of the surface into the hemisphere of its normal"""
    v, light, parts, total = emitter(c, n)
    u = LightSample(0.5, 0.25, c.real('u3', 0, 0.999))
    u1, u2 = c.real('v1', 0, 1), c.real('v2', 0, 1)
    ray, m, pdf, L = light.sample_r(None, u, u1, u2, 0.5)
    cs = dot3(lst(ray.d), lst(m))
    c.check_ge(cs, 0., 'out of the surface')
    c.check_eq(dot3(ray.d, ray.d), 1., 'unit')
    c.check_eq(pdf * total * 2. * PI, 1., 'density')
    c.assume(cs > 1e-3)
    c.check_eq(lst(L), v, 'radiance')
    c.check(any(bool(c.both(ray.o[0] == q.p[0] + 0.5, ray.o[1] == q.p[1], m[0] == q.n[0])) for q in parts), 'on the surface')
    c.check(ray.maxt == np.inf, 'unlimited')


@harness('C27')
def emitted(c):
    """an area light emits on the side of the normal, and is not seen where its surface is not"""
    v, light, parts, total = emitter(c, 1)
    n, w = uvec(c, 'n', geo.Normal), uvec(c, 'w')
    L = light.l(geo.Point(0., 0., 0.), n, w)
    s = dot3(n, w)
    c.assume(c.either(s > 1e-6, s < -1e-6))
    c.check_eq(lst(L), v if s > 0. else [0., 0., 0.], 'side')
    c.check(isinstance(light, AreaLight), 'an area light')
    c.check(light.le(geo.RayDifferential(geo.Point(0., 0., 0.), w)).is_black(), 'no background')


class Dist(object):
    """a distribution over the square that remembers what it was asked"""
    def __init__(self, uv, p):
        self.uv, self.p, self.asked = uv, p, []

    def sample_cont(self, u0, u1):
        self.asked.append([u0, u1])
        return [list(self.uv), self.p]

    def pdf(self, u, v):
        self.asked.append([u, v])
        return self.p


def sky(c, where, uv, p):
    place = PLACE[where]()
    light = InfiniteAreaLight(place, Spectrum(1.), 2)
    light.radMap = Map()
    light.dist = Dist(uv, p)
    return place, light


@harness('C27', params=PLACES, ite=False)
def environment_seen(c, where):
    """rays that leave the scene see the map in their direction"""
    place, light = sky(c, where, [0.5, 0.5], 1.)
    w = c.unit_vec3('w')
    L = light.le(geo.RayDifferential(geo.Point(1., 2., 3.), place(geo.Vector(*scl3(w, 2.)))))
    d = geo.Vector(*w)
    c.check_eq(lst(L), at(gu.spherical_phi(d) / (2. * PI), gu.spherical_theta(d) / PI), 'seen')


@harness('C27', params=PLACES, ite=False)
def environment(c, where):
    """directions are drawn from the map's distribution, with their density over solid angle"""
    u, v, q = c.real('u', 0, 1), c.real('v', 0.01, 0.99), c.real('q', 0, 5)
    place, light = sky(c, where, [u, v], q)
    p = pnt(c, 'p')
    L, wi, pdf, vis = light.sample_l(p, 0.01, samples(c), 0.5)
    st = np.sin(v * PI)
    d = lst(place(geo.Vector(st * np.cos(u * 2. * PI), st * np.sin(u * 2. * PI), np.cos(v * PI))))
    c.check_eq(lst(wi), d, 'direction')
    c.check_eq(pdf * 2. * PI * PI * st, q, 'density')
    c.check_eq(lst(L), at(u, v), 'radiance')
    ray = vis.ray
    c.check_eq([lst(ray.o), lst(ray.d), ray.mint, ray.time], [lst(p), d, 0.01, 0.5], 'shadow ray')
    c.check(ray.maxt == np.inf and not light.is_delta_light() and light.ns == 2, 'unlimited')


@harness('C27', params=PLACES, ite=False)
def environment_density(c, where):
    """the density of a direction is that of its place on the map, over solid angle"""
    q = c.real('q', 0, 5)
    place, light = sky(c, where, [0.5, 0.5], q)
    s, z = c.unit_vec2('pole')
    c.assume(s >= 0.02)
    a, b = c.choice('azimuth', [[1., 0.], [0.6, -0.8], [-0.28, 0.96]])
    d = geo.Vector(s * a, s * b, z)
    pdf = light.pdf(geo.Point(0., 0., 0.), place(d))
    c.check_eq(light.dist.asked[0], [gu.spherical_phi(d) / (2. * PI), gu.spherical_theta(d) / PI], 'place')
    c.check_eq(pdf * 2. * PI * PI * s, q, 'density')


class Flat(object):
    """reads the pixel whose corner is asked for"""
    def __init__(self, *a):
        self.img = a[1]

    def look_up(self, param):
        h, w = self.img.shape[:2]
        return self.img[int(np.floor(param[1] * h + 1e-6)), int(np.floor(param[0] * w + 1e-6))].view(Spectrum)


@harness('C27', params=[[1, 1], [2, 2], [2, 4]])
def environment_table(c, p):
    """directions are drawn in proportion to the luminance of the map and the solid angle of its pixels"""
    h, w = p
    img = np.zeros([h, w, 3], dtype=np.array([c.real('probe', 0, 1)]).dtype)
    for i in range(h):
        for j in range(w):
            for k in range(3):
                img[i, j, k] = c.real('t%d%d%d' % (i, j, k), 0.1, 5)
    with Textures(img, Flat):
        light = InfiniteAreaLight(PLACE['translate'](), Spectrum(1.), 1, 'image')
    st = [np.sin(PI * (i + 0.5) / h) for i in range(h)]
    y = [[0.212671 * img[i, j, 0] + 0.715160 * img[i, j, 1] + 0.072169 * img[i, j, 2] for j in range(w)] for i in range(h)]
    total = sum(y[i][j] * st[i] for i in range(h) for j in range(w)) / (h * w)
    for i in range(h):
        for j in range(w):
            t, f = PI * (i + 0.5) / h, 2. * PI * (j + 0.5) / w
            d = geo.Vector(st[i] * np.cos(f), st[i] * np.sin(f), np.cos(t))
            c.check_eq(light.pdf(geo.Point(0., 0., 0.), d) * 2. * PI * PI * total, y[i][j], 'pixel %d %d' % (i, j))


@harness('C27', params=[[0.25, 0.5], [0.1, 0.7], [0.55, 0.2]], ite=False)
def environment_rays(c, uv):
    """rays leave from a disk that covers the scene, chosen independently of their direction"""
    q = c.real('q', 0.1, 5)
    place, light = sky(c, 'turn', uv, q)
    scene = Bound(c)
    u1, u2 = c.real('v1', 0, 1), c.real('v2', 0, 1)
    ls = LightSample(0.3, 0.6, 0.5)
    ray, n, pdf, L = light.sample_r(scene, ls, u1, u2, 0.25)
    st = np.sin(uv[1] * PI)
    d = lst(place(geo.Vector(st * np.cos(uv[0] * 2. * PI), st * np.sin(uv[0] * 2. * PI), np.cos(uv[1] * PI))))
    on_disk(c, ray, scene, scl3(d, -1.), 'ray', uv[0] == 0.25)
    c.check_eq(lst(n), lst(ray.d), 'normal')
    c.check_eq(pdf * 2. * PI * PI * st * PI * scene.r * scene.r, q, 'density')
    c.check_eq([lst(L), ray.time, ray.mint], [at(*uv), 0.25, 0.], 'radiance')
    c.check_eq(light.dist.asked, [[0.3, 0.6]], 'direction drawn')
    c.check_eq(lst(light.power(scene)), [PI * scene.r * scene.r * 0.75] * 3, 'power', tol=1e-3)


@harness('C27', ite=False)
def independent(c):
    """the place on the disk follows its own random numbers"""
    place, light = sky(c, 'translate', [0.25, 0.5], 1.)
    scene = Bound(c)
    ls = samples(c)
    a = light.sample_r(scene, ls, 0.5, 0.5, 0.)[0]
    b = light.sample_r(scene, ls, 1., 0.5, 0.)[0]
    c.check_eq(sub3(lst(a.o), scene.c), scl3(lst(a.d), -scene.r), 'centre')
    q = sub3(lst(b.o), lst(a.o))
    c.check_eq(dot3(q, q), scene.r * scene.r, 'border', tol=1e-4)


@harness('C27', params=['point', 'spot', 'distant', 'area', 'environment'], ite=False)
def reused(c, kind):
    """what a caller does with one answer does not change the next"""
    v, I = spec(c, 'i')
    place = PLACE['turn']()
    if kind == 'point':
        light = PointLight(place, I)
    elif kind == 'spot':
        light = SpotLight(place, I, 90., 45.)
    elif kind == 'distant':
        light = DistantLight(place, I, geo.Vector(*DIRS[2]))
    elif kind == 'area':
        light = emitter(c, 1)[1]
    else:
        light = sky(c, 'turn', [0.25, 0.5], 1.)[1]
    p = lst(place(geo.Point(0.6, 0.2, 3.)))

    def ask():
        return light.sample_l(geo.Point(*p), 0.01, LightSample(0.5, 0.25, 0.5), 0.5)
    L, wi, pdf, vis = ask()
    first = [lst(L), lst(wi), pdf, lst(vis.ray.o), lst(vis.ray.d)]
    wi *= -2.
    if kind != 'area':
        L *= 0.5
    vis.ray.d *= -1.
    L, wi, pdf, vis = ask()
    c.check_eq([lst(L), lst(wi), pdf, lst(vis.ray.o), lst(vis.ray.d)], first, 'the same again')
