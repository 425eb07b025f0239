"""Rendering loop"""
from symx.reg import harness
from harness.hu import *
import pytracer.utility as util
from pytracer.renderer import SamplerRenderer, SamplerRendererTask
from pytracer.sampler import Sample
from pytracer.spectral import Spectrum
from pytracer.aggregate import Intersection

META = {
    'bounds': 'any radiance, weight (zero or positive), transmittance and time; up to three lights; renderings of up to three batches of up to three samples each, '
              'any of which is black, not a number, infinite or negative',
    'outside': 'luminance between -1e-4 and zero; writing of images; floating-point rounding',
    'assumptions': 'samplers, cameras, films and integrators are stand-ins giving any value and recording what they are asked; the real ones are the subject of C11, C16, C18, C19, C29 and C30',
}


def spec(c, n, lo=0., hi=10):
    return [c.real('%s%d' % (n, i), lo, hi) for i in range(3)]


def S(v):
    return Spectrum.create_from_list(list(v))


class Scene(object):
    def __init__(self, lights, hit):
        self.lights, self.hit, self.asked = lights, hit, []

    def intersect(self, ray, isect):
        self.asked.append((ray, isect))
        isect.mark = len(self.asked)
        return self.hit(ray) if callable(self.hit) else self.hit

    def intersect_p(self, ray):
        return self.hit(ray) if callable(self.hit) else self.hit


class Light(object):
    def __init__(self, v):
        self.v, self.rays = v, []

    def le(self, ray):
        self.rays.append(ray)
        return S(self.v)


class Surf(object):
    def __init__(self, L, log=None):
        self.L, self.asked, self.log = L, [], log

    def li(self, scene, renderer, ray, isect, sample, rng=None):
        self.asked.append((scene, renderer, ray, isect, sample, rng))
        return S(self.L(ray) if callable(self.L) else self.L)

    def preprocess(self, *a):
        if self.log is not None:
            self.log.append(('surf', a))

    def request_samples(self, sampler, sample, scene):
        if self.log is not None:
            self.log.append(('request', (sampler, sample, scene)))


class Vol(object):
    def __init__(self, L, T):
        self.L, self.T, self.asked, self.tr = L, T, [], []

    def li(self, scene, renderer, ray, sample, rng=None):
        self.asked.append((scene, renderer, ray, sample))
        return S(self.L), S(self.T)

    def transmittance(self, scene, renderer, ray, sample, rng=None):
        self.tr.append((scene, renderer, ray, sample))
        return S(self.T)

    def preprocess(self, *a):
        pass

    def request_samples(self, *a):
        pass


@harness('C31', params=[False, True])
def radiance(c, vol):
    """light along a ray is that of the surface met, or of the lights all around, seen through the medium"""
    hit, nl = c.boolean('hit'), c.choice('lights', [0, 1, 3])
    L, V, T = spec(c, 'L'), spec(c, 'V'), spec(c, 'T', 0, 1)
    vs = [spec(c, 'l%d' % i) for i in range(nl)]
    lights = [Light(v) for v in vs]
    t = c.real('time', 0, 1)
    smp = Sample()
    smp.time = t
    ray = geo.RayDifferential(pnt(c, 'p'), geo.Vector(0.6, 0., 0.8), 0., np.inf, time=t)
    surf, v, sc, isect = Surf(L), Vol(V, T) if vol else None, Scene(lights, hit), Intersection()
    ren = SamplerRenderer(None, None, surf, v)
    rng = object()
    got, tr = ren.li(sc, ray, smp, isect, rng)
    want = L if hit else [sum(x[i] for x in vs) if vs else 0. for i in range(3)]
    if vol:
        want = [a * b + d for a, b, d in zip(want, T, V)]
    c.check_eq(lst(got), want, 'light')
    c.check_eq(lst(tr), T if vol else [1., 1., 1.], 'transmittance')
    if hit:
        c.check(len(surf.asked) == 1 and surf.asked[0] == (sc, ren, ray, isect, smp, rng), 'of the surface met')
    else:
        c.check(not surf.asked, 'no surface')
        for l in lights:
            c.check(len(l.rays) == 1 and l.rays[0] is ray, 'every light once')
    if vol:
        c.check(v.asked == [(sc, ren, ray, smp)], 'through the medium')
    got = ren.transmittance(sc, ray, smp, rng)
    c.check_eq(lst(got), T if vol else [1., 1., 1.], 'transmittance')
    if vol:
        c.check(v.tr == [(sc, ren, ray, smp)], 'of the medium')


class Sampler(object):
    """batches of samples"""
    def __init__(self, batches, spp, keep=True):
        self.batches, self.spp, self.left, self.keep, self.reports = batches, spp, list(batches), keep, []
        self.xPixel_start, self.xPixel_end, self.yPixel_start, self.yPixel_end = 0, 2, 0, 2

    def maximum_sample_cnt(self):
        return max([len(b) for b in self.batches])

    def generate(self, samples):
        if not self.left:
            return False
        for s, v in zip(samples, self.left.pop(0)):
            s.imageX, s.imageY, s.time = v
        return True

    def report_results(self, samples, rays, Ls, isects):
        self.reports.append(len(samples))
        return self.keep


class Camera(object):
    def __init__(self, film, wts):
        self.film, self.wts, self.rays = film, wts, []

    def generate_ray_differential(self, smp):
        k = len(self.rays)
        r = geo.RayDifferential(geo.Point(smp.imageX, smp.imageY, 0.), geo.Vector(0., 0., 1.), 0., np.inf, time=smp.time)
        r.has_differentials = True
        r.rxOrigin, r.ryOrigin = geo.Point(smp.imageX + 1., smp.imageY, 0.), geo.Point(smp.imageX, smp.imageY + 1., 0.)
        r.rxDirection, r.ryDirection = geo.Vector(0., 0.5, 1.), geo.Vector(0.25, 0., 1.)
        self.rays.append(r)
        return [self.wts[k], r]


class Film(object):
    def __init__(self):
        self.got, self.written = [], 0

    def add_sample(self, smp, L):
        self.got.append(((smp.imageX, smp.imageY), lst(L)))

    def write_image(self):
        self.written += 1


class Quiet(object):
    """no progress is printed"""
    def __enter__(self):
        self.old = util.progress_reporter, util.logging
        util.progress_reporter = util.logging = lambda *a, **k: None

    def __exit__(self, *a):
        util.progress_reporter, util.logging = self.old


KIND = ['good', 'nan', 'inf', 'negative']


def radiances(c, k, kind):
    if kind == 'nan':
        return [1., float('nan'), 0.5]
    if kind == 'inf':
        return [float('inf'), float('inf'), 1.]
    if kind == 'negative':
        return [-c.real('L%d_%d' % (k, i), 0.01, 10) for i in range(3)]
    return spec(c, 'L%d' % k)


@harness('C31', params=[[1, 1, 1], [1, 3, 4], [2, 2, 4], [3, 1, 1]], ite=False)
def loop(c, p):
    """every sample adds its weighted light at its place, and black where that is no light"""
    nb, ns, spp = p
    batches = [[[c.real('x%d_%d' % (b, s), 0, 4), c.real('y%d_%d' % (b, s), 0, 4), 0.25 * s] for s in range(ns)] for b in range(nb)]
    n = nb * ns
    bad = c.choice('odd one', list(range(n)))
    kinds = ['good'] * n
    kinds[bad] = c.choice('kind', KIND)
    wts = [c.choice('w%d?' % k, [0., 1.]) if k == bad else 1. for k in range(n)]
    wts = [c.real('w%d' % k, 0.1, 10) if w else 0. for k, w in enumerate(wts)]
    miss = c.choice('miss', [None] + list(range(n)))
    Ls = [radiances(c, k, kinds[k]) for k in range(n)]
    sky = spec(c, 'sky')
    film = Film()
    cam = Camera(film, wts)
    sam = Sampler(batches, spp)
    seen = []

    def index(ray):
        return [i for i, r in enumerate(cam.rays) if r is ray][0]
    surf = Surf(lambda r: seen.append(index(r)) or Ls[index(r)])
    sc = Scene([Light(sky)], lambda r: index(r) != miss)
    ren = SamplerRenderer(sam, cam, surf, None)
    orig = Sample()
    with Quiet():
        SamplerRendererTask(sc, ren, cam, sam, orig, False, 1, 1)()
    c.check(len(film.got) == n and len(cam.rays) == n, 'every sample once')
    flat = [x for b in batches for x in b]
    for k in range(n):
        (x, y), L = film.got[k]
        c.check_eq([x, y], flat[k][:2], 'at its place')
        want = [0., 0., 0.]
        if wts[k] is not 0. and k == miss:
            want = [e * wts[k] for e in sky]
        elif wts[k] is not 0. and kinds[k] == 'good':
            want = [e * wts[k] for e in Ls[k]]
        c.check_eq(L, want, 'light')
    for r, x in zip(cam.rays, flat):
        k = 1. / np.sqrt(spp)
        c.check_eq([lst(r.rxOrigin), lst(r.ryOrigin)], [[x[0] + k, x[1], 0.], [x[0], x[1] + k, 0.]], 'spread of neighbouring samples')
        c.check_eq([lst(r.rxDirection), lst(r.ryDirection)], [[0., 0.5 * k, 1.], [0.25 * k, 0., 1.]], 'spread of neighbouring samples')
    c.check(len(set(seen)) == len(seen), 'light computed once')
    c.check(sam.reports == [ns] * nb, 'reported')


@harness('C31')
def refused(c):
    """samples refused by the sampler add nothing"""
    film = Film()
    L = spec(c, 'L')
    sam = Sampler([[[0.5, 0.5, 0.]]], 1, False)
    cam = Camera(film, [1.])
    ren = SamplerRenderer(sam, cam, Surf(L), None)
    with Quiet():
        SamplerRendererTask(Scene([], True), ren, cam, sam, Sample(), False, 1, 1)()
        SamplerRendererTask(Scene([], True), ren, cam, None, Sample(), False, 1, 1)()
    c.check(film.got == [], 'nothing')


@harness('C31')
def objects(c):
    """for looking at shapes only, what is hit is white and all else black"""
    film = Film()
    sam = Sampler([[[0.5 + k, 0.5, 0.] for k in range(3)]], 1)
    w = c.real('w', 0.1, 10)
    hit = [c.boolean('h%d' % k) for k in range(3)]
    cam = Camera(film, [w, 0., 1.])
    ren = SamplerRenderer(sam, cam, Surf(spec(c, 'L')), None)
    with Quiet():
        SamplerRendererTask(Scene([], lambda r: hit[int(r.o[0])]), ren, cam, sam, Sample(), True, 1, 1)()
    white = lst(Spectrum.from_rgb([1., 1., 1.]))
    for k in range(3):
        c.check_eq(film.got[k][1], white if hit[k] and k != 1 else [0., 0., 0.], 'shape')


@harness('C31')
def render(c):
    """integrators prepare and ask for samples, then everything is rendered and written once"""
    log = []
    film = Film()
    L = spec(c, 'L')
    sam = Sampler([[[0.5, 0.5, 0.]], [[1.5, 0.5, 0.]]], 1)
    cam = Camera(film, [1., 1.])
    surf = Surf(L, log)
    sc = Scene([], True)
    with Quiet():
        ren = SamplerRenderer(sam, cam, surf, Vol([0., 0., 0.], [1., 1., 1.]) if c.boolean('volume') else None)
        ren.render(sc)
    c.check([x[0] for x in log] == ['surf', 'request'], 'prepared')
    c.check(log[0][1] == (sc, cam, ren) and log[1][1][0] is sam and log[1][1][2] is sc, 'for this scene')
    c.check(len(film.got) == 2 and film.written == 1, 'rendered and written')
    for g in film.got:
        c.check_eq(g[1], L, 'light')
