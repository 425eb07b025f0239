"""Scene queries and visibility"""
from symx.reg import harness
from harness.hu import *
from pytracer.light.utility import VisibilityTester, LightSample, LightSampleOffset
from pytracer.reflection import BSDFSample, BSDFSampleOffset
from pytracer.sampler import Sample
from pytracer.scene import Scene
from pytracer.aggregate import GeometricPrimitive, Intersection
from pytracer.aggregate import BVH
from pytracer.shape import Disk
from pytracer.spectral import Spectrum

META = {
    'bounds': 'two points anywhere within 10 of each other, offsets in [0, 0.01], one or two disks of radius 1 to 3 met at any parameter; '
              'any box of the aggregate and of the volume; all sample values, up to three samples per request',
    'outside': 'distances to a blocker within 1e-4 of the ends of a segment; shapes other than the disk (C09, C10); floating-point rounding',
    'assumptions': 'a volume and a renderer are stand-ins recording what they are asked',
}
DIRS = [[0., 0., 1.], [0.6, 0., -0.8], [0.64, 0.6, 0.48], [-0.6, 0.64, -0.48]]


def span(c):
    return c.real('e1', 0, 0.01), c.real('e2', 0, 0.01), c.real('time', 0, 1)


@harness('C28', params=[0, 1, 2, 3], ite=False)
def segment(c, i):
    """a shadow ray spans the segment up to its offsets"""
    w = DIRS[i]
    p = pnt(c, 'p')
    r = c.real('r', 0.1, 10)
    e1, e2, t = span(c)
    q = geo.Point(*add3(lst(p), scl3(w, r)))
    vis = VisibilityTester()
    vis.set_segment(p, e1, q, e2, t)
    y = vis.ray
    c.check_eq([lst(y.o), lst(y.d), y.mint, y.maxt, y.time], [lst(p), w, e1, r * (1. - e2), t], 'ray')
    c.check_eq([lst(p)[k] + y.maxt * y.d[k] for k in range(3)], [lst(q)[k] - e2 * r * w[k] for k in range(3)], 'ends short of the other point')
    vis.set_ray(p, e1, geo.Vector(*w), t)
    y = vis.ray
    c.check_eq([lst(y.o), lst(y.d), y.mint, y.time], [lst(p), w, e1, t], 'ray')
    c.check(y.maxt == np.inf, 'unlimited')
    ray = geo.Ray(p, geo.Vector(*w), e1, r, time=t)
    c.check(VisibilityTester(ray).ray is ray, 'a ray given is kept')


def blocked(c, n):
    """disks at parameters of a segment, scene of them"""
    i = c.choice('dir', [0, 1, 2, 3] if n == 1 else [2])
    w = DIRS[i]
    ts, prims, inside = [], [], []
    for k in range(n):
        t = c.real('t%d' % k, -3, 12)
        if n == 1:
            x, y = c.real('x%d' % k, -2, 2), c.real('y%d' % k, -2, 2)
        else:
            x, y = c.choice('x%d' % k, [0.25, 3.]), 0.5
        rho = c.choice('rad%d' % k, [1., 2.]) if n == 1 else 1.
        c.assume(c.either(x * x + y * y < rho * rho - 1e-3, x * x + y * y > rho * rho + 1e-3))
        ts.append((t, x, y, rho))
    return w, ts


def disks(c, p, w, ts):
    prims = []
    for t, x, y, rho in ts:
        # the point of the line at t is at (x, y) of the disk
        at = add3(lst(p), scl3(w, t))
        m = trans_to(sub3(at, [x, y, 0.]))
        prims.append(GeometricPrimitive(Disk(m, m.inverse(), False, 0., rho, 0., 360.), None))
    return prims


def trans_to(v):
    return Transform.translate(geo.Vector(*v))


@harness('C28', params=[1, 2], ite=False, max_decisions=120)
def occlusion(c, n):
    """two points see each other exactly when no surface is between them"""
    w, ts = blocked(c, n)
    p = pnt(c, 'p')
    r = c.real('r', 0.1, 10)
    e1, e2, tm = span(c)
    q = geo.Point(*add3(lst(p), scl3(w, r)))
    end = r * (1. - e2)
    for t, x, y, rho in ts:
        c.assume(c.either(t > e1 + 1e-4, t < e1 - 1e-4))
        c.assume(c.either(t > end + 1e-4, t < end - 1e-4))
    prims = disks(c, p, w, ts)
    scene = Scene(prims[0] if n == 1 else BVH(prims), [], None)
    vis = VisibilityTester()
    vis.set_segment(p, e1, q, e2, tm)
    got = vis.unoccluded(scene)
    want = c.neg(c.either(*[c.both(t > e1, t < end, x * x + y * y < rho * rho) for t, x, y, rho in ts]))
    c.check(want if bool(got) else c.neg(want), 'seen exactly when nothing is between')
    vis.set_ray(p, e1, geo.Vector(*w), tm)
    got = vis.unoccluded(scene)
    want = c.neg(c.either(*[c.both(t > e1, x * x + y * y < rho * rho) for t, x, y, rho in ts]))
    c.check(want if bool(got) else c.neg(want), 'without limit')


class Asked(object):
    def __init__(self, value):
        self.value, self.calls = value, []

    def transmittance(self, *a):
        self.calls.append(a)
        return self.value


@harness('C28')
def attenuation(c):
    """light between two points is attenuated as the renderer says of the shadow ray"""
    w = DIRS[c.choice('dir', [0, 2])]
    p = pnt(c, 'p')
    e1, e2, t = span(c)
    ray = geo.Ray(p, geo.Vector(*w), e1, c.real('r', 0.1, 10), time=t)
    T = Spectrum.create_from_list([c.real('T%d' % i, 0, 1) for i in range(3)])
    ren, sc, smp, rng = Asked(T), object(), object(), object()
    c.check(VisibilityTester(ray).transmittance(sc, ren, smp, rng) is T, 'as told')
    c.check(len(ren.calls) == 1 and ren.calls[0][0] is sc and ren.calls[0][2] is smp and ren.calls[0][3] is rng, 'asked once')
    y = ren.calls[0][1]
    c.check(isinstance(y, geo.RayDifferential), 'ray')
    c.check_eq([lst(y.o), lst(y.d), y.mint, y.maxt, y.time], [lst(p), w, e1, ray.maxt, t], 'of the shadow ray')


class Stuff(object):
    """an aggregate, or volume, with a bound"""
    def __init__(self, b, ret=None):
        self.b, self.ret, self.calls = b, ret, []

    def world_bound(self):
        return self.b

    def intersect(self, *a):
        self.calls.append(('i', a))
        return self.ret

    def intersect_p(self, *a):
        self.calls.append(('p', a))
        return self.ret


def box(c, n):
    lo = [c.real(n + 'l%d' % i, -10, 10) for i in range(3)]
    hi = [c.real(n + 'h%d' % i, -10, 10) for i in range(3)]
    for a, b in zip(lo, hi):
        c.assume(a <= b)
    return lo, hi, geo.BBox(geo.Point(*lo), geo.Point(*hi))


@harness('C28', params=[False, True])
def bound(c, vol):
    """a scene is bounded by its surfaces and volumes, which keep their own bounds"""
    lo, hi, b = box(c, 'a')
    agg = Stuff(b)
    vr = None
    wlo, whi = lo, hi
    if vol:
        l2, h2, b2 = box(c, 'v')
        vr = Stuff(b2)
        wlo = [c.ite(x < y, x, y) for x, y in zip(lo, l2)]
        whi = [c.ite(x > y, x, y) for x, y in zip(hi, h2)]
    sc = Scene(agg, [], vr)
    w = sc.world_bound()
    c.check_eq([lst(w.pMin), lst(w.pMax)], [wlo, whi], 'bound')
    c.check_eq([lst(b.pMin), lst(b.pMax)], [lo, hi], 'of the surfaces')
    if vol:
        c.check_eq([lst(b2.pMin), lst(b2.pMax)], [l2, h2], 'of the volume')


@harness('C28')
def nearest(c):
    """a scene answers with the nearest of its surfaces"""
    w = DIRS[c.choice('dir', [0, 2, 3])]
    p = pnt(c, 'p')
    ts = [(c.real('t%d' % k, 0.1, 12), c.choice('x%d' % k, [0.25, 3.]), 0.25, 1.) for k in range(2)]
    c.assume(c.either(ts[0][0] < ts[1][0] - 1e-3, ts[0][0] > ts[1][0] + 1e-3))
    end = c.real('end', 0.1, 12)
    for t in ts:
        c.assume(c.either(t[0] > end + 1e-4, t[0] < end - 1e-4))
    prims = disks(c, p, w, ts)
    scene = Scene(BVH(prims), [], None)
    ray = geo.RayDifferential(p, geo.Vector(*w), 0., end)
    isect = Intersection()
    hit = scene.intersect(ray, isect)
    cand = [i for i in range(2) if ts[i][1] < 1. and bool(ts[i][0] < end)]
    c.check(bool(hit) == (len(cand) > 0), 'hit')
    if cand:
        i = cand[0] if len(cand) == 1 or bool(ts[cand[0]][0] < ts[cand[1]][0]) else cand[1]
        c.check(isect.primitive is prims[i], 'the nearest')
        c.check_eq(ray.maxt, ts[i][0], 'where')
        c.check_eq(lst(isect.dg.p), add3(lst(p), scl3(w, ts[i][0])), 'point')


@harness('C28', params=[1, 2, 3])
def requests(c, n):
    """samples asked for are those received, each value once"""
    s = Sample()
    a, b = LightSampleOffset(n, s), BSDFSampleOffset(n + 1, s)
    d = s.add_1d(2)
    c.check(a.nSamples == n and b.nSamples == n + 1, 'counts')
    c.check(sorted([a.offset_com, b.offset_com, d]) == [0, 1, 2] and sorted([a.offset_pos, b.offset_dir]) == [0, 1], 'separate')
    c.check(s.n1D[a.offset_com] == n and s.n2D[a.offset_pos] == n and s.n1D[b.offset_com] == n + 1 and s.n2D[b.offset_dir] == n + 1 and s.n1D[d] == 2, 'requested')
    cp = s.duplicate(2)
    for e in cp:
        c.check(list(e.n1D) == list(s.n1D) and list(e.n2D) == list(s.n2D), 'copies ask the same')
    c.check(cp[0] is not cp[1] and cp[0].oneD is not cp[1].oneD and cp[0].twoD is not cp[1].twoD, 'copies hold their own values')
    one = [[c.real('o%d_%d' % (i, j), 0, 1) for j in range(k)] for i, k in enumerate(s.n1D)]
    two = [[[c.real('t%d_%d_%d' % (i, j, x), 0, 1) for x in range(2)] for j in range(k)] for i, k in enumerate(s.n2D)]
    e = cp[1]
    e.oneD, e.twoD = [np.array(x) for x in one], [np.array(x) for x in two]
    for j in range(n):
        l = LightSample.from_sample(e, a, j)
        c.check_eq([l.u_pos[0], l.u_pos[1], l.u_com], two[a.offset_pos][j] + [one[a.offset_com][j]], 'of the light')
    for j in range(n + 1):
        l = BSDFSample.from_sample(e, b, j)
        c.check_eq([l.u_dir[0], l.u_dir[1], l.u_com], two[b.offset_dir][j] + [one[b.offset_com][j]], 'of the BSDF')
    for cls, at in ((LightSample, 'u_pos'), (BSDFSample, 'u_dir')):
        seq = [c.real('%s%d' % (at, k), 0, 1) for k in range(3)]
        left = list(seq)
        l = cls.from_rand(lambda: left.pop(0))
        c.check_eq([getattr(l, at)[0], getattr(l, at)[1], l.u_com], seq, 'drawn')
