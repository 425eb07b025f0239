"""Cameras: which ray a film sample gives"""
from symx.reg import harness
from harness.hu import *
from pytracer.transform import AnimatedTransform
from pytracer.camera import PerspectiveCamera, OrthoCamera, EnvironmentCamera
from pytracer.camera.projective import PinholeCamera
from pytracer.sampler import CameraSample
import pytracer.montecarlo as mc

META = {
    'bounds': 'film positions in [-2, 10] on films of 4 by 3 and 8 by 8 pixels, three screen windows, field of view 20 to 140 degrees, lens radius 0 or in [0.1, 2], '
              'focal distance in [1, 20], any lens sample of three sectors and the centre, any shutter interval and time; placement: identity, translated quarter turn, '
              'or moving translation',
    'outside': 'moving rotations; lens samples mapped elsewhere than the harness draws them (the disk mapping is C20); floating-point rounding',
}


class Film(object):
    def __init__(self, x, y):
        self.xResolution, self.yResolution = x, y


def scene(c, still):
    """a placement over time, and what it does to a point at the time the ray is taken"""
    so = c.real('open', -2, 2)
    sc = c.real('close', 2, 6)
    u = tm = c.real('time', -2, 6)
    c.assume(u >= so)
    c.assume(u <= sc)
    if still is not None:
        t = PLACE[still]() if still else Transform()
        at = AnimatedTransform(t, 0., t, 1.)

        def pt(p):
            return matvec(t.m, list(p) + [1.])[:3]

        def vc(p):
            return matvec(t.m, list(p) + [0.])[:3]
    else:
        at = AnimatedTransform(Transform.translate(geo.Vector(1., 0., -1.)), 0., Transform.translate(geo.Vector(3., 1., -1.)), 1.)
        k = 0. if bool(tm <= 0.) else 1. if bool(tm >= 1.) else tm

        def pt(p):
            return [p[0] + 1. + 2. * k, p[1] + k, p[2] - 1.]

        def vc(p):
            return list(p)
    return at, so, sc, u, tm, pt, vc


def position(c):
    return c.real('imageX', -2, 10), c.real('imageY', -2, 10)


def lens(c, k):
    """lens samples and the point of the unit disk they stand for"""
    if k == 0:
        return 0.5, 0.5, [0., 0.]
    if k == 2:          # along one axis of the lens, where the disk mapping is linear
        u, v = c.real('lens_u', 0.55, 0.95), 0.5
        return u, v, [2 * u - 1., 0.]
    u, v = c.real('lens_u', 0.05, 0.95), c.real('lens_v', 0.05, 0.95)
    p = mc.concentric_sample_disk(u, v)
    return u, v, [p[0], p[1]]


def towards(c, d, want, label):
    """d is the unit vector along want"""
    c.check_eq(dot3(d, d), 1., label + ': unit')
    c.check_eq(cross3(lst(d), want), [0., 0., 0.], label + ': along')
    c.check_ge(dot3(lst(d), want), 0., label + ': forwards')


WIN = [[-1., 1., -1., 1.], [-1.5, 0.5, -1., 2.], [0., 2., 0.25, 1.]]


def screen(w, res, x, y):
    """film position to screen: left edge to right, top to bottom"""
    return [w[0] + x / res[0] * (w[1] - w[0]), w[3] + y / res[1] * (w[2] - w[3])]


def camera(c, kind, still, k, win, res):
    at, so, sc, u, tm, pt, vc = scene(c, still)
    if k:
        rad = c.real('lens_rad', 0.1, 2) if k == 1 else 0.5
        foc = c.real('focal', 1, 20)
    else:
        rad, foc = 0., 1e6
    if kind == 'perspective':
        deg = c.angle('fov', 20, 140)
        tn = np.tan(deg * (np.pi / 180.) / 2.)
        cam = PerspectiveCamera(at, WIN[win], so, sc, rad, foc, deg, Film(*res))
    else:
        tn = None
        cam = OrthoCamera(at, WIN[win], so, sc, rad, foc, Film(*res))
    lu, lv, lp = lens(c, k)

    def want(x, y):
        """origin and (unnormalised) direction in camera space"""
        s = screen(WIN[win], res, x, y)
        if tn is not None:
            o, d = [0., 0., 0.], [s[0] * tn, s[1] * tn, 1.]
        else:
            o, d = [s[0], s[1], 0.], [0., 0., 1.]
        if k:
            f = [o[i] + foc * d[i] for i in range(3)]
            o = [lp[0] * rad, lp[1] * rad, 0.]
            d = sub3(f, o)
        return pt(o), vc(d)
    return cam, want, lu, lv, u, tm


CASES = [['perspective', '', 0, 0, [4, 3]], ['perspective', 'turn', 0, 1, [8, 8]], ['perspective', None, 0, 2, [4, 3]], ['perspective', '', 1, 1, [4, 3]],
         ['ortho', '', 0, 0, [4, 3]], ['ortho', 'turn', 0, 1, [8, 8]], ['ortho', None, 0, 2, [4, 3]], ['ortho', 'turn', 1, 1, [4, 3]]]


@harness('C18', params=CASES)
def ray(c, p):
    """the ray of a film position goes through its place on the screen (or the lens and the place in focus), at the time of the sample"""
    kind, still, k, win, res = p
    cam, want, lu, lv, u, tm = camera(c, kind, still, k, win, res)
    x, y = position(c)
    w, r = cam.generate_ray(CameraSample(x, y, lu, lv, u))
    c.check_eq(w, 1., 'weight')
    o, d = want(x, y)
    c.check_eq(lst(r.o), o, 'origin')
    towards(c, r.d, d, 'direction')
    c.check_eq(r.time, tm, 'time')
    c.check_eq(r.mint, 0., 'start')
    c.check(isinstance(r.maxt, float) and r.maxt == np.inf, 'unbounded')


@harness('C18', params=[p for p in CASES if p != ['perspective', '', 1, 1, [4, 3]]] + [['perspective', '', 2, 1, [4, 3]]])
def differential(c, p):
    """ray differentials are the rays of the next pixel to the right and below"""
    kind, still, k, win, res = p
    cam, want, lu, lv, u, tm = camera(c, kind, still, k, win, res)
    x, y = position(c)
    s = CameraSample(x, y, lu, lv, u)
    w, r = cam.generate_ray_differential(s)
    c.check_eq(w, 1., 'weight')
    c.check_eq([s.imageX, s.imageY, s.time], [x, y, u], 'sample unchanged')
    c.check(bool(r.has_differentials), 'has them')
    for (a, b), ro, rd, nm in (((x, y), r.o, r.d, 'main'), ((x + 1., y), r.rxOrigin, r.rxDirection, 'right'), ((x, y + 1.), r.ryOrigin, r.ryDirection, 'below')):
        o, d = want(a, b)
        c.check_eq(lst(ro), o, nm + ' origin')
        towards(c, rd, d, nm + ' direction')
    c.check_eq(r.time, tm, 'time')


@harness('C18', params=['', 'turn', None])
def environment(c, still):
    """the environment camera spreads polar angle over the height and azimuth over the width"""
    at, so, sc, u, tm, pt, vc = scene(c, still)
    x, y = c.real('imageX', 0, 8), c.real('imageY', 0, 4)
    cam = EnvironmentCamera(at, so, sc, Film(8, 4))
    w, r = cam.generate_ray(CameraSample(x, y, 0.5, 0.5, u))
    th, ph = np.pi * y / 4, 2 * np.pi * x / 8
    d = [np.sin(th) * np.cos(ph), np.cos(th), np.sin(th) * np.sin(ph)]
    c.check_eq(w, 1., 'weight')
    c.check_eq(lst(r.o), pt([0., 0., 0.]), 'origin')
    c.check_eq(lst(r.d), vc(d), 'direction')
    c.check_eq(r.time, tm, 'time')
    c.check_eq(dot3(r.d, r.d), 1., 'unit')


@harness('C18')
def environment_differential(c):
    """its differentials are the rays of the next pixel to the right and below"""
    x, y = c.real('imageX', 0, 8), c.real('imageY', 0, 4)
    t = Transform()
    cam = EnvironmentCamera(AnimatedTransform(t, 0., t, 1.), 0., 1., Film(8, 4))
    s = CameraSample(x, y, 0.5, 0.5, 0.25)
    w, r = cam.generate_ray_differential(s)
    c.check(bool(r.has_differentials), 'has them')
    for (a, b), rd in (((x, y), r.d), ((x + 1., y), r.rxDirection), ((x, y + 1.), r.ryDirection)):
        w1, q = cam.generate_ray(CameraSample(a, b, 0.5, 0.5, 0.25))
        c.check_eq(lst(rd), lst(q.d), 'direction')
    c.check_eq([s.imageX, s.imageY, s.time, r.time], [x, y, 0.25, 0.25], 'sample unchanged')


@harness('C18', params=['', 'turn'])
def pinhole(c, still):
    """the pinhole camera looks from the film through the hole"""
    t = PLACE[still]() if still else Transform()
    f = c.real('f', 0.5, 5)
    cam = PinholeCamera(AnimatedTransform(t, 0., t, 1.), f, Film(4, 3))
    x, y = position(c)
    w, r = cam.generate_ray(CameraSample(x, y, 0.5, 0.5, 0.))
    c.check_eq(w, 1., 'weight')
    c.check_eq(lst(r.o), matvec(t.m, [x, y, 0., 1.])[:3], 'origin')
    towards(c, r.d, matvec(t.m, [-x, -y, f, 0.])[:3], 'direction')
