"""Spheres"""
from symx.reg import harness
from harness.hu import *
import pytracer.shape as shape
from pytracer.transform import Transform

META = {
    'bounds': 'radius in [0.5, 4]; clipping planes anywhere in [-5, 5]; sweep 90, 180, 270 or 360 degrees; every ray that meets the sphere at more than a grazing angle, '
              'given by its entry point and direction (components in [-2, 2]) and parameter in [-20, 20], any range in [0, 40]; '
              'object-to-world: identity, and translation with rotation for placement',
    'outside': 'grazing rays (discriminant below 4e-4; the code drops rays below 1e-5); sweeps other than the four (wedge membership is then '
               'transcendental); scaled spheres for cone sampling; floating-point rounding',
}
SWEEP = [360., 180., 90., 270.]


def make(c, kind, sweep, o2w=None, ro=False):
    r = c.real('r', 0.5, 4)
    if kind == 'full':
        z0, z1 = -r, r
    else:
        z0, z1 = c.real('z0', -5, 5), c.real('z1', -5, 5)
    o2w = o2w or Transform()
    return shape.Sphere(o2w, o2w.inverse(), ro, r, z0, z1, sweep), r, z0, z1


def inz(c, kind, lo, hi, z):
    return kind == 'full' or bool(c.both(lo <= z, z <= hi))


DIRS = [(2., [-0.25, 0.5, -0.5]), (0.5, [2., 0., 0.]), (1., [0., 0., -1.]), (4., [1., 2., 2.])]


def first(c, kind, sweep, pole):
    """a sphere, a ray through it, and the expected first hit (parameter, point) or None"""
    r, dd = c.choice('case', (DIRS if sweep == 360. else DIRS[:1]) if pole and kind == 'full' else DIRS[1:3])
    if kind == 'full':
        lo, hi = z0, z1 = -r, r
    else:
        lo, hi = c.real('z0', -5, 5), c.real('z1', -5, 5)
        c.assume(c.both(hi - lo > 0.01, lo < r - 0.01, hi > 0.01 - r))
        z0, z1 = (hi, lo) if pole else (lo, hi)
    sp = shape.Sphere(Transform(), Transform(), False, r, z0, z1, sweep)
    n = c.unit_vec3('n')
    d = geo.Vector(*dd)
    t = c.real('t', -20, 20)
    P = scl3(n, r)
    c.assume(dot3(n, d) < -0.02)
    s = dot3(P, d)
    c.fact(s < -0.0099)
    c.fact(s * s > 0.000099)
    c.square(s)
    k = -2. * s / (dd[0] * dd[0] + dd[1] * dd[1] + dd[2] * dd[2])
    o = [P[i] - t * d[i] for i in range(3)]
    t2 = t + k
    Q = [P[i] + k * d[i] for i in range(3)]
    if not pole:
        c.assume(n[0] * n[0] + n[1] * n[1] > 0.01)
        c.assume(Q[0] * Q[0] + Q[1] * Q[1] > 0.01 * r * r)
    a, b = c.real('mint', 0, 40), c.real('maxt', 0, 40)
    ok1 = bool(c.both(a <= t, t <= b)) and wedge(c, sweep, P[0], P[1]) and inz(c, kind, lo, hi, P[2])
    want = None
    if ok1:
        want = (t, P)
    elif bool(c.both(a <= t2, t2 <= b)) and wedge(c, sweep, Q[0], Q[1]) and inz(c, kind, lo, hi, Q[2]):
        want = (t2, Q)
    return sp, geo.Ray(geo.Point(*o), d, a, b), o, want


CASES = [['full', s] for s in SWEEP] + [['clipped', 360.]]
ALL = [[k, s] for k in ('full', 'clipped') for s in SWEEP]


@harness('C09', params=CASES, thorough=ALL)
def exact_p(c, ks):
    """the predicate says whether some point of the ray, within its range, is on the kept part of the sphere"""
    sp, ray, o, want = first(c, ks[0], ks[1], True)
    c.check(bool(sp.intersect_p(ray)) == (want is not None), 'predicate')


@harness('C09', params=CASES, thorough=ALL)
def exact(c, ks):
    """the hit is the first point of the ray, within its range, on the kept part of the sphere"""
    sp, ray, o, want = first(c, ks[0], ks[1], False)
    d, a, b = lst(ray.d), ray.mint, ray.maxt
    hit, th, eps, dg = sp.intersect(ray)
    c.check(bool(hit) == (want is not None), 'hit')
    if hit and want is not None:
        c.observe('t', th)
        c.check_eq(th, want[0], 'parameter')
        c.check_eq(lst(dg.p), want[1], 'point', tol=1e-4)
        c.check(dg.shape is sp, 'shape')
    c.check_eq(lst(ray.o) + lst(ray.d) + [ray.mint, ray.maxt], o + d + [a, b], 'ray unchanged')


@harness('C09')
def missed(c):
    """a ray passing outside never hits"""
    sp, r, z0, z1 = make(c, 'full', 360.)
    o, d = pnt(c, 'o'), vec(c, 'd', 2)
    x = cross3(o, d)
    c.assume(dot3(x, x) > r * r * dot3(d, d))
    ray = geo.Ray(o, d, 0., 40.)
    c.check(not sp.intersect(ray)[0], 'no hit')
    c.check(not sp.intersect_p(ray), 'no hit, predicate')


@harness('C09', params=[[False, 360., None], [True, 180., None]], thorough=[[ro, sw, None] for ro in (False, True) for sw in (360., 180.)])
def surface(c, p):
    """coordinates, tangents and normal at a hit"""
    ro, sweep, r = p
    pm = 2. * np.pi if sweep == 360. else np.pi
    r = r or c.real('r', 0.5, 4)
    sp = shape.Sphere(Transform(), Transform(), ro, r, -r, r, sweep)
    phi, th = c.angle('phi', 0.05, pm - 0.05), c.angle('theta', 0.05, 3.09)
    sph, cph, sth, cth = np.sin(phi), np.cos(phi), np.sin(th), np.cos(th)
    c.fact(sth > 0.04)
    n = [sth * cph, sth * sph, cth]
    if c.boolean('from outside'):
        o = [n[i] * (r + 2.) for i in range(3)]
        t = 2.
    else:
        o, t = [n[i] * (r - 0.25) for i in range(3)], None
    s = -1. if t else 1.
    hit, tt, eps, dg = sp.intersect(geo.Ray(geo.Point(*o), geo.Vector(*[s * e for e in n]), 0., 50.))
    c.check(bool(hit), 'hit')
    c.check_eq(lst(dg.p), scl3(n, r), 'point')
    c.observe('uv', [dg.u, dg.v])
    c.check_eq(dg.u, phi / pm, 'u')
    c.check_eq(dg.v, 1. - th / np.pi, 'v')
    # derivatives of (r sin th cos phi, ...) with phi = u pm, th = pi (1 - v)
    c.check_eq(lst(dg.dpdu), [-pm * r * sth * sph, pm * r * sth * cph, 0.], 'dpdu')
    k = -np.pi * r
    c.check_eq(lst(dg.dpdv), [k * cth * cph, k * cth * sph, -k * sth], 'dpdv')
    c.check_eq(lst(dg.nn), scl3(n, -1. if ro else 1.), 'normal')
    # change of the outward normal is that of position over the radius
    c.check_eq(lst(dg.dndu), [dg.dpdu[i] / r for i in range(3)], 'dndu', tol=1e-5)
    c.check_eq(lst(dg.dndv), [dg.dpdv[i] / r for i in range(3)], 'dndv', tol=1e-5)


@harness('C09', params=['translate', 'turn', 'mirror'])
def placed(c, place):
    """a placed sphere is hit where the ray moved back hits it, with world-space geometry"""
    o2w = PLACE[place]()
    r = 2.
    sp = shape.Sphere(o2w, o2w.inverse(), False, r, -r, r, 360.)
    base = shape.Sphere(Transform(), Transform(), False, r, -r, r, 360.)
    phi, th = c.angle('phi', 0.05, 6.2), c.angle('theta', 0.05, 3.09)
    sph, cph, sth, cth = np.sin(phi), np.cos(phi), np.sin(th), np.cos(th)
    c.fact(sth > 0.04)
    n = [sth * cph, sth * sph, cth]
    o, d = scl3(n, r + 1.), geo.Vector(*scl3(n, -1.))
    h0, t0, e0, g0 = base.intersect(geo.Ray(geo.Point(*o), d, 0., 9.))
    m = o2w.m
    ow = matvec(m, o + [1.])[:3]
    dw = matvec(m, lst(d) + [0.])[:3]
    h, t, e, g = sp.intersect(geo.Ray(geo.Point(*ow), geo.Vector(*dw), 0., 9.))
    c.check(bool(h0) and bool(h), 'hit')
    c.check_eq(t, 1., 'parameter')
    c.check_eq(lst(g.p), matvec(m, lst(g0.p) + [1.])[:3], 'point')
    c.check_eq(lst(g.nn), matvec(m, lst(g0.nn) + [0.])[:3], 'normal')
    c.check_eq(lst(g.dpdu), matvec(m, lst(g0.dpdu) + [0.])[:3], 'dpdu')
    c.check_eq(lst(g.dpdv), matvec(m, lst(g0.dpdv) + [0.])[:3], 'dpdv')
    c.check_eq(lst(g.dndu), matvec(m, lst(g0.dndu) + [0.])[:3], 'dndu')
    c.check_eq(lst(g.dndv), matvec(m, lst(g0.dndv) + [0.])[:3], 'dndv')
    c.check_eq([g.u, g.v], [g0.u, g0.v], 'uv')


@harness('C09')
def construction(c):
    """clipping planes are ordered and clamped to the sphere; area and bound are those of the kept part"""
    sp, r, z0, z1 = make(c, 'clipped', 180.)
    lo = c.ite(z0 <= z1, z0, z1)
    hi = c.ite(z0 <= z1, z1, z0)
    lo = c.ite(lo < -r, -r, c.ite(lo > r, r, lo))
    hi = c.ite(hi < -r, -r, c.ite(hi > r, r, hi))
    c.check_eq([sp.zmin, sp.zmax], [lo, hi], 'planes')
    c.check_eq(sp.area(), np.pi * r * (hi - lo), 'area')
    b = sp.object_bound()
    c.check_eq(lst(b[0]) + lst(b[1]), [-r, -r, lo, r, r, hi], 'bound')
    c.check(bool(sp.can_intersect()), 'can be intersected')


@harness('C09', params=[360., 90.])
def sample(c, sweep):
    """area samples lie on the kept part, uniformly, with the outward unit normal (reversed on request)"""
    ro = c.boolean('ro')
    r = c.real('r', 0.5, 4)
    a, b = c.real('a', -0.95, 0.95), c.real('b', -0.95, 0.95)
    c.assume(b - a > 0.1)
    sp = shape.Sphere(Transform(), Transform(), ro, r, a * r, b * r, sweep)
    u1, u2 = c.real('u1', 0.001, 0.999), c.real('u2', 0.001, 0.999)
    (x, ns), J = c.jacobian(lambda p, q: sp.sample(p, q), [u1, u2])
    c.observe('x', x)
    c.check_eq(dot3(x, x), r * r, 'on the sphere')
    c.check_ge(x[2], a * r, 'above the lower plane')
    c.check_le(x[2], b * r, 'below the upper plane')
    if sweep == 90.:
        c.check_ge(x[0], 0., 'in the sweep, x')
        c.check_ge(x[1], 0., 'in the sweep, y')
    c.check_eq(lst(ns), [(-1. if ro else 1.) * x[i] / r for i in range(3)], 'normal')
    z = cross3([J[i][0] for i in range(3)], [J[i][1] for i in range(3)])
    A = np.deg2rad(sweep) * r * (b - a) * r
    c.check_eq(dot3(z, z), A * A, 'uniform over the area', tol=1e-3)
    c.check_eq(sp.pdf(geo.Point(0., 0., 0.)) * A, 1., 'density over the area')


@harness('C09')
def cone(c):
    """seen from outside: samples are the visible points, uniform in solid angle with the stated density"""
    r = 2.
    o2w = Transform.translate(geo.Vector(1., 2., 3.))
    ro = c.boolean('ro')
    sp = shape.Sphere(o2w, o2w.inverse(), ro, r, -r, r, 360.)
    n = c.choice('n', [[0., 0., 1.], [-1., 0., 0.]])
    dist = c.choice('dist', [2.5, 4.])
    ctr = [1., 2., 3.]
    p = geo.Point(*[ctr[i] + dist * n[i] for i in range(3)])
    u1, u2 = c.real('u1', 0.001, 0.99), c.real('u2', 0.001, 0.999)

    def first_hit(ray):
        # the nearer root, as C09.exact establishes it for the code's own
        q, d = sub3(ray.o, ctr), ray.d
        B, C = dot3(q, d), dot3(q, q) - r * r
        t = (-B - c.sqrt(B * B - dot3(d, d) * C)) / dot3(d, d)
        return [True, t, 0., None]
    sp.intersect = first_hit
    ps, ns = sp.sample_p(p, u1, u2)
    q = sub3(ps, ctr)
    c.observe('ps', ps)
    c.check_eq(dot3(q, q), r * r, 'on the sphere', tol=1e-4)
    # facing the point: visible
    w = sub3(p, ps)
    c.check_ge(dot3(q, w), 0., 'visible', tol=1e-4)
    c.check_eq(lst(ns), [(-1. if ro else 1.) * q[i] / r for i in range(3)], 'normal', tol=1e-4)
    # uniform in the cosine about the direction to the centre
    ww = dot3(w, w)
    cm2 = 1. - r * r / (dist * dist)
    k = -dot3(w, n)
    cm = c.sqrt(c.val(cm2)) if not c.symbolic else np.sqrt(np.float64(cm2))
    want = cm + u1 * (1. - cm)
    alt = 1. - u1 + u1 * cm
    c.check_le(k, 0., 'towards the sphere')
    # either end of the cone may come first
    c.check_eq((k * k - want * want * ww) * (k * k - alt * alt * ww), 0., 'uniform in the cosine', tol=1e-3)
    wi = geo.Vector(*scl3(n, -1.))
    c.check_eq(sp.pdf_p(p, wi) * 2. * np.pi * (1. - cm), 1., 'density')
