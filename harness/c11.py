"""Cylinders"""
from symx.reg import harness
from harness.hu import *
import pytracer.shape as shape

META = {
    'bounds': 'radius 0.5, 1, 2 or 4 with rays in four directions (any position, parameter in [-20, 20], range in [0, 40]); '
              'end planes anywhere in [-5, 5], given in either order; sweep 90, 180, 270 or 360 degrees; radius in [0.5, 4] for '
              'differential geometry, sampling, area and bound',
    'outside': 'grazing rays; ray directions other than the four; sweeps other than the four; floating-point rounding',
}
SWEEP = [360., 180., 90., 270.]
DIRS = [(0.5, [2., 0., 0.]), (1., [0., -1., 0.5]), (2., [-0.25, 0.5, -0.5]), (4., [1., 2., 2.])]


def ends(c):
    lo, hi = c.real('z0', -5, 5), c.real('z1', -5, 5)
    c.assume(hi - lo > 0.05)
    return (lo, hi) + ((hi, lo) if c.boolean('swap') else (lo, hi))


@harness('C11', params=SWEEP)
def exact(c, sweep):
    """the hit is the first point of the ray, within its range, on the kept part of the cylinder"""
    r, dd = c.choice('case', DIRS[:2] if sweep != 360. else DIRS)
    lo, hi, z0, z1 = ends(c)
    sp = shape.Cylinder(Transform(), Transform(), False, r, z0, z1, sweep)
    n = c.unit_vec2('n')
    d = geo.Vector(*dd)
    t = c.real('t', -20, 20)
    nd = n[0] * dd[0] + n[1] * dd[1]
    c.assume(nd < -0.02)
    s = nd * r
    c.fact(s * s > 0.000099)
    c.square(s)
    k = -2. * s / (dd[0] * dd[0] + dd[1] * dd[1])
    P = [r * n[0], r * n[1], c.real('z', -9, 9)]
    o = [P[i] - t * d[i] for i in range(3)]
    t2 = t + k
    Q = [P[i] + k * d[i] for i in range(3)]
    a, b = c.real('mint', 0, 40), c.real('maxt', 0, 40)
    want = None
    if bool(c.both(a <= t, t <= b)) and wedge(c, sweep, P[0], P[1]) and bool(c.both(lo <= P[2], P[2] <= hi)):
        want = (t, P)
    elif bool(c.both(a <= t2, t2 <= b)) and wedge(c, sweep, Q[0], Q[1]) and bool(c.both(lo <= Q[2], Q[2] <= hi)):
        want = (t2, Q)
    ray = geo.Ray(geo.Point(*o), d, a, b)
    c.check(bool(sp.intersect_p(ray)) == (want is not None), 'predicate')
    hit, th, eps, dg = sp.intersect(ray)
    c.check(bool(hit) == (want is not None), 'hit')
    if hit and want is not None:
        c.observe('t', th)
        c.check_eq(th, want[0], 'parameter')
        c.check_eq(lst(dg.p), want[1], 'point', tol=1e-4)
        c.check(dg.shape is sp, 'shape')
    c.check_eq(lst(ray.o) + lst(ray.d) + [ray.mint, ray.maxt], o + dd + [a, b], 'ray unchanged')


@harness('C11')
def missed(c):
    """a ray passing outside, or along the axis, never hits"""
    r = c.real('r', 0.5, 4)
    sp = shape.Cylinder(Transform(), Transform(), False, r, -2., 3., 360.)
    o, d = pnt(c, 'o'), vec(c, 'd', 2)
    x = o[0] * d[1] - o[1] * d[0]
    if c.boolean('axial'):
        d = geo.Vector(0., 0., d[2])
    else:
        c.assume(x * x > r * r * (d[0] * d[0] + d[1] * d[1]))
    ray = geo.Ray(o, d, 0., 40.)
    c.check(not sp.intersect(ray)[0], 'no hit')
    c.check(not sp.intersect_p(ray), 'no hit, predicate')


@harness('C11', params=[[False, 360., None], [True, 180., None], [False, 360., 'turn'], [True, 360., 'translate'], [False, 360., 'mirror'], [True, 360., 'mirror']])
def surface(c, p):
    """coordinates, tangents and normal at a hit, also of a placed cylinder"""
    ro, sweep, pl = p
    pm = 2. * np.pi if sweep == 360. else np.pi
    o2w = PLACE[pl]() if pl else Transform()
    m = o2w.m
    r = c.real('r', 0.5, 4)
    lo, hi, z0, z1 = ends(c)
    sp = shape.Cylinder(o2w, o2w.inverse(), ro, r, z0, z1, sweep)
    phi, v = c.angle('phi', 0.05, pm - 0.05), c.real('v', 0.02, 0.98)
    s, co = np.sin(phi), np.cos(phi)
    P = [r * co, r * s, lo + v * (hi - lo)]
    o, d = [co * (r + 2.), s * (r + 2.), P[2]], [-co, -s, 0.]
    ow, dw = matvec(m, o + [1.])[:3], matvec(m, d + [0.])[:3]
    hit, t, eps, dg = sp.intersect(geo.Ray(geo.Point(*ow), geo.Vector(*dw), 0., 50.))
    c.check(bool(hit), 'hit')
    c.check_eq(t, 2., 'parameter')
    c.observe('uv', [dg.u, dg.v])
    c.check_eq(lst(dg.p), matvec(m, P + [1.])[:3], 'point')
    c.check_eq(dg.u, phi / pm, 'u')
    c.check_eq(dg.v, v, 'v')
    c.check_eq(lst(dg.dpdu), matvec(m, [-pm * r * s, pm * r * co, 0., 0.])[:3], 'dpdu')
    c.check_eq(lst(dg.dpdv), matvec(m, [0., 0., hi - lo, 0.])[:3], 'dpdv')
    k = -1. if ro else 1.
    c.check_eq(lst(dg.nn), matvec(m, [k * co, k * s, 0., 0.])[:3], 'normal')
    c.check_eq(lst(dg.dndu), matvec(m, [-pm * s, pm * co, 0., 0.])[:3], 'dndu', tol=1e-5)
    c.check_eq(lst(dg.dndv), [0., 0., 0.], 'dndv', tol=1e-5)


@harness('C11', params=[[360., None], [90., 'turn']])
def sample(c, p):
    """area samples lie on the kept part, uniformly, with the outward unit normal (reversed on request)"""
    sweep, pl = p
    ro = c.boolean('ro')
    o2w = PLACE[pl]() if pl else Transform()
    r = c.real('r', 0.5, 4)
    lo, hi, z0, z1 = ends(c)
    sp = shape.Cylinder(o2w, o2w.inverse(), ro, r, z0, z1, sweep)
    u1, u2 = c.real('u1', 0.001, 0.999), c.real('u2', 0.001, 0.999)
    (xw, ns), J = c.jacobian(lambda p, q: sp.sample(p, q), [u1, u2])
    x = matvec(o2w.m_inv, lst(xw) + [1.])[:3]
    c.observe('x', xw)
    c.check_eq(x[0] * x[0] + x[1] * x[1], r * r, 'on the cylinder')
    c.check_ge(x[2], lo, 'above the lower end')
    c.check_le(x[2], hi, 'below the upper end')
    if sweep == 90.:
        c.check_ge(x[0], 0., 'in the sweep, x')
        c.check_ge(x[1], 0., 'in the sweep, y')
    k = -1. if ro else 1.
    c.check_eq(lst(ns), matvec(o2w.m, [k * x[0] / r, k * x[1] / r, 0., 0.])[:3], 'normal')
    z = cross3([J[i][0] for i in range(3)], [J[i][1] for i in range(3)])
    A = np.deg2rad(sweep) * r * (hi - lo)
    c.check_eq(dot3(z, z), A * A, 'uniform over the area', tol=1e-3)
    c.check_eq(sp.pdf(geo.Point(0., 0., 0.)) * A, 1., 'density over the area')


@harness('C11', params=SWEEP)
def construction(c, sweep):
    """area and bound"""
    r = c.real('r', 0.5, 4)
    lo, hi, z0, z1 = ends(c)
    sp = shape.Cylinder(Transform(), Transform(), False, r, z0, z1, sweep)
    c.check_eq(sp.area(), np.deg2rad(sweep) * r * (hi - lo), 'area')
    b = sp.object_bound()
    n, z = c.unit_vec2('n'), c.real('z', -5, 5)
    c.assume(c.both(lo <= z, z <= hi))
    for q, k in ((r * n[0], 0), (r * n[1], 1), (z, 2)):
        c.check_ge(q, b[0][k], 'bound, below %d' % k)
        c.check_le(q, b[1][k], 'bound, above %d' % k)
    c.check(bool(sp.can_intersect()), 'can be intersected')
