"""Disks"""
from symx.reg import harness
from harness.hu import *
import pytracer.shape as shape

META = {
    'bounds': 'outer radius in [0.5, 4], inner radius from 0 to just below it, height in [-5, 5], sweep 90, 180, 270 or 360 degrees; '
              'every ray that meets the plane at more than a grazing angle (direction components in [-2, 2]), any range in [0, 40]',
    'outside': 'rays within 1e-3 of parallel to the plane; sweeps other than the four; floating-point rounding',
}
SWEEP = [360., 180., 90., 270.]


def make(c, sweep, o2w=None, ro=False):
    r, h = c.real('r', 0.5, 4), c.real('h', -5, 5)
    ri = c.real('ri', 0, 3.9)
    c.assume(ri < r - 0.05)
    o2w = o2w or Transform()
    return shape.Disk(o2w, o2w.inverse(), ro, h, r, ri, sweep), r, ri, h


@harness('C10', params=SWEEP)
def exact(c, sweep):
    """a ray hits where it crosses the plane of the disk within its range, inside the annulus and the sweep"""
    sp, r, ri, h = make(c, sweep)
    d = vec(c, 'd', 2)
    nonzero(c, d[2], 0.001)
    t = c.real('t', -20, 20)
    P = [c.real('x', -5, 5), c.real('y', -5, 5), h]
    rho = P[0] * P[0] + P[1] * P[1]
    o = [P[i] - t * d[i] for i in range(3)]
    a, b = c.real('mint', 0, 40), c.real('maxt', 0, 40)
    want = bool(c.both(a <= t, t <= b)) and bool(c.both(ri * ri <= rho, rho <= r * r)) and wedge(c, sweep, P[0], P[1])
    ray = geo.Ray(geo.Point(*o), d, a, b)
    c.check(bool(sp.intersect_p(ray)) == want, 'predicate')
    if not want:
        c.check(not sp.intersect(ray)[0], 'no hit')
        return
    c.assume(rho > 0.0001)
    hit, th, eps, dg = sp.intersect(ray)
    c.check(bool(hit), 'hit')
    c.observe('t', th)
    c.check_eq(th, t, 'parameter')
    c.check_eq(lst(dg.p), P, 'point')
    c.check(dg.shape is sp, 'shape')
    c.check_eq(lst(ray.o) + lst(ray.d) + [ray.mint, ray.maxt], o + lst(d) + [a, b], 'ray unchanged')


@harness('C10')
def parallel(c):
    """a ray parallel to the plane never hits"""
    sp, r, ri, h = make(c, 360.)
    ray = geo.Ray(pnt(c, 'o'), geo.Vector(c.real('dx', -2, 2), c.real('dy', -2, 2), 0.), 0., 40.)
    c.check(not sp.intersect(ray)[0], 'no hit')
    c.check(not sp.intersect_p(ray), 'no hit, predicate')


@harness('C10', params=[[ro, sw, pl] for ro, sw, pl in ((False, 360., None), (True, 180., None), (False, 360., 'turn'), (True, 360., 'translate'), (False, 360., 'mirror'), (True, 360., 'mirror'))])
def surface(c, p):
    """coordinates, tangents and normal at a hit, also of a placed disk"""
    ro, sweep, pl = p
    pm = 2. * np.pi if sweep == 360. else np.pi
    o2w = PLACE[pl]() if pl else Transform()
    m = o2w.m
    sp, r, ri, h = make(c, sweep, o2w, ro)
    phi, v = c.angle('phi', 0.05, pm - 0.05), c.real('v', 0.02, 0.98)
    s, co = np.sin(phi), np.cos(phi)
    rho = ri + (1. - v) * (r - ri)
    c.fact(rho > 0.0009)
    P = [rho * co, rho * s, h]
    o, d = [P[0], P[1], h + 2.], [0., 0., -1.]
    ow, dw = matvec(m, o + [1.])[:3], matvec(m, d + [0.])[:3]
    hit, t, eps, dg = sp.intersect(geo.Ray(geo.Point(*ow), geo.Vector(*dw), 0., 50.))
    c.check(bool(hit), 'hit')
    c.check_eq(t, 2., 'parameter')
    c.observe('uv', [dg.u, dg.v])
    c.check_eq(lst(dg.p), matvec(m, P + [1.])[:3], 'point')
    c.check_eq(dg.u, phi / pm, 'u')
    c.check_eq(dg.v, v, 'v')
    c.check_eq(lst(dg.dpdu), matvec(m, [-pm * rho * s, pm * rho * co, 0., 0.])[:3], 'dpdu')
    c.check_eq(lst(dg.dpdv), matvec(m, [-(r - ri) * co, -(r - ri) * s, 0., 0.])[:3], 'dpdv')
    c.check_eq(lst(dg.nn), matvec(m, [0., 0., -1. if ro else 1., 0.])[:3], 'normal')
    c.check_eq(lst(dg.dndu) + lst(dg.dndv), [0.] * 6, 'flat')


@harness('C10', params=[[360., None], [90., 'turn']])
def sample(c, p):
    """area samples lie on the annulus within the sweep, uniformly, with the unit normal (reversed on request)"""
    sweep, pl = p
    ro = c.boolean('ro')
    o2w = PLACE[pl]() if pl else Transform()
    sp, r, ri, h = make(c, sweep, o2w, ro)
    u1, u2 = c.real('u1', 0.001, 0.999), c.real('u2', 0.001, 0.999)
    c.assume(c.neg(c.both(u1 == 0.5, u2 == 0.5)))
    (xw, ns), J = c.jacobian(lambda p, q: sp.sample(p, q), [u1, u2])
    x = matvec(o2w.m_inv, lst(xw) + [1.])[:3]
    c.observe('x', xw)
    rho = x[0] * x[0] + x[1] * x[1]
    c.check_eq(x[2], h, 'height')
    c.check_ge(rho, ri * ri, 'outside the hole')
    c.check_le(rho, r * r, 'inside')
    if sweep == 90.:
        c.check_ge(x[0], 0., 'in the sweep, x')
        c.check_ge(x[1], 0., 'in the sweep, y')
    c.check_eq(lst(ns), matvec(o2w.m, [0., 0., -1. if ro else 1., 0.])[:3], 'normal')
    z = cross3([J[i][0] for i in range(3)], [J[i][1] for i in range(3)])
    A = np.deg2rad(sweep) * (r * r - ri * ri) / 2.
    c.check_eq(dot3(z, z), A * A, 'uniform over the area', tol=1e-3)
    c.check_eq(sp.pdf(geo.Point(0., 0., 0.)) * A, 1., 'density over the area')


@harness('C10', params=SWEEP)
def construction(c, sweep):
    """area and bound"""
    sp, r, ri, h = make(c, sweep)
    c.check_eq(sp.area(), np.deg2rad(sweep) * (r * r - ri * ri) / 2., 'area')
    b = sp.object_bound()
    x, y = c.real('x', -5, 5), c.real('y', -5, 5)
    c.assume(x * x + y * y <= r * r)
    for q, k in ((x, 0), (y, 1), (h, 2)):
        c.check_ge(q, b[0][k], 'bound, below %d' % k)
        c.check_le(q, b[1][k], 'bound, above %d' % k)
    c.check(bool(sp.can_intersect()), 'can be intersected')
