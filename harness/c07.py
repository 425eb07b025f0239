"""Rays, ray differentials and differential geometry"""
from symx.reg import harness
from harness.hu import *

META = {
    'bounds': 'origins, points, tangents and directions with components in [-10, 10] (tangents in [-4, 4]), any range, depth 0 to 3; tangents of '
              'parallelogram area above 0.05; offset rays meeting the tangent plane at more than a glancing angle',
    'outside': 'floating-point rounding; offset rays parallel to the tangent plane',
}


class Shp(object):
    """what differential geometry asks of a shape"""
    def __init__(self, ro, sw):
        self.ro, self.transform_swaps_handedness = ro, sw


@harness('C07', params=['Ray', 'RayDifferential'])
def along(c, k):
    """point at a parameter; a ray owns its origin and direction"""
    cls = getattr(geo, k)
    o, d = pnt(c, 'o'), vec(c, 'd')
    t = c.real('t', -10, 10)
    r = cls(o, d, 0.25, 7., 2, 0.5)
    x = r(t)
    c.observe('x', x)
    c.check(isinstance(x, geo.Point), 'a point')
    c.check_eq(lst(x), [o[i] + t * d[i] for i in range(3)], 'o + t d')
    c.check_eq([r.mint, r.maxt, r.depth, r.time], [0.25, 7., 2, 0.5], 'fields')
    o2, d2 = lst(o), lst(d)
    o.x = o.x + 1.
    d.z = d.z - 2.
    c.check_eq(lst(r.o), o2, 'own origin')
    c.check_eq(lst(r.d), d2, 'own direction')
    z = cls()
    c.check_eq([z.mint, z.depth, z.time], [0., 0, 0.], 'default fields')
    c.check(z.maxt == np.inf, 'unbounded')


@harness('C07', params=['Ray', 'RayDifferential'])
def derived(c, k):
    """a spawned ray is one deeper at the same time; a copy is equal and independent"""
    cls = getattr(geo, k)
    a, b = c.real('mint', 0, 10), c.real('maxt', 0, 10)
    dep, tm = c.integer('depth', 0, 3), c.real('time', 0, 10)
    r = cls(pnt(c, 'o'), vec(c, 'd'), a, b, dep, tm)
    p, v = pnt(c, 'p'), vec(c, 'v')
    e = c.real('eps', 0, 1)
    s = cls.from_parent(p, v, r, e)
    c.check(type(s) is cls, 'kind')
    c.check_eq(lst(s.o) + lst(s.d), lst(p) + lst(v), 'spawned origin and direction')
    c.check_eq([s.mint, s.depth, s.time], [e, dep + 1, tm], 'spawned fields')
    c.check(s.maxt == np.inf, 'spawned unbounded')
    s = cls.from_parent(p, v, r, e, b)
    c.check_eq([s.mint, s.maxt], [e, b], 'spawned range')
    q = cls.from_ray(r)
    c.check(type(q) is cls, 'kind of the copy')
    c.check_eq(lst(q.o) + lst(q.d) + [q.mint, q.maxt, q.depth, q.time],
               lst(r.o) + lst(r.d) + [a, b, dep, tm], 'copy')
    o2 = lst(r.o)
    q.o.x = q.o.x + 1.
    q.maxt = 0.5
    c.check_eq(lst(r.o) + [r.maxt], o2 + [b], 'independent')


def rdiff(c):
    r = geo.RayDifferential(pnt(c, 'o'), vec(c, 'd'), 0.5, 8., 1, 0.25)
    r.has_differentials = True
    r.rxOrigin, r.ryOrigin = pnt(c, 'xo'), pnt(c, 'yo')
    r.rxDirection, r.ryDirection = vec(c, 'xd'), vec(c, 'yd')
    return r


def allof(r):
    return lst(r.rxOrigin) + lst(r.ryOrigin) + lst(r.rxDirection) + lst(r.ryDirection)


@harness('C07')
def copy_differential(c):
    r = rdiff(c)
    q = geo.RayDifferential.from_rd(r)
    c.observe('q', q.o)
    c.check(bool(q.has_differentials), 'has differentials')
    c.check_eq(lst(q.o) + lst(q.d) + [q.mint, q.maxt, q.depth, q.time], lst(r.o) + lst(r.d) + [0.5, 8., 1, 0.25], 'main ray')
    c.check_eq(allof(q), allof(r), 'offset rays')
    w = allof(r)
    q.rxOrigin.x = q.rxOrigin.x + 1.
    q.ryDirection.y = q.ryDirection.y + 1.
    c.check_eq(allof(r), w, 'independent')
    c.check(not geo.RayDifferential.from_rd(geo.RayDifferential()).has_differentials, 'without')


@harness('C07')
def scale(c):
    """scaling pulls the offset rays towards the main ray by the factor"""
    r = rdiff(c)
    s = c.real('s', 0, 4)
    w = allof(r)
    m = lst(r.o) * 2 + lst(r.d) * 2
    k = lst(r.o) + lst(r.d)
    r.scale_differential(s)
    c.observe('w', allof(r))
    c.check_eq(allof(r), [m[i] + s * (w[i] - m[i]) for i in range(12)], 'scaled')
    c.check_eq(lst(r.o) + lst(r.d), k, 'main ray kept')


@harness('C07', params=[None, (False, False), (False, True), (True, False), (True, True)])
def geometry(c, f):
    """the normal is unit, orthogonal to both tangents, right-handed, reversed for one of reversed orientation and mirroring"""
    u, v = vec(c, 'u', 4), vec(c, 'v', 4)
    x = cross3(u, v)
    c.assume(dot3(x, x) > 0.0025)
    p = pnt(c, 'p')
    uu, vv = c.real('uu', 0, 1), c.real('vv', 0, 1)
    shp = None if f is None else Shp(*f)
    dn, dm = nrm(c, 'dndu', 4), nrm(c, 'dndv', 4)
    dg = geo.DifferentialGeometry(p, u, v, dn, dm, uu, vv, shp)
    for z, tag in ((dg, ''), (dg.copy(), ' of the copy')):
        c.observe('n' + tag, z.nn)
        c.check(isinstance(z.nn, geo.Normal), 'a normal' + tag)
        c.check_eq(dot3(z.nn, z.nn), 1., 'unit' + tag)
        c.check_eq(dot3(z.nn, u), 0., 'orthogonal to dpdu' + tag)
        c.check_eq(dot3(z.nn, v), 0., 'orthogonal to dpdv' + tag)
        s = dot3(z.nn, x)
        if f is not None and f[0] != f[1]:
            s = -s
        c.check(s > 0, 'orientation' + tag)
        c.check_eq(lst(z.p) + lst(z.dpdu) + lst(z.dpdv) + lst(z.dndu) + lst(z.dndv) + [z.u, z.v],
                   lst(p) + lst(u) + lst(v) + lst(dn) + lst(dm) + [uu, vv], 'fields' + tag)
        c.check(z.shape is shp, 'shape' + tag)
    k = lst(dg.p)
    p.x = p.x + 1.
    c.check_eq(lst(dg.p), k, 'own point')


def tangents(c, plane):
    """tangents of a plane with the largest normal component on a given axis"""
    if plane == 'free':
        u, v = vec(c, 'u', 4), vec(c, 'v', 4)
        return u, v
    a, b, d, e = [c.real(n, -4, 4) for n in 'abde']
    w, z = c.real('w', -1, 1), c.real('z', -1, 1)
    # tilted plane spanned by the two other axes
    i = 'xyz'.index(plane)
    u, v = [a, b], [d, e]
    u.insert(i, a * w + b * z)
    v.insert(i, d * w + e * z)
    return geo.Vector(*u), geo.Vector(*v)


@harness('C07', params=['x', 'y', 'z'])
def differential(c, plane):
    """screen-space change: the offset rays hit the tangent plane there, and (u, v) changes account for it"""
    u, v = tangents(c, plane)
    x = cross3(u, v)
    c.assume(dot3(x, x) > 0.0025)
    p = pnt(c, 'p')
    z = nrm(c, 'k', 1)
    dg = geo.DifferentialGeometry(p, u, v, z, z, 0., 0., None)
    r = rdiff(c)
    for d in (r.rxDirection, r.ryDirection):
        k = dot3(d, x)
        c.assume(k * k > 0.01 * dot3(x, x))
    dg.compute_differential(r)
    for ax, o, d, dp, du, dv in (('x', r.rxOrigin, r.rxDirection, dg.dpdx, dg.dudx, dg.dvdx),
                                 ('y', r.ryOrigin, r.ryDirection, dg.dpdy, dg.dudy, dg.dvdy)):
        c.check_eq(dot3(dp, x), 0., 'in the tangent plane ' + ax)
        # on the offset ray: p + dp - o parallel to d
        w = [p[i] + dp[i] - o[i] for i in range(3)]
        c.check_eq(cross3(w, lst(d)), [0., 0., 0.], 'on the offset ray ' + ax, tol=1e-5)
        for i in range(3):
            c.check_eq(u[i] * du + v[i] * dv, dp[i], 'uv change %s %d' % (ax, i), tol=1e-4)


@harness('C07')
def no_differential(c):
    u, v = geo.Vector(1., 0., 0.), geo.Vector(0., 1., 0.)
    z = nrm(c, 'k', 1)
    dg = geo.DifferentialGeometry(pnt(c, 'p'), u, v, z, z, 0., 0., None)
    if c.boolean('used before'):
        dg.dudx = dg.dvdy = c.real('old', -1, 1)
        dg.dpdx = vec(c, 'oldp')
    r = geo.RayDifferential(pnt(c, 'o'), vec(c, 'd'))
    dg.compute_differential(r)
    c.check_eq([dg.dudx, dg.dvdx, dg.dudy, dg.dvdy] + lst(dg.dpdx) + lst(dg.dpdy), [0.] * 10, 'no change')
