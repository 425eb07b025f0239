"""Applying transforms to points, vectors, normals, rays and boxes"""
from symx.reg import harness
from harness.hu import *
from pytracer.transform import Transform

META = {
    'bounds': 'arbitrary matrices with entries in [-5, 5] (projective for points); points and vectors in [-10, 10]; boxes under '
              'translations, non-negative scales and products of these with any rotation about a coordinate axis',
    'outside': 'points whose homogeneous weight is below 0.01 in magnitude; floating-point rounding',
}


def mat(c, n, b=5):
    return np.array([[c.real('%s%d%d' % (n, i, j), -b, b) for j in range(4)] for i in range(4)])


def affmat(c, n, b=5):
    m = np.eye(4)
    for i in range(3):
        for j in range(4):
            m[i][j] = c.real('%s%d%d' % (n, i, j), -b, b)
    return m


@harness('C05')
def point(c):
    """points: homogeneous, with division by the weight; input unchanged"""
    m = mat(c, 'm')
    t = Transform(m, np.eye(4))
    p = pnt(c, 'p')
    p0 = lst(p)
    h = matvec(m, p0 + [1.])
    c.assume(c.either(h[3] > 0.01, h[3] < -0.01))
    r = t(p)
    c.observe('r', r)
    c.check(isinstance(r, geo.Point), 'kind')
    c.check_eq([r[i] * h[3] for i in range(3)], h[:3], 'mapped and divided', tol=1e-3)
    c.check_eq(lst(p), p0, 'input unchanged')


@harness('C05')
def point_affine(c):
    """points under affine maps; the same from a bare array"""
    m = affmat(c, 'm')
    t = Transform(m, np.eye(4))
    p = pnt(c, 'p')
    w = matvec(m, lst(p) + [1.])[:3]
    c.check_eq(lst(t(p)), w, 'mapped')
    r = t(np.array(lst(p)), dtype=geo.Point)
    c.check(isinstance(r, geo.Point), 'kind from array')
    c.check_eq(lst(r), w, 'mapped from array')


@harness('C05')
def vector(c):
    """vectors: linear part only"""
    m = mat(c, 'm')
    t = Transform(m, np.eye(4))
    v = vec(c, 'v')
    v0 = lst(v)
    w = matvec(m, v0 + [0.])[:3]
    r = t(v)
    c.observe('r', r)
    c.check(isinstance(r, geo.Vector), 'kind')
    c.check_eq(lst(r), w, 'mapped')
    c.check_eq(lst(v), v0, 'input unchanged')
    r = t(np.array(v0), dtype=geo.Vector)
    c.check(isinstance(r, geo.Vector), 'kind from array')
    c.check_eq(lst(r), w, 'mapped from array')


@harness('C05')
def normal(c):
    """normals: inverse transpose, so that they stay orthogonal to transformed tangents"""
    a = [[c.real('a%d%d' % (i, j), -5, 5) for j in range(3)] for i in range(3)]
    d = det3(a[0], a[1], a[2])
    c.assume(c.either(d > 0.01, d < -0.01))
    x, y, z = cross3(a[1], a[2]), cross3(a[2], a[0]), cross3(a[0], a[1])
    m, mi = np.eye(4), np.eye(4)
    for i in range(3):
        for j in range(3):
            m[i][j] = a[i][j]
            mi[i][j] = [x, y, z][j][i] / d
    t = Transform(m, mi)
    n = nrm(c, 'n')
    n0 = lst(n)
    v = vec(c, 'v')
    r = t(n)
    c.observe('r', r)
    c.check(isinstance(r, geo.Normal), 'kind')
    w = matvec(a, lst(v))
    c.check_eq(dot3(r, w), dot3(n0, v), 'the product with a transformed vector is kept')
    c.check_eq(lst(n), n0, 'input unchanged')
    r = t(np.array(n0), dtype=geo.Normal)
    c.check(isinstance(r, geo.Normal), 'kind from array')
    c.check_eq(dot3(r, w), dot3(n0, v), 'product, from array')


@harness('C05')
def ray(c):
    """rays: origin as a point, direction as a vector, the rest kept; any point of the ray commutes"""
    m = affmat(c, 'm')
    t = Transform(m, np.eye(4))
    o, d = pnt(c, 'o'), vec(c, 'd')
    mint, maxt, tm = c.real('mint', 0, 5), c.real('maxt', 5, 10), c.real('time', 0, 1)
    r = geo.Ray(o, d, mint, maxt, 3, tm)
    s = t(r)
    c.observe('o', s.o)
    c.check(type(s) is geo.Ray and s is not r, 'a new ray')
    c.check_eq(lst(s.o), matvec(m, lst(o) + [1.])[:3], 'origin')
    c.check_eq(lst(s.d), matvec(m, lst(d) + [0.])[:3], 'direction')
    c.check_eq([s.mint, s.maxt, s.time, s.depth], [mint, maxt, tm, 3], 'extent, time and depth')
    k = c.real('k', 0, 10)
    c.check_eq(lst(s(k)), matvec(m, lst(r(k)) + [1.])[:3], 'commutes with evaluation')
    c.check_eq(lst(r.o) + lst(r.d), lst(o) + lst(d), 'input unchanged')


@harness('C05')
def ray_differential(c):
    """ray differentials: the two offset rays are transformed too"""
    m = affmat(c, 'm')
    t = Transform(m, np.eye(4))
    r = geo.RayDifferential(pnt(c, 'o'), vec(c, 'd'), 0.5, 7., 2, 0.25)
    r.has_differentials = True
    ps = [pnt(c, 'rxo'), pnt(c, 'ryo')]
    vs = [vec(c, 'rxd'), vec(c, 'ryd')]
    r.rxOrigin, r.ryOrigin = ps
    r.rxDirection, r.ryDirection = vs
    s = t(r)
    c.check(type(s) is geo.RayDifferential and s is not r, 'a new ray differential')
    c.check(bool(s.has_differentials), 'still has differentials')
    c.check_eq([s.mint, s.maxt, s.time, s.depth], [0.5, 7., 0.25, 2], 'extent, time and depth')
    c.check_eq(lst(s.o), matvec(m, lst(r.o) + [1.])[:3], 'origin')
    c.check_eq(lst(s.d), matvec(m, lst(r.d) + [0.])[:3], 'direction')
    for got, p, n in ((s.rxOrigin, ps[0], 'x origin'), (s.ryOrigin, ps[1], 'y origin')):
        c.check_eq(lst(got), matvec(m, lst(p) + [1.])[:3], n)
    for got, p, n in ((s.rxDirection, vs[0], 'x direction'), (s.ryDirection, vs[1], 'y direction')):
        c.check_eq(lst(got), matvec(m, lst(p) + [0.])[:3], n)


@harness('C05')
def plain_ray_differential(c):
    """without differentials the flag stays off"""
    m = affmat(c, 'm')
    t = Transform(m, np.eye(4))
    s = t(geo.RayDifferential(pnt(c, 'o'), vec(c, 'd')))
    c.check(not bool(s.has_differentials), 'no differentials')
    c.check(raises(TypeError, t, 1.) and raises(TypeError, t, 'x'), 'other arguments are rejected')


@harness('C05', params=['translate', 'scale', 'both', 'rotate_x', 'rotate_y', 'rotate_z', 'mirror'])
def box(c, k):
    """the transformed box holds the image of every point of the box"""
    p, q, u = pnt(c, 'p'), pnt(c, 'q'), [c.unit('u%d' % i) for i in range(3)]
    b = geo.BBox(p, q)
    b0 = lst(b[0]) + lst(b[1])
    d = vec(c, 'd')
    if k in ('translate', 'both', 'rotate_x', 'rotate_y', 'rotate_z'):
        t = Transform.translate(d)
    if k == 'scale':
        t = Transform.scale(*[c.real('s%d' % i, 0.05, 5) for i in range(3)])
    if k == 'both':
        t = t * Transform.scale(*[c.real('s%d' % i, 0.05, 5) for i in range(3)])
    if k == 'mirror':
        t = Transform.scale(-1., 1., 1.)
    if k.startswith('rotate'):
        t = t * getattr(Transform, k)(c.angle('a', 0, 360))
    r = t(b)
    c.check(isinstance(r, geo.BBox) and r is not b, 'a new box')
    c.check_eq(lst(b[0]) + lst(b[1]), b0, 'input unchanged')
    x = geo.Point(*[b[0][i] + u[i] * (b[1][i] - b[0][i]) for i in range(3)])
    y = t(x)
    for i in range(3):
        c.check_le(r[0][i], y[i], 'holds the image from below')
        c.check_le(y[i], r[1][i], 'holds the image from above')
