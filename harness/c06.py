"""Rotations as quaternions and animated transforms"""
import math
from symx.reg import harness
from harness.hu import *
from pytracer.transform import Transform, AnimatedTransform
import pytracer.transform.quat as quat

META = {
    'bounds': 'any unit quaternion and any rotation matrix; interpolation parameter in [0, 1]; keyframe times and query times in '
              '[0, 10]; keyframe transforms: arbitrary translations, with one fixed rotation and scale per case',
    'outside': 'the polar decomposition of keyframes runs on fixed linear parts (identity, quarter turn, scale) only; '
               'interpolation between opposite rotations (180 degrees apart); floating-point rounding',
}


def uquat(c, n):
    a, b, d, e = c.unit_quat(n)
    return quat.Quaternion(a, b, d, e), (a, b, d, e)


@harness('C06')
def to_transform(c):
    """a unit quaternion gives a rotation: orthonormal, right-handed, the same for -q, and its inverse is its transpose"""
    q, (x, y, z, w) = uquat(c, 'q')
    t = quat.to_transform(q)
    c.observe('m', t.m)
    m = [lst(t.m[i])[:3] for i in range(3)]
    for i in range(3):
        for j in range(3):
            c.check_eq(dot3(m[i], m[j]), 1. if i == j else 0., 'orthonormal %d %d' % (i, j))
            c.check_eq(t.m_inv[i][j], t.m[j][i], 'inverse is the transpose %d %d' % (i, j))
    c.check_eq(det3(*m), 1., 'right-handed')
    c.check_eq([t.m[3][0], t.m[3][1], t.m[3][2], t.m[3][3], t.m[0][3], t.m[1][3], t.m[2][3]],
               [0., 0., 0., 1., 0., 0., 0.], 'linear')
    # axis (x, y, z) is kept, w is the cosine of half the angle
    c.check_eq(matvec(m, [x, y, z]), [x, y, z], 'axis')
    c.check_eq(m[0][0] + m[1][1] + m[2][2], 4. * w * w - 1., 'angle')
    c.check_eq(m[2][1] - m[1][2], 4. * w * x, 'sense about x')
    c.check_eq(m[0][2] - m[2][0], 4. * w * y, 'sense about y')
    c.check_eq(m[1][0] - m[0][1], 4. * w * z, 'sense about z')
    u = quat.to_transform(quat.Quaternion(-x, -y, -z, -w))
    c.check_eq(lst(u.m.reshape(-1)), lst(t.m.reshape(-1)), 'same for the opposite quaternion')


@harness('C06', params=['from_transform', 'from_arr'])
def from_matrix(c, f):
    """quaternion of a rotation matrix: unit, and back to the same matrix"""
    q, (x, y, z, w) = uquat(c, 'q')
    # the matrix is built here, not by the code under test
    m = np.eye(4)
    r = [[1. - 2. * (y * y + z * z), 2. * (x * y - z * w), 2. * (x * z + y * w)],
         [2. * (x * y + z * w), 1. - 2. * (x * x + z * z), 2. * (y * z - x * w)],
         [2. * (x * z - y * w), 2. * (y * z + x * w), 1. - 2. * (x * x + y * y)]]
    for i in range(3):
        for j in range(3):
            m[i][j] = r[i][j]
    if f == 'from_transform':
        p = quat.from_transform(Transform(m, m.T))
    else:
        p = quat.from_arr(m)
    o = [p.w, p.x, p.y, p.z]
    c.observe('x2', o[0] * o[0])
    want = [x, y, z, w]
    # equal up to sign: all products agree
    for i in range(4):
        for j in range(i, 4):
            c.check_eq(o[i] * o[j], want[i] * want[j], 'same rotation %d %d' % (i, j))


@harness('C06')
def qdot(c):
    q, a = uquat(c, 'a')
    r, b = uquat(c, 'b')
    c.check_eq(quat.dot(q, r), a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3], 'dot')
    c.check_eq(quat.dot(q, q), 1., 'unit')


@harness('C06', params=[0, 1, 2, 3])
def slerp(c, k):
    """interpolation of keys at any angle: on the great arc through them, at the proportional angle"""
    # first key: a unit of the quaternions; second: at an angle from it towards any direction
    n = c.unit_vec3('n')
    al = c.angle('angle', 0.01, 3.1)
    co, si = np.cos(al), np.sin(al)
    u = [0., 0., 0., 0.]
    u[k] = 1.
    v = [n[0], n[1], n[2]]
    v.insert(k, 0.)
    t = c.real('t', 0, 1)
    s = quat.slerp(t, quat.Quaternion(*u), quat.Quaternion(*[u[i] * co + v[i] * si for i in range(4)]))
    o = [s.w, s.x, s.y, s.z]
    c.observe('o', o[0])
    ct, st = np.cos(al * t), np.sin(al * t)
    c.check_eq(o, [u[i] * ct + v[i] * st for i in range(4)], 'on the arc', tol=1e-5)


@harness('C06', params=[[a, t] for a in (0.03, 0.2, 0.7, 1.5, 3.) for t in (0.25, 0.7)])
def slerp_angle(c, p):
    """interpolation of keys some fixed angles apart turns by the proportional angle"""
    al, t = p
    n = c.unit_vec3('n')
    k = c.integer('axis', 0, 3)
    u = [0., 0., 0., 0.]
    u[k] = 1.
    v = [n[0], n[1], n[2]]
    v.insert(k, 0.)
    co, si = math.cos(al), math.sin(al)
    s = quat.slerp(t, quat.Quaternion(*u), quat.Quaternion(*[u[i] * co + v[i] * si for i in range(4)]))
    ct, st = math.cos(al * t), math.sin(al * t)
    c.check_eq([s.w, s.x, s.y, s.z], [u[i] * ct + v[i] * st for i in range(4)], 'at the proportional angle', tol=1e-5)


@harness('C06')
def slerp_near(c):
    """interpolation of nearly equal keys: unit and between them"""
    q, u = uquat(c, 'a')
    t = c.real('t', 0, 1)
    s = quat.slerp(t, q, q)
    c.check_eq([s.w, s.x, s.y, s.z], list(u), 'equal keys')


def keys(c, kind):
    """two keyframes: translations a and b times a fixed linear part"""
    a, b = vec(c, 'a'), vec(c, 'b')
    lin = {'translate': Transform(), 'quarter': Transform.rotate_z(90.), 'scale': Transform.scale(2., 3., 0.5)}[kind]
    return a, b, Transform.translate(a) * lin, Transform.translate(b) * lin, lin


KIND = ['translate', 'quarter', 'scale']


@harness('C06', params=KIND)
def interpolate(c, kind):
    """at or before the first key, at or after the last, and linearly in between"""
    a, b, t1, t2, lin = keys(c, kind)
    s, e = c.real('start', 0, 10), c.real('end', 0, 10)
    c.assume(e - s > 0.01)
    tm = c.real('time', 0, 10)
    at = AnimatedTransform(t1, s, t2, e)
    r = at.interpolate(tm)
    c.observe('m', r.m)
    k = c.ite(tm <= s, 0., c.ite(tm >= e, 1., (tm - s) / (e - s)))
    p = [c.real('p%d' % i, -5, 5) for i in range(3)]
    want = matvec(lin.m, p + [1.])
    want = [want[i] + a[i] + k * (b[i] - a[i]) for i in range(3)] + [1.]
    c.check_eq(matvec(r.m, p + [1.]), want, 'interpolated')
    back = matvec(r.m_inv, matvec(r.m, p + [1.]))
    c.check_eq(back, p + [1.], 'inverse')


@harness('C06', params=['point', 'vector', 'ray'])
def apply(c, what):
    """an animated transform applied at a time is the interpolated transform applied"""
    a, b, t1, t2, lin = keys(c, 'quarter')
    s, e = c.real('start', 0, 10), c.real('end', 0, 10)
    c.assume(e - s > 0.01)
    tm = c.real('time', 0, 10)
    at = AnimatedTransform(t1, s, t2, e)
    r = at.interpolate(tm)
    if what == 'point':
        p = pnt(c, 'p')
        c.check_eq(lst(at(tm, p)), matvec(r.m, lst(p) + [1.])[:3], 'point')
    elif what == 'vector':
        p = vec(c, 'p')
        c.check_eq(lst(at(tm, p)), matvec(r.m, lst(p) + [0.])[:3], 'vector')
    else:
        o, d = pnt(c, 'o'), vec(c, 'd')
        y = at(geo.Ray(o, d, 0.5, 9., 1, tm))
        c.check_eq(lst(y.o), matvec(r.m, lst(o) + [1.])[:3], 'origin')
        c.check_eq(lst(y.d), matvec(r.m, lst(d) + [0.])[:3], 'direction')
        c.check_eq([y.mint, y.maxt, y.depth, y.time], [0.5, 9., 1, tm], 'extent, depth and time')


@harness('C06')
def static(c):
    """equal keys: not animated, the same at every time"""
    a = vec(c, 'a')
    t = Transform.translate(a)
    s, e = c.real('start', 0, 10), c.real('end', 0, 10)
    tm = c.real('time', 0, 10)
    at = AnimatedTransform(t, s, Transform.translate(a), e)
    c.check(not bool(at.animated), 'not animated')
    p = pnt(c, 'p')
    c.check_eq(lst(at(tm, p)), add3(p, a), 'point')
    r = at.interpolate(tm)
    c.check_eq(matvec(r.m, lst(p) + [1.])[:3], add3(p, a), 'matrix')


@harness('C06', params=[False, True])
def static_bounds(c, inv):
    """motion bounds of a still transform: the transformed box (or by the inverse on request)"""
    a = vec(c, 'a')
    t = Transform.translate(a)
    at = AnimatedTransform(t, 0., t, 1.)
    b = geo.BBox(pnt(c, 'p'), pnt(c, 'q'))
    r = at.motion_bounds(b, inv)
    c.observe('r', r.pMin)
    for i in range(3):
        d = -a[i] if inv else a[i]
        c.check_eq(r[0][i], b[0][i] + d, 'low %d' % i)
        c.check_eq(r[1][i], b[1][i] + d, 'high %d' % i)


@harness('C06', params=[False, True])
def motion_bounds(c, inv):
    """motion bounds of a moving translation hold the box at every time between the keys"""
    a = c.real('a', -5, 5)
    p = pnt(c, 'p')
    t1, t2 = Transform.translate(geo.Vector(a, a, 0.)), Transform.translate(geo.Vector(a + 2., a - 1., 0.))
    at = AnimatedTransform(t1, 3., t2, 5.)
    x = geo.BBox(p, geo.Point(p.x + 1., p.y + 2., p.z + 3.))
    r = at.motion_bounds(x, inv)
    tm = c.real('time', 0, 1)
    d = [a + tm * 2., a - tm, 0.]
    c.observe('r', r.pMin)
    for i in range(3):
        k = -d[i] if inv else d[i]
        c.check_le(r[0][i], x[0][i] + k, 'holds from below %d' % i)
        c.check_ge(r[1][i], x[1][i] + k, 'holds from above %d' % i)
