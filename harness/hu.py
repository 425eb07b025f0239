"""helpers shared by the harnesses (both interpretations)"""
from pytracer import np
import pytracer.geometry as geo
import pytracer.geometry.utility as gu
from pytracer.transform import Transform


def vec(c, n, b=10, cls=None):
    cls = cls or geo.Vector
    return cls(c.real(n + '.x', -b, b), c.real(n + '.y', -b, b), c.real(n + '.z', -b, b))


def pnt(c, n, b=10):
    return vec(c, n, b, geo.Point)


def nrm(c, n, b=10):
    return vec(c, n, b, geo.Normal)


def uvec(c, n, cls=None):
    cls = cls or geo.Vector
    return cls(*c.unit_vec3(n))


def dot3(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross3(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def sub3(a, b):
    return [a[0] - b[0], a[1] - b[1], a[2] - b[2]]


def add3(a, b):
    return [a[0] + b[0], a[1] + b[1], a[2] + b[2]]


def scl3(a, s):
    return [a[0] * s, a[1] * s, a[2] * s]


def lst(a):
    return [a[i] for i in range(len(a))]


def det3(a, b, c):
    return dot3(a, cross3(b, c))


def matvec(m, v):
    """4x4 times 4-list"""
    return [sum([m[i][j] * v[j] for j in range(1, len(v))], m[i][0] * v[0]) for i in range(len(v))]


def raises(exc, f, *a):
    try:
        f(*a)
    except exc:
        return True
    return False


def nonzero(c, x, eps, name='side'):
    """|x| > eps, one case per sign"""
    if c.boolean(name):
        c.assume(x > eps)
    else:
        c.assume(x < -eps)


def wedge(c, sweep, x, y):
    """azimuth of (x, y) within the sweep"""
    if sweep == 360.:
        return True
    if sweep == 180.:
        return bool(y >= 0.)
    if sweep == 90.:
        return bool(c.both(x >= 0., y >= 0.))
    return not bool(c.both(x > 0., y < 0.))


QUARTER = np.array([[0., -1., 0., 0.], [1., 0., 0., 0.], [0., 0., 1., 0.], [0., 0., 0., 1.]])
PLACE = {'translate': lambda: Transform.translate(geo.Vector(1., -2., 3.)),
         'turn': lambda: Transform.translate(geo.Vector(1., -2., 3.)) * Transform(QUARTER, QUARTER.T),
         # keeps lengths, swaps handedness
         'mirror': lambda: Transform.translate(geo.Vector(1., -2., 3.)) * Transform.scale(1., 1., -1.)}
