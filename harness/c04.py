"""Transform matrices: constructors, inverses, composition, classification"""
from symx.reg import harness
from harness.hu import *
from pytracer.transform import Transform

META = {
    'bounds': 'translations, scales (0.05 to 10, both signs), angles in [-360, 360] degrees, unit axes, camera positions in '
              '[-10, 10]; composition over arbitrary affine matrices with entries in [-5, 5]',
    'outside': 'the inverse of a matrix given without its inverse is computed by the numeric library and is checked on '
               'affine matrices with non-zero determinant only; floating-point rounding',
}


def identity4(c, m, label):
    for i in range(4):
        for j in range(4):
            c.check_eq(m[i][j], 1. if i == j else 0., '%s[%d][%d]' % (label, i, j))


def mm(a, b):
    return [[a[i][0] * b[0][j] + a[i][1] * b[1][j] + a[i][2] * b[2][j] + a[i][3] * b[3][j] for j in range(4)]
            for i in range(4)]


def rows(t):
    return [[t[i][j] for j in range(4)] for i in range(4)]


def scalef(c, n):
    v = c.real(n, 0.05, 10)
    return -v if c.boolean('neg' + n) else v


def affine(c, n, b=5):
    """matrix with its inverse, symbolic: product of a translation and a general 3x3 given with its adjugate"""
    a = [[c.real('%s%d%d' % (n, i, j), -b, b) for j in range(3)] for i in range(3)]
    t = [c.real('%st%d' % (n, i), -b, b) for i in range(3)]
    d = det3(a[0], a[1], a[2])
    c.assume(c.either(d > 0.01, d < -0.01))
    return a, t, d


def build(a, t):
    m = np.eye(4)
    for i in range(3):
        for j in range(3):
            m[i][j] = a[i][j]
        m[i][3] = t[i]
    return m


def adj(a, d):
    x, y, z = cross3(a[1], a[2]), cross3(a[2], a[0]), cross3(a[0], a[1])
    return [[x[i] / d, y[i] / d, z[i] / d] for i in range(3)]


@harness('C04')
def plain(c):
    """identity, equality, copies, read-only matrices"""
    t = Transform()
    identity4(c, t.m, 'identity')
    identity4(c, t.m_inv, 'identity inverse')
    c.check(bool(t.is_identity()) and not bool(t.has_scale()) and not bool(t.swaps_handedness()), 'identity is recognised')
    x = vec(c, 'd')
    u = Transform.translate(x)
    same = c.both(x[0] == 0, x[1] == 0, x[2] == 0)
    e, n, i = bool(u == t), bool(u != t), bool(u.is_identity())
    c.check(same if e else c.neg(same), 'equal iff the matrices are')
    c.check(e != n, '!= is the negation of ==')
    c.check(e == i, 'is_identity')
    v = u.copy()
    c.check(v is not u and bool(v == u), 'copy')
    c.check(raises(TypeError, Transform, np.eye(3)), 'wrong shape is rejected')

    def wr(m):
        m[0][3] = 7.
    c.check(raises(ValueError, wr, u.m) and raises(ValueError, wr, u.m_inv), 'matrices are read-only')
    m = np.eye(4)
    w = Transform(m, m)
    m[0][0] = 3.
    identity4(c, w.m, 'own copy of the matrix')
    identity4(c, w.m_inv, 'own copy of the inverse')


@harness('C04')
def translate(c):
    d = vec(c, 'd')
    t = Transform.translate(d)
    c.observe('m', t.m)
    p = [c.real('p%d' % i, -10, 10) for i in range(3)] + [1.]
    c.check_eq(matvec(t.m, p), [p[i] + d[i] for i in range(3)] + [1.], 'moves points')
    identity4(c, mm(t.m, t.m_inv), 'm * m_inv')
    c.check(not bool(t.has_scale()) and not bool(t.swaps_handedness()), 'rigid')


@harness('C04')
def scale(c):
    s = [scalef(c, 's%d' % i) for i in range(3)]
    t = Transform.scale(*s)
    c.observe('m', t.m)
    for i in range(4):
        for j in range(4):
            c.check_eq(t.m[i][j], (s + [1.])[i] if i == j else 0., 'matrix %d %d' % (i, j))
    identity4(c, mm(t.m, t.m_inv), 'm * m_inv')
    k = bool(t.swaps_handedness())
    pr = s[0] * s[1] * s[2]
    c.check(pr < 0 if k else pr > 0, 'swaps handedness iff an odd number of mirrored axes')
    h = bool(t.has_scale())
    e = 1e-4
    far = c.either(*([x * x > 1. + e for x in s] + [x * x < 1. - e for x in s]))
    c.check(c.either(h, c.neg(far)), 'reports scaling')
    near = c.both(*([x * x < 1. + 1e-9 for x in s] + [x * x > 1. - 1e-9 for x in s]))
    c.check(c.either(not h, c.neg(near)), 'reports no scaling')


AX = ['x', 'y', 'z']


@harness('C04', params=AX)
def rotate_axis(c, ax):
    """rotation about a coordinate axis, degrees, right-handed"""
    a = c.angle('deg', -360, 360)
    t = getattr(Transform, 'rotate_' + ax)(a)
    c.observe('m', t.m)
    k = AX.index(ax)
    i, j = (k + 1) % 3, (k + 2) % 3
    r = a * (np.pi / 180.)
    co, si = np.cos(r), np.sin(r)
    want = [[0.] * 4 for _ in range(4)]
    want[3][3] = want[k][k] = 1.
    want[i][i] = want[j][j] = co
    want[j][i] = si
    want[i][j] = -si
    for p in range(4):
        for q in range(4):
            c.check_eq(t.m[p][q], want[p][q], 'matrix %d %d' % (p, q))
    identity4(c, mm(t.m, t.m_inv), 'm * m_inv')
    c.check(not bool(t.has_scale()) and not bool(t.swaps_handedness()), 'rigid')


@harness('C04')
def rotate(c):
    """rotation about any axis: rigid, axis kept, right angle and sense (Rodrigues), any axis length"""
    u = c.unit_vec3('axis')
    l = c.real('l', 0.01, 10)
    deg = c.angle('deg', -360, 360)
    t = Transform.rotate(deg, geo.Vector(u[0] * l, u[1] * l, u[2] * l))
    c.observe('m', t.m)
    r = deg * (np.pi / 180.)
    co, si = np.cos(r), np.sin(r)
    v = [c.real('v%d' % i, -3, 3) for i in range(3)]
    x = cross3(u, v)
    k = dot3(u, v) * (1. - co)
    want = [v[i] * co + x[i] * si + u[i] * k for i in range(3)]
    c.check_eq(matvec(t.m, v + [0.]), want + [0.], 'Rodrigues rotation')
    c.check_eq(matvec(t.m, [0., 0., 0., 1.]), [0., 0., 0., 1.], 'origin is kept')
    identity4(c, mm(t.m, t.m_inv), 'm * m_inv')
    c.check(not bool(t.has_scale()), 'no scale')
    c.check_eq(det3(rows(t.m)[0], rows(t.m)[1], rows(t.m)[2]), 1., 'keeps handedness')


@harness('C04')
def look_at(c):
    """look-at: camera to world.  origin to the eye, +z to the view direction, up in the upper half of the yz plane, rigid"""
    p = pnt(c, 'p')
    z = c.unit_vec3('z')
    l = c.real('l', 0.05, 10)
    q = geo.Point(*[p[i] + z[i] * l for i in range(3)])
    u = vec(c, 'up')
    n = cross3(u, z)
    c.assume(dot3(n, n) > 0.01)
    t = Transform.look_at(p, q, u)
    c.observe('m', t.m)
    c.check_eq(matvec(t.m, [0., 0., 0., 1.]), lst(p) + [1.], 'origin goes to the eye')
    identity4(c, mm(t.m, t.m_inv), 'm * m_inv')
    c.check_eq(matvec(t.m, [0., 0., 1., 0.]), z + [0.], 'view axis goes to the view direction')
    y = matvec(t.m, [0., 1., 0., 0.])
    x = matvec(t.m, [1., 0., 0., 0.])
    c.check(dot3(y, u) > 0, 'up is up')
    c.check_eq(dot3(x, u), 0., 'no roll')
    c.check_eq(dot3(x, x), 1., 'unit x')
    c.check_eq(dot3(y, y), 1., 'unit y')
    c.check_eq(cross3(x, y), z, 'right handed')
    c.check(not bool(t.has_scale()), 'no scale')


@harness('C04')
def orthographic(c):
    """near and far planes go to z = 0 and 1, linearly; x and y are kept"""
    n = c.real('near', 0, 10)
    f = c.real('far', 0, 20)
    c.assume(f - n > 0.01)
    t = Transform.orthographic(n, f)
    c.observe('m', t.m)
    x, y, z = [c.real(k, -10, 20) for k in 'xyz']
    c.check_eq(matvec(t.m, [x, y, z, 1.]), [x, y, (z - n) / (f - n), 1.], 'mapping')
    identity4(c, mm(t.m, t.m_inv), 'm * m_inv')


@harness('C04')
def perspective(c):
    """perspective: the view cone goes to the unit square, near and far planes to z = 0 and 1"""
    n = c.real('near', 0.05, 10)
    f = c.real('far', 0, 20)
    c.assume(f - n > 0.01)
    deg = c.angle('fov', 10, 160)
    t = Transform.perspective(deg, n, f)
    c.observe('m', t.m)
    tn = np.tan(deg * (np.pi / 180.) / 2.)
    x, y, z = [c.real(k, -10, 20) for k in 'xyz']
    c.assume(z > 0.05)
    h = matvec(t.m, [x, y, z, 1.])
    c.check_eq(h[3], z, 'depth is the divisor')
    c.check_eq(h[0] * tn, x, 'x edge of the cone')
    c.check_eq(h[1] * tn, y, 'y edge of the cone')
    c.check_eq(h[2] * (f - n), (z - n) * f, 'depth')
    p = t(geo.Point(x, y, z))
    c.check_eq(p[2] * (f - n) * z, (z - n) * f, 'depth after division')
    c.check_eq(p[0] * tn * z, x, 'x after division')
    identity4(c, mm(t.m, t.m_inv), 'm * m_inv')


@harness('C04')
def inverse(c):
    """a matrix given alone: its inverse; inverse() swaps both"""
    a, t, d = affine(c, 'a')
    T = Transform(build(a, t))
    c.observe('inv', T.m_inv)
    identity4(c, mm(T.m, T.m_inv), 'm * m_inv')
    I = T.inverse()
    c.check_eq(I.m, T.m_inv, 'inverse matrix')
    c.check_eq(I.m_inv, T.m, 'inverse of the inverse')
    k = bool(T.swaps_handedness())
    c.check(d < 0 if k else d > 0, 'handedness is the sign of the determinant')


@harness('C04')
def compose(c):
    """product: applies the right operand first, and its inverse is right"""
    ma = np.array([[c.real('a%d%d' % (i, j), -5, 5) for j in range(4)] for i in range(4)])
    mb = np.array([[c.real('b%d%d' % (i, j), -5, 5) for j in range(4)] for i in range(4)])
    na = np.array([[c.real('A%d%d' % (i, j), -5, 5) for j in range(4)] for i in range(4)])
    nb = np.array([[c.real('B%d%d' % (i, j), -5, 5) for j in range(4)] for i in range(4)])
    A, B = Transform(ma, na), Transform(mb, nb)
    C = A * B
    p = [c.real('p%d' % i, -5, 5) for i in range(4)]
    c.check_eq(matvec(C.m, p), matvec(A.m, matvec(B.m, p)), 'right operand first')
    c.check_eq(matvec(C.m_inv, p), matvec(B.m_inv, matvec(A.m_inv, p)), 'inverse in the other order')
    c.check_eq(A.m, ma, 'operand unchanged')
    c.observe('m', C.m)


@harness('C04')
def compose_inverse(c):
    """the product of constructors has the inverse of its matrix (translation, scale, rotation)"""
    d = vec(c, 'd')
    s = [scalef(c, 's%d' % i) for i in range(3)]
    a = c.angle('deg', -360, 360)
    t = Transform.translate(d) * Transform.rotate_x(a) * Transform.scale(*s)
    c.observe('m', t.m)
    identity4(c, mm(t.m, t.m_inv), 'm * m_inv')
