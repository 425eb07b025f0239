"""Vectors, points, normals and frames"""
from symx.reg import harness
from harness.hu import *

META = {
    'bounds': 'vector components are arbitrary reals in [-10, 10] (unit vectors: the whole sphere); angles in [0, 2pi]',
    'outside': 'floating-point rounding; components beyond 10 in magnitude',
}
K = ['Vector', 'Point', 'Normal']


@harness('C01', params=K)
def components(c, k):
    """construction, accessors, equality"""
    cls = getattr(geo, k)
    a = vec(c, 'a', cls=cls)
    b = vec(c, 'b', cls=cls)
    x, y, z = c.real('a.x'), c.real('a.y'), c.real('a.z')
    c.check_eq([a.x, a.y, a.z], [x, y, z], 'accessors')
    c.check_eq([a[0], a[1], a[2]], [x, y, z], 'items')
    d = cls.from_arr(np.array([x, y, z]))
    c.check_eq(d, a, 'from array')
    c.check(type(d) is cls, 'class kept')
    d.x, d.y, d.z = b.x, b.y, b.z
    c.check_eq(lst(d), lst(b), 'setters')
    c.check_eq(lst(a), [x, y, z], 'no aliasing')
    same = c.both(a[0] == b[0], a[1] == b[1], a[2] == b[2])
    e, n = bool(a == b), bool(a != b)
    c.check(c.neg(same) if not e else same, 'equality is componentwise')
    c.check(e != n, '!= is the negation of ==')
    c.check(raises(ValueError, cls, np.nan, 0., 0.) and raises(ValueError, cls, 0., np.nan, 0.)
            and raises(ValueError, cls, 0., 0., np.nan), 'NaN is rejected')


@harness('C01', params=K)
def lengths(c, k):
    """length, distance, in-place normalisation"""
    cls = getattr(geo, k)
    a = vec(c, 'a', cls=cls)
    l = a.length()
    c.observe('l', l)
    s = dot3(a, a)
    c.check_ge(l, 0., 'length is not negative')
    c.check_eq(l * l, s, 'length squared')
    c.check_eq(a.sq_length(), s, 'squared length')
    if k == 'Point':
        b = vec(c, 'b', cls=cls)
        d = a.dist(b)
        w = sub3(a, b)
        c.check_ge(d, 0., 'distance is not negative')
        c.check_eq(d * d, dot3(w, w), 'distance squared')
        c.check_eq(a.sq_dist(b), dot3(w, w), 'squared distance')
        c.check_eq(b.dist(a), d, 'symmetric')
        return
    o = lst(a)
    r = a.normalize()
    c.check_eq(lst(r), lst(a), 'normalisation is in place')
    if l == 0:
        c.check_eq(lst(a), o, 'zero is kept')
    else:
        c.check_eq(dot3(a, a), 1., 'unit')
        c.check_eq(scl3(a, l), o, 'parallel and same direction')


@harness('C01', params=['Vector', 'Normal'])
def products(c, k):
    """dot and cross products"""
    cls = getattr(geo, k)
    a, b = vec(c, 'a', cls=cls), vec(c, 'b')
    x = a.cross(b)
    c.observe('x', x)
    c.check(isinstance(x, geo.Vector), 'cross product is a vector')
    c.check_eq(lst(x), cross3(a, b), 'cross product')
    c.check_eq(dot3(x, a), 0., 'orthogonal to the first')
    c.check_eq(dot3(x, b), 0., 'orthogonal to the second')
    d = dot3(a, b)
    c.check_eq(a.dot(b), d, 'dot')
    c.check_eq(x.sq_length() + d * d, dot3(a, a) * dot3(b, b), 'Lagrange identity')
    ad = a.abs_dot(b)
    c.check_ge(ad, 0., 'absolute dot product')
    c.check_eq(ad * ad, d * d, 'absolute dot product squared')


@harness('C01')
def arithmetic(c):
    """affine typing rules"""
    p, q = pnt(c, 'p'), pnt(c, 'q')
    v = vec(c, 'v')
    s = c.real('s', -10, 10)
    c.check_eq(lst(p + v), add3(p, v), 'offset')
    c.check(isinstance(p + v, geo.Point), 'point plus vector is a point')
    c.check_eq(lst(p - v), sub3(p, v), 'negative offset')
    c.check(isinstance(p - v, geo.Point), 'point minus vector is a point')
    w = p - q
    c.check(isinstance(w, geo.Vector), 'point minus point is a vector')
    c.check_eq(lst(w), sub3(p, q), 'difference')
    c.check_eq(lst(q + w), lst(p), 'difference leads back')
    c.check_eq(lst(v * s), scl3(v, s), 'scaling')
    c.check_eq(lst(-v), scl3(v, -1.), 'negation')
    c.check(isinstance(v * s, geo.Vector) and isinstance(-v, geo.Vector), 'vector stays a vector')

    def bad():
        pp = pnt(c, 'p')
        pp -= q
    c.check(raises(TypeError, bad), 'in-place subtraction of points is rejected')
    c.check(raises(TypeError, lambda: p - nrm(c, 'n')), 'point minus normal is rejected')


@harness('C01', params=K)
def normalize(c, k):
    """free normalisation leaves its argument alone"""
    a = vec(c, 'a', cls=getattr(geo, k))
    o = lst(a)
    n = gu.normalize(a)
    c.observe('n', n)
    c.check_eq(lst(a), o, 'argument unchanged')
    c.check(type(n) is type(a), 'class kept')
    if dot3(o, o) == 0:
        c.check_eq(lst(n), o, 'zero is kept')
    else:
        c.check_eq(dot3(n, n), 1., 'unit')
        c.check_eq(scl3(n, a.length()), o, 'parallel and same direction')


@harness('C01')
def frame(c):
    """coordinate system built from a unit vector"""
    v = uvec(c, 'v')
    o = lst(v)
    a, b, d = gu.coordinate_system(v)
    c.observe('b', b)
    c.observe('d', d)
    c.check_eq(lst(a), o, 'first axis is the argument')
    c.check_eq(dot3(b, b), 1., 'second axis is unit')
    c.check_eq(dot3(d, d), 1., 'third axis is unit')
    c.check_eq(dot3(a, b), 0., 'first and second orthogonal')
    c.check_eq(dot3(a, d), 0., 'first and third orthogonal')
    c.check_eq(dot3(b, d), 0., 'second and third orthogonal')
    c.check_eq(det3(a, b, d), 1., 'orientation a x b = d')


@harness('C01')
def frame_zero(c):
    a, b, d = gu.coordinate_system(geo.Vector(0., 0., 0.))
    for p, q in ((a, b), (a, d), (b, d)):
        c.check_eq(dot3(p, q), 0., 'orthogonal')
    for p in (a, b, d):
        c.check_eq(dot3(p, p), 1., 'unit')
    s = c.real('unused', 0, 1)
    c.check(s >= 0, 'ran')


@harness('C01')
def facing(c):
    """a normal turned towards a direction"""
    n, v = nrm(c, 'n'), vec(c, 'v')
    o = lst(n)
    f = gu.face_forward(n, v)
    c.observe('f', f)
    c.check(isinstance(f, geo.Normal), 'still a normal')
    c.check_ge(dot3(f, v), 0., 'same side')
    c.check(c.either(c.both(*[f[i] == o[i] for i in range(3)]), c.both(*[f[i] == -o[i] for i in range(3)])),
            'plus or minus the normal')
    if dot3(o, v) > 0:
        c.check_eq(lst(f), o, 'kept when already on that side')
    c.check_eq(lst(n), o, 'argument unchanged')
    c.check(raises(TypeError, gu.face_forward, v, v) and raises(TypeError, gu.face_forward, n, n), 'argument kinds')


@harness('C01', params=['canonical', 'basis'])
def spherical(c, mode):
    """spherical coordinates to a direction"""
    th = c.angle('theta', 0., np.pi)
    ph = c.angle('phi', 0., 2. * np.pi)
    st, ct = np.sin(th), np.cos(th)
    if mode == 'canonical':
        d = gu.spherical_direction(st, ct, ph)
        want = [st * np.cos(ph), st * np.sin(ph), ct]
    else:
        x, y, z = vec(c, 'X'), vec(c, 'Y'), vec(c, 'Z')
        d = gu.spherical_direction(st, ct, ph, x, y, z)
        want = add3(add3(scl3(x, st * np.cos(ph)), scl3(y, st * np.sin(ph))), scl3(z, ct))
    c.check(isinstance(d, geo.Vector), 'a vector')
    c.check_eq(lst(d), want, 'direction')
    if mode == 'canonical':
        c.check_eq(dot3(d, d), 1., 'unit')


@harness('C01')
def spherical_back(c):
    """a unit direction to spherical coordinates and back"""
    v = uvec(c, 'v')
    c.assume(v.x * v.x + v.y * v.y > 1e-6)
    th, ph = gu.spherical_theta(v), gu.spherical_phi(v)
    c.observe('th', th)
    c.observe('ph', ph)
    c.check(c.both(th >= 0, th <= np.pi), 'polar angle range')
    c.check(c.both(ph >= 0, ph <= 2 * np.pi), 'azimuth range')
    d = gu.spherical_direction(np.sin(th), np.cos(th), ph)
    c.check_eq(lst(d), lst(v), 'round trip')
