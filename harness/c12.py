"""What every shape offers: world bound, density seen from a point, identity"""
from symx.reg import harness
from harness.hu import *
import pytracer.shape as shape

META = {
    'bounds': 'sphere, cylinder, disk and triangle with sizes in [0.5, 4], placed by a rotation about a tilted axis, a mirror, a shear and a translation; '
              'density: disk, cylinder and triangle seen along any unit direction from distance in [0.01, 20]',
    'outside': 'rays closer than 0.02 to parallel to the surface; floating-point rounding',
}
SHEAR = np.array([[1., 0.5, 0., 1.], [0., 1., -2., 0.], [0., 0., 1., 3.], [0., 0., 0., 1.]])
SHEARI = np.array([[1., -0.5, -1., 2.], [0., 1., 2., -6.], [0., 0., 1., -3.], [0., 0., 0., 1.]])
WHERE = {'tilt': lambda: Transform.translate(geo.Vector(1., 2., 3.)) * Transform.rotate(40., geo.Vector(1., 1., 0.)),
         'mirror': PLACE['mirror'], 'shear': lambda: Transform(SHEAR, SHEARI), 'translate': PLACE['translate']}


def mesh(o2w, pts, ro=False):
    return shape.Triangle(o2w, o2w.inverse(), ro, shape.TriangleMesh(o2w, o2w.inverse(), ro, 1, 3, [0, 1, 2], [geo.Point(*p) for p in pts], None, None, None, None), 0)


@harness('C12', params=[[k, w] for k in ('sphere', 'cylinder', 'disk') for w in sorted(WHERE)])
def bound(c, p):
    """the world bound holds the image of every point of the object bound"""
    kind, w = p
    o2w = WHERE[w]()
    r = c.real('r', 0.5, 4)
    lo, hi = c.real('lo', -5, 5), c.real('hi', -5, 5)
    c.assume(hi - lo > 0.1)
    if kind == 'sphere':
        sp = shape.Sphere(o2w, o2w.inverse(), False, r, -r, r, 360.)
    elif kind == 'cylinder':
        sp = shape.Cylinder(o2w, o2w.inverse(), False, r, lo, hi, 360.)
    else:
        sp = shape.Disk(o2w, o2w.inverse(), False, lo, r, 0., 360.)
    ob = sp.object_bound()
    x = []
    for i, n in enumerate('xyz'):
        v = c.real(n, -5, 5)
        c.assume(c.both(ob[0][i] <= v, v <= ob[1][i]))
        x.append(v)
    q = matvec(o2w.m, x + [1.])
    b = sp.world_bound()
    for i in range(3):
        c.check_ge(q[i], b[0][i], 'above the lower bound %d' % i)
        c.check_le(q[i], b[1][i], 'below the upper bound %d' % i)


@harness('C12')
def disk_density(c):
    """density over directions: squared distance over cosine and area where the shape is hit, else zero"""
    o2w = PLACE['turn']()
    m = o2w.m
    r = c.real('r', 0.5, 4)
    h = c.real('h', -5, 5)
    sp = shape.Disk(o2w, o2w.inverse(), c.boolean('ro'), h, r, 0., 360.)
    x, y, t = c.real('x', -5, 5), c.real('y', -5, 5), c.real('t', 0.01, 20)
    w = c.unit_vec3('w')
    nonzero(c, w[2], 0.02)
    P = [x, y, h]
    q = [P[i] - t * w[i] for i in range(3)]
    c.assume(x * x + y * y > 0.0001)
    inside = bool(x * x + y * y <= r * r)
    pd = sp.pdf_p(geo.Point(*matvec(m, q + [1.])[:3]), geo.Vector(*matvec(m, w + [0.])[:3]))
    c.observe('pdf', pd)
    cosine = c.ite(w[2] > 0., w[2], -w[2])
    if inside:
        c.check_eq(pd * cosine * (np.pi * r * r), t * t, 'density')
    else:
        c.check_eq(pd, 0., 'nothing there')
    behind = sp.pdf_p(geo.Point(*matvec(m, q + [1.])[:3]), geo.Vector(*matvec(m, scl3(w, -1.) + [0.])[:3]))
    c.check_eq(behind, 0., 'nothing behind')


@harness('C12')
def triangle_density(c):
    """the same for a triangle"""
    a = [[0., 0., 1.], [4., 0., 1.], [0., 2., 1.]]
    sp = mesh(Transform(), a, c.boolean('ro'))
    x, y, t = c.real('x', -1, 5), c.real('y', -1, 5), c.real('t', 0.01, 20)
    w = c.unit_vec3('w')
    nonzero(c, w[2], 0.02)
    m = 0.01
    inside = c.boolean('inside')
    if inside:
        c.assume(c.both(x > m, y > m, x + 2. * y < 4. - m))
    else:
        c.assume(c.either(x < -m, y < -m, x + 2. * y > 4. + m))
    pd = sp.pdf_p(geo.Point(x - t * w[0], y - t * w[1], 1. - t * w[2]), geo.Vector(*w))
    c.observe('pdf', pd)
    cosine = c.ite(w[2] > 0., w[2], -w[2])
    if inside:
        c.check_eq(pd * cosine * 4., t * t, 'density')
    else:
        c.check_eq(pd, 0., 'nothing there')


@harness('C12')
def cylinder_density(c):
    """the same for the outside of a cylinder"""
    r = c.real('r', 0.5, 4)
    sp = shape.Cylinder(Transform(), Transform(), c.boolean('ro'), r, -2., 3., 360.)
    w = c.choice('w', [[-1., 0., 0.], [0., 1., 0.], [-0.6, 0., 0.8]])
    n = c.unit_vec2('n')
    nd = n[0] * w[0] + n[1] * w[1]
    c.assume(nd < -0.05)
    c.square(nd * r)
    c.fact(nd * nd * r * r > 0.0005)
    z, t = c.real('z', -1.9, 2.9), c.real('t', 0.01, 20)
    P = [r * n[0], r * n[1], z]
    pd = sp.pdf_p(geo.Point(*[P[i] - t * w[i] for i in range(3)]), geo.Vector(*w))
    c.observe('pdf', pd)
    c.check_eq(pd * -nd * (2. * np.pi * r * 5.), t * t, 'density')


@harness('C12')
def identity(c):
    """shapes are numbered apart, can be intersected and then not refined; a mesh the other way round"""
    r = c.real('r', 0.5, 4)
    t = Transform()
    s = [shape.Sphere(t, t, False, r, -r, r, 360.), shape.Disk(t, t, False, 0., r, 0., 360.),
         shape.Cylinder(t, t, False, r, 0., 1., 360.), mesh(t, [[0., 0., 0.], [r, 0., 0.], [0., r, 0.]])]
    c.check(len(set(x.shapeId for x in s)) == 4, 'distinct ids')
    for x in s:
        c.check(bool(x.can_intersect()), 'intersectable')
        c.check(raises(NotImplementedError, x.refine), 'not refineable')
        c.check_eq(x.pdf(geo.Point(0., 0., 0.)) * x.area(), 1., 'area density')
        dg = geo.DifferentialGeometry(geo.Point(1., 2., 3.), geo.Vector(1., 0., 0.), geo.Vector(0., 1., 0.), geo.Normal(0., 0., 0.),
                                      geo.Normal(0., 0., 0.), 0.5, 0.5, x)
    g = s[0].get_shading_geometry(t, dg)
    c.check(g is not dg, 'a copy')
    c.check_eq(lst(g.p) + lst(g.nn) + [g.u, g.v], lst(dg.p) + lst(dg.nn) + [dg.u, dg.v], 'equal copy')
