"""Primitives and intersection records"""
from symx.reg import harness
from harness.hu import *
from pytracer import Spectrum
from pytracer.transform import AnimatedTransform
from pytracer.aggregate import Primitive, GeometricPrimitive, TransformedPrimitive, Intersection

META = {
    'bounds': 'points, tangents and rays with components in [-10, 10]; placements: still (translation, quarter turn, mirror, non-uniform scale, identity) '
              'and moving translations at any time; refinement trees of depth up to 3',
    'outside': 'moving rotations (their interpolation is C06); floating-point rounding',
    'assumptions': ['shapes, materials and lights are stand-ins that record what they are asked'],
}


class Shape(object):
    def __init__(self, c=None, hit=None, can=True, parts=()):
        self.c, self.hit, self.can, self.parts = c, hit, can, parts
        self.shapeId = 11
        self.w2o, self.o2w = 'w2o', 'o2w'
        self.ro = self.transform_swaps_handedness = False

    def intersect(self, r):
        if self.hit is None:
            return [False, None, None, None]
        return [True] + list(self.hit)

    def intersect_p(self, r):
        return self.hit is not None

    def world_bound(self):
        return 'bound'

    def can_intersect(self):
        return self.can

    def refine(self):
        return list(self.parts)

    def get_shading_geometry(self, o2w, dg):
        return ('shading', o2w, dg)


class Mat(object):
    def get_bsdf(self, dg, dgs):
        return ('bsdf', dg, dgs)

    def get_bssrdf(self, dg, dgs):
        return ('bssrdf', dg, dgs)


@harness('C15')
def geometric(c):
    """a geometric primitive reports its shape's hit under its own name"""
    hit = c.boolean('hit')
    t, e = c.real('t', 0, 10), c.real('eps', 0, 1)
    m = c.real('maxt', 10, 20)
    dg = object()
    sh = Shape(c, (t, e, dg) if hit else None)
    mat, light = Mat(), object()
    g = GeometricPrimitive(sh, mat, light)
    g2 = GeometricPrimitive(sh, mat)
    c.check(g.primitiveId != g2.primitiveId, 'numbered apart')
    c.check(g.get_area_light() is light and g2.get_area_light() is None, 'light')
    r = geo.Ray(geo.Point(0., 0., 0.), geo.Vector(0., 0., 1.), 0., m)
    c.check(bool(g.intersect_p(r)) == hit, 'predicate')
    c.check_eq(r.maxt, m, 'predicate keeps the range')
    i = Intersection()
    c.check(bool(g.intersect(r, i)) == hit, 'hit')
    if hit:
        c.check_eq(r.maxt, t, 'range shortened to the hit')
        c.check_eq(i.rEps, e, 'epsilon')
        c.check(i.dg is dg and i.primitive is g and i.primitiveId == g.primitiveId and i.shapeId == 11 and i.w2o == 'w2o' and i.o2w == 'o2w', 'record')
    else:
        c.check_eq(r.maxt, m, 'miss keeps the range')
        c.check(i.primitive is None and i.dg is None, 'miss keeps the record')
    c.check(g.world_bound() == 'bound' and bool(g.can_intersect()), 'shape answers')
    c.check(g.get_bsdf('dg', 'T') == ('bsdf', 'dg', ('shading', 'T', 'dg')), 'bsdf on the shading geometry')
    c.check(g.get_bssrdf('dg', 'T') == ('bssrdf', 'dg', ('shading', 'T', 'dg')), 'bssrdf on the shading geometry')


@harness('C15')
def refined(c):
    """full refinement reaches each part that can be intersected once, with its material and light"""
    leaves = [Shape(c) for _ in range(4)]
    k = c.integer('shape of tree', 0, 3)
    G = lambda *p: Shape(c, None, False, p)
    top = [leaves[0], G(*leaves), G(leaves[0], G(leaves[1], leaves[2]), leaves[3]), G(G(G(leaves[0])), G(), G(leaves[1], leaves[2]), leaves[3])][k]
    want = leaves[:1] if k == 0 else leaves
    mat, light = Mat(), object()
    out = []
    GeometricPrimitive(top, mat, light).full_refine(out)
    c.check(len(out) == len(want) and all(any(o.shape is w for o in out) for w in want), 'each part once')
    c.check(all(o.can_intersect() and o.material is mat and o.areaLight is light for o in out), 'same material and light')
    c.check(len(set(o.primitiveId for o in out)) == len(out), 'numbered apart')
    tp = TransformedPrimitive(GeometricPrimitive(top, mat, light), AnimatedTransform(Transform(), 0., Transform(), 1.))
    c.check(bool(tp.can_intersect()) == (k == 0), 'placement can be intersected as what it places')
    out = []
    tp.full_refine(out)
    for i in range(4):
        # what is met is a leaf, however its placements are nested
        out = [o.primitive if isinstance(o, TransformedPrimitive) and isinstance(o.primitive, TransformedPrimitive) else o for o in out]
    c.check(len(out) == len(want), 'each placed part once')
    c.check(all(isinstance(o, TransformedPrimitive) for o in out), 'parts are placed')
    c.check(all(any(o.primitive.shape is w for o in out) for w in want), 'placed parts are those of what is placed')
    c.check(all(o.w2p is tp.w2p for o in out), 'parts are placed like the whole')


class Inner(Primitive):
    """records what it is asked; a hit at parameter t with the given geometry"""
    def __init__(self, t=None, dg=None, w2o=None):
        super(Inner, self).__init__()
        self.t, self.dg, self.w2o = t, dg, w2o
        self.asked = []

    def intersect(self, ray, isect):
        self.asked.append(ray)
        if self.t is None:
            return False
        ray.maxt = self.t
        isect.dg = self.dg
        isect.primitive = self
        isect.w2o = self.w2o
        isect.o2w = self.w2o.inverse()
        isect.shapeId, isect.primitiveId, isect.rEps = 5, self.primitiveId, 0.25
        return True

    def intersect_p(self, ray):
        self.asked.append(ray)
        return self.t is not None

    def world_bound(self):
        return geo.BBox(geo.Point(0., 1., 2.), geo.Point(1., 3., 5.))

    def can_intersect(self):
        return True

    def refine(self, refined):
        pass

    def get_area_light(self):
        return None

    def get_bsdf(self, dg, o2w):
        return None

    def get_bssrdf(self, dg, o2w):
        return None


def placement(c, kind):
    """a world-to-primitive transform over time, with the translation it amounts to at the time, and its linear part"""
    tm = c.real('time', -1, 8)
    if kind == 'moving':
        a = vec(c, 'a', 5)
        b = vec(c, 'b', 5)
        c.assume(b.x != a.x)
        at = AnimatedTransform(Transform.translate(a), 2., Transform.translate(b), 6.)
        if bool(tm <= 2.):
            off = lst(a)
        elif bool(tm >= 6.):
            off = lst(b)
        else:
            off = [a[i] + (tm - 2.) / 4. * (b[i] - a[i]) for i in range(3)]
        return at, tm, off, None
    if kind == 'identity':
        t = Transform()
    elif kind == 'scale':
        t = Transform.translate(geo.Vector(2., 0., -1.)) * Transform.scale(2., 0.5, 4.)
    else:
        t = PLACE[kind]()
    return AnimatedTransform(t, 0., t, 1.), tm, None, t


@harness('C15', params=['moving', 'identity', 'translate', 'turn', 'mirror', 'scale'])
def transformed(c, kind):
    """a placed primitive is asked with the ray moved into its frame, and its answer moved back"""
    at, tm, off, tr = placement(c, kind)
    o, d = vec(c, 'o'), vec(c, 'd', 4)
    hit = c.boolean('hit')
    p = pnt(c, 'p')
    u, v = vec(c, 'u', 4), vec(c, 'v', 4)
    n = cross3(lst(u), lst(v))
    c.assume(dot3(n, n) > 0.01)
    dn, dn2 = [geo.Normal(*[c.real(k + i, -3, 3) for i in 'xyz']) for k in ('dnu', 'dnv')]
    t = c.real('t', 1, 10)
    if hit:
        dg = geo.DifferentialGeometry(p, u, v, dn.copy(), dn2.copy(), 0.25, 0.75, Shape())
        inner = Inner(t, dg, Transform.translate(geo.Vector(1., 1., 2.)))
    else:
        inner = Inner()
    tp = TransformedPrimitive(inner, at)
    r = geo.Ray(geo.Point(o.x, o.y, o.z), d, 0.5, 12., 2, tm)
    i = Intersection()
    c.check(bool(tp.intersect(r, i)) == hit, 'hit')
    rp = geo.Ray(geo.Point(o.x, o.y, o.z), d, 0.5, 12., 2, tm)
    c.check(bool(tp.intersect_p(rp)) == hit, 'predicate')
    c.check_eq(rp.maxt, 12., 'predicate keeps the range')
    c.check(len(inner.asked) == 2, 'asked once each')

    def pt(q):      # into the frame of the primitive
        return [q[k] + off[k] for k in range(3)] if off is not None else matvec(tr.m, lst(q) + [1.])[:3]

    def vc(q):
        return lst(q) if off is not None else matvec(tr.m, lst(q) + [0.])[:3]

    for q, s in zip(inner.asked, ('', ' (predicate)')):
        c.check_eq(lst(q.o), pt(o), 'origin in the frame' + s)
        c.check_eq(lst(q.d), vc(d), 'direction in the frame' + s)
        c.check_eq(q.mint, 0.5, 'start of range' + s)
    c.check_eq(inner.asked[1].maxt, 12., 'end of range')
    c.check_eq(lst(r.o) + lst(r.d) + [r.mint, r.time], lst(o) + lst(d) + [0.5, tm], 'ray otherwise unchanged')
    if not hit:
        c.check_eq(r.maxt, 12., 'miss keeps the range')
        c.check(i.primitive is None, 'miss keeps the record')
        return
    c.check_eq(r.maxt, t, 'range shortened to the hit')
    c.check(i.primitive is inner and i.primitiveId == tp.primitiveId and i.shapeId == 5, 'record names the primitive hit and this placement')
    c.check_eq(i.rEps, 0.25, 'epsilon')
    g = i.dg
    c.check_eq(pt(g.p), lst(p), 'point')
    c.check_eq(vc(g.dpdu), lst(u), 'dpdu')
    c.check_eq(vc(g.dpdv), lst(v), 'dpdv')
    c.check_eq(dot3(g.nn, g.nn), 1., 'unit normal')
    c.check_eq(dot3(g.nn, g.dpdu), 0., 'normal orthogonal to dpdu')
    c.check_eq(dot3(g.nn, g.dpdv), 0., 'normal orthogonal to dpdv')
    # normals move by the inverse transpose, so offsets keep their pairing with directions
    for w in ([1., 0., 0.], [0., 1., 0.], [0., 0., 1.]):
        c.check_eq(dot3(g.dndu, w), dot3(dn, vc(w)), 'dndu')
        c.check_eq(dot3(g.dndv, w), dot3(dn2, vc(w)), 'dndv')
    w = [1., 2., -0.5]
    nn = cross3(lst(u), lst(v))
    c.check_ge(dot3(g.nn, w) * dot3(nn, vc(w)), 0., 'normal keeps its side')
    c.check_eq([g.u, g.v], [0.25, 0.75], 'coordinates')
    q = matvec(i.w2o.m, lst(g.p) + [1.])
    pl = pt(g.p)
    c.check_eq(q[:3], [pl[0] + 1., pl[1] + 1., pl[2] + 2.], 'world to object')
    bk = matvec(i.o2w.m, [3., 1., -2., 1.])
    c.check_eq(pt(bk[:3]), [2., 0., -4.], 'object to world')


@harness('C15', params=['moving', 'identity', 'translate', 'turn', 'mirror', 'scale'])
def bound(c, kind):
    """the world bound of a placed primitive holds it at each time"""
    if kind == 'moving':
        a = c.real('a', -5, 5)
        at = AnimatedTransform(Transform.translate(geo.Vector(a, a, 0.)), 2., Transform.translate(geo.Vector(a + 2., a - 1., 0.)), 6.)
        s = c.real('s', 0, 1)
        off = [a + 2. * s, a - s, 0.]
    else:
        at, tm, off, tr = placement(c, kind)
    w = TransformedPrimitive(Inner(), at).world_bound()
    lo, hi = [0., 1., 2.], [1., 3., 5.]
    q = [c.real('q' + 'xyz'[k], lo[k], hi[k]) for k in range(3)]        # a point of the primitive
    if off is not None:
        x = [q[k] - off[k] for k in range(3)]
    else:
        x = matvec(tr.m_inv, q + [1.])[:3]
    for k in range(3):
        c.check_le(w[0][k], x[k], 'below %d' % k)
        c.check_ge(w[1][k], x[k], 'above %d' % k)


class Light(object):
    def __init__(self, c):
        self.c = c

    def l(self, p, n, w):
        self.args = (p, n, w)
        return 'radiance'


@harness('C15')
def record(c):
    """a record forwards to the primitive hit: reflection with differentials computed, emission of its light or none"""
    p = pnt(c, 'p')
    u, v = geo.Vector(1., 0., 0.), geo.Vector(0., 1., 0.)
    z = geo.Normal(0., 0., 0.)
    dg = geo.DifferentialGeometry(p, u, v, z, z, 0., 0., None)
    mat = Mat()
    light = Light(c)
    g = GeometricPrimitive(Shape(c), mat, light)
    i = Intersection(dg, g, 'W', 'O', 1, 2, 0.5)
    c.check(i.dg is dg and i.primitive is g and i.w2o == 'W' and i.o2w == 'O' and i.shapeId == 1 and i.primitiveId == 2 and i.rEps == 0.5, 'fields')
    w = uvec(c, 'w')
    c.check(i.le(w) == 'radiance' and light.args[2] is w, 'emission')
    c.check_eq(lst(light.args[0]) + lst(light.args[1]), lst(p) + lst(dg.nn), 'emission at the point hit')
    dark = Intersection(dg, GeometricPrimitive(Shape(c), mat), 'W', 'O', 1, 2, 0.5)
    c.check_eq(lst(dark.le(w)), [0., 0., 0.], 'no light, no emission')
    r = geo.RayDifferential(geo.Point(p.x, p.y, p.z + 2.), geo.Vector(0., 0., -1.))
    r.has_differentials = True
    e = c.real('e', 0.01, 1)
    r.rxOrigin, r.rxDirection = geo.Point(p.x + e, p.y, p.z + 2.), geo.Vector(0., 0., -1.)
    r.ryOrigin, r.ryDirection = geo.Point(p.x, p.y + 2. * e, p.z + 2.), geo.Vector(0., 0., -1.)
    for f, nm in ((i.get_bsdf, 'bsdf'), (i.get_bssrdf, 'bssrdf')):
        dg.dudx = dg.dvdy = 0.
        b = f(r)
        c.check(b[0] == nm and b[1] is dg and b[2] == ('shading', 'O', dg), nm)
        c.check_eq([dg.dudx, dg.dvdy], [e, 2. * e], nm + ' after differentials')
