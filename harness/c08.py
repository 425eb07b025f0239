"""Triangles and triangle meshes"""
from symx.reg import harness
from harness.hu import *
import pytracer.shape as shape
from pytracer.transform import Transform

META = {
    'bounds': 'vertices and ray origins with components in [-10, 10], directions in [-4, 4], parametric ranges in [0, 50]; meshes of two '
              'triangles over five vertices in mixed index order; texture coordinates in [-4, 4]; triangle and ray not nearly degenerate (see harness); '
              'the solid angle of a sampled point: any seen point',
    'outside': 'rays in the plane of the triangle; floating-point rounding; meshes with more than two triangles (triangles do not interact)',
}

IDX = [4, 0, 2, 1, 4, 3]


def mesh(c, n=False, s=False, uv=None, o2w=None, ro=False, atex=None, pts=None, tri=None):
    o2w = o2w or Transform()
    P = pts or [pnt(c, 'p%d' % i) for i in range(5)]
    N = [nrm(c, 'n%d' % i, 4) for i in range(5)] if n else None
    S = [vec(c, 's%d' % i, 4) for i in range(5)] if s else None
    m = shape.TriangleMesh(o2w, o2w.inverse(), ro, 2, 5, IDX, P, N, S, uv, atex)
    ts = m.refine()
    k = c.integer('tri', 0, 1) if tri is None else tri
    return m, ts[k], IDX[3 * k:3 * k + 3], k


def ranged(c):
    return c.real('mint', 0, 50), c.real('maxt', 0, 50)


@harness('C08', params=[0, 1])
def exact(c, tri):
    """every ray not parallel to the plane meets it at one point; hit exactly when that point is of the triangle and within the range"""
    b1, b2 = c.real('b1', -3, 4), c.real('b2', -3, 4)
    d = vec(c, 'd', 4)
    t = c.real('t', -50, 60)
    a, b = ranged(c)
    m, tr, ix, k = mesh(c, tri=tri)
    p = [m.p[i] for i in ix]
    e1, e2 = sub3(p[1], p[0]), sub3(p[2], p[0])
    n = cross3(e1, e2)
    x = dot3(d, n)
    nonzero(c, x, 0.1)
    c.fact(dot3(n, n) > 0.0002)
    o = [p[0][i] + b1 * e1[i] + b2 * e2[i] - t * d[i] for i in range(3)]
    r = geo.Ray(geo.Point(*o), d, a, b)
    want = c.both(b1 >= 0., b2 >= 0., b1 + b2 <= 1., a <= t, t <= b)
    hp = bool(tr.intersect_p(r))
    hit, th, eps, dg = tr.intersect(r)
    if hit:
        c.check(b1 >= 0., 'second weight')
        c.check(b2 >= 0., 'third weight')
        c.check(b1 + b2 <= 1., 'first weight')
        c.check(c.both(a <= t, t <= b), 'within range')
        c.check_eq(th, t, 'parameter')
        c.check_eq(lst(dg.p), [o[i] + t * d[i] for i in range(3)], 'point')
        c.observe('t', th)
    else:
        c.check(c.neg(want), 'not within')
    c.check(hp == bool(hit), 'predicate agrees')
    c.check_eq(lst(r.o) + lst(r.d) + [r.mint, r.maxt], o + lst(d) + [a, b], 'ray unchanged')


@harness('C08')
def parallel(c):
    """a ray parallel to the plane never hits, nor does any ray hit a triangle collapsed to a segment"""
    m, tr, ix, k = mesh(c, pts=[geo.Point(0., 0., 1.), geo.Point(1., 1., 2.), geo.Point(1., 0., 1.), geo.Point(0., 1., 2.),
                                geo.Point(0., 3., 4.)])
    p = [m.p[i] for i in ix]
    e1, e2 = sub3(p[1], p[0]), sub3(p[2], p[0])
    u, v = c.real('u', -4, 4), c.real('v', -4, 4)
    r = geo.Ray(pnt(c, 'o'), geo.Vector(*[u * e1[i] + v * e2[i] for i in range(3)]), 0., 50.)
    c.check(not tr.intersect(r)[0], 'parallel')
    c.check(not tr.intersect_p(r), 'parallel, predicate')
    q = [geo.Point(1., 2., 3.)] * 5
    q[ix[0]] = geo.Point(3., 1., 0.)
    tr = mesh(c, pts=q)[1]
    r = geo.Ray(pnt(c, 'o'), vec(c, 'd', 4), 0., 50.)
    c.check(not tr.intersect(r)[0], 'collapsed')
    c.check(not tr.intersect_p(r), 'collapsed, predicate')


@harness('C08', params=['default', 'given'])
def surface(c, uvs):
    """texture coordinates interpolate those of the vertices; tangents are the derivatives of position; the normal is the plane's"""
    b1, b2 = c.real('b1', 0, 1), c.real('b2', 0, 1)
    c.assume(b1 + b2 <= 1)
    d = vec(c, 'd', 4)
    uv = [c.real('uv%d' % i, -4, 4) for i in range(10)] if uvs == 'given' else None
    ro = c.boolean('ro')
    tr_o2w = c.choice('o2w', [Transform(), Transform.scale(-1., 2., 1.)])
    m, tr, ix, k = mesh(c, uv=uv, ro=ro, o2w=tr_o2w, tri=1)
    p = [m.p[i] for i in ix]
    e1, e2 = sub3(p[1], p[0]), sub3(p[2], p[0])
    n = cross3(e1, e2)
    x = dot3(d, n)
    nonzero(c, x, 0.1)
    c.fact(dot3(n, n) > 0.0002)
    if uv is None:
        w = [[0., 0.], [1., 0.], [1., 1.]]
    else:
        w = [[uv[2 * i], uv[2 * i + 1]] for i in ix]
        det = (w[0][0] - w[2][0]) * (w[1][1] - w[2][1]) - (w[1][0] - w[2][0]) * (w[0][1] - w[2][1])
        nonzero(c, det, 0.1, 'uv side')
    o = [p[0][i] + b1 * e1[i] + b2 * e2[i] - 3. * d[i] for i in range(3)]
    hit, t, eps, dg = tr.intersect(geo.Ray(geo.Point(*o), d, 0., 9.))
    c.check(bool(hit), 'hit')
    c.observe('uv', [dg.u, dg.v])
    for i, z in ((0, dg.u), (1, dg.v)):
        c.check_eq(z, w[0][i] + b1 * (w[1][i] - w[0][i]) + b2 * (w[2][i] - w[0][i]), 'coordinate %d' % i)
    for e, q in ((e1, 1), (e2, 2)):
        du, dv = w[q][0] - w[0][0], w[q][1] - w[0][1]
        c.check_eq([dg.dpdu[i] * du + dg.dpdv[i] * dv for i in range(3)], e, 'tangents along edge %d' % q, tol=1e-5)
    c.check_eq(dot3(dg.nn, e1), 0., 'normal to the first edge')
    c.check_eq(dot3(dg.nn, e2), 0., 'normal to the second edge')
    c.check_eq(dot3(dg.nn, dg.nn), 1., 'unit normal')
    c.check(dg.shape is tr, 'shape')
    s = dot3(dg.nn, cross3(dg.dpdu, dg.dpdv))
    if ro != (tr_o2w.m[0, 0] < 0):
        s = -s
    c.check(s > 0, 'orientation')


@harness('C08')
def degenerate_uv(c):
    """coinciding texture coordinates still give a hit with tangents in the plane"""
    b1, b2 = c.real('b1', 0, 1), c.real('b2', 0, 1)
    c.assume(b1 + b2 <= 1)
    k = c.real('uv', -4, 4)
    d = vec(c, 'd', 4)
    P = [geo.Point(0., 0., 0.), geo.Point(1., 1., 1.), geo.Point(c.real('x', 1, 5), 0., 0.), geo.Point(0., 1., 0.),
         geo.Point(0., c.real('y', 1, 5), c.real('z', -5, 5))]
    m, tr, ix, _ = mesh(c, uv=[k] * 10, pts=P, tri=0)
    p = [m.p[i] for i in ix]
    e1, e2 = sub3(p[1], p[0]), sub3(p[2], p[0])
    n = cross3(e1, e2)
    x = dot3(d, n)
    nonzero(c, x, 0.1)
    c.fact(dot3(n, n) > 0.0002)
    o = [p[0][i] + b1 * e1[i] + b2 * e2[i] - 3. * d[i] for i in range(3)]
    r = geo.Ray(geo.Point(*o), d, 0., 9.)
    hit, t, eps, dg = tr.intersect(r)
    c.check(bool(hit), 'hit')
    c.check(bool(tr.intersect_p(r)), 'predicate')
    c.check_eq([dot3(dg.dpdu, n), dot3(dg.dpdv, n)], [0., 0.], 'tangents in the plane')
    c.check_eq(cross3(lst(dg.nn), n), [0., 0., 0.], 'normal')


class Alpha(object):
    def __init__(self, v):
        self.v, self.seen = v, []

    def evaluate(self, dg):
        self.seen.append(dg)
        return self.v


@harness('C08')
def alpha(c):
    """a hit where the alpha texture is zero does not count"""
    al = Alpha(c.real('alpha', 0, 1))
    m, tr, ix, k = mesh(c, atex=al, pts=[geo.Point(0., 0., 0.), geo.Point(1., 1., 1.), geo.Point(1., 0., 0.),
                                         geo.Point(0., 1., 0.), geo.Point(0., 3., 2.)], tri=0)
    o = pnt(c, 'o')
    r = geo.Ray(o, geo.Vector(0.5, -1., 1.), 0., 20.)
    plain = mesh(c, pts=[m.p[i] for i in range(5)], tri=0)[1]
    h0 = bool(plain.intersect(r)[0])
    h = bool(tr.intersect(r)[0])
    hp = bool(tr.intersect_p(r))
    want = h0 and bool(al.v != 0.)
    c.check(h == want, 'hit iff not masked')
    c.check(hp == want, 'predicate')
    if h0:
        c.check_eq(lst(al.seen[0].p), lst(plain.intersect(r)[3].p), 'evaluated at the hit')


@harness('C08')
def bounds(c):
    """bounds hold the vertices (in world and object space), area is the geometric one, refinement gives each triangle once"""
    o2w = c.choice('o2w', [Transform(), Transform.translate(geo.Vector(1., 2., 3.)) * Transform.scale(2., -4., 0.5),
                           Transform.rotate_z(90.)])
    m, tr, ix, k = mesh(c, o2w=o2w)
    c.check(len(m.refine()) == 2, 'all triangles')
    c.check(not m.can_intersect() and bool(tr.can_intersect()), 'what can be intersected')
    for i, v in enumerate(ix):
        c.check_eq(lst(tr[i]), lst(m.p[v]), 'vertex %d' % i)
        want = matvec(o2w.m, [c.real('p%d.%s' % (v, a), -10, 10) for a in 'xyz'] + [1.])[:3]
        c.check_eq(lst(m.p[v]), want, 'vertex in the world %d' % i)
    for s, vs in ((tr, ix), (m, range(5))):
        for b, inw in ((s.world_bound(), True), (s.object_bound(), False)):
            for a in range(3):
                z = [m.p[v][a] if inw else c.real('p%d.%s' % (v, 'xyz'[a]), -10, 10) for v in vs]
                tag = '%s %s %d' % (type(s).__name__, 'world' if inw else 'object', a)
                for q in z:
                    c.check_le(b[0][a], q, 'low ' + tag)
                    c.check_ge(b[1][a], q, 'high ' + tag)
                c.check(c.either(*[b[0][a] == q for q in z]), 'tight low ' + tag)
                c.check(c.either(*[b[1][a] == q for q in z]), 'tight high ' + tag)


@harness('C08')
def area(c):
    m, tr, ix, k = mesh(c)
    e1, e2 = sub3(m.p[ix[1]], m.p[ix[0]]), sub3(m.p[ix[2]], m.p[ix[0]])
    n = cross3(e1, e2)
    a = tr.area()
    c.observe('a', a)
    c.check_eq(4. * a * a, dot3(n, n), 'area squared', tol=1e-5)
    c.check_ge(a, 0., 'not negative')
    c.assume(a > 0.01)
    c.check_eq(tr.pdf(geo.Point(1., 2., 3.)) * a, 1., 'density over the area')


@harness('C08', params=[0, 1])
def sample(c, tri):
    """a sampled point is in the triangle, spread uniformly, with the unit normal (reversed on request)"""
    ro = c.boolean('ro')
    P = [geo.Point(7. + i, 8. - i, 9. + i * i) for i in range(5)]
    ix = IDX[3 * tri:3 * tri + 3]
    for i, v in enumerate(ix):
        q = [1., 2., 3.]
        q[i] = q[i] + c.real('q%d' % i, 0.5, 4)
        P[v] = geo.Point(*q)
    m, tr, ix, k = mesh(c, ro=ro, tri=tri, pts=P)
    p = [m.p[i] for i in ix]
    e1, e2 = sub3(p[1], p[0]), sub3(p[2], p[0])
    n = cross3(e1, e2)
    nn = dot3(n, n)
    u1, u2 = c.real('u1', 0.001, 0.999), c.real('u2', 0.001, 0.999)
    (x, ns), J = c.jacobian(lambda a, b: tr.sample(a, b), [u1, u2])
    c.observe('x', x)
    q = sub3(x, p[0])
    c.check_eq(dot3(q, n), 0., 'in the plane', tol=1e-5)
    w2 = dot3(cross3(e1, q), n)
    w1 = dot3(cross3(q, e2), n)
    c.check_ge(w1 / nn, 0., 'second weight')
    c.check_ge(w2 / nn, 0., 'third weight')
    c.check_le((w1 + w2) / nn, 1., 'first weight')
    c.check_eq(cross3(lst(ns), n), [0., 0., 0.], 'normal', tol=1e-5)
    c.check_eq(dot3(ns, ns), 1., 'unit normal')
    s = dot3(ns, n)
    c.check(s < 0 if ro else s > 0, 'side')
    # area element: |dx/du1 x dx/du2| = area
    z = cross3([J[i][0] for i in range(3)], [J[i][1] for i in range(3)])
    c.check_eq(4. * dot3(z, z), nn, 'uniform over the area', tol=1e-3)


NV = [[0., 0., 1.], [1., 0.5, 2.], [-1., 2., 1.], [0.5, -1., 3.], [2., 2., -1.]]
SV = [[1., 0., 0.5], [2., 1., 0.], [1., -1., 1.], [0.5, 2., 0.], [1., 1., 3.]]


def plane_mesh(c, n, s, o2w, uv):
    # vertex data fixed, distinct; the hit is anywhere in the triangle
    P = [geo.Point(0., 0., 0.), geo.Point(0., 1., 1.), geo.Point(1., 0., 0.), geo.Point(0., 1., 0.), geo.Point(3., 3., 2.)]
    m, t, ix, k = mesh(c, False, False, uv, o2w, c.boolean('ro'), pts=P)
    if n:
        m.n = [geo.Normal(*q) for q in NV]
    if s:
        m.s = [geo.Vector(*q) for q in SV]
    return m, t, ix, k


UV = [0., 0., 2., 1., 1., 0., 0., 3., 0., 1.]


@harness('C08', params=['n', 's', 'ns', 'none'])
def shading(c, what):
    """shading geometry: normal interpolated from the vertex normals, tangents orthogonal to it; without vertex data, the hit itself"""
    o2w = c.choice('o2w', [Transform(), Transform.scale(2., 1., 1.), Transform.scale(1., 1., -1.)])
    m, tr, ix, k = plane_mesh(c, 'n' in what and what != 'none', 's' in what, o2w, UV)
    b1, b2 = c.real('b1', 0, 1), c.real('b2', 0, 1)
    c.assume(b1 + b2 <= 1)
    b = [1. - b1 - b2, b1, b2]
    u = [sum([b[j] * UV[2 * ix[j] + a] for j in (1, 2)], b[0] * UV[2 * ix[0] + a]) for a in range(2)]
    z = geo.Normal(0., 0., 0.)
    dpdu = geo.Vector(1., 2., 3.)
    dg = geo.DifferentialGeometry(pnt(c, 'p'), dpdu, geo.Vector(0., 1., -1.), z, z, u[0], u[1], tr)
    dg.dudx, dg.dvdx, dg.dudy, dg.dvdy = 0.1, 0.2, 0.3, 0.4
    dg.dpdx, dg.dpdy = geo.Vector(1., 2., 3.), geo.Vector(4., 5., 6.)
    if what == 'none':
        g = tr.get_shading_geometry(o2w, dg)
        c.check_eq(lst(g.nn) + lst(g.p) + [g.u, g.v], lst(dg.nn) + lst(dg.p) + u, 'the hit itself')
        return
    inv = [1. / o2w.m[i][i] for i in range(3)]
    if 'n' in what:
        # diagonal transform: normals by the reciprocal factors
        N = [sum([b[j] * m.n[ix[j]][i] for j in (1, 2)], b[0] * m.n[ix[0]][i]) * inv[i] for i in range(3)]
    else:
        N = lst(dg.nn)
    c.assume(dot3(N, N) > 0.04)
    if 's' in what:
        S = [sum([b[j] * m.s[ix[j]][i] for j in (1, 2)], b[0] * m.s[ix[0]][i]) / inv[i] for i in range(3)]
    else:
        S = lst(dpdu)
    c.assume(dot3(S, S) > 0.04)
    x = cross3(S, N)
    c.assume(dot3(x, x) > 0.01)
    g = tr.get_shading_geometry(o2w, dg)
    c.observe('n', g.nn)
    c.check_eq(cross3(lst(g.nn), N), [0., 0., 0.], 'interpolated normal', tol=1e-5)
    c.check_eq(dot3(g.nn, g.nn), 1., 'unit')
    sg = dot3(g.nn, N)
    if bool(tr.ro) != (o2w.m[2, 2] < 0):
        sg = -sg
    c.check(sg > 0, 'side')
    c.check_eq([dot3(g.dpdu, N), dot3(g.dpdv, N), dot3(g.dpdu, g.dpdv)], [0., 0., 0.], 'orthogonal tangents', tol=1e-5)
    # the first tangent is the given one made orthogonal
    c.check_eq(dot3(cross3(lst(g.dpdu), S), N), 0., 'tangent in the plane of the given tangent and the normal', tol=1e-5)
    c.check_eq([g.u, g.v, g.dudx, g.dvdx, g.dudy, g.dvdy] + lst(g.dpdx) + lst(g.dpdy) + lst(g.p),
               u + [0.1, 0.2, 0.3, 0.4, 1., 2., 3., 4., 5., 6.] + lst(dg.p), 'the rest is kept')
    c.check(g.shape is tr, 'shape')
    if 'n' in what:
        # change of the normal along each edge of the triangle in texture space
        for q in (1, 2):
            du, dv = UV[2 * ix[q]] - UV[2 * ix[0]], UV[2 * ix[q] + 1] - UV[2 * ix[0] + 1]
            c.check_eq([g.dndu[i] * du + g.dndv[i] * dv for i in range(3)],
                       [(m.n[ix[q]][i] - m.n[ix[0]][i]) * inv[i] for i in range(3)], 'normal change along edge %d' % q)


@harness('C08')
def create(c):
    """mesh construction from parameters: the points in order, and rejection of inconsistent input"""
    P = [c.real('p%d' % i, -5, 5) for i in range(12)]
    t = Transform()
    par = {'indices': [0, 1, 2, 2, 3, 0], 'P': P}
    m = shape.create_triangle_mesh(t, t, False, par)
    for i in range(4):
        c.check_eq(lst(m.p[i]), P[3 * i:3 * i + 3], 'point %d' % i)
    c.check(m.ntris == 2 and m.nverts == 4 and list(m.vertexIndex) == [0, 1, 2, 2, 3, 0], 'counts')
    f = lambda **k: raises(RuntimeError, shape.create_triangle_mesh, t, t, False, dict(par, **k))
    c.check(f(indices=[0, 1]), 'incomplete triangle rejected')
    c.check(f(indices=[0, 1, 4]), 'index out of range rejected')
    c.check(f(P=P[:11]), 'incomplete point rejected')
    c.check(f(uv=[0.] * 7), 'too few texture coordinates rejected')
    c.check(f(N=[geo.Normal(0., 0., 1.)]), 'wrong number of normals rejected')
    c.check(f(S=[geo.Vector(0., 0., 1.)]), 'wrong number of tangents rejected')
    uv = [c.real('uv%d' % i, -5, 5) for i in range(8)]
    m = shape.create_triangle_mesh(t, t, True, dict(par, uv=uv))
    c.check_eq(list(m.uvs), uv, 'texture coordinates')
    c.check(bool(m.ro), 'orientation')
    m = shape.create_triangle_mesh(t, t, True, dict(par, st=uv))
    c.check_eq(list(m.uvs), uv, 'texture coordinates as st')
