"""Loop subdivision"""
from symx.reg import harness
from harness.hu import *
from pytracer.shape.loopsubdiv import create_loop_subdiv, LoopSubdiv

META = {
    'bounds': 'five meshes (triangle, square, tetrahedron, fans of four, five and six triangles about an interior vertex), placed three ways, with any vertex positions in [-10, 10]; up to two levels (three when thorough); '
              'normals with one vertex moved by any height in [-0.2, 0.2]',
    'outside': 'other connectivities; meshes that are not manifold or not consistently ordered; floating-point rounding',
}
FLAT = {
    'triangle': ([[0., 0.], [1., 0.], [0., 1.]], [[0, 1, 2]]),
    'square': ([[0., 0.], [1., 0.], [1., 1.], [0., 1.]], [[0, 1, 2], [0, 2, 3]]),
    'fan4': ([[0., 0.], [1., 0.1], [0., 1.], [-1., 0.], [0.2, -1.]], [[0, 1, 2], [0, 2, 3], [0, 3, 4], [0, 4, 1]]),
    'fan5': ([[0., 0.], [1., 0.1], [0.3, 0.9], [-0.8, 0.6], [-0.8, -0.5], [0.3, -0.9]], [[0, 1, 2], [0, 2, 3], [0, 3, 4], [0, 4, 5], [0, 5, 1]]),
    'fan6': ([[0., 0.], [1., 0.], [0.5, 0.9], [-0.5, 0.8], [-1., 0.1], [-0.5, -1.], [0.4, -0.9]],
             [[0, 1, 2], [0, 2, 3], [0, 3, 4], [0, 4, 5], [0, 5, 6], [0, 6, 1]]),
}
MESH = dict([(k, (len(v[0]), v[1])) for k, v in FLAT.items()])
MESH['tetrahedron'] = (4, [[0, 2, 1], [0, 1, 3], [0, 3, 2], [1, 2, 3]])


def rules(n, faces):
    """neighbours of each vertex, and those along the boundary"""
    edges = {}
    for f in faces:
        for k in range(3):
            e = tuple(sorted((f[k], f[(k + 1) % 3])))
            edges.setdefault(e, []).append(f[(k + 2) % 3])
    nb = [set() for _ in range(n)]
    rim = [set() for _ in range(n)]
    for (a, b), o in edges.items():
        nb[a].add(b)
        nb[b].add(a)
        if len(o) == 1:
            rim[a].add(b)
            rim[b].add(a)
    return edges, nb, rim


def mean(ws, ps):
    return [sum([w * p[k] for w, p in zip(ws, ps)], 0.) for k in range(3)]


def vertex(P, i, nb, rim, beta, edge):
    if rim[i]:
        r = sorted(rim[i])
        return mean([1. - 2. * edge, edge, edge], [P[i], P[r[0]], P[r[1]]])
    r = sorted(nb[i])
    return mean([1. - len(r) * beta] + [beta] * len(r), [P[i]] + [P[j] for j in r])


def beta(n):
    return 3. / 16. if n == 3 else 3. / (8. * n)


def subdivide(P, faces):
    edges, nb, rim = rules(len(P), faces)
    Q = [vertex(P, i, nb, rim, beta(len(nb[i])), .125) for i in range(len(P))]
    at = {}
    for (a, b), o in sorted(edges.items()):
        at[(a, b)] = len(Q)
        Q.append(mean([.5, .5], [P[a], P[b]]) if len(o) == 1 else mean([.375, .375, .125, .125], [P[a], P[b], P[o[0]], P[o[1]]]))
    out = []
    for f in faces:
        m = [at[tuple(sorted((f[k], f[(k + 1) % 3])))] for k in range(3)]
        out += [[f[0], m[0], m[2]], [m[0], f[1], m[1]], [m[2], m[1], f[2]], m]
    return Q, out


def limit(P, faces):
    _, nb, rim = rules(len(P), faces)
    return [vertex(P, i, nb, rim, 1. / (len(nb[i]) + 3. / (8. * beta(len(nb[i])))), 1. / 6.) for i in range(len(P))]


def surface(P, faces, n):
    for _ in range(n):
        P, faces = subdivide(P, faces)
    return limit(P, faces), faces


def run(o2w, P, faces, n, ro=False):
    s = create_loop_subdiv(o2w, o2w.inverse(), ro, {'nlevels': n, 'indices': [i for f in faces for i in f], 'P': [x for p in P for x in p]})
    r = s.refine()
    return s, r


def generic(n):
    """points all of whose subdivisions differ"""
    x, out = 0.37, []
    for i in range(n):
        p = []
        for k in range(3):
            x = 3.9 * x * (1. - x)
            p.append(x * 4. - 2.)
        out.append(p)
    return out


def match(c, name, n):
    """vertices of the code's mesh as vertices of the reference mesh, found on concrete points"""
    k, faces = MESH[name]
    G = generic(k)
    L, _ = surface(G, faces, n)
    m = run(Transform(), G, faces, n)[1][0]
    c.check(m.nverts == len(L), 'number of vertices')
    out = []
    for p in m.p:
        d = [sum((float(p[j]) - q[j]) ** 2 for j in range(3)) for q in L]
        i = d.index(min(d))
        c.check(d[i] < 1e-12, 'a vertex of the limit surface')
        out.append(i)
    c.check(sorted(out) == list(range(len(L))), 'every vertex once')
    return out


def turns(f):
    i = f.index(min(f))
    return tuple(f[i:] + f[:i])


def points(c, n):
    return [[c.real('p%d.%d' % (i, k), -10, 10) for k in range(3)] for i in range(n)]


@harness('C34', params=[[m, 1, 'translate'] for m in sorted(MESH)] + [['square', 2, 'translate'], ['tetrahedron', 2, 'translate'], ['fan4', 1, 'turn'], ['triangle', 1, 'mirror']],
         thorough=[[m, n, p] for m in sorted(MESH) for n in (1, 2) for p in ('translate', 'turn', 'mirror')] + [['square', 3, 'translate'], ['tetrahedron', 3, 'translate']])
def refine(c, param):
    """refined meshes: positions by Loop's rules, on the limit surface, in the world; four triangles for each, turning the same way;
    bounded by the bounds of the control mesh"""
    name, n, place = param
    k, faces = MESH[name]
    t = PLACE[place]()
    to = match(c, name, n)
    P = points(c, k)
    ro = c.boolean('reverse')
    s, r = run(t, P, faces, n, ro)
    c.check(len(r) == 1, 'one mesh')
    m = r[0]
    c.check(s.can_intersect() is False and s.ro == ro and m.ro == ro, 'flags')
    L, F = surface(P, faces, n)
    c.check(m.ntris == len(F) and m.nverts == len(L), 'counts')
    ix = [int(i) for i in m.vertexIndex]
    got = sorted(turns([to[i] for i in ix[3 * j:3 * j + 3]]) for j in range(len(ix) // 3))
    c.check(got == sorted(turns(list(f)) for f in F), 'triangles')
    for j, i in enumerate(to):
        w = matvec(t.m, L[i] + [1.])
        for q in range(3):
            c.check_eq(m.p[j][q], w[q], 'vertex %d[%d]' % (i, q))


@harness('C34', params=[['triangle', 'translate'], ['square', 'turn'], ['tetrahedron', 'mirror']])
def bounds(c, param):
    """control meshes are bounded by their vertices, in object and in world space"""
    name, place = param
    k, faces = MESH[name]
    t = PLACE[place]()
    P = points(c, k)
    s = create_loop_subdiv(t, t.inverse(), False, {'indices': [i for f in faces for i in f], 'P': [x for p in P for x in p]})
    c.check(s.nLevels == 3, 'three levels unless asked for')
    for box, Q in ((s.object_bound(), P), (s.world_bound(), [matvec(t.m, p + [1.]) for p in P])):
        for p in Q:
            for q in range(3):
                c.check_le(box.pMin[q], p[q], 'low')
                c.check_ge(box.pMax[q], p[q], 'high')


@harness('C34', params=['square', 'fan4', 'fan5', 'tetrahedron'])
def levels(c, name):
    """vertices are on the limit surface: further levels do not move them"""
    k, faces = MESH[name]
    P = points(c, k)
    a, b = match(c, name, 1), match(c, name, 2)
    x, y = run(Transform(), P, faces, 1)[1][0], run(Transform(), P, faces, 2)[1][0]
    for i in range(k):
        for q in range(3):
            c.check_eq(x.p[a.index(i)][q], y.p[b.index(i)][q], 'vertex %d[%d]' % (i, q))


@harness('C34', params=[['triangle', 1], ['square', 1], ['fan4', 1], ['fan5', 1], ['fan6', 1]], thorough=[[m, n] for m in sorted(FLAT) for n in (1, 2)])
def normals(c, param):
    """normals are perpendicular to the limit surface, and all on one side of it"""
    name, n = param
    xy, faces = FLAT[name]
    v = c.choice('moved', [0, 1, 2])
    h = c.real('h', -0.2, 0.2)
    P = [[p[0], p[1], h if i == v else 0.] for i, p in enumerate(xy)]
    m = run(Transform(), P, faces, n)[1][0]
    to = match(c, name, n)
    Q, F = P, faces
    for _ in range(n):
        Q, F = subdivide(Q, F)
    Q = limit(Q, F)
    _, nb, rim = rules(len(Q), F)
    c.check(len(m.n) == len(Q), 'one normal per vertex')
    nxt = {}
    for f in F:
        for k in range(3):
            nxt[(f[k], f[(k + 1) % 3])] = f[(k + 2) % 3]
    for j, i in enumerate(to):
        # neighbours in order about the vertex, from the boundary if there is one
        start = [k for k in rim[i] if (i, k) in nxt] or [min(nb[i])]
        ring = [start[0]]
        while (i, ring[-1]) in nxt and nxt[(i, ring[-1])] != ring[0]:
            ring.append(nxt[(i, ring[-1])])
        R = [Q[k] for k in ring]
        c.check(len(R) == len(nb[i]), 'ring')
        if not rim[i]:
            w = 2. * np.pi / len(R)
            T = [mean([float(np.cos(w * k)) for k in range(len(R))], R), mean([float(np.sin(w * k)) for k in range(len(R))], R)]
        else:
            T = [mean([-1., 1.], [R[0], R[-1]])]
            if len(R) == 2:
                T.append(mean([1., 1., -2.], R + [Q[i]]))
            elif len(R) == 3:
                T.append(mean([1., -1.], [R[1], Q[i]]))
            elif len(R) == 4:
                T.append(mean([-1., 2., 2., -1., -2.], R + [Q[i]]))
            else:
                w = np.pi / (len(R) - 1)
                ws = [float((2. * np.cos(w) - 2.) * np.sin(w * k)) for k in range(len(R))]
                ws[0], ws[-1] = float(np.sin(w)), float(np.sin(w))
                T.append(mean(ws, R))
        for k, u in enumerate(T):
            c.check_eq(dot3(m.n[j], u), 0., 'perpendicular to tangent %d at %d' % (k, i))
        c.check(bool(m.n[j][2] <= -0.01), 'side')
