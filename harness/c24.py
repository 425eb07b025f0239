"""BSDF: frame, component selection, sums"""
from symx.reg import harness
from harness.hu import *
from pytracer.reflection import BSDF, BSDFSample, BSDFSampleOffset, BDFType, BDF, Lambertian
from pytracer.spectral import Spectrum

META = {
    'bounds': 'all shading frames made of a unit normal and a perpendicular tangent of length 0.1 to 10; three components of types out of diffuse, glossy and specular reflection and transmission, '
              'with values and densities in [0.01, 10] that depend on the local directions; directions away from the geometric tangent plane',
    'outside': 'tangents that are not perpendicular to the shading normal; more than three components; floating-point rounding',
    'assumptions': 'components are stand-ins; the shipped models are the subject of C25 and C26',
}

R, T, D, G, S = BDFType.REFLECTION, BDFType.TRANSMISSION, BDFType.DIFFUSE, BDFType.GLOSSY, BDFType.SPECULAR


class Geom(object):
    pass


def frame(nn, t):
    d = Geom()
    d.nn = geo.Normal(*nn)
    d.dpdu = geo.Vector(*t)
    d.p = geo.Point(0., 0., 0.)
    return d


class Comp(BDF):
    """component with prescribed value and density that records what it is asked"""

    def __init__(self, t, v, p, wi=None):
        super().__init__(t)
        self.v = v
        self.p = p
        self.wi = wi
        self.asked = []

    def f(self, wo, wi):
        self.asked.append((wo, wi))
        return Spectrum(self.v)

    def pdf(self, wo, wi):
        self.asked.append((wo, wi))
        return self.p

    def sample_f(self, wo, u1, u2):
        self.asked.append((wo, self.wi))
        self.u = (u1, u2)
        return [self.p, self.wi, Spectrum(self.v)]

    def rho_hd(self, w, s):
        self.asked.append((w, w))
        return Spectrum(self.v)

    def rho_hh(self, n, a, b):
        self.n = (n, len(a), len(b))
        return Spectrum(self.v)


@harness('C24')
def turning(c):
    """going to the shading frame and back changes no direction, and keeps angles"""
    q = c.unit_quat('q')
    a, b, d, e = q
    cols = [[a * a + b * b - d * d - e * e, 2. * (b * d + a * e), 2. * (b * e - a * d)],
            [2. * (b * d - a * e), a * a - b * b + d * d - e * e, 2. * (d * e + a * b)],
            [2. * (b * e + a * d), 2. * (d * e - a * b), a * a - b * b - d * d + e * e]]
    k = c.real('length', 0.1, 10)
    f = BSDF(frame(cols[2], scl3(cols[0], k)), geo.Normal(*cols[2]))
    v = vec(c, 'v')
    l = f.w2l(v)
    c.check_eq(lst(l), [dot3(v, cols[0]), dot3(v, cols[1]), dot3(v, cols[2])], 'coordinates along tangent, second tangent and normal')
    w = f.l2w(v)
    c.check_eq(lst(w), [v[0] * cols[0][i] + v[1] * cols[1][i] + v[2] * cols[2][i] for i in range(3)], 'built from tangent, second tangent and normal')
    c.check_eq(dot3(w, w), dot3(v, v), 'length')


@harness('C24')
def turning_back(c):
    """each way undoes the other"""
    x, y = c.unit_vec2('turn')
    k = c.real('length', 0.1, 10)
    for n, t in [([0., 0., 1.], [x, y, 0.]), ([0., x, y], [1., 0., 0.]), ([x, 0., y], [-y, 0., x]), ([0.6, 0., 0.8], [0.8 * x, y, -0.6 * x])]:
        f = BSDF(frame(n, scl3(t, k)), geo.Normal(*n))
        v = vec(c, 'v')
        c.check_eq(lst(f.l2w(f.w2l(v))), lst(v), 'there and back')
        c.check_eq(lst(f.w2l(f.l2w(v))), lst(v), 'back and there')
        c.check_eq(lst(f.w2l(geo.Vector(*n))), [0., 0., 1.], 'the normal is up')


TYPES = [R | D, R | G, R | S, T | D, T | G, T | S]


@harness('C24', params=TYPES)
def flags(c, t):
    """a component matches flags exactly when they hold all of its type"""
    f = c.choice('flags', [0, R, T, R | D, R | G, T | D, T | S, R | T | D, R | T | S, R | D | G, R | S, BDFType.ALL_TYPES, BDFType.ALL_REFLECTION, BDFType.ALL_TRANSMISSION, BDFType.ALL])
    m = Comp(t, 0., 0.)
    c.check(m.match_flag(f) == (t & f == t), 'as number')
    c.check(m.match_flag(BDFType(f)) == (t & f == t), 'as type')
    b = BDFType(t)
    c.check(bool(b & BDFType(f)) == bool(t & f), 'is any set')
    c.check((b & f) == (t & f) and (b | f) == (t | f) and (b ^ f) == (t ^ f), 'operators')
    c.check((b & BDFType(f)) == BDFType(t & f), 'operators on types')
    c.check(((b & f) != 0) == ((t & f) != 0), 'compared with zero')
    c.check(m.type == t, 'type kept')
    for g in (R, T, D, G, S):
        c.check((~b & g) == (0 if t & g else g), 'complement')
    c.check(sum([R, T, D, G, S]) == BDFType.ALL and BDFType.ALL_REFLECTION == R | D | G | S and BDFType.ALL_TRANSMISSION == T | D | G | S, 'all')


SETS = [[R | D, R | G, T | D], [R | D, T | D, T | G], [R | S, R | D, R | G], [R | S, T | S, R | D], [T | G, R | S, T | S]]
ASK = [BDFType.ALL, BDFType.ALL & ~S, R | S, BDFType.ALL_REFLECTION, T | D, 0]


def make(c, types, wi=None):
    ng = geo.Normal(0., 0.6, 0.8)
    b = BSDF(frame([0., 0., 1.], [0., 2., 0.]), ng)
    cs = [Comp(t, c.real('f%d' % i, 0.01, 10), c.real('p%d' % i, 0.01, 10), wi) for i, t in enumerate(types)]
    for x in cs:
        b.push_back(x)
    return b, cs, ng


def sides(c):
    wo, wi = uvec(c, 'wo'), uvec(c, 'wi')
    a, b = 0.6 * wo[1] + 0.8 * wo[2], 0.6 * wi[1] + 0.8 * wi[2]
    nonzero(c, a, 0.01, 'out')
    nonzero(c, b, 0.01, 'in')
    return wo, wi, bool(a * b > 0.)


def local(v):
    """tangent is y, second tangent is n x t = -x"""
    return [v[1], -v[0], v[2]]


def add(xs):
    return sum(xs[1:], xs[0]) if xs else 0.


@harness('C24', params=[[i, j] for i in range(len(SETS)) for j in range(len(ASK))])
def evaluate(c, p):
    """the value is the sum over the matching components on the side of the geometric normal, the density the mean over the matching ones"""
    types, ask = SETS[p[0]], ASK[p[1]]
    b, cs, ng = make(c, types)
    wo, wi, same = sides(c)
    use = [x for x in cs if int(x.type.v) & ask == int(x.type.v) and (int(x.type.v) & (R if same else T))]
    v = b.f(wo, wi, ask)
    s = add([x.v for x in use])
    c.check_eq(lst(v), [s, s, s], 'value')
    for x in cs:
        c.check(len(x.asked) == (1 if any(x is y for y in use) else 0), 'who is asked')
        for (o, i) in x.asked:
            c.check_eq(lst(o) + lst(i), local(wo) + local(wi), 'local directions')
        x.asked = []
    match = [x for x in cs if int(x.type.v) & ask == int(x.type.v)]
    c.check(b.n_components(ask) == len(match) and b.n_BDF == 3, 'count')
    d = b.pdf(wo, wi, ask)
    c.check_eq(d * max(1, len(match)), add([x.p for x in match]), 'density')
    for x in match:
        c.check_eq(lst(x.asked[0][0]) + lst(x.asked[0][1]), local(wo) + local(wi), 'local directions for the density')
    if p[1] == 0:
        v = b.f(wo, wi)
        c.check_eq(lst(v), [s, s, s], 'value for all')
        c.check_eq(b.pdf(wo, wi) * 3., add([x.p for x in match]), 'density for all')


@harness('C24', params=[[i, j, k] for i in range(len(SETS)) for j in range(len(ASK)) for k in ([False, True] if j < 2 else [False])])
def sample(c, p):
    """a matching component is chosen with equal chances; value and density are those of the whole for the direction, but of the chosen one alone when it is specular"""
    types, ask = SETS[p[0]], ASK[p[1]]
    wo, wi, same = sides(c)
    b, cs, ng = make(c, types, geo.Vector(*local(wi)))
    u = [c.real('u%d' % i, 0, 0.999) for i in range(3)]
    match = [x for x in cs if int(x.type.v) & ask == int(x.type.v)]
    n = len(match)
    if n:
        k = c.choice('chosen', list(range(n)))
        c.assume(u[2] * n >= k)
        c.assume(u[2] * n < k + 1)
    if p[2] and n:
        match[k].p = 0.
    smp = BSDFSample(u[0], u[1], u[2])
    pdf, w, t, f = b.sample_f(wo, smp, BDFType(ask) if p[2] else ask)
    if n == 0:
        c.check(pdf == 0. and w is None and f.is_black(), 'nothing matches')
        return
    x = match[k]
    c.check_eq(list(x.u), u[:2], 'its random numbers')
    c.check_eq(lst(x.asked[0][0]), local(wo), 'local outgoing direction')
    c.check(t == x.type, 'type of the chosen')
    if p[2]:
        c.check(pdf == 0. and f.is_black(), 'nothing sampled')
        return
    c.check_eq(lst(w), lst(wi), 'direction in the world')
    if int(x.type.v) & S:
        c.check_eq(pdf * n, x.p, 'density is the share of the chosen')
        c.check_eq(lst(f), [x.v] * 3, 'value of the chosen')
    else:
        c.check_eq(pdf * n, add([y.p for y in match]), 'mean density of the matching')
        s = add([y.v for y in match if int(y.type.v) & (R if same else T)])
        c.check_eq(lst(f), [s] * 3, 'value of all')


@harness('C24', params=list(range(len(SETS))), max_decisions=200)
def albedo(c, i):
    """reflectances are sums over matching components of theirs, for the local direction and a square number of samples"""
    b, cs, ng = make(c, SETS[i])
    wo = uvec(c, 'wo')
    ask = c.choice('ask', ASK)
    match = [x for x in cs if int(x.type.v) & ask == int(x.type.v)]
    v = b.rho_hd(wo, ask, 2, rng=np.random.rand)
    s = add([x.v for x in match])
    c.check_eq(lst(v), [s] * 3, 'directional')
    for x in match:
        c.check_eq(lst(x.asked[0][0]), local(wo), 'local direction')
    v = b.rho_hh(ask, 2, rng=np.random.rand)
    c.check_eq(lst(v), [s] * 3, 'hemispherical')
    for x in match:
        c.check(x.n == (4, 4, 4), 'samples')


class Plain(BDF):
    """diffuse, with everything inherited"""

    def __init__(self, v):
        super().__init__(R | D)
        self.v = v

    def f(self, wo, wi):
        return Spectrum(self.v / np.pi)


@harness('C24', params=[1, -1])
def inherited(c, side):
    """by default directions are sampled on the side of the viewer by cosine, and reflectance of a diffuse surface comes out exact for any samples"""
    v = c.real('v', 0.01, 1)
    b = Plain(v)
    wo = uvec(c, 'wo')
    c.assume(side * wo[2] > 0.01)
    u1, u2 = c.real('u1', 0.26, 0.49), c.real('u2', 0.51, 0.74)
    pdf, wi, f = b.sample_f(wo, u1, u2)
    c.check_eq(dot3(wi, wi), 1., 'unit')
    c.check_ge(side * wi[2], 0., 'side of the viewer')
    c.check_eq(pdf * np.pi, side * wi[2], 'density is cosine over pi')
    c.check_eq(b.pdf(wo, wi), pdf, 'density looked up')
    c.check_eq(lst(f), [v / np.pi] * 3, 'value')
    x = uvec(c, 'x')
    if bool(side * x[2] > 0.):
        c.check_eq(b.pdf(wo, x) * np.pi, side * x[2], 'density on this side')
    else:
        c.check_eq(b.pdf(wo, x), 0., 'no density on the other side')
    c.check_eq(lst(b.rho_hd(wo, [[u1, u2], [u2, u1]])), [v] * 3, 'directional reflectance', tol=1e-5)
    if side > 0:
        s1 = [[c.real('h1', 0.1, 0.9), 0.25]]
        r = b.rho_hh(1, s1, [[u1, u2]])
        c.check_eq(lst(r), [v * 2. * s1[0][0]] * 3, 'hemispherical reflectance weighs by cosine', tol=1e-5)
        c.check_eq(lst(Lambertian(Spectrum(v)).rho_hd(wo, [])), [v] * 3, 'Lambertian')


@harness('C24', params=[1, 3])
def requests(c, n):
    """samples asked for are those got"""
    class Smp(object):
        def __init__(self):
            self.n1, self.n2 = [], []

        def add_1d(self, k):
            self.n1.append(k)
            return len(self.n1) + 4

        def add_2d(self, k):
            self.n2.append(k)
            return len(self.n2) + 2
    s = Smp()
    o = BSDFSampleOffset(n, s)
    c.check(o.nSamples == n and s.n1 == [n] and s.n2 == [n] and o.offset_com == 5 and o.offset_dir == 3, 'offsets')
    s.oneD = {5: [c.real('a%d' % i, 0, 1) for i in range(n)]}
    s.twoD = {3: [[c.real('b%d' % i, 0, 1), c.real('c%d' % i, 0, 1)] for i in range(n)]}
    for i in range(n):
        b = BSDFSample.from_sample(s, o, i)
        c.check_eq([b.u_dir[0], b.u_dir[1], b.u_com], [s.twoD[3][i][0], s.twoD[3][i][1], s.oneD[5][i]], 'values')
    b = BSDFSample.from_rand(c.draw)
    c.check(len({id(b.u_dir[0]), id(b.u_dir[1]), id(b.u_com)}) == 3, 'three draws')
