"""Texture mappings, procedural textures, noise"""
from symx.reg import harness
from harness.hu import *
import pytracer.texture.utility as tu
from pytracer.texture.texturemap import (UVMapping2D, SphericalMapping2D, CylindricalMapping2D, PlannarMapping2D,
                                         IdentityMapping3D)
from pytracer.texture.texture import (ConstantTexture, ScaleTexture, MixTexture, BilerpTexture, UVTexture,
                                      Chekcerboard2DTexture, Checkboard3DTexture, DotsTexture, FBmTexture,
                                      WrinkledTexture, WindyTexture, MarbleTexture)
from pytracer.spectral import Spectrum

META = {
    'bounds': 'any points with coordinates in [-10, 10], any differentials in [-5, 5], any values of the textures combined in [-5, 5]; checkerboards: any coordinates in [-2.4, 2.4] and filter half widths in [0, 1.5]; '
              'noise: any point of 9 lattice cells (negative, wrapping and beyond 256), fractal sums of up to four octaves with any value of the noise',
    'outside': 'spherical and cylindrical differentials across the seam and beyond half a turn per unit; footprints of fractal sums other than those listed; floating-point rounding',
    'assumptions': 'where textures build upon mappings, other textures or noise, these are stand-ins giving any value and recording what they are asked',
}


class Map(object):
    """a mapping giving what it is told to"""

    def __init__(self, *r):
        self.r, self.asked = r, []

    def __call__(self, dg):
        self.asked.append(dg)
        return list(self.r)


class Tex(object):
    """a texture giving what it is told to"""

    def __init__(self, v):
        self.v, self.asked = v, []

    def __call__(self, dg):
        self.asked.append(dg)
        return self.v


class DG(object):
    pass


def patch(name, f):
    old = getattr(tu, name)
    setattr(tu, name, f)
    return old


def floor(c, x, lo, hi):
    """the greatest integer not above x, one case per value"""
    for n in range(lo, hi):
        if bool(x < n + 1):
            return n
    return hi


@harness('C32')
def uv(c):
    """UVMapping2D scales and offsets u and v, and scales their differentials"""
    dg = DG()
    for n in ('u', 'v', 'dudx', 'dvdx', 'dudy', 'dvdy'):
        setattr(dg, n, c.real(n, -5, 5))
    su, sv, du, dv = [c.real(n, -5, 5) for n in ('su', 'sv', 'du', 'dv')]
    r = UVMapping2D(su, sv, du, dv)(dg)
    for k, (a, b) in enumerate(zip(r, [su * dg.u + du, sv * dg.v + dv, su * dg.dudx, sv * dg.dvdx, su * dg.dudy, sv * dg.dvdy])):
        c.check_eq(a, b, 'entry %d' % k)
    c.check(len(r) == 6, 'six numbers')


@harness('C32')
def planar(c):
    """PlannarMapping2D projects the point and its differentials upon its two axes"""
    dg = DG()
    dg.p, dg.dpdx, dg.dpdy = pnt(c, 'p'), vec(c, 'dx', 5), vec(c, 'dy', 5)
    vs, vt = vec(c, 'vs', 5), vec(c, 'vt', 5)
    ds, dt = c.real('ds', -5, 5), c.real('dt', -5, 5)
    r = PlannarMapping2D(vs, vt, ds, dt)(dg)
    for k, (a, b) in enumerate(zip(r, [ds + dot3(dg.p, vs), dt + dot3(dg.p, vt), dot3(dg.dpdx, vs), dot3(dg.dpdx, vt),
                                       dot3(dg.dpdy, vs), dot3(dg.dpdy, vt)])):
        c.check_eq(a, b, 'entry %d' % k)
    c.check(len(r) == 6, 'six numbers')


@harness('C32', params=['translate', 'turn', 'mirror'])
def identity(c, param):
    """IdentityMapping3D carries the point and its differentials into texture space"""
    t = PLACE[param]()
    dg = DG()
    dg.p, dg.dpdx, dg.dpdy = pnt(c, 'p'), vec(c, 'dx', 5), vec(c, 'dy', 5)
    p, dx, dy = IdentityMapping3D(t)(dg)
    for a, w, v, n in ((p, 1., dg.p, 'p'), (dx, 0., dg.dpdx, 'dpdx'), (dy, 0., dg.dpdy, 'dpdy')):
        r = matvec(t.m, lst(v) + [w])
        for k in range(3):
            c.check_eq(a[k], r[k], '%s[%d]' % (n, k))


DELTA = .1
PAIRS = [[[0.6, 0.64, 0.48], [0.64, 0.6, 0.48]], [[-0.6, 0.64, -0.48], [-0.64, 0.48, -0.6]],
         [[0.64, -0.48, 0.6], [0.6, -0.64, 0.48]], [[-0.48, -0.6, -0.64], [-0.6, -0.48, -0.64]],
         [[-0.64, 0.48, 0.6], [-0.64, -0.48, 0.6]], [[-0.64, -0.48, 0.6], [-0.6, 0.48, 0.64]],
         [[0.64, 0.48, 0.6], [0.64, -0.48, 0.6]], [[0.6, -0.48, 0.64], [0.6, 0.64, 0.48]]]


@harness('C32', params=[['sphere', p, k] for p in ('translate', 'turn', 'mirror') for k in range(4)] + [['sphere', 'turn', k] for k in range(4, 8)] +
         [['cylinder', p, k] for p in ('translate', 'turn', 'mirror') for k in range(4)] + [['cylinder', 'turn', k] for k in range(4, 8)], ite=False)
def round_maps(c, param):
    """spherical and cylindrical mappings: the angles of the point as seen from the origin of texture space; the differentials
    are those of the mapping towards the neighbouring points, the short way round"""
    kind, place, k = param
    w2t = PLACE[place]()
    t2w = w2t.inverse()
    d0, d1 = PAIRS[k]
    d2 = PAIRS[(k + 1) % len(PAIRS)][0] if c.boolean('far') else d0
    q = [[x * c.real('r%d' % i, 0.5, 5) for x in d] for i, d in enumerate((d0, d1, d2))]
    w = [t2w(geo.Point(*x)) for x in q]
    dg = DG()
    dg.p = w[0]
    dg.dpdx = (w[1] - w[0]) / DELTA
    dg.dpdy = (w[2] - w[0]) / DELTA

    def at(d):
        if kind == 'sphere':
            ph = np.arctan2(d[1], d[0])
            return [np.arccos(d[2]) / np.pi, (ph + 2. * np.pi if ph < 0. else ph) / (2. * np.pi)]
        return [(np.pi + np.arctan2(d[1], d[0])) / (2. * np.pi), d[2]]
    r = (SphericalMapping2D if kind == 'sphere' else CylindricalMapping2D)(w2t)(dg)
    a, b, e = at(d0), at(d1), at(d2)
    c.check(len(r) == 6, 'six numbers')
    c.check_eq(r[0], a[0], 's')
    c.check_eq(r[1], a[1], 't')
    for i, (v, n) in enumerate(((b, 'dx'), (e, 'dy'))):
        d = [v[0] - a[0], v[1] - a[1]]
        k = 1 if kind == 'sphere' else 0
        d[k] = d[k] - 1. if d[k] > .5 else d[k] + 1. if d[k] < -.5 else d[k]
        c.check_eq(r[2 + 2 * i], d[0] / DELTA, 'ds' + n)
        c.check_eq(r[3 + 2 * i], d[1] / DELTA, 'dt' + n)



GRADS = [[1, 1, 0], [-1, 1, 0], [1, -1, 0], [-1, -1, 0], [1, 0, 1], [-1, 0, 1], [1, 0, -1], [-1, 0, -1],
         [0, 1, 1], [0, -1, 1], [0, 1, -1], [0, -1, -1], [1, 1, 0], [-1, 1, 0], [0, 1, -1], [0, -1, -1]]


def gradient(x, y, z):
    from pytracer.data.noise import NOISE_PERM as P
    h = int(P[int(P[int(P[x % 256]) + y % 256]) + z % 256]) % 16
    return GRADS[h]


CELLS = [[0, 0, 0], [1, 2, 3], [-1, -1, -1], [254, 255, 256], [-257, 100, 37], [13, -77, 511], [91, 7, -200], [5, 128, 9], [1000, -1000, 64]]


@harness('C32', params=CELLS[:5], thorough=CELLS)
def noise(c, param):
    """Perlin's noise: eight gradients of the lattice, blended by quintic weights; the gradients are of lattice points, so that
    neighbouring cells agree where they meet; zero upon the lattice; repeats itself"""
    u = [c.real(n, 0., 1., hi_open=True) for n in 'xyz']
    v = tu.noise(geo.Point(*[i + x for i, x in zip(param, u)]))
    w = [x * x * x * (10. - 15. * x + 6. * x * x) for x in u]
    s = 0.
    for k in range(8):
        o = [k & 1, (k >> 1) & 1, k >> 2]
        g = gradient(*[i + j for i, j in zip(param, o)])
        e = 0.
        for j in range(3):
            if g[j]:
                e = e + g[j] * (u[j] - o[j])
        for j in range(3):
            e = e * (w[j] if o[j] else 1. - w[j])
        s = s + e
    c.check_eq(v, s, 'noise')


@harness('C32')
def smooth(c):
    """smooth_step is zero up to its interval, one beyond it, and rises between"""
    lo, d, x = c.real('lo', -5, 5), c.real('d', 0.1, 5), c.real('x', -12, 12)
    r = tu.smooth_step(lo, lo + d, x)
    if x <= lo:
        c.check_eq(r, 0., 'zero before')
    elif x >= lo + d:
        c.check_eq(r, 1., 'one after')
    else:
        v = (x - lo) / d
        c.check_eq(r, v * v * (3. - 2. * v), 'cubic between')


# squared length of the longer differential -> octaves
FOOT = [[0., 4.], [1., 1.], [0.25, 2.], [0.0625, 3.], [0.5, 1.5], [2., .5], [0.3535533905932738, 1.75], [4., 0.], [64., 0.], [0.00390625, 5.]]


@harness('C32', params=[[f, k] for f in ('fbm', 'turbulence') for k in range(8)], thorough=[[f, k] for f in ('fbm', 'turbulence') for k in range(len(FOOT))])
def fractal(c, param):
    """FBm and turbulence: octaves of the noise at 1.99 times the frequency each, weighted by powers of omega, no more than
    the footprint of the point allows, the last one faded in"""
    f, k = param
    s2, n = FOOT[k]
    most = c.choice('max', [4, 3, 2])
    n = min(most, n)
    p, om = pnt(c, 'p', 3), c.real('omega', 0., 1.)
    asked, val = [], []

    def stand(q):
        asked.append(q)
        val.append(c.real('n%d' % len(val), -1, 1))
        return val[-1]
    l = s2 ** .5
    dx, dy = geo.Vector(l, 0., 0.), geo.Vector(0., 0.6 * l * .5, 0.8 * l * .5)
    if c.boolean('swap'):
        dx, dy = dy, dx
    old = patch('noise', stand)
    try:
        r = (tu.FBm if f == 'fbm' else tu.turbulence)(p, dx, dy, om, most)
    finally:
        patch('noise', old)
    whole = int(n)
    s, o, lam = 0., 1., 1.
    c.check(whole <= len(val) <= whole + 1, 'one noise per octave')
    for i, v in enumerate(val):
        for j in range(3):
            c.check_eq(asked[i][j], lam * p[j], 'point %d[%d]' % (i, j))
        e = (v if f == 'fbm' else (v if bool(v >= 0.) else -v))
        fade = 1.
        if i == whole:
            par = min(max((n - whole - .3) / .4, 0.), 1.)
            fade = par * par * (3. - 2. * par)
        s = s + o * e * fade
        o = o * om
        lam = lam * 1.99
    if n > whole:
        c.check(len(val) == whole + 1, 'the last octave is faded in')
    c.check_eq(r, s, 'sum')


@harness('C32')
def combine(c):
    """constant, scaled, mixed and bilinear textures; all textures see the same geometry"""
    dg = DG()
    a, b, t, s = [c.real(n, -5, 5) for n in 'abts']
    x, y, z = Tex(a), Tex(b), Tex(t)
    c.check_eq(ConstantTexture(a)(dg), a, 'constant')
    c.check_eq(ScaleTexture(x, y)(dg), a * b, 'product')
    c.check_eq(MixTexture(x, y, z)(dg), (1. - t) * a + t * b, 'mix')
    v = [c.real('v%d' % i, -5, 5) for i in range(4)]
    m = Map(s, t, 0., 0., 0., 0.)
    c.check_eq(BilerpTexture(m, *v)(dg), (1. - s) * (1. - t) * v[0] + (1. - s) * t * v[1] + s * (1. - t) * v[2] + s * t * v[3], 'bilinear')
    for q in x.asked + y.asked + z.asked + m.asked:
        c.check(q is dg, 'same geometry')


@harness('C32')
def uv_color(c):
    """UVTexture shows the fractions of its two coordinates"""
    s, t = c.real('s', -2.5, 2.5), c.real('t', -2.5, 2.5)
    r = UVTexture(Map(s, t, 0., 0., 0., 0.))(DG())
    c.check_eq(r[0], s - floor(c, s, -3, 2), 'red')
    c.check_eq(r[1], t - floor(c, t, -3, 2), 'green')
    c.check_eq(r[2], 0., 'blue')


@harness('C32', params=['none', 'closedform'])
def check_point(c, param):
    """checkerboards: a filter within one check shows the texture of that check, even and odd ones in turn"""
    s, t = c.real('s', -2.4, 2.4), c.real('t', -2.4, 2.4)
    i, j = floor(c, s, -3, 2), floor(c, t, -3, 2)
    d = [0.] * 4
    if param == 'none':
        d = [c.real('d%d' % k, -3, 3) for k in range(4)]
    else:
        k = c.choice('which', [0, 1, 2, 3])
        h = c.real('d', -1, 1)
        d[k] = h
        x, n = (s, i) if k % 2 == 0 else (t, j)
        h = h if bool(h >= 0.) else -h
        c.assume(x - h >= n + 1e-6)
        c.assume(x + h <= n + 1 - 1e-6)
    e, o = Tex(1.), Tex(2.)
    dg = DG()
    r = Chekcerboard2DTexture(Map(s, t, *d), e, o, param)(dg)
    c.check_eq(r, 1. if (i + j) % 2 == 0 else 2., 'check')
    c.check([q is dg for q in e.asked + o.asked] == [True], 'one texture is asked')


def odd_len(c, x):
    """length of [0, x] lying within odd checks (x in [-4, 4]); its differences are what is filtered"""
    n = floor(c, x, -4, 3)
    # checks below n
    full = {-4: -2, -3: -2, -2: -1, -1: -1, 0: 0, 1: 0, 2: 1, 3: 1}[n]
    # odd lengths accumulated at the lower end of check n, counted from zero
    return full + (x - n) if n % 2 == 1 else full


@harness('C32', params=['both', 's', 't'], ite=False, max_decisions=400)
def check_filter(c, param):
    """filtered checkerboards: each texture is weighted by the area of its checks below the filter"""
    s, t = c.real('s', -0.9, 1.4), c.real('t', -0.9, 0.4) if param != 't' else c.real('t', -0.9, 1.4)
    if param == 't':
        s = c.real('s2', -0.4, 0.4)
    a = c.real('a', 0.05, 1., hi_open=True) if param != 't' else 0.
    b = c.real('b', 0.05, 1., hi_open=True) if param != 's' else 0.
    swap = c.choice('swap', [0, 1])
    d = [a * .5, b, -a, -.5 * b] if swap else [a, -.5 * b, .5 * a, -b]
    w0, w1 = c.real('w0', -5, 5), c.real('w1', -5, 5)
    r = Chekcerboard2DTexture(Map(s, t, *d), Tex(w0), Tex(w1))(DG())
    fs = (odd_len(c, s + a) - odd_len(c, s - a)) / (2. * a) if param != 't' else float(floor(c, s, -4, 3) % 2)
    ft = (odd_len(c, t + b) - odd_len(c, t - b)) / (2. * b) if param != 's' else float(floor(c, t, -4, 3) % 2)
    odd = fs * (1. - ft) + ft * (1. - fs)
    c.check_eq(r, (1. - odd) * w0 + odd * w1, 'weights')


@harness('C32')
def check_wide(c):
    """filters wider than a check show equal parts"""
    s, t = c.real('s', -0.4, 0.4), c.real('t', -0.4, 0.4)
    d = [0.1, 0.1, 0.1, 0.1]
    d[c.choice('k', [0, 1, 2, 3])] = c.choice('sign', [1., -1.]) * c.real('d', 1.05, 1.5)
    w0, w1 = c.real('w0', -5, 5), c.real('w1', -5, 5)
    c.check_eq(Chekcerboard2DTexture(Map(s, t, *d), Tex(w0), Tex(w1))(DG()), .5 * (w0 + w1), 'weights')


@harness('C32')
def check_3d(c):
    """three-dimensional checks"""
    p = geo.Point(*[c.real(n, -1.5, 1.5) for n in 'xyz'])
    k = [floor(c, p[i], -2, 1) for i in range(3)]
    dg = DG()
    e, o = Tex(1.), Tex(2.)
    r = Checkboard3DTexture(Map(p, None, None), e, o)(dg)
    c.check_eq(r, 1. if sum(k) % 2 == 0 else 2., 'check')
    c.check([q is dg for q in e.asked + o.asked] == [True], 'one texture is asked')


@harness('C32')
def dots(c):
    """polka dots: cells about integers hold a dot where the noise is positive, of radius 0.35, within the cell"""
    s, t = c.real('s', -1.4, 1.4), c.real('t', -1.4, 1.4)
    i, j = floor(c, s + .5, -1, 1), floor(c, t + .5, -1, 1)
    val = []

    def stand(q):
        c.check(len(q) == 3, 'a point')
        for k, x in enumerate((i, j)):
            c.check(bool(abs(float(c.val(q[k]) - x)) < 20.), 'noise of the cell')
        val.append(c.real('n%d' % len(val), -1, 1))
        return val[-1]
    dg = DG()
    a, b = Tex(1.), Tex(2.)
    old = patch('noise', stand)
    try:
        r = DotsTexture(Map(s, t, 0., 0., 0., 0.), a, b)(dg)
    finally:
        patch('noise', old)
    c.check([q is dg for q in a.asked + b.asked] == [True], 'one texture is asked')
    if bool(val[0] <= 0.):
        c.check_eq(r, 2., 'no dot')
        c.check(len(val) == 1, 'one noise')
    else:
        c.check(len(val) == 3, 'three noises')
        x, y = s - (i + (.5 - .35) * val[1]), t - (j + (.5 - .35) * val[2])
        d2 = x * x + y * y
        c.check_eq(r, 1. if bool(d2 < .35 * .35) else 2., 'inside the dot or outside')


@harness('C32')
def fractal_textures(c):
    """FBm, wrinkled and windy textures: sums over the mapped point and its differentials"""
    p, dx, dy, dg = pnt(c, 'p'), vec(c, 'dx'), vec(c, 'dy'), DG()
    om, val, asked = c.unit('omega'), [], []

    def stand(*a):
        asked.append(a)
        val.append(c.real('f%d' % len(val), -3, 3))
        return val[-1]
    keep = [lst(p), lst(dx), lst(dy)]
    kind = c.choice('kind', ['fbm', 'wrinkled', 'windy'])
    name = 'turbulence' if kind == 'wrinkled' else 'FBm'
    m = Map(p, dx, dy)
    old = patch(name, stand)
    try:
        r = (WindyTexture(m) if kind == 'windy' else (FBmTexture if kind == 'fbm' else WrinkledTexture)(5, om, m))(dg)
    finally:
        patch(name, old)
    c.check(len(m.asked) == 1 and m.asked[0] is dg, 'same geometry')
    want = [(.1, .5, 3), (1., .5, 6)] if kind == 'windy' else [(1., om, 5)]
    c.check(len(asked) == len(want), 'number of sums')
    for a, (k, o, n) in zip(asked, want):
        for i in range(3):
            for j in range(3):
                c.check_eq(a[i][j], k * keep[i][j], 'argument %d[%d]' % (i, j))
        c.check_eq(a[3], o, 'omega')
        c.check(a[4] == n, 'octaves')
    e = val[0]
    if kind == 'windy':
        e = (val[0] if bool(val[0] >= 0.) else -val[0]) * val[1]
    c.check_eq(r, e, 'value')


@harness('C32', params=[0, 1, 2, 3, 4, 5])
def marble(c, param):
    """marble: the colour spline at the perturbed height; the mapped point stays as it was"""
    p, dx, dy, dg = pnt(c, 'p', 2), vec(c, 'dx', 2), vec(c, 'dy', 2), DG()
    om, sc, var, f = c.unit('omega'), c.real('scale', 0.1, 5), c.real('var', 0.1, 3), c.real('f', -2, 2)
    ph, asked = c.angle('ph', -1.5, 1.5), []
    # the perturbed height is the angle
    c.assume_eq(sc * p[1] + var * f, ph)

    def stand(*a):
        asked.append(a)
        return f
    keep = [lst(p), lst(dx), lst(dy)]
    old = patch('FBm', stand)
    t = .5 + .5 * np.sin(sc * p[1] + var * f)
    seg = param
    c.assume(t * 6. >= seg)
    c.assume(t * 6. <= seg + 1 - 1e-9)
    try:
        r = MarbleTexture(5, om, sc, var, Map(p, dx, dy))(dg)
    finally:
        patch('FBm', old)
    for j in range(3):
        c.check_eq(p[j], keep[0][j], 'the point stays')
    c.check(len(asked) >= 1, 'perturbed')
    for i in range(3):
        for j in range(3):
            c.check_eq(asked[0][i][j], sc * keep[i][j], 'argument %d[%d]' % (i, j))
    c.check_eq(asked[0][3], om, 'omega')
    c.check(asked[0][4] == 5, 'octaves')
    K = MarbleTexture.spline
    c.check(len(K) == 9, 'nine colours')
    x = t * 6. - seg
    for k in range(3):
        e = 0.
        for i, b in enumerate(((1. - x) * (1. - x) * (1. - x), 3. * x * (1. - x) * (1. - x), 3. * x * x * (1. - x), x * x * x)):
            e = e + 1.5 * K[seg + i][k] * b
        c.check_eq(r[k], e, 'colour %d' % k)
