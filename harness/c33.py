"""MIP maps and image textures"""
from symx.reg import harness
from harness.hu import *
from pytracer import FLOAT
import pytracer.texture.utility as tu
import pytracer.texture.texture.image as ti
from pytracer.texture.texture.image import ImageTexture
from pytracer.spectral import Spectrum, RGBSpectrum

MIPMap, Wrap = tu.MIPMap, tu.ImageWrap
META = {
    'bounds': 'images of up to 8 by 4 texels (powers of two or not) with any texel values in [0, 10], colours or numbers; any coordinates in [-0.4, 0.6] for isotropic look-ups of the '
              'widths listed; the points and footprints listed for elliptical look-ups; all three wrappings',
    'outside': 'larger images; footprints other than those listed; floating-point rounding; files are stand-ins, so that their decoding is left out',
}
WRAPS = [Wrap.REPEAT, Wrap.BLACK, Wrap.CLAMP]
SIZES = [[2, 4], [4, 2], [1, 4], [2, 1], [4, 4], [1, 1]]       # rows, columns


def image(c, h, w, color=False):
    a = [[([c.real('i%d_%d_%d' % (t, s, k), 0., 10.) for k in range(3)] if color else c.real('i%d_%d' % (t, s), 0., 10.))
          for s in range(w)] for t in range(h)]
    return a, np.array(a)


def put(c, wrap, a, s, t):
    """texel at column s and row t"""
    h, w = len(a), len(a[0])
    if wrap == Wrap.REPEAT:
        s, t = s % w, t % h
    elif wrap == Wrap.CLAMP:
        s, t = min(max(s, 0), w - 1), min(max(t, 0), h - 1)
    elif s < 0 or s >= w or t < 0 or t >= h:
        return [0., 0., 0.] if isinstance(a[0][0], list) else 0.
    return a[t][s]


def comp(v):
    return v if isinstance(v, list) else [v]


def wsum(ws, vs):
    n = len(comp(vs[0]))
    out = [0.] * n
    for w, v in zip(ws, vs):
        out = [o + w * x for o, x in zip(out, comp(v))]
    return out


def levels(a):
    """all levels, the finest first"""
    out = [a]
    while len(a) > 1 or len(a[0]) > 1:
        h, w = max(1, len(a) // 2), max(1, len(a[0]) // 2)
        col = isinstance(a[0][0], list)
        b = []
        for t in range(h):
            r = []
            for s in range(w):
                q = [a[min(2 * t + j, len(a) - 1)][min(2 * s + i, len(a[0]) - 1)] for j in (0, 1) for i in (0, 1)]
                v = wsum([.25] * 4, q)
                r.append(v if col else v[0])
            b.append(r)
        out.append(b)
        a = b
    return out


def same(c, got, want, label):
    want = comp(want)
    if len(want) == 1:
        c.check_eq(got, want[0], label)
    else:
        c.check(len(got) == 3, label + ' has three entries')
        for k in range(3):
            c.check_eq(got[k], want[k], '%s[%d]' % (label, k))


@harness('C33', params=[[z, k] for z in SIZES for k in (False, True)])
def pyramid(c, param):
    """each texel of a coarser level is the mean of the four it covers; the coarsest level is one texel; rows are t and columns s"""
    (h, w), color = param
    wrap = WRAPS[c.choice('wrap', [0, 1, 2])]
    a, img = image(c, h, w, color)
    m = MIPMap(RGBSpectrum if color else FLOAT, img, wrap=wrap)
    L = levels(a)
    c.check(m.width == w and m.height == h, 'width and height')
    c.check(m.levels == len(L), 'number of levels')
    for n, l in enumerate(L):
        for t in range(-2, len(l) + 2):
            for s in range(-2, len(l[0]) + 2):
                v = m.texel(n, s, t)
                c.check(isinstance(v, RGBSpectrum) == color, 'type of texels')
                same(c, v, put(c, wrap, l, s, t), 'texel %d %d %d' % (n, s, t))
    for t in range(h):
        for s in range(w):
            same(c, img[t][s], a[t][s], 'the image stays')


@harness('C33')
def bytes8(c):
    """8-bit images do not wrap around"""
    v = c.choice('v', [255, 200, 64, 3])
    img = np.array([[[v, 255, 0], [v, 254, 1]], [[v, 253, 2], [v, 255, 5]]]).astype('uint8')
    s, t = c.real('s', -0.2, 1.2), c.real('t', -0.2, 1.2)
    m = MIPMap(RGBSpectrum, img, wrap=Wrap.CLAMP)
    r = m.texel(1, 0, 0)
    for k, e in enumerate([float(v), 254.25, 2.]):
        c.check_eq(r[k], e, 'mean[%d]' % k)
    r = m.look_up([s, t])
    c.check_eq(r[0], float(v), 'a constant image looks constant')
    c.check_ge(r[1], 253., 'within the range')
    c.check_le(r[1], 255., 'within the range')


def kernel(x):
    """the Lanczos window of two lobes"""
    x = abs(x)
    if x < 1e-5:
        return 1.
    if x > 1.:
        return 0.
    p = np.pi * x
    return float(np.sin(2. * p) / (2. * p) * np.sin(p) / p)


def weights(o, n):
    out = []
    for i in range(n):
        ctr = (i + .5) * o / n
        first = int(np.floor(ctr - 1.5))
        w = [kernel((first + j + .5 - ctr) / 2.) for j in range(4)]
        out.append((first, [x / sum(w) for x in w]))
    return out


ODD = [[3, 2], [2, 3], [3, 5], [1, 3], [5, 1], [4, 3]]


@harness('C33', params=[[z, False] for z in ODD] + [[[3, 2], True]], ite=False)
def resample(c, param):
    """images of other sizes are resampled to the next powers of two by a normalised, separable filter"""
    (h, w), color = param
    wrap = WRAPS[c.choice('wrap', [0, 1, 2])]
    if color:
        # colours are not negative: one channel far from zero, one that would go below, one in between
        k = c.real('k', 1., 10.)
        a = [[[c.real('i%d_%d' % (t, s), 4., 6.), k if (s + t) % 2 else 0., 0. if s == 1 else k] for s in range(w)] for t in range(h)]
        img = np.array(a)
    else:
        a, img = image(c, h, w)
    m = MIPMap(RGBSpectrum if color else FLOAT, img, wrap=wrap)
    W, H = [1 << (x - 1).bit_length() for x in (w, h)]
    c.check(m.width == W and m.height == H, 'width and height')
    mid = []
    for t in range(h):
        r = []
        for f, ws in weights(w, W):
            v = wsum(ws, [put(c, wrap, [a[t]], f + j, 0) for j in range(4)])
            r.append(v if color else v[0])
        mid.append(r)
    for t, (f, ws) in enumerate(weights(h, H)):
        for s in range(W):
            v = wsum(ws, [put(c, wrap, mid, s, f + j) for j in range(4)])
            if color:
                v = [x if bool(x > 0.) else 0. for x in v]
            same(c, m.texel(0, s, t), v, 'texel %d %d' % (s, t))


WIDTHS = [None, 0., 1e-6, 0.2, 0.25, 0.375, 0.5, 0.8, 1., 3.]


def tri(c, l, wrap, s, t):
    h, w = len(l), len(l[0])
    x, y = s * w - .5, t * h - .5
    i, j = floor(c, x, -4, 8), floor(c, y, -4, 8)
    f, g = x - i, y - j
    return wsum([(1. - f) * (1. - g), f * (1. - g), (1. - f) * g, f * g],
                [put(c, wrap, l, i + a, j + b) for b in (0, 1) for a in (0, 1)])


def floor(c, x, lo, hi):
    for n in range(lo, hi):
        if bool(x < n + 1):
            return n
    return hi


@harness('C33', params=[[z, k, q] for z in ([2, 4], [4, 1]) for k in range(len(WIDTHS)) for q in (0, 1, 2)])
def isotropic(c, param):
    """isotropic look-ups: bilinear within the level whose texels are as wide as the filter, linear between levels"""
    (h, w), k, q = param
    wrap, width = WRAPS[q], WIDTHS[k]
    a, img = image(c, h, w)
    m = MIPMap(FLOAT, img, wrap=wrap)
    s, t = c.real('s', -0.4, 0.6), c.real('t', -0.4, 0.6)
    r = m.look_up([s, t] if width is None else [s, t, width])
    L = levels(a)
    lev = len(L) - 1 + np.log2(max(width or 0., 1e-5))
    if lev < 0:
        e = tri(c, L[0], wrap, s, t)
    elif lev >= len(L) - 1:
        e = comp(L[-1][0][0])
    else:
        i = int(np.floor(lev))
        e = [(1. - (lev - i)) * x + (lev - i) * y for x, y in zip(tri(c, L[i], wrap, s, t), tri(c, L[i + 1], wrap, s, t))]
    same(c, r, e, 'value')


# column, row, then the differentials of both: shorter and longer, turned, nearly flat, small and large
POINTS = [[.3, .4], [.05, .95], [.625, .5]]
FEET = [[.1, 0., 0., .2], [.2, .1, -.05, .1], [.02, .01, .3, .4], [.5, .5, -.25, .25], [.1, .05, .1, .05], [.001, 0., 0., .002],
        [.9, 0., 0., .05], [0., 0., .2, .1], [2., 0., 0., 3.], [.3, .3, .0001, .0002]]


def ellipse(c, L, n, wrap, s, t, d):
    """gaussian-weighted mean of the texels of a level within the ellipse of the two differentials, enlarged by a texel"""
    if n >= len(L):
        return comp(L[-1][0][0])
    l = L[n]
    h, w = len(l), len(l[0])
    s, t = s * w - .5, t * h - .5
    x0, y0, x1, y1 = d[0] * w, d[1] * h, d[2] * w, d[3] * h
    A, B, C = y0 * y0 + y1 * y1 + 1., -2. * (x0 * y0 + x1 * y1), x0 * x0 + x1 * x1 + 1.
    F = A * C - B * B / 4.
    R = int(2. * (1. + abs(x0) + abs(x1) + abs(y0) + abs(y1))) + 2
    ws, vs = [], []
    for j in range(int(t) - R, int(t) + R + 1):
        for i in range(int(s) - R, int(s) + R + 1):
            r2 = (A * (i - s) ** 2 + B * (i - s) * (j - t) + C * (j - t) ** 2) / F
            if r2 < 1.:
                k = min(int(r2 * 128), 127)
                ws.append(float(np.exp(-2. * k / 127.) - np.exp(-2.)))
                vs.append(put(c, wrap, l, i, j))
    tot = sum(ws)
    return wsum([x / tot for x in ws], vs)


@harness('C33', params=[[z, k, f, q] for f in range(8) for k, z, q in ((0, [2, 4], 0), (1, [4, 2], 1), (2, [4, 4], 2), (1, [1, 4], 1))],
         thorough=[[z, k, f, q] for f in range(len(FEET)) for k in range(len(POINTS)) for z in SIZES for q in (0, 1, 2)])
def elliptic(c, param):
    """elliptical look-ups: gaussian-weighted means within the ellipse of the differentials, of the two levels whose texels are as
    wide as its shorter axis; too flat ellipses are widened; no footprint is no filter; trilinear maps take the longest
    differential"""
    (h, w), k, f, q = param
    wrap = WRAPS[q]
    s, t = POINTS[k]
    d = list(FEET[f])
    if c.boolean('swap'):
        d = d[2:] + d[:2]
    a, img = image(c, h, w)
    flat = c.choice('aniso', [8., 2.])
    trilinear = c.boolean('trilinear')
    m = MIPMap(FLOAT, img, trilinear, flat, wrap)
    r = m.look_up([s, t] + d)
    L = levels(a)
    if trilinear:
        same(c, r, m.look_up([s, t, 2. * max(abs(x) for x in d)]), 'trilinear')
        return
    ln = [(d[0] ** 2 + d[1] ** 2) ** .5, (d[2] ** 2 + d[3] ** 2) ** .5]
    if ln[0] < ln[1]:
        d, ln = d[2:] + d[:2], ln[::-1]
    if ln[1] == 0.:
        same(c, r, tri(c, L[0], wrap, s, t), 'no footprint')
        return
    if ln[1] * flat < ln[0]:
        g = ln[0] / (ln[1] * flat)
        d = d[:2] + [d[2] * g, d[3] * g]
        ln[1] *= g
    lod = max(0., len(L) - 1. + float(np.log2(ln[1])))
    n = int(lod)
    x, y = ellipse(c, L, n, wrap, s, t, d), ellipse(c, L, n + 1, wrap, s, t, d)
    same(c, r, [(1. - (lod - n)) * p + (lod - n) * q for p, q in zip(x, y)], 'value')


class Map(object):
    def __init__(self, *r):
        self.r, self.asked = r, []

    def __call__(self, dg):
        self.asked.append(dg)
        return list(self.r)


class Reader(object):
    """a file reader giving what it is told to"""

    def __init__(self, img):
        self.img, self.asked = img, []

    def __call__(self, name):
        self.asked.append(name)
        if name not in self.img:
            raise IOError(name)
        return self.img[name]


@harness('C33', params=['color', 'number'])
def image_texture(c, kind):
    """image textures: texels scaled and raised to gamma, looked up where the mapping points; files that cannot be read are
    taken as one"""
    a, img = image(c, 2, 4, True)
    s, t = c.real('s', 0.1, 0.4), c.real('t', 0.1, 0.4)
    sc, ga = c.choice('scale', [1., .5]), c.choice('gamma', [1., 2.])
    missing = c.boolean('missing')
    wrap = WRAPS[c.choice('wrap', [0, 1, 2])]
    rd = Reader({'a': img})
    ret, mem = (Spectrum, RGBSpectrum) if kind == 'color' else (FLOAT, FLOAT)
    old, ti.iio.read_image = ti.iio.read_image, rd
    ImageTexture.textures = {}
    dg = object()
    mp = Map(s, t, 0., 0., 0., 0.)
    try:
        x = ImageTexture(ret, mem, mp, 'none' if missing else 'a', False, 8., wrap, sc, ga)
        r = x(dg)
    finally:
        ti.iio.read_image = old
        ImageTexture.textures = {}
    c.check(len(mp.asked) == 1 and mp.asked[0] is dg, 'same geometry')
    c.check(isinstance(r, Spectrum) == (kind == 'color'), 'type')

    def power(v):
        v = v * sc
        return v * v if ga == 2. else v
    if missing:
        e = [[power(1.)]] if kind != 'color' else [[[power(1.)] * 3]]
    elif kind == 'color':
        e = [[[power(v) for v in p] for p in row] for row in a]
    else:
        e = [[power(0.212671 * p[0] + 0.715160 * p[1] + 0.072169 * p[2]) for p in row] for row in a]
    same(c, r, tri(c, e, wrap, s, t), 'value')


@harness('C33')
def cache(c):
    """one map per file, filter, wrapping, correction and type; equal ones are shared"""
    a, img = image(c, 1, 2, True)
    b, img2 = image(c, 1, 2, True) if False else ([[[1., 2., 3.], [4., 5., 6.]]], np.array([[[1., 2., 3.], [4., 5., 6.]]]))
    rd = Reader({'a': img, 'b': img2})
    args = [RGBSpectrum, 'a', False, 8., Wrap.REPEAT, 1., 1.]
    other = [FLOAT, 'b', True, 4., Wrap.CLAMP, .5, 2.]
    k = c.choice('which', list(range(8)))
    brgs = list(args)
    if k < 7:
        brgs[k] = other[k]
    old, ti.iio.read_image = ti.iio.read_image, rd
    ImageTexture.textures = {}
    try:
        def make(q):
            mem, name, tril, an, wr, sc, ga = q
            return ImageTexture(Spectrum if mem is RGBSpectrum else FLOAT, mem, Map(), name, tril, an, wr, sc, ga).mipmap
        m1, m2, m3 = make(args), make(brgs), make(args)
    finally:
        ti.iio.read_image = old
        ImageTexture.textures = {}
    c.check(m1 is m3, 'shared with an equal one')
    c.check((m1 is m2) == (k == 7), 'not shared with another')
    c.check(m2.wrap == brgs[4] and m2.trilinear == brgs[2] and m2.max_aniso == brgs[3] and m2.typename is brgs[0], 'made as asked')
    p = (b if brgs[1] == 'b' else a)[0][0]
    e = [(x * brgs[5]) * (x * brgs[5]) if brgs[6] == 2. else x * brgs[5] for x in p]
    same(c, m2.texel(0, 0, 0), e if brgs[0] is RGBSpectrum else 0.212671 * e[0] + 0.715160 * e[1] + 0.072169 * e[2], 'texel')
