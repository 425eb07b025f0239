"""C36 images and scalar helpers"""
import numpy as np
from symx.reg import harness
from harness.hu import *
import pytracer.utility.imageio as iio
import pytracer.utility.utility as util
from pytracer import EPS
from pytracer.spectral import Spectrum

META = {
    'bounds': 'images of 2 by 2 or 3 by 1 pixels to write with any values in [0, 10] (or a black channel), into images of up to 4 by 3 pixels with any values; '
              'images of up to 5 by 4 pixels of each mode to read; helpers: any numbers in [-10, 10]',
    'outside': 'the decoding and resampling of files, which are stand-ins recording what they are asked; one level of rounding of stored values; alpha channels to be written are refused; floating-point rounding',
    'assumptions': ['the image library stores, converts and resamples what it is given'],
}


class Pic(object):
    """a picture of the library"""
    def __init__(self, data, mode='RGB', log=None):
        self.data, self.mode, self.log = data, mode, log if log is not None else []
        self.size = (len(data[0]), len(data))
        self.width, self.height = self.size

    def __array__(self, dtype=None):
        return np.array(self.data)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.log.append(('close',))

    def close(self):
        self.log.append(('close',))

    def getbands(self):
        return tuple(self.mode) if self.mode != 'P' else ('P',)

    def convert(self, mode, *a, **k):
        if mode != 'RGB':
            raise ValueError(mode)
        if self.mode in ('RGB', 'RGBA', 'LA'):
            d = [[(list(x[:3]) if self.mode != 'LA' else [x[0]] * 3) for x in r] for r in self.data]
        else:
            d = [[[x, x, x] for x in r] for r in self.data]
        return Pic(d, 'RGB', self.log)

    def resize(self, size, *a, **k):
        # a resampled picture: the nearest pixel
        w, h = int(size[0]), int(size[1])
        self.log.append(('resize', w, h))
        d = [[self.data[j * self.height // h][i * self.width // w] for i in range(w)] for j in range(h)]
        return Pic(d, self.mode, self.log)

    def save(self, name, *a, **k):
        self.log.append(('save', name, self.data))


class Lib(object):
    """stands for the image library and the file system"""
    def __init__(self, files=()):
        self.files, self.saved, self.Image, self.path = dict(files), [], self, self

    def exists(self, name):
        return name in self.files

    isfile = exists

    def open(self, name, *a, **k):
        if name not in self.files:
            raise IOError(name)
        return self.files[name]

    def fromarray(self, a, mode=None):
        lib = self
        p = Pic([[list(x) for x in r] for r in a], mode or 'RGB')

        def save(name, *b, **k):
            lib.saved.append((name, p.data))
        p.save = save
        return p

    def __call__(self):
        return self

    def __enter__(self):
        self.old = iio.PIL, iio.os
        iio.PIL, iio.os = self, self
        return self

    def __exit__(self, *a):
        iio.PIL, iio.os = self.old


def grid(c, w, h, dead, lo=0., hi=10.):
    return [[[0. if k == dead else c.real('p%d%d%d' % (j, i, k), lo, hi) for k in range(3)] for i in range(w)] for j in range(h)]


def asarray(g):
    a = np.empty([len(g), len(g[0]), 3], dtype=float)
    for j, r in enumerate(g):
        for i, x in enumerate(r):
            for k in range(3):
                a[j, i, k] = x[k]
    return a


def peak(c, g, k):
    m = 0.
    for r in g:
        for x in r:
            m = c.ite(m < x[k], x[k], m)
    return m


def scaled(c, got, g, label):
    """stored levels: in proportion to the brightest of each channel, which is 255"""
    for k in range(3):
        m = peak(c, g, k)
        for j in range(len(g)):
            for i in range(len(g[0])):
                v = got[j][i][k]
                c.check(c.both(0 <= v, v <= 255), label + ': level in range')
                c.check(c.both(v * m <= 255. * g[j][i][k] + 1e-9, (v + 1.0001) * m >= 255. * g[j][i][k] - 1e-9), label + ': in proportion')


@harness('C36', params=[(2, 2, None), (2, 2, 1), (3, 1, None), (1, 1, None)])
def whole(c, p):
    """an image is stored with each channel scaled to its brightest pixel"""
    w, h, dead = p
    g = grid(c, w, h, dead)
    with Lib() as lib:
        r = iio.write_image('out.png', asarray(g), None, w, h, w, h, 0, 0)
    c.check(len(lib.saved) == 1, 'stored once')
    name, d = lib.saved[0]
    c.check(name == 'out.png', 'under its name')
    c.check(len(d) == h and len(d[0]) == w, 'of its size')
    c.check(r.shape[0] == h and r.shape[1] == w, 'returned image has its size')
    for what, a in (('stored', d), ('returned', r)):
        scaled(c, a, g, what)


@harness('C36', params=[(2, 1, 4, 3, 1, 2), (2, 2, 4, 3, 2, 0), (1, 2, 3, 3, 0, 1), (4, 1, 4, 3, 0, 2), (2, 3, 4, 3, 1, 0)])
def window(c, p):
    """part of an image replaces that part of the stored image alone"""
    w, h, W, H, x0, y0 = p
    g = grid(c, w, h, None)
    old = [[[c.real('o%d%d%d' % (j, i, k), 0, 255) for k in range(3)] for i in range(W)] for j in range(H)]
    with Lib({'out.png': Pic(old)}) as lib:
        r = iio.write_image('out.png', asarray(g), None, w, h, W, H, x0, y0)
    c.check(len(lib.saved) == 1, 'stored once')
    name, d = lib.saved[0]
    c.check(name == 'out.png', 'under its name')
    for what, a in (('stored', d), ('returned', r)):
        c.check(len(a) == H and len(a[0]) == W, what + ': of the full size')
        for j in range(H):
            for i in range(W):
                if not (x0 <= i < x0 + w and y0 <= j < y0 + h):
                    for k in range(3):
                        c.check_eq(a[j][i][k], old[j][i][k], what + ': the rest stays')
        scaled(c, [[a[y0 + j][x0 + i] for i in range(w)] for j in range(h)], g, what)


@harness('C36')
def refused(c):
    """what cannot be stored is refused and stores nothing"""
    a = asarray(grid(c, 1, 1, None))
    for args in ((None, a, None, 1, 1, 1, 1, 0, 0), ('out.png', None, None, 1, 1, 1, 1, 0, 0), ('out.png', a, None, 1, 1, 2, 2, 0, 0),
                 ('out.png', a, a, 1, 1, 1, 1, 0, 0)):
        with Lib() as lib:
            bad = False
            try:
                iio.write_image(*args)
            except (IOError, RuntimeError, NotImplementedError):
                bad = True
        c.check(bad, 'refused')
        c.check(lib.saved == [], 'nothing stored')
    bad = False
    try:
        iio.read_image(None)
    except IOError:
        bad = True
    c.check(bad, 'no file to read')


def up(n):
    k = 1
    while k < n:
        k *= 2
    return k


@harness('C36', params=[(m, w, h) for m in ('RGB', 'RGBA', 'L') for w, h in ((4, 2), (1, 1), (2, 3), (3, 2), (3, 3), (5, 4))])
def read(c, p):
    """images are read as rows of colours, of power-of-two size, whatever their mode"""
    mode, w, h = p
    n = {'RGB': 3, 'RGBA': 4, 'L': 1}[mode]
    t = [[[c.real('t%d%d%d' % (j, i, k), 0, 255) for k in range(n)] for i in range(w)] for j in range(h)]
    pic = Pic([[x if n > 1 else x[0] for x in r] for r in t], mode)
    with Lib({'in.png': pic}):
        a = iio.read_image('in.png')
    W, H = up(w), up(h)
    c.check(len(a) == H and len(a[0]) == W, 'size')
    asked = [x[1:] for x in pic.log if x[0] == 'resize']
    c.check(all(x == (W, H) for x in asked), 'resampled to that size')
    for j in range(H):
        for i in range(W):
            c.check(len(a[j][i]) == 3, 'three channels')
            q = t[j * h // H][i * w // W]
            for k in range(3):
                c.check_eq(a[j][i][k], q[k if n > 1 else 0], 'texel')


@harness('C36')
def rounding(c):
    """numbers are rounded down, up and to the nearest whole number"""
    x = c.real('x', -10, 10)
    f, u, r = util.ftoi(x), util.ctoi(x), util.rtoi(x)
    c.check(c.both(f <= x, x < f + 1), 'floor')
    c.check(c.both(u >= x, u - 1 < x), 'ceiling')
    c.check(c.both(r - .5 <= x, x <= r + .5), 'nearest')
    a, b, t = c.real('a', -10, 10), c.real('b', -10, 10), c.real('t', -1, 2)
    c.check_eq(util.lerp(t, a, b), a + t * (b - a), 'linear', tol=1e-9)
    g = util.ufunc_lerp(np.array([t, 1. - t, .25]), np.array([a, a, 2.]), np.array([b, b, 6.]))
    for v, w in zip(g, (a + t * (b - a), b + t * (a - b), 3.)):
        c.check_eq(v, w, 'linear, of arrays', tol=1e-9)


@harness('C36')
def compare(c):
    """comparisons with zero and one have the tolerance stated; the negative ones are opposite off the edge"""
    x = c.real('x', -3, 3)
    for eq, ne, at in ((util.eq_unity, util.ne_unity, 1.), (util.is_zero, util.not_zero, 0.)):
        d = c.ite(x < at, at - x, x - at)
        if eq(x):
            c.check(d <= EPS + 1e-9, 'near')
        else:
            c.check(d >= EPS - 1e-9, 'not near')
        if ne(x):
            c.check(d >= EPS - 1e-9, 'far')
        else:
            c.check(d <= EPS + 1e-9, 'not far')


@harness('C36')
def black(c):
    """a spectrum or number is black when all of it is next to nothing"""
    v = [c.real('v%d' % k, -2, 2) for k in range(3)]
    size = [c.ite(a < 0, -a, a) for a in v]
    s = Spectrum(0.)
    for k in range(3):
        s[k] = v[k]
    if util.is_black(s):
        for a in size:
            c.check(a <= EPS + 1e-9, 'all dark')
    else:
        c.check(c.either(c.either(size[0] >= EPS - 1e-9, size[1] >= EPS - 1e-9), size[2] >= EPS - 1e-9), 'not all dark')
    if util.is_black(v[0]):
        c.check(size[0] <= EPS + 1e-9, 'dark')
    else:
        c.check(size[0] >= EPS - 1e-9, 'not dark')
    lo, hi = c.real('lo', -2, 0), c.real('hi', 0, 2)
    q = util.clip(s, lo, hi)
    for k in range(3):
        c.check_eq(q[k], c.ite(v[k] < lo, lo, c.ite(hi < v[k], hi, v[k])), 'clipped')
        c.check_eq(s[k], v[k], 'operand stays')
    q = util.clip(s)
    for k in range(3):
        c.check_eq(q[k], c.ite(v[k] < 0., 0., v[k]), 'not negative')
