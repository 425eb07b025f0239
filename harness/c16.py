"""Film: what a sample adds, and the image made of it"""
from symx.reg import harness
from harness.hu import *
from pytracer import Spectrum
import pytracer.film.film as film_mod
from pytracer.film import ImageFilm
from pytracer.sampler import CameraSample

META = {
    'bounds': 'films of 3 by 2 up to 8 by 6 pixels with six crop windows; filters of half-width 0.5 to 2 (narrower or wider than tall); one sample anywhere '
              'along either axis, up to two samples over the same pixels, any colours and splats; any crop window of a quarter of the image or more, holding the start of a pixel, for the pixel extent',
    'outside': 'threads (pixels are updated under their lock); a filter steeper than the stand-in; the encoding of the file',
    'assumptions': ['the filter is a stand-in with linear fall-off; real filters are C17'],
}


class Ramp(object):
    """a filter that falls linearly from each axis, so that its value tells the distance"""
    def __init__(self, xw, yw, sx=0.25, sy=0.125):
        self.xw, self.yw, self.xwInv, self.ywInv = xw, yw, 1. / xw, 1. / yw
        self.sx, self.sy = sx, sy

    def __call__(self, x, y):
        return 2. - self.sx * x - self.sy * y


def rgb(c, n, lo=0, hi=4):
    v = [c.real(n + str(i), lo, hi) for i in range(3)]
    return v, Spectrum.from_rgb(np.array(v))


XYZ = [[0.412453, 0.357580, 0.180423], [0.212671, 0.715160, 0.072169], [0.019334, 0.119193, 0.950227]]


def xyz(v):
    return [sum([XYZ[i][j] * v[j] for j in (1, 2)], XYZ[i][0] * v[0]) for i in range(3)]


def pixel(f, x, y):
    return f.pixels[x - f.xPixel_start][y - f.yPixel_start]


CASES = [[0.5, 0.5], [1., 0.5], [0.75, 2.], [2., 1.]]


@harness('C16', params=[[w, ax] for w in CASES[:3] for ax in 'xy'], thorough=[[w, ax] for w in CASES for ax in 'xy'], max_int=64)
def sample(c, p):
    """a sample adds its colour, weighted by the filter at its distance, to the pixels within the filter's extent and to no other"""
    (xw, yw), ax = p
    filt = Ramp(xw, yw)
    # pixels 1..4 by 1..3 of a 6 by 4 image
    f = ImageFilm(6, 4, filt, [1 / 6., 5 / 6., 0.25, 1.])
    X0, X1, Y0, Y1 = 1, 5, 1, 4
    c.check_eq(f.get_pixel_extent(), [X0, X1, Y0, Y1], 'extent')
    s = c.real('pos', -2, 8)
    other = 2.3
    sx, sy = (s, other) if ax == 'x' else (other, s)
    v, L = rgb(c, 'L')
    f.add_sample(CameraSample(sx, sy), L)
    want = xyz(v)
    for px in range(X0, X1):
        for py in range(Y0, Y1):
            q = pixel(f, px, py)
            dx, dy = sx - px - 0.5, sy - py - 0.5
            dx = c.ite(dx >= 0, dx, -dx)
            dy = c.ite(dy >= 0, dy, -dy)
            m, e = (dx, xw) if ax == 'x' else (dy, yw)
            # at the very border of the extent either answer will do
            c.assume(c.either(m <= e - 1e-4, m >= e + 1e-4))
            w = q.weight_sum
            if bool(c.both(dx < xw, dy < yw)):
                c.check_le(w, filt(dx, dy) + 0.5 * (filt.sx * xw + filt.sy * yw) / 16. + 1e-6, 'weight at most that of the nearest table entry')
                c.check_ge(w, filt(dx, dy) - 0.5 * (filt.sx * xw + filt.sy * yw) / 16. - 1e-6, 'weight at least that of the nearest table entry')
            else:
                c.check_eq(w, 0., 'outside the filter')
            c.check_eq(lst(q.Lxyz), [w * e for e in want], 'colour by weight', tol=1e-6)
            c.check_eq(lst(q.splatXYZ), [0., 0., 0.], 'no splat')


@harness('C16', params=[0, 1, 2, 3])
def accumulate(c, k):
    """samples add up over pixels, and the image is the weighted mean plus the scaled splats, never below zero"""
    filt = Ramp(1., 1.)
    f = ImageFilm(3, 2, filt, [0., 1., 0., 1.], 'name.png')
    spots = [(1.5, 0.5), (1.9, 1.2), (0.5, 0.6), (2.7, 1.7)]
    a, b = spots[k], spots[(k + 1) % 4]
    va, La = rgb(c, 'A', -1)
    vb, Lb = rgb(c, 'B', -1)
    vs, Ls = rgb(c, 'S')
    f.add_sample(CameraSample(*a), La)
    f.add_sample(CameraSample(*b), Lb)
    f.splat(CameraSample(2.2, 1.9), Ls)
    f.splat(CameraSample(2.9, 1.1), Ls)
    f.splat(CameraSample(3.2, 1.1), Ls)
    f.splat(CameraSample(-0.5, 1.1), Ls)
    f.splat(CameraSample(1., -0.25), Ls)
    f.splat(CameraSample(1., 2.), Ls)
    sc = c.real('scale', 0, 3)
    got = {}

    def keep(fn, img, *rest):
        got['fn'], got['img'], got['rest'] = fn, img, rest
        return 'written'

    wts = [[f.pixels[x][y].weight_sum for x in range(3)] for y in range(2)]
    old = film_mod.iio.write_image
    film_mod.iio.write_image = keep
    try:
        c.check(f.write_image(sc) == 'written', 'result of the writer')
    finally:
        film_mod.iio.write_image = old
    c.check(got['fn'] == 'name.png' and got['rest'][0] is None, 'file')
    c.check([int(x) for x in got['rest'][1:]] == [3, 2, 3, 2, 0, 0], 'sizes and offsets')

    def wt(s, x, y):        # weight of the table entry
        d = [abs(s[0] - x - .5), abs(s[1] - y - .5)]
        if max(d) > 1.:
            return 0.
        i = [min(15, int(e * 16)) for e in d]
        return filt((i[0] + .5) / 16., (i[1] + .5) / 16.)

    for y in range(2):
        for x in range(3):
            wa, wb = wt(a, x, y), wt(b, x, y)
            c.check_eq(wts[y][x], wa + wb, 'weights add up')
            for i in range(3):
                v = got['img'][y, x][i]
                base = 0.
                if wa + wb > 0:
                    m = (wa * va[i] + wb * vb[i]) / (wa + wb)
                    c.assume(c.either(m >= 1e-3, m <= -1e-3))
                    base = c.ite(m >= 0, m, 0.)
                if (x, y) == (2, 1):
                    base = base + sc * 2. * vs[i]
                c.check_eq(v, base, 'pixel %d %d' % (x, y), tol=2e-4)


@harness('C16', params=[[8, 6], [6, 8], [5, 3]])
def extent(c, p):
    """the pixel extent is that of the crop window in each direction, and the sample extent widens it by the filter"""
    xr, yr = p
    a = [c.real('c%d' % i, 0, 1) for i in range(4)]
    c.assume(c.both(a[0] <= a[1] - 0.25, a[2] <= a[3] - 0.25, a[0] * xr <= xr - 1, a[2] * yr <= yr - 1))
    # only one direction varies at a time
    if c.boolean('across'):
        a[2], a[3] = 0.25, 0.75
    else:
        a[0], a[1] = 0.25, 0.75
    f = ImageFilm(xr, yr, Ramp(1.5, 0.75), list(a))
    e = [int(x) for x in f.get_pixel_extent()]
    for lo, hi, r, s, t, nm in ((a[0], a[1], xr, e[0], e[1], 'x'), (a[2], a[3], yr, e[2], e[3], 'y')):
        if isinstance(lo, float) and lo == 0.25 and isinstance(hi, float) and hi == 0.75:
            c.check([s, t] == {8: [2, 6], 6: [2, 5], 5: [2, 4], 3: [1, 3]}[r], nm + ' of a quarter to three quarters')
            continue
        # away from pixel borders, where rounding decides
        c.assume(c.both(*[c.either(k - r * u > 1e-6, k - r * u < -1e-6) for u in (lo, hi) for k in range(r + 1)]))
        c.check(0 <= s < t <= r, nm + ' within the image')
        # pixel k is in exactly when it starts within the window (at least one is)
        for k in range(r):
            if t - s > 1 or k != s:
                c.check(bool(c.both(k >= lo * r, k < hi * r)) == (s <= k < t), nm + ' pixel %d' % k)
    g = [int(x) for x in f.get_sample_extent()]
    c.check(g == [e[0] - 1, e[1] + 2, e[2] - 1, e[3] + 1], 'sample extent')


@harness('C16')
def tiles(c):
    """films of adjacent crop windows share no pixel and leave none out"""
    u = c.real('cut', 0.1, 0.85)
    for k in range(8):
        c.assume(c.either(u * 7 > k + 1e-4, u * 7 < k - 1e-4))
    n = []
    for ax in (0, 1):
        e = []
        for w in ([0., u], [u, 1.]):
            crop = w + [0., 1.] if ax == 0 else [0., 1.] + w
            f = ImageFilm(7 if ax == 0 else 3, 3 if ax == 0 else 7, Ramp(.5, .5), crop)
            e.append([int(x) for x in f.get_pixel_extent()][2 * ax:2 * ax + 2])
        c.check(e[0][0] == 0 and e[1][1] == 7, 'ends')
        c.check(e[0][1] == e[1][0], 'meet')
