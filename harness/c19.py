"""Samplers"""
from symx.reg import harness
from harness.hu import *
from pytracer.sampler import *
from pytracer.sampler.sampler import StratifiedSampler
from pytracer.sampler.sample import Sample
from pytracer.sampler.utility import stratified_sample_1d, stratified_sample_2d, latin_hypercube_1d, latin_hypercube_2d

META = {
    'bounds': 'up to 6 strata per direction without shuffling and 3 with it (every permutation); any random draws in [0, 1) and shutter interval; windows up to 3 by 2 pixels for '
              'a whole traversal; windows up to 7 by 7 anywhere in {-3, 0, 5} and up to 8 tiles for subwindows',
    'outside': 'floating-point rounding of positions into the next stratum',
}


class Draws(object):
    """a source of random numbers that remembers what it gave"""
    def __init__(self, c):
        self.c, self.v = c, []

    def __call__(self, *n):
        if not n:
            return self.one()
        return np.array([self.one() for _ in range(int(np.prod(n)))]).reshape(n)

    def one(self):
        self.v.append(self.c.real('r%d' % len(self.v), 0, 0.999))
        return self.v[-1]


def distinct(c, fr, draws, label):
    """the fractions within strata are draws, each used once"""
    for f in fr:
        c.check(c.either(*[c.both(f - d < 1e-6, d - f < 1e-6) for d in draws]), label)
    if len(fr) == len(draws):
        c.check_eq(sum(fr), sum(draws), label + ', each its own')


def strata(c, v, n, draws, jitter, label):
    """one value per n-th of [0, 1), anywhere in it"""
    k = [int(np.floor(x * n + (1e-9 if jitter else 0.))) for x in v]
    c.check(sorted(k) == list(range(n)), label + ': one per stratum')
    fr = [x * n - i for x, i in zip(v, k)]
    if jitter:
        distinct(c, fr, draws, label + ': anywhere in it')
    else:
        c.check_eq(fr, [0.5] * n, label + ': at its centre')


@harness('C19', params=[[1, True], [2, True], [5, True], [5, False]])
def line(c, p):
    """one value per stratum, anywhere in it when jittered, at its centre otherwise"""
    n, jitter = p
    r = Draws(c)
    v = stratified_sample_1d(n, jitter, r)
    strata(c, lst(v), n, r.v, jitter, 'values')


@harness('C19', params=[[1, 1, True], [2, 3, True], [3, 2, True], [3, 2, False], [4, 1, False]])
def plane(c, p):
    """one point per cell, anywhere in it when jittered, at its centre otherwise"""
    nx, ny, jitter = p
    r = Draws(c)
    v = stratified_sample_2d(nx, ny, jitter, r)
    cells(c, [lst(e) for e in v], nx, ny, [0, 0], r.v, jitter, 'points')


def cells(c, v, nx, ny, at, draws, jitter, label):
    tiny = 1e-9 if jitter else 0.
    k = [(int(np.floor((x - at[0]) * nx + tiny)), int(np.floor((y - at[1]) * ny + tiny))) for x, y in v]
    c.check(sorted(k) == [(i, j) for i in range(nx) for j in range(ny)], label + ': one per cell')
    fr = []
    for (x, y), (i, j) in zip(v, k):
        fr += [(x - at[0]) * nx - i, (y - at[1]) * ny - j]
    if jitter:
        distinct(c, fr, draws, label + ': anywhere in it')
    else:
        c.check_eq(fr, [0.5] * len(fr), label + ': at its centre')


@harness('C19', params=[1, 2, 3], thorough=[4])
def latin(c, n):
    """one value per row, and one per column in two dimensions, whatever the shuffle"""
    r = Draws(c)
    v = latin_hypercube_1d(n, r)
    strata(c, lst(v), n, r.v, True, 'line')
    r2 = Draws(c)
    r2.v = list(r.v)
    w = latin_hypercube_2d(n, r2)
    own = r2.v[n:]
    c.check(len(own) == 2 * n, 'one draw per coordinate')
    xs, ys = [e[0] for e in w], [e[1] for e in w]
    for v in (xs, ys):
        k = [int(np.floor(x * n + 1e-9)) for x in v]
        c.check(sorted(k) == list(range(n)), 'one per row and column')
    distinct(c, [x * n - int(np.floor(x * n + 1e-9)) for v in (xs, ys) for x in v], own, 'anywhere in it')


WIN = [[0, 2, 0, 2, 1, 1, False], [1, 2, 3, 4, 2, 1, True], [-1, 2, 4, 6, 1, 1, True], [0, 1, 0, 2, 0, 0, True], [5, 6, 2, 3, 1, 2, False]]


@harness('C19', params=WIN, thorough=WIN + [[0, 2, 0, 1, 3, 1, False]])
def traverse(c, p):
    """each pixel of the window is sampled once, row by row, stratified over pixel, lens and shutter, then there are no more"""
    xs, xe, ys, ye, nx, ny, jitter = p
    so, sc = c.real('open', -2, 2), c.real('close', 2.5, 6)
    sp = StratifiedSampler(xs, xe, ys, ye, nx, ny, jitter, so, sc)
    nx, ny = max(nx, 1), max(ny, 1)
    n = nx * ny
    c.check(sp.maximum_sample_cnt() == n and sp.spp == n, 'samples per pixel')
    seen = []
    proto = Sample()
    proto.add_1d(2)
    proto.add_2d(1)
    for y in range(ys, ye):
        for x in range(xs, xe):
            ss = proto.duplicate(n)
            r = Draws(c)
            r.v = []
            base = len(seen)
            r.one = lambda: (seen.append(c.real('r%d' % len(seen), 0, 0.999)) or seen[-1])
            c.check(bool(sp.generate(ss, r)), 'more samples')
            mine = seen[base:]
            lab = 'pixel'
            cells(c, [[s.imageX, s.imageY] for s in ss], nx, ny, [x, y], mine, jitter, 'image')
            cells(c, [[s.lens_u, s.lens_v] for s in ss], nx, ny, [0, 0], mine, jitter, 'lens')
            strata(c, [(s.time - so) / (sc - so) for s in ss], n, mine, jitter, 'shutter')
            for s in ss:
                c.check(len(s.oneD) == 1 and len(s.twoD) == 1 and len(s.oneD[0]) == 2 and len(s.twoD[0]) == 1, 'integrator patterns')
                strata(c, lst(s.oneD[0]), 2, mine, True, 'pattern')
    ss = proto.duplicate(n)
    c.check(not bool(sp.generate(ss, Draws(c))), 'no more samples')
    c.check(not bool(sp.generate(ss, Draws(c))), 'still no more samples')


@harness('C19', params=[1, 2, 4, 8, 3])
def subwindows(c, cnt):
    """the windows of the tiles cover each pixel once"""
    xs, ys = c.choice('xs', [-3, 0, 5]), c.choice('ys', [0, 2])
    w, h = c.integer('w', 1, 7), c.integer('h', 1, 7)
    so = c.real('open', 0, 1)
    sp = StratifiedSampler(xs, xs + w, ys, ys + h, 2, 3, True, so, so + 1.)
    got = {}
    for i in range(cnt):
        s = sp.get_subsampler(i, cnt)
        if s is None:
            continue
        c.check_eq([s.s_open, s.s_close], [so, so + 1.], 'shutter of the tile')
        c.check(s.xSamples == 2 and s.ySamples == 3 and bool(s.jitter), 'strata of the tile')
        c.check((s.xPos, s.yPos) == (s.xPixel_start, s.yPixel_start), 'starts at its corner')
        for x in range(s.xPixel_start, s.xPixel_end):
            for y in range(s.yPixel_start, s.yPixel_end):
                got[x, y] = got.get((x, y), 0) + 1
    c.check(got == {(x, y): 1 for x in range(xs, xs + w) for y in range(ys, ys + h)}, 'each pixel once')


@harness('C19')
def requests(c):
    """requests for patterns are numbered in order, and copies of a sample keep them with storage of their own"""
    a, b = c.integer('a', 1, 3), c.integer('b', 1, 3)
    s = Sample()
    c.check([s.add_1d(a), s.add_1d(b), s.add_2d(b), s.add_1d(1)] == [0, 1, 0, 2], 'numbers')
    d = s.duplicate(3)
    c.check(len(d) == 3, 'copies')
    for e in d:
        c.check(list(e.n1D) == [a, b, 1] and list(e.n2D) == [b], 'requests kept')
        c.check(len(e.oneD) == 3 and len(e.twoD) == 1, 'storage')
    d[0].oneD[1] = 5
    d[0].twoD[0] = 7
    c.check(d[1].oneD[1] is None and d[2].twoD[0] is None and len(s.n1D) == 3, 'storage of their own')
