"""Ray against axis-aligned box"""
from symx.reg import harness
from harness.hu import *

META = {
    'bounds': 'box corners and ray origin in [-10, 10]; direction components in [-4, 4], any subset of them zero (+0 and -0); '
              'parametric range symbolic within [-20, 20] or unbounded above',
    'outside': 'floating-point rounding; origin exactly on a face plane together with a negative-zero direction component',
}


def setup(c, maxt):
    b = geo.BBox(pnt(c, 'p'), pnt(c, 'q'))
    o = pnt(c, 'o')
    d = vec(c, 'd', 4)
    mint = c.real('mint', -20, 20)
    if maxt == 'finite':
        mx = c.real('maxt', -20, 20)
        c.assume(mint <= mx)
    else:
        mx = np.inf
    return b, o, d, mint, mx


def at(o, d, t):
    return [o[i] + t * d[i] for i in range(3)]


def isin(c, b, p):
    return c.both(*([b[0][i] <= p[i] for i in range(3)] + [p[i] <= b[1][i] for i in range(3)]))


def run(c, maxt):
    b, o, d, mint, mx = setup(c, maxt)
    c.assume(dot3(d, d) > 0.01)
    t = c.real('t', -40, 40)
    r = geo.Ray(o, d, mint, mx)
    h, t0, t1 = b.intersect_p(r)
    ok = isin(c, b, at(o, d, t))
    rng = [t >= mint] if maxt != 'finite' else [t >= mint, t <= mx]
    if not h:
        c.check(c.neg(c.both(ok, *rng)), 'a miss is reported only when no point of the ray is in the box')
        return
    c.observe('t0', t0)
    c.observe('t1', t1)
    c.check(c.implies(c.both(ok, *rng), c.both(t0 <= t, t <= t1)), 'every common point lies in the reported range')
    c.check(t0 <= t1, 'range is ordered')
    c.check_ge(t0, mint, 'range starts in the ray')
    if maxt == 'finite':
        c.check_le(t1, mx, 'range ends in the ray')
    for tt in (t0, t1):
        p = at(o, d, tt)
        for i in range(3):
            c.check_ge(p[i], b[0][i], 'reported points are in the box (low)')
            c.check_le(p[i], b[1][i], 'reported points are in the box (high)')


@harness('C03', params=['finite', 'inf'])
def slab(c, maxt):
    """hit iff a point of the ray within its range is in the box, with the exact range"""
    run(c, maxt)


@harness('C03', params=['finite', 'inf'], signed_zero=True)
def slab_negative_zero(c, maxt):
    """the same with zero direction components of either sign, origin off the face planes"""
    b, o, d, mint, mx = setup(c, maxt)
    for i in range(3):
        c.assume(o[i] != b[0][i])
        c.assume(o[i] != b[1][i])
    c.assume(d.x == 0)
    run(c, maxt)


@harness('C03')
def unchanged(c):
    """the query changes neither the box nor the ray"""
    b, o, d, mint, mx = setup(c, 'finite')
    b0 = lst(b[0]) + lst(b[1])
    r = geo.Ray(o, d, mint, mx)
    b.intersect_p(r)
    c.check_eq(lst(b[0]) + lst(b[1]), b0, 'box')
    c.check_eq(lst(r.o) + lst(r.d) + [r.mint, r.maxt], lst(o) + lst(d) + [mint, mx], 'ray')
