"""Bounding boxes as sets of points"""
from symx.reg import harness
from harness.hu import *

META = {
    'bounds': 'box corners and points are arbitrary reals in [-10, 10]; one union / query per step (closed under repetition: '
              'the boxes are arbitrary)',
    'outside': 'boxes with infinite corners other than the empty box; floating-point rounding',
}


def box(c, n):
    """a box given by two arbitrary corners, and its bounds recomputed independently"""
    p, q = pnt(c, n + 'p'), pnt(c, n + 'q')
    return geo.BBox(p, q), p, q


def inn(c, b, p):
    """p in the closed box, as one condition"""
    cs = []
    for i in range(3):
        cs += [b[0][i] <= p[i], p[i] <= b[1][i]]
    return c.both(*cs)


@harness('C02')
def corners(c):
    """the box of two corners is the smallest box holding both"""
    b, p, q = box(c, 'a')
    c.observe('min', b.pMin)
    for i in range(3):
        c.check_eq(b.pMin[i] + b.pMax[i], p[i] + q[i], 'corner coordinates are kept %d' % i)
        c.check(b.pMin[i] <= b.pMax[i], 'ordered %d' % i)
        c.check(c.either(b.pMin[i] == p[i], b.pMin[i] == q[i]), 'tight %d' % i)
    c.check(b[0] is b.pMin and b[1] is b.pMax, 'indexing')
    c.check(raises(KeyError, lambda: b[2]), 'only two corners')
    d = geo.BBox.from_bbox(b)
    c.check_eq(lst(d.pMin) + lst(d.pMax), lst(b.pMin) + lst(b.pMax), 'copy')
    d.expand(1.)
    c.check_eq(lst(b.pMin)[0], b.pMax[0] - (b.pMax[0] - b.pMin[0]), 'copy is independent')
    c.check_eq(lst(d.pMin), sub3(lst(b.pMin), [1., 1., 1.]), 'expanded copy')


@harness('C02')
def equality(c):
    """equality and inequality of boxes"""
    a, p, q = box(c, 'a')
    b, r, s = box(c, 'b')
    same = c.both(*([a[0][i] == b[0][i] for i in range(3)] + [a[1][i] == b[1][i] for i in range(3)]))
    e, n = bool(a == b), bool(a != b)
    c.check(same if e else c.neg(same), 'equal iff both corners are equal')
    c.check(e != n, '!= is the negation of ==')
    d = geo.BBox.from_bbox(a)
    c.check(bool(d == a) and not bool(d != a), 'a copy is equal and not unequal')


@harness('C02', params=['static', 'inplace'])
def union_box(c, how):
    """union of two boxes"""
    a, p, q = box(c, 'a')
    b, r, s = box(c, 'b')
    a0, a1 = lst(a[0]), lst(a[1])
    b0, b1 = lst(b[0]), lst(b[1])
    u = geo.BBox.Union(a, b) if how == 'static' else a.union(b)
    c.observe('u', u.pMin)
    for i in range(3):
        c.check(c.both(u[0][i] <= a0[i], u[0][i] <= b0[i]), 'holds both from below %d' % i)
        c.check(c.both(u[1][i] >= a1[i], u[1][i] >= b1[i]), 'holds both from above %d' % i)
        c.check(c.either(u[0][i] == a0[i], u[0][i] == b0[i]), 'tight from below %d' % i)
        c.check(c.either(u[1][i] == a1[i], u[1][i] == b1[i]), 'tight from above %d' % i)
    c.check_eq(lst(b[0]) + lst(b[1]), b0 + b1, 'second operand unchanged')
    if how == 'static':
        c.check_eq(lst(a[0]) + lst(a[1]), a0 + a1, 'first operand unchanged')
        v = geo.BBox.Union(b, a)
        c.check_eq(lst(v[0]) + lst(v[1]), lst(u[0]) + lst(u[1]), 'commutes')
    else:
        c.check(u is a, 'in place')


@harness('C02', params=['static', 'inplace'])
def union_point(c, how):
    """union of a box and a point"""
    a, p, q = box(c, 'a')
    b = pnt(c, 'b')
    a0, a1 = lst(a[0]), lst(a[1])
    u = geo.BBox.Union(a, b) if how == 'static' else a.union(b)
    c.observe('u', u.pMax)
    for i in range(3):
        c.check(c.both(u[0][i] <= a0[i], u[0][i] <= b[i]), 'holds both from below %d' % i)
        c.check(c.both(u[1][i] >= a1[i], u[1][i] >= b[i]), 'holds both from above %d' % i)
        c.check(c.either(u[0][i] == a0[i], u[0][i] == b[i]), 'tight from below %d' % i)
        c.check(c.either(u[1][i] == a1[i], u[1][i] == b[i]), 'tight from above %d' % i)
    c.check(bool(u.inside(b)), 'the point is inside')


@harness('C02')
def empty(c):
    """the empty box is neutral, holds nothing, and bad operands are rejected"""
    a, p, q = box(c, 'a')
    e = geo.BBox()
    u = geo.BBox.Union(e, a)
    c.check_eq(lst(u[0]) + lst(u[1]), lst(a[0]) + lst(a[1]), 'neutral')
    f = geo.BBox()
    f.union(a)
    c.check_eq(lst(f[0]) + lst(f[1]), lst(a[0]) + lst(a[1]), 'neutral in place')
    g = geo.BBox()
    g.union(p)
    c.check_eq(lst(g[0]) + lst(g[1]), lst(p) + lst(p), 'box of one point')
    c.check(not bool(e.inside(p)), 'nothing is inside')
    c.check(not bool(e.overlaps(a)) and not bool(a.overlaps(e)), 'overlaps nothing')
    c.check(raises(TypeError, geo.BBox.Union, a, 3.) and raises(TypeError, a.union, 3.), 'operand kinds')


@harness('C02')
def membership(c):
    """inside: closed box"""
    a, p, q = box(c, 'a')
    x = pnt(c, 'x')
    got = bool(a.inside(x))
    want = inn(c, a, x)
    c.check(want if got else c.neg(want), 'inside iff between the corners')


@harness('C02')
def overlap(c):
    """overlaps: the boxes share a point"""
    a, p, q = box(c, 'a')
    b, r, s = box(c, 'b')
    x = pnt(c, 'x')
    got = bool(a.overlaps(b))
    c.check(bool(b.overlaps(a)) == got, 'symmetric')
    if not got:
        c.check(c.neg(c.both(inn(c, a, x), inn(c, b, x))), 'no common point when not overlapping')
    else:
        # the highest of the lower corners is a common point
        w = [c.ite(a[0][i] >= b[0][i], a[0][i], b[0][i]) for i in range(3)]
        c.check(c.both(inn(c, a, w), inn(c, b, w)), 'a common point when overlapping')


@harness('C02')
def measures(c):
    """extent, area, volume, expansion"""
    a, p, q = box(c, 'a')
    d = sub3(lst(a[1]), lst(a[0]))
    s = a.surface_area()
    v = a.volume()
    c.observe('s', s)
    c.check_eq(s, 2. * (d[0] * d[1] + d[1] * d[2] + d[2] * d[0]), 'surface area')
    c.check_eq(v, d[0] * d[1] * d[2], 'volume')
    k = a.maximum_extent()
    for i in range(3):
        c.check(d[k] >= d[i], 'longest axis')
    e = c.real('e', 0, 5)
    a0, a1 = lst(a[0]), lst(a[1])
    r = a.expand(e)
    c.check(r is a, 'expansion is in place')
    c.check_eq(lst(a[0]), [t - e for t in a0], 'expanded below')
    c.check_eq(lst(a[1]), [t + e for t in a1], 'expanded above')


@harness('C02')
def coordinates(c):
    """interpolation inside the box and its inverse"""
    a, p, q = box(c, 'a')
    for i in range(3):
        c.assume(a[1][i] - a[0][i] > 0.001)
    t = [c.real('t%d' % i, -2, 3) for i in range(3)]
    x = a.lerp(*t)
    c.check(isinstance(x, geo.Point), 'a point')
    c.observe('x', x)
    c.check_eq(lst(x), [a[0][i] + t[i] * (a[1][i] - a[0][i]) for i in range(3)], 'interpolation')
    c.check_eq(lst(a.offset(x)), t, 'offset is the inverse')


@harness('C02')
def sphere(c):
    """the bounding sphere holds the box and is centred"""
    a, p, q = box(c, 'a')
    ctr, rad = a.bounding_sphere()
    c.observe('r', rad)
    c.check_eq(lst(ctr), [(a[0][i] + a[1][i]) / 2. for i in range(3)], 'centre')
    x = pnt(c, 'x')
    c.check_ge(rad, 0., 'radius')
    w = sub3(lst(a[1]), lst(ctr))
    c.check_eq(rad * rad, dot3(w, w), 'reaches the corner and no further')
