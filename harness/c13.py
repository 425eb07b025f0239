"""Bounding volume hierarchy"""
from symx.reg import harness
from harness.hu import *
from harness.agg import *
from pytracer.aggregate import BVH

META = {
    'bounds': 'up to 8 primitives in eleven layouts (separate, overlapping, coincident, flat, nested, clustered, heaped) for both split methods and several leaf sizes; '
              'rays of nine directions (with zero and negative-zero components) from any origin and with any range, hitting one or two '
              'primitives at any parameters; structure also for boxes placed anywhere along an axis (up to 4, or one of 6)',
    'outside': 'more than 8 primitives; other directions; trees deeper than 64; the unfinished "equal" split; floating-point rounding',
    'assumptions': ['a primitive answers as the stand-in does: hit at a parameter in range only at a point of its world bound'],
}
UNIT = [1., 1., 1.]


def boxes(*ls):
    return [(lo, [lo[i] + s[i] for i in range(3)]) for lo, s in ls]


def cube(*p):
    return ([float(e) for e in p], UNIT)


LAYOUT = {
    'one': boxes(cube(0, 0, 0)),
    'two': boxes(cube(3, 0, 0), cube(0, 0, 0)),
    'row': boxes(cube(6, 0, 0), cube(0, 0, 0), cube(2, 0, 0), cube(4, 0, 0)),
    'same': boxes(*[cube(1, 1, 1)] * 3),
    'manysame': boxes(*([cube(1, 1, 1)] * 6)),
    'flat': boxes(([0., 0., 0.], [2., 2., 0.]), ([0., 0., 1.], [2., 2., 0.]), ([1., 0., 0.], [0., 2., 2.]), ([4., 0., 2.], [0., 1., 1.])),
    'overlap': boxes(([0., 0., 0.], [4., 4., 4.]), ([1., 1., 1.], [2., 2., 2.]), ([2., 2., 0.], [4., 1., 1.])),
    'spread': boxes(cube(0, 0, 0), cube(5, 0, 0), cube(0, 5, 0), cube(0, 0, 5), cube(5, 5, 5), cube(2, 2, 2)),
    'cluster': boxes(cube(0, 0, 0), cube(.25, 0, 0), cube(.5, 0, 0), cube(.75, 0, 0), cube(9, 0, 0), cube(9, 1, 0), cube(0, 0, 3)),
    'towers': boxes(([0., 0., 0.], [1., 1., 8.]), ([2., 0., 0.], [1., 1., 6.]), ([4., 0., 0.], [1., 1., 4.]), ([6., 0., 0.], [1., 1., 2.]),
                    ([8., 0., 0.], [1., 1., 1.])),
    'heap': boxes(*[([.03125 * i, .015625 * (i % 2), 0.], [8., 4., 4.]) for i in range(6)]),
}
DIRS = [[1., 0., 0.], [0., -1., 0.], [-0., 0., 1.], [-1., -0., 0.], [1., -2., 0.], [-1., 0.5, 2.], [2., 1., -1.], [0., -0., -2.], [-0.5, -1., -1.]]
SETUP = [['one', 'sah', 4], ['two', 'sah', 4], ['two', 'middle', 1], ['row', 'middle', 4], ['row', 'sah', 2], ['same', 'sah', 4], ['same', 'middle', 2],
         ['manysame', 'sah', 4], ['flat', 'sah', 4], ['flat', 'middle', 4], ['overlap', 'middle', 4], ['spread', 'sah', 4], ['cluster', 'sah', 4],
         ['cluster', 'sah', 8], ['cluster', 'middle', 4], ['towers', 'sah', 4], ['towers', 'sah', 255],
         ['heap', 'sah', 8], ['heap', 'sah', 4], ['heap', 'middle', 4]]
BIG = ('spread', 'cluster', 'towers', 'manysame', 'heap')


def make(c, layout, method, size):
    prims = [Prim(c, lo, hi, str(i)) for i, (lo, hi) in enumerate(LAYOUT[layout])]
    return prims, BVH(list(prims), size, method)


QUICK = [['one', 'sah', 4, 2], ['one', 'sah', 4, 5], ['two', 'sah', 4, 0], ['two', 'middle', 1, 4], ['row', 'middle', 4, 0], ['row', 'sah', 2, 3],
         ['same', 'sah', 4, 4], ['same', 'middle', 2, 7], ['manysame', 'sah', 4, 0], ['flat', 'sah', 4, 7], ['flat', 'middle', 4, 2],
         ['overlap', 'middle', 4, 1], ['spread', 'sah', 4, 0], ['cluster', 'sah', 4, 2], ['cluster', 'middle', 4, 0], ['towers', 'sah', 4, 7],
         ['heap', 'sah', 8, 5]]


@harness('C13', params=QUICK, thorough=[s + [k] for s in SETUP for k in range(len(DIRS))])
def trace(c, p):
    """the hierarchy answers as asking every primitive would: the nearest hit in range, or none"""
    layout, method, size, k = p
    prims, agg = make(c, layout, method, size)
    shoot(c, agg, prims, DIRS[k], two=((layout, k) in (('two', 0), ('two', 4), ('row', 0))) if c.tier == 'quick' else layout not in BIG)


def structure(c, agg, prims):
    c.check(sorted(p.name for p in agg.primitives) == sorted(p.name for p in prims), 'each primitive once')
    seen = []

    def walk(i, outer):
        n = agg.nodes[i]
        if outer is not None:
            for k in range(3):
                c.check_le(outer[0][k], n.bounds[0][k], 'child within parent, below')
                c.check_ge(outer[1][k], n.bounds[1][k], 'child within parent, above')
        if n.n_prim > 0:
            for j in range(n.offset, n.offset + n.n_prim):
                seen.append(j)
                b = agg.primitives[j]
                for k in range(3):
                    c.check_le(n.bounds[0][k], b.lo[k], 'primitive within leaf, below')
                    c.check_ge(n.bounds[1][k], b.hi[k], 'primitive within leaf, above')
            return i + 1
        m = walk(i + 1, n.bounds)
        c.check(m == n.offset, 'second child follows the first subtree')
        return walk(n.offset, n.bounds)

    end = walk(0, None)
    c.check(end == len(agg.nodes), 'every node reached')
    c.check(seen == list(range(len(prims))), 'every primitive in one leaf')
    w = agg.world_bound()
    for k in range(3):
        for e, f in ((0, 'lo'), (1, 'hi')):
            best = getattr(prims[0], f)[k]
            for p in prims[1:]:
                v = getattr(p, f)[k]
                best = c.ite(v < best, v, best) if e == 0 else c.ite(v > best, v, best)
            c.check_eq(w[e][k], best, 'world bound')


@harness('C13', params=[['middle', 2, 1], ['middle', 3, 4], ['sah', 2, 4], ['sah', 3, 1], ['sah', 4, 4]],
         thorough=[['middle', 2, 1], ['middle', 3, 4], ['middle', 4, 2], ['sah', 2, 4], ['sah', 3, 1], ['sah', 4, 4], ['sah', 4, 1]])
def build(c, p):
    """construction keeps each primitive once and every bound encloses what is below it, wherever the boxes lie"""
    method, n, size = p
    prims = []
    for i in range(n):
        x = c.real('x%d' % i, -5, 5)
        prims.append(Prim(c, [x, 0., 0.25 * i], [x + 1., 1., 1.], str(i)))
    structure(c, BVH(list(prims), size, method), prims)


@harness('C13', params=[['sah', 1], ['sah', 4], ['sah', 8], ['middle', 1]])
def build_one(c, p):
    """the same with one of six boxes anywhere"""
    method, size = p
    x = c.real('x', -3, 12)
    prims = [Prim(c, [float(3 * i % 10), 0., 0.], [float(3 * i % 10) + 1., 1., 1.], str(i)) for i in range(5)]
    prims.insert(2, Prim(c, [x, 0., 0.], [x + 1., 1., 1.], '5'))
    structure(c, BVH(list(prims), size, method), prims)


@harness('C13', params=[['sah', 4, 1.], ['sah', 8, 1.], ['sah', 8, .125], ['sah', 5, .125], ['middle', 4, 1.]])
def build_heap(c, p):
    """the same with large boxes that overlap, of which one lies anywhere near, so that splitting may not pay"""
    method, size, gap = p
    x = gap * c.real('x', -1, 3)
    y = gap * c.real('y', -2, 2)
    prims = [Prim(c, [gap * .25 * i, gap * .125 * (i % 2), 0.], [gap * .25 * i + 8., gap * .125 * (i % 2) + 4., 4.], str(i)) for i in range(5)]
    prims.insert(2, Prim(c, [x, y, 0.], [x + 8., y + 4., 4.], '5'))
    structure(c, BVH(list(prims), size, method), prims)


@harness('C13', params=[['sah', 5], ['middle', 0]], thorough=[[m, k] for m in ('sah', 'middle') for k in (0, 5)])
def trace_built(c, p):
    """built over boxes anywhere, it answers as asking every primitive would"""
    method, k = p
    prims = []
    for i in range(3 if c.tier == 'thorough' else 2):
        x = c.real('x%d' % i, -4, 4)
        prims.append(Prim(c, [x, 0., 0.], [x + 1., 1., 1.], str(i)))
    agg = BVH(list(prims), 1, method)
    shoot(c, agg, prims, DIRS[k], two=k == 0)


@harness('C13')
def refined(c):
    """primitives that cannot be intersected are refined first; an empty hierarchy is never hit"""
    ps = [Prim(c, [float(3 * i), 0., 0.], [3. * i + 1., 1., 1.], str(i)) for i in range(3)]
    agg = BVH([Group(c, [ps[0], Group(c, [ps[1]])]), ps[2]])
    shoot(c, agg, ps, [1., 0., 0.], two=False)
    e = BVH([])
    r = geo.Ray(geo.Point(0., 0., 0.), geo.Vector(1., 0., 0.))
    c.check(not e.intersect_p(r) and not e.intersect(r, Intersection()), 'empty')
    c.check(bool(agg.can_intersect()), 'can be intersected')
    c.check(raises(RuntimeError, agg.get_area_light), 'no light of its own')
