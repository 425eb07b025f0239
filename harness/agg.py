"""stand-in primitives for the aggregates: a box in which the ray may be hit at one given parameter"""
from harness.hu import *
from pytracer.aggregate import Primitive, Intersection


class Prim(Primitive):
    def __init__(self, c, lo, hi, name=''):
        super(Prim, self).__init__()
        self.c, self.lo, self.hi = c, lo, hi
        self.t = None           # parameter of its hit, if any
        self.name = name

    def world_bound(self):
        return geo.BBox(geo.Point(*self.lo), geo.Point(*self.hi))

    def can_intersect(self):
        return True

    def hits(self, ray):
        return self.t is not None and bool(self.c.both(ray.mint <= self.t, self.t <= ray.maxt))

    def intersect(self, ray, isect):
        if not self.hits(ray):
            return False
        ray.maxt = self.t
        isect.primitive = self
        isect.dg = 'dg of ' + self.name
        isect.primitiveId = self.primitiveId
        isect.shapeId = 7
        isect.rEps = 0.5
        isect.w2o = 'w2o of ' + self.name
        isect.o2w = 'o2w of ' + self.name
        return True

    def intersect_p(self, ray):
        return self.hits(ray)

    def refine(self, refined):
        raise NotImplementedError()

    def get_area_light(self):
        return None

    def get_bsdf(self, dg, o2w):
        return None

    def get_bssrdf(self, dg, o2w):
        return None


class Group(Prim):
    """to be refined into its parts first"""
    def __init__(self, c, parts):
        super(Group, self).__init__(c, None, None)
        self.parts = parts

    def world_bound(self):
        b = geo.BBox()
        for p in self.parts:
            b.union(p.world_bound())
        return b

    def can_intersect(self):
        return False

    def refine(self, refined):
        refined.extend(self.parts)

    def intersect(self, ray, isect):
        raise RuntimeError('asked before it was refined')

    def intersect_p(self, ray):
        raise RuntimeError('asked before it was refined')


def inside(c, p, q, gap=0.):
    """point q (components) inside the box of p, by a margin where it is not flat"""
    g = [gap if p.hi[i] is not p.lo[i] and (not isinstance(p.hi[i], float) or p.hi[i] > p.lo[i]) else 0. for i in range(3)]
    return c.both(*([q[i] >= p.lo[i] + g[i] for i in range(3)] + [q[i] <= p.hi[i] - g[i] for i in range(3)]))


GAP = 0.0078125     # hits keep this far from box sides and range ends, where rounding would decide


def clear(c, t, a, b):
    """t is not at an end of the range"""
    return c.both(c.either(t <= a - GAP, t >= a + GAP), c.either(t <= b - GAP, t >= b + GAP))


def verify(c, agg, prims, o, d, a, b, hitters):
    """ask both queries; the answer must be that of asking every primitive"""
    for p, t in hitters:
        p.t = t
    near = None
    for p, t in hitters:
        if bool(c.both(a <= t, t <= b)) and (near is None or bool(t < near[1])):
            near = (p, t)
    ray = geo.Ray(geo.Point(*o), geo.Vector(*d), a, b)
    c.check(bool(agg.intersect_p(ray)) == (near is not None), 'predicate')
    c.check_eq([ray.mint, ray.maxt], [a, b], 'predicate leaves the range')
    isect = Intersection()
    hit = bool(agg.intersect(ray, isect))
    c.check(hit == (near is not None), 'hit')
    if hit and near is not None:
        c.check_eq(ray.maxt, near[1], 'nearest')
        p = isect.primitive
        c.check(p is not None and p.t is not None, 'a primitive that is hit')
        if p is not None and p.t is not None:
            c.check_eq(p.t, near[1], 'reported primitive is the nearest')
            c.check(isect.primitiveId == p.primitiveId and isect.dg == 'dg of ' + p.name and isect.shapeId == 7 and
                    isect.rEps == 0.5 and isect.w2o == 'w2o of ' + p.name and isect.o2w == 'o2w of ' + p.name, 'record is that of the primitive')
    elif not hit:
        c.check_eq(ray.maxt, b, 'range kept on a miss')
        c.check(isect.primitive is None, 'record untouched on a miss')
    c.check_eq(lst(ray.o) + lst(ray.d) + [ray.mint], list(o) + list(d) + [a], 'ray unchanged')


def shoot(c, agg, prims, d, two=True, span=6):
    """a ray of direction d through a point of one primitive's box, perhaps hit in another too"""
    i = c.integer('first', 0, len(prims) - 1)
    h = [c.real('h' + 'xyz'[k], -12, 12) for k in range(3)]
    c.assume(inside(c, prims[i], h, GAP))
    t = c.real('t', -span, span)
    o = [h[k] - t * d[k] for k in range(3)]
    a = c.real('mint', 0, span)
    b = c.real('maxt', 0, 2 * span)
    c.assume(clear(c, t, a, b))
    hs = [(prims[i], t)]
    if (two or not c.symbolic) and len(prims) > 1 and c.boolean('two'):
        j = c.integer('second', 0, len(prims) - 2)
        j = j if j < i else j + 1
        s = c.real('s', -span, span)
        q = [o[k] + s * d[k] for k in range(3)]
        c.assume(inside(c, prims[j], q, GAP))
        c.assume(c.both(c.either(s <= t - GAP, s >= t + GAP), clear(c, s, a, b)))
        hs.append((prims[j], s))
    verify(c, agg, prims, o, d, a, b, hs)
