"""List and grid aggregates"""
from symx.reg import harness
from harness.hu import *
from harness.agg import *
from pytracer.aggregate import SimpleAggregate, GridAccel

META = {
    'bounds': 'up to 5 primitives in six layouts; rays of six directions (with zero and negative-zero components) from any origin with any '
              'range, hitting one or two primitives at any parameters; list aggregates also over boxes placed anywhere',
    'outside': 'more primitives; other directions; concurrent refinement of voxels; a scene with no extent at all along its longest axis; floating-point rounding',
    'assumptions': ['a primitive answers as the stand-in does: hit at a parameter in range only at a point of its world bound'],
}


def cube(*p):
    return ([float(e) for e in p], [float(e) + 1. for e in p])


LAYOUT = {'one': [cube(0, 0, 0)], 'two': [cube(3, 0, 0), cube(0, 0, 0)], 'row': [cube(6, 0, 0), cube(0, 0, 0), cube(2, 0, 0), cube(4, 0, 0)],
          'plane': [cube(0, 0, 0), cube(3, 3, 0), cube(0, 3, 0)], 'overlap': [([0., 0., 0.], [4., 2., 1.]), ([1., 1., 0.], [3., 3., 1.])],
          'apart': [cube(0, 0, 0), cube(1, 2, 3), cube(3, 1, 2)]}
DIRS = [[1., 0., 0.], [0., -1., 0.], [-1., -0., 0.], [1., -2., 0.], [-1., 0.5, 2.], [2., 1., -1.]]


def prims(c, layout):
    return [Prim(c, lo, hi, str(i)) for i, (lo, hi) in enumerate(LAYOUT[layout])]


@harness('C14', params=[[l, k] for l in ('two', 'overlap', 'apart') for k in range(len(DIRS))])
def listed(c, p):
    """a list answers with the nearest hit in range, or none"""
    ps = prims(c, p[0])
    shoot(c, SimpleAggregate(list(ps), False), ps, DIRS[p[1]])


@harness('C14')
def listed_anywhere(c):
    """the same over boxes anywhere, which its bound encloses"""
    ps = []
    for i in range(3):
        x = c.real('x%d' % i, -4, 4)
        ps.append(Prim(c, [x, 0., 0.], [x + 1., 1., 1.], str(i)))
    agg = SimpleAggregate(list(ps), False)
    b = agg.world_bound()
    for q in ps:
        c.check_le(b[0].x, q.lo[0], 'below')
        c.check_ge(b[1].x, q.hi[0], 'above')
    shoot(c, agg, ps, [1., 0., 0.])


QUICK = [['one', 0], ['one', 1], ['one', 2], ['two', 0], ['two', 2], ['two', 3], ['row', 0], ['row', 2], ['plane', 1], ['plane', 3], ['overlap', 0], ['overlap', 1]]


@harness('C14', params=QUICK, thorough=[[l, k] for l in sorted(LAYOUT) for k in range(len(DIRS))], max_int=64)
def grid(c, p):
    """a grid answers with the nearest hit in range, or none"""
    ps = prims(c, p[0])
    shoot(c, GridAccel(list(ps), False), ps, DIRS[p[1]], two=c.tier != 'quick' or p in (['two', 0], ['overlap', 0]))


@harness('C14')
def refined(c):
    """primitives that cannot be intersected are refined, at once or when first met"""
    ps = [Prim(c, [float(3 * i), 0., 0.], [3. * i + 1., 1., 1.], str(i)) for i in range(3)]
    kind = c.choice('kind', ['list', 'grid', 'lazy grid', 'lazy single'])
    top = [Group(c, [ps[0], Group(c, [ps[1]])]), ps[2]]
    if kind == 'list':
        agg = SimpleAggregate(top, True)
    elif kind == 'grid':
        agg = GridAccel(top, True)
    elif kind == 'lazy grid':
        agg = GridAccel(top, False)
    else:
        agg = GridAccel([Group(c, [ps[0]]), Group(c, [ps[1]]), ps[2]], False)
    shoot(c, agg, ps, [1., 0., 0.], two=False)
    c.check(bool(agg.can_intersect()), 'can be intersected')
    c.check(raises(RuntimeError, agg.get_area_light), 'no light of its own')


@harness('C14')
def voxels(c):
    """grid cells: the cell of a point holds it, cells are numbered apart, and each primitive is in each cell its bound meets"""
    ps = prims(c, 'apart')
    g = GridAccel(list(ps), False)
    n = [int(e) for e in g.n_voxels]
    c.check(len(g.voxels) == n[0] * n[1] * n[2], 'number of cells')
    c.check(len(set(g.offset(x, y, z) for x in range(n[0]) for y in range(n[1]) for z in range(n[2]))) == n[0] * n[1] * n[2], 'numbered apart')
    q = [c.real('q' + 'xyz'[i], -1, 6) for i in range(3)]
    w = g.world_bound()
    c.assume(c.both(*([q[i] >= w[0][i] for i in range(3)] + [q[i] <= w[1][i] for i in range(3)])))
    pos = [g.pos2voxel(geo.Point(*q), i) for i in range(3)]
    for i in range(3):
        c.check(0 <= pos[i] < n[i], 'cell index')
        c.check_le(g.voxel2pos(pos[i], i), q[i], 'cell starts before the point', tol=1e-6)
        c.check_ge(g.voxel2pos(pos[i] + 1, i), q[i], 'cell ends after the point', tol=1e-6)
    v = g.voxels[g.offset(pos[0], pos[1], pos[2])]
    for p in ps:
        if bool(inside(c, p, q)):
            c.check(v is not None and p in v.primitives, 'primitive is in the cell')
