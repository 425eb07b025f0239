"""Materials"""
import os
import shutil
import tempfile
from symx.reg import harness
from harness.hu import *
import pytracer.material.material as mat
from pytracer.material.material import (Material, MatteMaterial, PlasticMaterial, MirrorMaterial, MetalMaterial, GlassMaterial, UberMaterial,
                                        MixMaterial, MeasuredMaterial, SubsurfaceMaterial, KdSubsurfaceMaterial)
from pytracer.reflection import (BSDF, Lambertian, OrenNayar, Microfacet, Blinn, FresnelDielectric, FresnelConductor, FresnelFullReflect,
                                 SpecularReflection, SpecularTransmission, ScaledBDF)
from pytracer.reflection.utility import brdf_remap
from pytracer.spectral import Spectrum

META = {
    'bounds': 'any reflectances and opacities (zero, negative, or in [0.01, 2]), any index in [1.1, 2.5]; selected roughness and directions; bump maps: any three displacements, differentials and positions upon selected surfaces; '
              'measured data of up to three samples with any values',
    'outside': 'values between zero and 1e-5, which count as black; subsurface coefficients from diffuse reflectance, which are not implemented; floating-point rounding',
    'assumptions': 'textures are stand-ins giving any value and recording where they are asked; the components themselves are the subject of C20, C24, C25 and C26',
}
WO = [[0.6, 0., 0.8], [-0.48, 0.6, 0.64], [0.28, 0., -0.96]]
WI = [[0., 0.6, 0.8], [-0.6, 0.64, -0.48]]


class Shp(object):
    def __init__(self, ro=False, swap=False):
        self.ro, self.transform_swaps_handedness = ro, swap


class Tex(object):
    def __init__(self, v):
        self.v, self.asked = v, []

    def __call__(self, dg):
        self.asked.append(dg)
        return self.v


def col(c, n, kinds=('any', 'zero', 'neg')):
    k = c.choice(n + '?', list(kinds))
    if k == 'zero':
        return [0., 0., 0.]
    if k == 'neg':
        return [c.real(n + '0', 0.01, 2.), c.real(n + '1', -2., -0.01), c.real(n + '2', -2., -0.01)]
    return [c.real('%s%d' % (n, i), 0.01, 2.) for i in range(3)]


def S(v):
    return Spectrum.create_from_list(list(v))


def pos(v):
    return [x if bool(x > 0.) else 0. for x in v]


def black(v):
    return not any(bool(x > 1e-5) for x in v)


def mul(*vs):
    out = [1., 1., 1.]
    for v in vs:
        out = [a * b for a, b in zip(out, v)]
    return out


def geometry(c, shp=None):
    dg = geo.DifferentialGeometry(geo.Point(*[c.real('p%d' % i, -5, 5) for i in range(3)]), geo.Vector(2., 0., 0.), geo.Vector(0., 3., 0.),
                                  geo.Normal(0., 0., 0.), geo.Normal(0., 0., 0.), c.real('u', 0., 1.), c.real('v', 0., 1.), shp or Shp())
    return dg


def compare(c, got, want):
    """the same components, in any order"""
    def key(b):
        return (int(b.type.v), type(b).__name__)
    c.check(sorted(map(key, got)) == sorted(map(key, want)), 'components')
    got, want = sorted(got, key=key), sorted(want, key=key)
    for g, w in zip(got, want):
        for i, wo in enumerate(WO):
            for j, wi in enumerate(WI):
                a, b = g.f(geo.Vector(*wo), geo.Vector(*wi)), w.f(geo.Vector(*wo), geo.Vector(*wi))
                for k in range(3):
                    c.check_eq(a[k], b[k], '%s value %d %d[%d]' % (type(w).__name__, i, j, k))
            if 'Specular' in type(w).__name__:
                p, d, f = g.sample_f(geo.Vector(*wo), .3, .6)
                q, e, h = w.sample_f(geo.Vector(*wo), .3, .6)
                c.check_eq(p, q, 'specular density')
                c.check((d is None) == (e is None), 'specular direction')
                if d is not None:
                    for k in range(3):
                        c.check_eq(d[k], e[k], 'specular direction[%d]' % k)
                for k in range(3):
                    c.check_eq(f[k], h[k], 'specular value[%d]' % k)


def placed(c, bsdf, dg, dgs, texs):
    """geometric normal of the surface, textures asked at the shaded point"""
    for k in range(3):
        c.check_eq(bsdf.ng[k], dg.nn[k], 'geometric normal')
        c.check_eq(bsdf.nn[k], dgs.nn[k], 'shading normal')
    for t in texs:
        for q in t.asked:
            c.check_eq(q.u, dgs.u, 'u')
            c.check_eq(q.v, dgs.v, 'v')
            for k in range(3):
                c.check_eq(q.p[k], dgs.p[k], 'point')
                c.check_eq(q.nn[k], dgs.nn[k], 'normal seen by textures')


BUMP = [False, True]


def setting(c, bump):
    """surface, shading geometry, and a bump map which tilts it"""
    dg = geometry(c)
    dgs = dg.copy()
    if not bump:
        return dg, dgs, None, dgs
    bm = lambda q: 0.25 + .5 * q.u
    return dg, dgs, bm, Material.bump(bm, dg, dgs)


@harness('C35', params=[[n, b] for n in ('matte', 'rough', 'plastic', 'mirror', 'metal', 'glass', 'subsurface', 'kd') for b in BUMP], max_decisions=400)
def components(c, param):
    """each material is made of its components, with its textures' values, negative ones taken as zero, black ones left out"""
    name, bump = param
    dg, dgs, bm, sh = setting(c, bump)
    keep = lst(dgs.nn)
    R = col(c, 'R')
    eta = c.real('eta', 1.1, 2.5)
    rough = c.choice('rough', [0.1, 0.5, 1.])
    r = pos(R)
    tR, te, tr = Tex(S(R)), Tex(eta), Tex(rough)
    texs = [tR, te, tr]
    e = 1.
    if name == 'matte':
        m = MatteMaterial(tR, Tex(c.choice('s', [0., -3.])), bm)
        want = [Lambertian(S(r))]
    elif name == 'rough':
        s = c.choice('s', [20., 90., 200.])
        m = MatteMaterial(tR, Tex(s), bm)
        want = [OrenNayar(S(r), min(s, 90.))]
    elif name == 'plastic':
        K = col(c, 'K')
        m = PlasticMaterial(tR, Tex(S(K)), tr, bm)
        want = [Lambertian(S(r)), Microfacet(S(pos(K)), FresnelDielectric(1., 1.5), Blinn(1. / rough))]
    elif name == 'mirror':
        m = MirrorMaterial(tR, bm)
        want = [] if black(r) else [SpecularReflection(S(r), FresnelFullReflect())]
    elif name == 'metal':
        n, k = [c.real('n%d' % i, 0.1, 3.) for i in range(3)], [c.real('k%d' % i, 0.1, 3.) for i in range(3)]
        m = MetalMaterial(Tex(S(n)), Tex(S(k)), tr, bm)
        want = [Microfacet(S([1., 1., 1.]), FresnelConductor(S(n), S(k)), Blinn(1. / rough))]
    elif name == 'glass':
        K = col(c, 'K')
        k = pos(K)
        m = GlassMaterial(tR, Tex(S(K)), te, bm)
        want = ([] if black(r) else [SpecularReflection(S(r), FresnelDielectric(1., eta))]) + \
            ([] if black(k) else [SpecularTransmission(S(k), 1., eta)])
        e = eta
    else:
        m = SubsurfaceMaterial(2., tR, Tex(S([1., 1., 1.])), Tex(S([1., 1., 1.])), te, bm) if name == 'subsurface' else \
            KdSubsurfaceMaterial(Tex(S([1., 1., 1.])), tR, Tex(1.), te, bm)
        want = [] if black(r) else [SpecularReflection(S(r), FresnelDielectric(1., eta))]
    b = m.get_bsdf(dg, dgs)
    c.check_eq(b.eta, e, 'index')
    compare(c, b.bdfs, want)
    placed(c, b, dg, sh, texs)
    for k in range(3):
        c.check_eq(dgs.nn[k], keep[k], 'the geometry given stays')


@harness('C35', params=[['Kd', False], ['Ks', False], ['Kr', False], ['Kt', False], ['all', False], ['all', True]])
def uber(c, param):
    """the uber material: all of its components below its opacity, and what the opacity leaves straight through"""
    which, bump = param
    dg, dgs, bm, sh = setting(c, bump)
    op = c.choice('op', ['one', 'zero', 'any'])
    O = [1.] * 3 if op == 'one' else [0.] * 3 if op == 'zero' else [c.real('o%d' % i, 0.02, 0.98) for i in range(3)]
    K = dict((k, col(c, k) if which == k else [0.3, 0.5, 0.7] if which == 'all' else [0.] * 3) for k in ('Kd', 'Ks', 'Kr', 'Kt'))
    eta, rough = c.real('eta', 1.1, 2.5), c.choice('rough', [0.1, 1.])
    tx = dict((k, Tex(S(K[k]))) for k in K)
    m = UberMaterial(tx['Kd'], tx['Ks'], tx['Kr'], tx['Kt'], Tex(rough), Tex(S(O)), Tex(eta), bm)
    b = m.get_bsdf(dg, dgs)
    v = dict((k, mul(O, pos(K[k]))) for k in K)
    want = []
    if op != 'one':
        want.append(SpecularTransmission(S([1. - x for x in O]), 1., 1.))
    if not black(v['Kd']):
        want.append(Lambertian(S(v['Kd'])))
    if not black(v['Ks']):
        want.append(Microfacet(S(v['Ks']), FresnelDielectric(1., eta), Blinn(1. / rough)))
    if not black(v['Kr']):
        want.append(SpecularReflection(S(v['Kr']), FresnelDielectric(1., eta)))
    if not black(v['Kt']):
        want.append(SpecularTransmission(S(v['Kt']), 1., eta))
    compare(c, b.bdfs, want)
    placed(c, b, dg, sh, list(tx.values()))


class Mat(object):
    def __init__(self, comps):
        self.comps, self.asked = comps, []

    def get_bsdf(self, g, s):
        self.asked.append((g, s))
        b = BSDF(s.copy(), g.nn)
        for x in self.comps:
            b.push_back(x)
        return b


@harness('C35', params=[[1, 1], [2, 1], [1, 2], [0, 1], [1, 0]])
def mix(c, param):
    """mixed materials: the components of the first scaled by the texture, those of the second by what it leaves"""
    dg = geometry(c)
    dgs = dg.copy()
    s = [c.real('s%d' % i, -1., 2.) for i in range(3)]
    s1 = pos(s)
    s2 = pos([1. - x for x in s1])
    comps = [[Lambertian(S([c.real('r%d_%d_%d' % (k, i, j), 0., 1.) for j in range(3)])) if i == 0 else OrenNayar(S([.1, .2, .3]), 20.)
              for i in range(n)] for k, n in enumerate(param)]
    ms = [Mat(x) for x in comps]
    b = MixMaterial(ms[0], ms[1], Tex(S(s))).get_bsdf(dg, dgs)
    compare_mixed(c, b.bdfs, [(x, s1) for x in comps[0]] + [(x, s2) for x in comps[1]])
    for m in ms:
        c.check(len(m.asked) == 1 and m.asked[0][0] is dg and m.asked[0][1] is dgs, 'same geometry')


def compare_mixed(c, got, want):
    c.check(len(got) == len(want), 'components')
    for i, wo in enumerate(WO):
        for j, wi in enumerate(WI):
            a, b = [0.] * 3, [0.] * 3
            for x in got:
                a = [p + q for p, q in zip(a, x.f(geo.Vector(*wo), geo.Vector(*wi)))]
            for x, s in want:
                b = [p + q * t for p, q, t in zip(b, x.f(geo.Vector(*wo), geo.Vector(*wi)), s)]
            for k in range(3):
                c.check_eq(a[k], b[k], 'value %d %d[%d]' % (i, j, k))
    c.check(sorted(int(x.type.v) for x in got) == sorted(int(x.type.v) for x, _ in want), 'kinds')


class Disp(object):
    """a bump map giving three displacements: at the point, shifted in u, shifted in v"""

    def __init__(self, u, v, d):
        self.u, self.v, self.d, self.asked = u, v, d, {}

    def __call__(self, q):
        k = 'here' if q.u is self.u and q.v is self.v else 'u' if q.v is self.v else 'v'
        self.asked[k] = (q.p.copy(), q.nn.copy(), q.u, q.v)
        return self.d[k]


SURF = [([2., 0., 0.], [0., 3., 0.], [0., 0., 0.], [0., 0., 0.]), ([0., 1., 0.5], [1., 0., 0.], [0.1, 0., 0.2], [0., 0.3, 0.]),
        ([1., 1., 0.], [-1., 2., 0.], [0., 0., 0.], [0.2, 0., 0.])]


@harness('C35', params=[[s, k] for s in range(3) for k in ('none', 'u', 'v')])
def bump(c, param):
    """bump maps: asked at the point and half a sample away in u and in v; the surface is displaced along its normal; the new normal is
    perpendicular to it and on the side of the geometric normal"""
    si, which = param
    du, dv, nu, nv = SURF[si]
    ro, sw = c.boolean('reverse'), c.boolean('swap')
    dgg = geo.DifferentialGeometry(pnt(c, 'p', 5), geo.Vector(*du), geo.Vector(*dv), geo.Normal(*nu), geo.Normal(*nv),
                                   c.real('u', 0., 1.), c.real('v', 0., 1.), Shp(ro, sw))
    dgs = dgg.copy()
    if c.boolean('other'):
        dgg.nn = -dgg.nn
    for n in ('dudx', 'dudy', 'dvdx', 'dvdy'):
        setattr(dgs, n, c.real(n, -2., 2.) if n[1] == which else 0.)
    d = dict((k, c.real('d' + k, -1., 1.)) for k in ('here', 'u', 'v'))
    t = Disp(dgs.u, dgs.v, d)

    def step(a, b):
        s = .5 * (abs(a) + abs(b))
        return 0.01 if bool(s == 0.) else s
    hu, hv = step(dgs.dudx, dgs.dudy), step(dgs.dvdx, dgs.dvdy)
    if which != 'none':
        c.assume((hu if which == 'u' else hv) > 0.005)
    r = Material.bump(t, dgg, dgs)
    c.check(sorted(t.asked) == ['here', 'u', 'v'], 'three displacements')
    P, N = lst(dgs.p), lst(dgs.nn)
    cr = cross3(du, dv)
    for k, (h, D, nd) in {'here': (0., [0.] * 3, None), 'u': (hu, du, nu), 'v': (hv, dv, nv)}.items():
        p, n, u, v = t.asked[k]
        for i in range(3):
            c.check_eq(p[i], P[i] + h * D[i], 'point %s' % k)
        c.check_eq(u, dgs.u + (h if k == 'u' else 0.), 'u %s' % k)
        c.check_eq(v, dgs.v + (h if k == 'v' else 0.), 'v %s' % k)
        if nd is not None:
            w = [x + h * y for x, y in zip(cr, nd)]
            z = cross3(n, w)
            for i in range(3):
                c.check_eq(z[i], 0., 'normal %s' % k)
    pu = [du[i] + (d['u'] - d['here']) / hu * N[i] + d['here'] * nu[i] for i in range(3)]
    pv = [dv[i] + (d['v'] - d['here']) / hv * N[i] + d['here'] * nv[i] for i in range(3)]
    for i in range(3):
        c.check_eq(r.dpdu[i], pu[i], 'dpdu[%d]' % i)
        c.check_eq(r.dpdv[i], pv[i], 'dpdv[%d]' % i)
        c.check_eq(r.p[i], P[i], 'the point stays')
        c.check_eq(dgs.nn[i], N[i], 'the geometry given stays')
    z = cross3(pu, pv)
    c.assume(dot3(z, z) > 0.01)
    w = cross3(lst(r.nn), z)
    for i in range(3):
        c.check_eq(w[i], 0., 'perpendicular to the displaced surface')
    c.check_eq(dot3(r.nn, r.nn), 1., 'unit')
    c.check_ge(dot3(r.nn, dgg.nn), 0., 'side of the geometric normal')


@harness('C35')
def subsurface(c):
    """subsurface materials: scaled absorption and scattering, and index, at the shaded point; other materials have none"""
    dg = geometry(c)
    dgs = dg.copy()
    a, s, sc, eta = [c.real('a%d' % i, 0., 5.) for i in range(3)], [c.real('s%d' % i, 0., 5.) for i in range(3)], c.real('scale', 0.1, 5.), c.real('eta', 1., 2.)
    ta, ts, te = Tex(S(a)), Tex(S(s)), Tex(eta)
    b = SubsurfaceMaterial(sc, Tex(S([1., 1., 1.])), ta, ts, te).get_bssrdf(dg, dgs)
    for k in range(3):
        c.check_eq(b.sigma_a[k], sc * a[k], 'absorption')
        c.check_eq(b.sigma_prime_s[k], sc * s[k], 'scattering')
    c.check_eq(b.eta, eta, 'index')
    for t in (ta, ts, te):
        c.check(len(t.asked) == 1 and t.asked[0] is dgs, 'same geometry')
    c.check(MirrorMaterial(Tex(S(a))).get_bssrdf(dg, dgs) is None, 'none')


class Line(object):
    """a line of a file of numbers"""

    def __init__(self, *v):
        self.v = v

    def split(self):
        return list(self.v)


class File(list):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Tree(object):
    def __init__(self, data):
        self.data = data


ANG = [[0.3, 0.5, 0.9, 2.5], [1.2, 6., 0.4, 0.2], [0.7, 3., 0.7, 3.]]


@harness('C35', params=[1, 2, 3])
def measured(c, n):
    """measured materials: each sample of the file at its place, with its spectrum; read once, and by file"""
    vals = [[c.real('v%d_%d' % (i, j), 0., 5.) for j in range(2)] for i in range(n)]
    lines = [Line('#', 'text'), Line(), Line(2.), Line(400., 700.)]
    for a, v in zip(ANG, vals):
        lines.append(Line(*(a + v)) if c.choice('cut', [0, 1]) == 0 else Line(*a))
        if len(lines[-1].v) == 4:
            lines.append(Line(*v))
    read = []

    def opened(name, *a):
        read.append(name)
        return File(lines)

    def sampled(wl, v):
        c.check(len(wl) == 2 and len(v) == 2, 'two wavelengths')
        c.check_eq(wl[0], 400., 'wavelength')
        c.check_eq(wl[1], 700., 'wavelength')
        return S([v[0], v[1], 0.])
    d = tempfile.mkdtemp()
    names = [os.path.join(d, x, 'm.brdf') for x in 'ab']
    keep = (mat.KdTree, Spectrum.from_sampled)
    mat.IrIsotropicData.clear()
    try:
        for f in names:
            os.mkdir(os.path.dirname(f))
            with open(f, 'w') as g:
                g.write('0')
        mat.open, mat.KdTree, Spectrum.from_sampled = opened, Tree, staticmethod(sampled)
        ms = [MeasuredMaterial(names[0]), MeasuredMaterial(names[0])]
        c.check(read == [names[0]], 'read once')
        ms.append(MeasuredMaterial(names[1]))
        c.check(read == names, 'every file is read')
    finally:
        mat.KdTree = keep[0]
        del Spectrum.from_sampled
        if 'open' in mat.__dict__:
            del mat.open
        mat.IrIsotropicData.clear()
        shutil.rmtree(d)
    dg = geometry(c)
    for m in ms:
        b = m.get_bsdf(dg, dg.copy())
        c.check(len(b.bdfs) == 1, 'one component')
        tree, data = b.bdfs[0].tree, b.bdfs[0].data
        c.check(len(data) == n and len(tree.data) == n, 'number of samples')
        for i in range(n):
            a = ANG[i]
            dphi = abs(a[1] - a[3])
            dphi = min(dphi, 2. * np.pi - dphi)
            P = [np.sin(a[0]) * np.sin(a[2]), dphi / np.pi, np.cos(a[0]) * np.cos(a[2])]
            for k in range(3):
                c.check_eq(tree.data[i][k], P[k], 'place')
                c.check_eq(data[i].p[k], P[k], 'place')
            for k in range(2):
                c.check_eq(data[i].v[k], vals[i][k], 'value')
