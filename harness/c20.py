"""Monte Carlo sampling routines"""
from symx.reg import harness
from harness.hu import *
from pytracer.montecarlo import *

META = {
    'bounds': 'random numbers in [0.001, 0.999]; cone half-angles with cosine in [-0.9, 0.95]; asymmetry in [-0.9, 0.9]; up to 4 rejected points; '
              'sample counts 1 to 4 and densities in [0.01, 10] for the heuristics',
    'outside': 'uniformity is stated as density times area element (and range): a map covering its range twice at half the density is not told apart; asymmetry within (0, 1e-3); '
               'floating-point rounding',
}


def us(c):
    return c.real('u1', 0.001, 0.999), c.real('u2', 0.001, 0.999)


def element(J):
    """squared area element of a map to space"""
    z = cross3([J[i][0] for i in range(3)], [J[i][1] for i in range(3)])
    return dot3(z, z)


@harness('C20', params=['balance', 'power'])
def heuristic(c, kind):
    """the weights of two techniques are in [0, 1], add up to one, and are in the ratio of the (squared) weighted densities"""
    h = balance_heuristic if kind == 'balance' else power_heuristic
    nf, ng = c.integer('nf', 1, 4), c.integer('ng', 1, 4)
    f, g = c.real('f', 0.01, 10), c.real('g', 0.01, 10)
    a, b = h(nf, f, ng, g), h(ng, g, nf, f)
    c.check_ge(a, 0., 'at least zero')
    c.check_eq(a + b, 1., 'sum')
    p, q = nf * f, ng * g
    if kind == 'power':
        p, q = p * p, q * q
    c.check_eq(a * (p + q), p, 'share')
    c.check_eq(h(nf, 0., ng, g), 0., 'a technique that cannot')


@harness('C20', max_decisions=60)
def rejection(c):
    """rejection returns the first point drawn within the disk"""
    got = []

    def rng():
        v = c.real('r%d' % len(got), 0, 1)
        got.append(v)
        if len(got) == 10:
            c.assume(False)
        return v

    x, y = rejection_sample_disk(rng)
    n = len(got)
    c.check(n % 2 == 0, 'pairs')
    for i in range(0, n, 2):
        a, b = 1. - 2. * got[i], 1. - 2. * got[i + 1]
        if i == n - 2:
            c.check_le(x * x + y * y, 1., 'in the disk')
            c.check_eq([x * x, y * y], [a * a, b * b], 'the last drawn')
        else:
            c.check_ge(a * a + b * b, 1., 'earlier ones are outside')


@harness('C20')
def hemisphere(c):
    """uniform over the upper hemisphere"""
    u1, u2 = us(c)
    w, J = c.jacobian(lambda a, b: uniform_sample_hemisphere(a, b), [u1, u2])
    c.check_eq(dot3(w, w), 1., 'unit')
    c.check_ge(w[2], 0., 'upper')
    p = uniform_hemisphere_pdf()
    c.check_eq(p * p * element(J), 1., 'density')


@harness('C20')
def sphere(c):
    """uniform over the sphere"""
    u1, u2 = us(c)
    w, J = c.jacobian(lambda a, b: uniform_sample_sphere(a, b), [u1, u2])
    c.check_eq(dot3(w, w), 1., 'unit')
    p = uniform_sphere_pdf()
    c.check_eq(p * p * element(J), 1., 'density')
    if bool(u1 < 0.5):
        c.check_ge(w[2], 0., 'poles in order')
    else:
        c.check_le(w[2], 0., 'poles in order')


SECTORS = [0, 1, 2, 3]


def sector(c, k):
    """a point of the k-th triangle of the square, in its interior, by distance and place across"""
    r, t = c.real('r', 0.01, 0.999), c.real('t', -0.99, 0.99)
    c.assume(c.either(t > 0.01, t < -0.01))
    sx, sy = [(r, t * r), (t * r, r), (-r, t * r), (t * r, -r)][k]
    return r, t, (sx + 1.) / 2., (sy + 1.) / 2.


@harness('C20')
def disk(c):
    """uniform over the unit disk"""
    u1, u2 = us(c)
    x, J = c.jacobian(lambda a, b: uniform_sample_disk(a, b), [u1, u2])
    c.check_le(x[0] * x[0] + x[1] * x[1], 1., 'in the disk')
    d = J[0][0] * J[1][1] - J[0][1] * J[1][0]
    c.check_eq(d * d, np.pi * np.pi, 'density')


@harness('C20', params=SECTORS)
def concentric(c, k):
    """squares around the centre map to circles, uniformly over the unit disk, each sector of the square to its sector of the disk"""
    r, t, u1, u2 = sector(c, k)
    x, J = c.jacobian(lambda a, b: concentric_sample_disk(a, b), [u1, u2])
    c.check_eq(x[0] * x[0] + x[1] * x[1], r * r, 'radius')
    d = J[0][0] * J[1][1] - J[0][1] * J[1][0]
    c.check_eq(d * d, np.pi * np.pi, 'density')
    th = t * np.pi / 4.
    s, q = np.sin(th) * r, np.cos(th) * r
    c.check_eq(list(x), [[q, s], [s, q], [-q, s], [s, -q]][k], 'place')


@harness('C20')
def centre(c):
    """the centre of the square is the centre of the disk"""
    c.check_eq(list(concentric_sample_disk(0.5, 0.5)), [0., 0.], 'centre')
    t = c.real('t', 0.501, 1)
    x = concentric_sample_disk(t, t)
    s = np.sqrt(0.5) * (2. * t - 1.)
    c.check_eq(list(x), [s, s], 'first diagonal')
    x = concentric_sample_disk(1. - t, t)
    c.check_eq(list(x), [-s, s], 'second diagonal')


@harness('C20', params=SECTORS)
def cosine(c, k):
    """cosine-weighted over the upper hemisphere"""
    r, t, u1, u2 = sector(c, k)
    w, J = c.jacobian(lambda a, b: cosine_sample_hemisphere(a, b), [u1, u2])
    c.check_eq(dot3(w, w), 1., 'unit')
    c.check_ge(w[2], 0., 'upper')
    c.check_eq(cosine_hemisphere_pdf(w[2], 0.) * np.pi, w[2], 'density is cosine over pi')
    d = J[0][0] * J[1][1] - J[0][1] * J[1][0]
    c.check_eq(d * d, np.pi * np.pi, 'density')


@harness('C20')
def triangle(c):
    """uniform over the triangle of barycentric coordinates"""
    u1, u2 = us(c)
    b, J = c.jacobian(lambda a, b: uniform_sample_triangle(a, b), [u1, u2])
    c.check_ge(b[0], 0., 'first')
    c.check_ge(b[1], 0., 'second')
    c.check_le(b[0] + b[1], 1., 'third')
    d = J[0][0] * J[1][1] - J[0][1] * J[1][0]
    c.check_eq(d * d, 0.25, 'density')


@harness('C20', params=['plain', 'frame'])
def cone(c, kind):
    """uniform over the directions within the cone about the axis"""
    u1, u2 = us(c)
    m = c.real('cos', -0.9, 0.95)
    if kind == 'plain':
        ax = [0., 0., 1.]
        w, J = c.jacobian(lambda a, b: uniform_sample_cone(a, b, m), [u1, u2])
    else:
        ax = [1., 0., 0.]
        f = [geo.Vector(0., 1., 0.), geo.Vector(0., 0., 1.), geo.Vector(*ax)]
        w, J = c.jacobian(lambda a, b: uniform_sample_cone(a, b, m, *f), [u1, u2])
    c.check_eq(dot3(w, w), 1., 'unit')
    c.check_ge(dot3(w, ax), m, 'within the cone')
    p = uniform_cone_pdf(m)
    c.check_eq(p * p * element(J), 1., 'density')


DIRS = [[0., 0., 1.], [1., 0., 0.], [0.6, 0., -0.8]]


@harness('C20', params=[[d, s] for d in DIRS for s in (1, -1, 0)])
def henyey(c, p):
    """directions follow the phase function, and its density is the phase function"""
    d, sg = p
    g = sg * c.real('g', 0.001, 0.9) if sg else 0.
    u1, u2 = us(c)
    w = geo.Vector(*d)
    x, J = c.jacobian(lambda a, b: sample_hg(w, g, a, b), [u1, u2])
    c.check_eq(dot3(x, x), 1., 'unit')
    k = dot3(x, d)
    q = (1. - g * g) / (1. - g + 2. * g * u1)
    c.fact((q - (1. + g * g - 2. * g * k) / q) == 0.) if False else None
    pdf = hg_pdf(w, x, g)
    c.check_eq(pdf * pdf * element(J), 1., 'density', tol=1e-4)
    b = 1. + g * g - 2. * g * k
    c.check_eq(pdf * pdf * 16. * np.pi * np.pi * b * b * b, (1. - g * g) * (1. - g * g), 'phase function', tol=1e-4)
