"""Reconstruction filters"""
from symx.reg import harness
from harness.hu import *
from pytracer.filter import BoxFilter, TriangleFilter, GaussianFilter, MitchellFilter, LanczosSincFilter

META = {
    'bounds': 'half-widths in [0.5, 4], positions in [-6, 6] (the box over its extent), Mitchell parameters in [-1, 1], Gaussian fall-off in [0.25, 3], '
              'sinc cycles in [1, 4] with half-width 1 or 2; array arguments of three values',
    'outside': 'Gaussian and sinc values as numbers (exponential and sine are axiomatised); floating-point rounding',
}


def widths(c):
    return c.real('xw', 0.5, 4), c.real('yw', 0.5, 4)


def absv(c, x):
    return c.ite(x >= 0, x, -x)


@harness('C17')
def stored(c):
    """a filter carries its half-widths and their inverses"""
    xw, yw = widths(c)
    for f in (BoxFilter(xw, yw), TriangleFilter(xw, yw), GaussianFilter(xw, yw, 2.), MitchellFilter(0.3, 0.4, xw, yw), LanczosSincFilter(xw, yw, 3.)):
        c.check_eq([f.xw, f.yw], [xw, yw], 'half-widths')
        c.check_eq([f.xwInv * xw, f.ywInv * yw], [1., 1.], 'inverses')


@harness('C17')
def box(c):
    """the box filter is flat"""
    xw, yw = widths(c)
    f = BoxFilter(xw, yw)
    x, y = c.real('x', -1, 1), c.real('y', -1, 1)
    c.check_eq(f(x * xw, y * yw), f(0., 0.), 'flat')
    c.check_ge(f(0., 0.), 1e-3, 'positive')


@harness('C17')
def triangle(c):
    """the triangle filter falls linearly to zero at its edges, along each axis"""
    xw, yw = widths(c)
    f = TriangleFilter(xw, yw)
    x, y = c.real('x', -6, 6), c.real('y', -6, 6)
    ax, ay = absv(c, x), absv(c, y)
    c.check_eq(f(x, y), c.ite(ax < xw, xw - ax, 0.) * c.ite(ay < yw, yw - ay, 0.), 'value')


@harness('C17')
def gaussian(c):
    """the Gaussian filter is a shifted Gaussian along each axis, zero from its edges on"""
    xw, yw = widths(c)
    a = c.real('alpha', 0.25, 3)
    f = GaussianFilter(xw, yw, a)
    x, y = c.real('x', -6, 6), c.real('y', -6, 6)

    def g(d, w):
        v = np.exp(-a * d * d) - np.exp(-a * w * w)
        return c.ite(v > 0, v, 0.)

    v = f(x, y)
    c.check_eq(v, g(x, xw) * g(y, yw), 'value')
    c.check_eq(f(-x, y), v, 'symmetric in x')
    c.check_eq(f(x, -y), v, 'symmetric in y')
    if bool(absv(c, x) >= xw) or bool(absv(c, y) >= yw):
        c.check_eq(v, 0., 'zero outside')
    c.check_ge(v, 0., 'not negative')


@harness('C17', params=[[0.5, 2.], [3., 1.25]])
def mitchell(c, p):
    """the Mitchell filter is symmetric, scales with its width and is the product of its axes"""
    xw, yw = p
    B, C = c.real('B', -1, 1), c.real('C', -1, 1)
    f = MitchellFilter(B, C, xw, yw)
    x, y = c.real('x', -1, 1), c.real('y', -1, 1)
    v = f(x * xw, y * yw)
    m = MitchellFilter(B, C, 1., 1.).mitchell
    c.check_eq(v, m(x) * m(y), 'product of the axes, by width')
    c.check_eq(m(-x), m(x), 'symmetric')


@harness('C17', ite=False)
def mitchell_shape(c):
    """the Mitchell filter reaches zero at its edges, has the right peak, and shifted copies add up to one"""
    B, C = c.real('B', -1, 1), c.real('C', -1, 1)
    m = MitchellFilter(B, C, 1., 1.).mitchell
    c.check_eq(m(1.), 0., 'zero at the edge')
    c.check_eq(m(0.), (6. - 2. * B) / 6., 'peak')
    c.check_eq(m(0.5), B / 6., 'value at the half')
    t = c.real('t', 0.001, 0.499)
    c.check_eq(m(t) + m(t - 0.5) + m(t + 0.5) + m(t - 1.), 1., 'partition of unity')


@harness('C17')
def mitchell_pieces(c):
    """each piece of the Mitchell filter is the cubic it should be"""
    B, C = c.real('B', -1, 1), c.real('C', -1, 1)
    m = MitchellFilter(B, C, 1., 1.).mitchell
    x = c.real('x', -1, 1)
    s = 2. * absv(c, x)
    far = ((-B - 6 * C) * s * s * s + (6 * B + 30 * C) * s * s + (-12 * B - 48 * C) * s + 8 * B + 24 * C) / 6.
    near = ((12 - 9 * B - 6 * C) * s * s * s + (-18 + 12 * B + 6 * C) * s * s + 6 - 2 * B) / 6.
    c.check_eq(m(x), far if bool(s > 1) else near, 'value')


@harness('C17', params=[1., 2.])
def lanczos(c, w):
    """the windowed sinc filter is one at its centre, the product of sincs within its edges, and zero outside"""
    tau = c.real('tau', 1, 4)
    f = LanczosSincFilter(w, 1., tau)
    x, y = c.real('x', -3, 3), c.real('y', -3, 3)

    def g(t):
        t = absv(c, t)
        if bool(t < 1e-5):
            return 1.
        if bool(t > 1.):
            return 0.
        p = np.pi * t
        return np.sin(p * tau) / (p * tau) * np.sin(p) / p

    v = f(x, y)
    c.check_eq(v, g(x / w) * g(y), 'value', tol=1e-5)
    c.check_eq(f(0., 0.), 1., 'centre')
    c.check_eq(f(-x, y), v, 'symmetric in x')


@harness('C17', params=['mitchell', 'lanczos'])
def arrays(c, kind):
    """given arrays, each entry is filtered as by itself"""
    f = MitchellFilter(1 / 3., 1 / 3., 2., 2.) if kind == 'mitchell' else LanczosSincFilter(2., 2., 2.)
    g = f.mitchell if kind == 'mitchell' else f.sinc
    v = [c.real('v%d' % i, -1.5, 1.5) for i in range(3)]
    w = [g(e) for e in v]
    c.check_eq(lst(g(np.array(v))), w, 'each entry')
