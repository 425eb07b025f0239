"""Spectra"""
from symx.reg import harness
from harness.hu import *
from pytracer.spectral.spectrum import xyz2rgb, rgb2xyz, SpectrumType, CoefficientSpectrum, SampledSpectrum, RGBSpectrum
from pytracer.spectral import Spectrum
from pytracer.data import spectral as data

META = {
    'bounds': 'components in [-10, 10] ([0.01, 10] under roots, powers and as divisors); up to 4 measured wavelengths in [0, 12], strictly increasing by 0.05, any averaging interval of width 0.05 or more; '
              'all orders of red, green and blue; conversion tables as numbers',
    'outside': 'the measured data themselves; wavelengths given twice; floating-point rounding',
}


def spec(c, n, lo=-10, hi=10):
    v = [c.real('%s%d' % (n, i), lo, hi) for i in range(3)]
    return v, RGBSpectrum.create_from_list(v)


@harness('C22')
def conversion(c):
    """XYZ and RGB convert into each other, linearly, and luminance is Y"""
    v, s = spec(c, 'v', 0, 10)
    c.check_eq(lst(rgb2xyz(xyz2rgb(v))), v, 'to RGB and back', tol=1e-4)
    c.check_eq(lst(xyz2rgb(rgb2xyz(v))), v, 'to XYZ and back', tol=1e-4)
    c.check_eq(s.y(), rgb2xyz(v)[1], 'luminance')
    c.check_eq(lst(s.to_xyz()), lst(rgb2xyz(v)), 'of a spectrum')
    c.check_eq(lst(RGBSpectrum.from_xyz(v)), lst(xyz2rgb(v)), 'from XYZ')
    c.check_eq(lst(RGBSpectrum.from_rgb(v)), v, 'from RGB')
    c.check_eq(lst(s.to_rgb()), v, 'to RGB')
    c.check_eq(Spectrum(1.).y(), 1., 'white has luminance one', tol=1e-5)


@harness('C22')
def arithmetic(c):
    """component by component, leaving operands as they were, and giving spectra"""
    u, a = spec(c, 'a')
    v, b = spec(c, 'b', 0.01, 10)
    k = c.real('k', 0.1, 10)
    for nm, got, want in [('sum', a + b, [p + q for p, q in zip(u, v)]), ('difference', a - b, [p - q for p, q in zip(u, v)]),
                          ('product', a * b, [p * q for p, q in zip(u, v)]), ('multiple', a * k, [p * k for p in u]), ('multiple from the left', k * a, [p * k for p in u]),
                          ('ratio', a / b, [p / q for p, q in zip(u, v)]), ('fraction', a / k, [p / k for p in u]), ('negative', -a, [-p for p in u]),
                          ('interpolated', a.lerp(k, b), [(1. - k) * p + k * q for p, q in zip(u, v)]),
                          ('root', b.sqrt() * b.sqrt(), v), ('square', b.pow(2.), [q * q for q in v]), ('copy', a.copy(), u)]:
        c.check_eq(lst(got), want, nm)
        c.check(isinstance(got, RGBSpectrum), nm + ' is a spectrum')
    c.check_eq(lst(a) + lst(b), u + v, 'operands unchanged')
    d = a.copy()
    d += b
    d *= k
    c.check_eq(lst(d), [(p + q) * k for p, q in zip(u, v)], 'in place')
    c.check_eq(lst(a), u, 'copies are independent')
    e = RGBSpectrum.create(a)
    e[0] = 77.
    c.check_eq(lst(a), u, 'made from another, independent')
    c.check_eq(lst(RGBSpectrum.create(u)), u, 'made from a list')
    c.check_eq(lst(RGBSpectrum.create_from_array(np.array(u))), u, 'made from an array')


@harness('C22')
def tests(c):
    """clipping, blackness and comparison"""
    u, a = spec(c, 'a')
    r = a.clip(0., 2.)
    c.check_eq(lst(r), [c.ite(p < 0., 0., c.ite(p > 2., 2., p)) for p in u], 'clipped')
    c.check_eq(lst(a.clip()), [c.ite(p < 0., 0., p) for p in u], 'clipped below')
    c.check_eq(lst(a), u, 'unchanged')
    black = c.either(*[p > 1e-4 for p in u])
    if bool(black):
        c.check(not bool(a.is_black()), 'not black')
    if bool(c.both(*[p < 0. for p in u])):
        c.check(bool(a.is_black()), 'black')
    c.check(not bool(a.has_nans()), 'numbers')
    c.check(bool(RGBSpectrum(0.).is_black()), 'zero is black')
    b = a.copy()
    c.check(bool(a == b) and not bool(a != b), 'equal to its copy')
    b[1] = b[1] + 1.
    c.check(bool(a != b) and not bool(a == b), 'differs in a component')


def integral(c, lam, v, x):
    """integral from lam[0] to x of the piecewise linear function, constant beyond its ends"""
    if bool(x <= lam[0]):
        return v[0] * (x - lam[0])
    s = 0.
    for i in range(len(lam) - 1):
        if bool(x <= lam[i + 1]):
            w = v[i] + (v[i + 1] - v[i]) * (x - lam[i]) / (lam[i + 1] - lam[i])
            return s + (v[i] + w) * 0.5 * (x - lam[i])
        s = s + (v[i] + v[i + 1]) * 0.5 * (lam[i + 1] - lam[i])
    return s + v[-1] * (x - lam[-1])


@harness('C22', params=[1, 2, 3], thorough=[1, 2, 3, 4])
def average(c, n):
    """the average over an interval of the values interpolated linearly, continued by the first and last; the samples are left as they were"""
    step = [1., 2., 0.5]
    lam = [c.real('lam', 0, 6)]
    for i in range(n - 1):
        lam.append(lam[-1] + step[i])
    v = [c.real('v%d' % i, 0, 10) for i in range(n)]
    a = c.real('from', 0, 12)
    b = c.real('to', 0, 12)
    c.assume(b - a > 0.05)
    l, w = np.array(lam), np.array(v)
    r = SampledSpectrum.average_spectrum_samples(l, w, a, b)
    c.check_eq(r * (b - a), integral(c, lam, v, b) - integral(c, lam, v, a), 'average')
    c.check_eq(lst(l) + lst(w), lam + v, 'samples unchanged')


@harness('C22', params=[[[300., 550., 800.], [0, 1, 2]], [[450., 380., 610.], [1, 0, 2]], [[400, 700], [0, 1]]])
def sampled(c, p):
    """a spectrum from measured values averages them over each of its 30 bands, in whatever order they are given"""
    lam, order = p
    v = [c.real('v%d' % i, 0, 10) for i in range(len(lam))]
    s = SampledSpectrum.from_sampled(lam, v)
    c.check(len(s) == 30, 'bands')
    ls, vs = [lam[i] for i in order], [v[i] for i in order]
    for i in range(30):
        a, b = 400. + 10. * i, 410. + 10. * i
        c.check_eq(s[i] * 10., integral(c, ls, vs, b) - integral(c, ls, vs, a), 'band')


@harness('C22', params=['reflectance', 'illuminant'])
def from_rgb(c, kind):
    """a spectrum from RGB is white as far as the least, the secondary of the other two as far as the middle, and the primary of the largest"""
    SampledSpectrum.init()
    tp = SpectrumType.REFLECTANCE if kind == 'reflectance' else SpectrumType.ILLUMINANT
    q = 'rgb%s2Spect' % ('Refl' if kind == 'reflectance' else 'Illum')
    get = lambda n: getattr(SampledSpectrum, q + n)
    order = c.choice('order', [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]])
    d = [c.real('least', 0, 1), c.real('more', 0.01, 1), c.real('most', 0.01, 1)]
    val = [d[0], d[0] + d[1], d[0] + d[1] + d[2]]
    rgb = [0., 0., 0.]
    for k, i in enumerate(order):
        rgb[i] = val[k]
    s = SampledSpectrum.from_rgb(rgb, tp)
    second = get(['Cyan', 'Magenta', 'Yellow'][order[0]])
    first = get(['Red', 'Green', 'Blue'][order[2]])
    white = get('White')
    k = .94 if kind == 'reflectance' else .86445
    for i in range(0, 30, 3):
        w = k * (d[0] * white[i] + d[1] * second[i] + d[2] * first[i])
        c.check_eq(s[i], c.ite(w < 0., 0., w), 'band')
    c.check_eq(rgb, [val[order.index(i)] for i in range(3)], 'given values unchanged')


@harness('C22')
def tables(c):
    """the colour matching tables are band averages of the standard data, and a flat spectrum has about its level as luminance"""
    SampledSpectrum.init()
    k = c.real('level', 0.1, 10)
    for name, src in (('X', data.CIE_X), ('Y', data.CIE_Y), ('Z', data.CIE_Z)):
        t = getattr(SampledSpectrum, name)
        for i in range(30):
            j = 40 + 10 * i
            want = (0.5 * float(src[j]) + sum(float(e) for e in src[j + 1:j + 10]) + 0.5 * float(src[j + 10])) / 10.
            c.check_eq(t[i] * k, want * k, 'table ' + name)
    s = SampledSpectrum()
    for i in range(30):
        s[i] = k
    c.check_eq(s.y(), k, 'luminance', tol=1e-2)
    c.check_eq(s.to_xyz()[1], s.y(), 'Y of the conversion')
