"""Tabulated distributions"""
from symx.reg import harness
from harness.hu import *
from pytracer.montecarlo import Distribution1D, Distribution2D

META = {
    'bounds': 'up to 4 entries in one dimension and 2 by 3 in two, each zero or in [0.1, 5], not all zero; u in [0, 1], also exactly 0 or 1; looked-up positions away from cell borders',
    'outside': 'tables whose sum is zero; u within 1e-6 of a step of the cumulative function (except 0 and 1); floating-point rounding',
}


def table(c, n, name, zero=True):
    z = [c.boolean('%s%d zero' % (name, i)) if zero else False for i in range(n)]
    if all(z):
        c.assume(False)
    return [0. if z[i] else c.real('%s%d' % (name, i), 0.1, 5) for i in range(n)]


def sample_u(c, f, name='u'):
    """u = 0 or inside some step; returns u, the step, and the place within it"""
    n = len(f)
    steps = [i for i in range(n) if not isinstance(f[i], float) or f[i] != 0.]
    if c.symbolic:
        pass
    k = c.integer(name + ' step', 0, n - 1)
    if k not in steps_of(c, f):
        c.assume(False)
    total = sum(f[1:], f[0])
    if c.boolean(name + ' zero'):
        if k != steps_of(c, f)[0]:
            c.assume(False)
        return 0., k, 0.
    t = c.real(name + ' place', 0.001, 0.999)
    return (sum(f[1:k], f[0]) + t * f[k] if k else t * f[k]) / total, k, t


def steps_of(c, f):
    return [i for i in range(len(f)) if not (isinstance(f[i], float) and f[i] == 0.)]


def check_place(c, x, n, k, t, label):
    c.check_eq(x * n, k + t, label)


@harness('C21', params=[1, 2, 4])
def continuous(c, n):
    """u is mapped to where the cumulative function reaches it, with the density there"""
    f = table(c, n, 'f')
    u, k, t = sample_u(c, f)
    a = np.array(f)
    x, pdf = Distribution1D(a).sample_cont(u)
    check_place(c, x, n, k, t, 'inverse of the cumulative function')
    c.check_eq(pdf * sum(f[1:], f[0]), f[k] * n, 'density')
    c.check_eq(lst(a), f, 'table unchanged')


@harness('C21', params=[1, 2, 4])
def discrete(c, n):
    """u selects the step that holds it, with its probability"""
    f = table(c, n, 'f')
    u, k, t = sample_u(c, f)
    x, pdf = Distribution1D(np.array(f)).sample_dis(u)
    c.check_eq(x, k, 'step')
    c.check_eq(pdf * sum(f[1:], f[0]), f[k], 'probability')


@harness('C21', params=[[2, 2], [2, 3], [3, 1]])
def plane(c, p):
    """v is drawn by the sums of rows, u within its row, and the density is that of the cell"""
    nv, nu = p
    zr = c.integer('zero row', 0, nv)            # which row is zero, if any
    f = [[0. if i == zr else c.real('f%d%d' % (i, j), 0.1, 5) for j in range(nu)] for i in range(nv)]
    rows = [0. if i == zr else sum(f[i][1:], f[i][0]) for i in range(nv)]
    u1, kv, tv = sample_u(c, rows, 'v')
    u0, ku, tu = sample_u(c, f[kv], 'u')
    d = Distribution2D(np.array(f))
    (u, v), pdf = d.sample_cont(u0, u1)
    check_place(c, u, nu, ku, tu, 'u')
    check_place(c, v, nv, kv, tv, 'v')
    mean = sum(rows[1:], rows[0]) / (nu * nv)
    c.check_eq(pdf * mean, f[kv][ku], 'density')
    if not isinstance(tv, float) and not isinstance(tu, float):
        c.check_eq(d.pdf(u, v) * mean, f[kv][ku], 'density looked up')


@harness('C21', params=[[2, 2], [2, 3]])
def lookup(c, p):
    """the density at a position is that of its cell, zero in a row of zeros"""
    nv, nu = p
    zr = c.integer('zero row', 0, nv)
    f = [[0. if i == zr else c.real('f%d%d' % (i, j), 0.1, 5) for j in range(nu)] for i in range(nv)]
    i, j = c.integer('i', 0, nv - 1), c.integer('j', 0, nu - 1)
    d = Distribution2D(np.array(f))
    v, u = (i + c.real('v', 0.001, 0.999)) / nv, (j + c.real('u', 0.001, 0.999)) / nu
    tot = sum([sum(r[1:], r[0]) for r in f], 0.)
    c.check_eq(d.pdf(u, v) * tot, f[i][j] * nu * nv, 'density')


@harness('C21', params=[1, 2, 4])
def end(c, n):
    """u of exactly one is the end of the table"""
    f = table(c, n, 'f', zero=False)
    d = Distribution1D(np.array(f))
    x, pdf = d.sample_cont(1.)
    c.check_eq(x, 1., 'end')
    c.check_eq(pdf * sum(f[1:], f[0]), f[n - 1] * n, 'density')
    x, pdf = d.sample_dis(1.)
    c.check_eq(x, n - 1, 'last')
    c.check_eq(pdf * sum(f[1:], f[0]), f[n - 1], 'probability')
