"""Stand-in for the `quaternion` extension module (numpy-quaternion)."""
import types
import numpy as np
from . import core, shimnp
from .core import S


class quaternion(object):
    def __init__(self, w=0., x=0., y=0., z=0.):
        self.w, self.x, self.y, self.z = [shimnp._norm(e) for e in (w, x, y, z)]

    real = property(lambda s: s.w)

    @property
    def imag(self):
        return shimnp.array([self.x, self.y, self.z], dtype=shimnp.float64)

    vec = imag

    @property
    def components(self):
        return shimnp.array([self.w, self.x, self.y, self.z], dtype=shimnp.float64)

    def __add__(self, o):
        if isinstance(o, quaternion):
            return quaternion(self.w + o.w, self.x + o.x, self.y + o.y, self.z + o.z)
        return quaternion(self.w + o, self.x, self.y, self.z)

    __radd__ = __add__

    def __neg__(self):
        return quaternion(-self.w, -self.x, -self.y, -self.z)

    def __sub__(self, o):
        if isinstance(o, quaternion):
            return self + (-o)
        return quaternion(self.w - o, self.x, self.y, self.z)

    def __mul__(self, o):
        if isinstance(o, quaternion):
            a, b = self, o
            return quaternion(a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z,
                              a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y,
                              a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x,
                              a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w)
        return quaternion(self.w * o, self.x * o, self.y * o, self.z * o)

    def __rmul__(self, o):
        return quaternion(o * self.w, o * self.x, o * self.y, o * self.z)

    def __truediv__(self, o):
        if isinstance(o, quaternion):
            n = o.norm()
            return self * quaternion(o.w / n, -o.x / n, -o.y / n, -o.z / n)
        return quaternion(shimnp._div_s(self.w, o), shimnp._div_s(self.x, o), shimnp._div_s(self.y, o),
                          shimnp._div_s(self.z, o))

    def norm(self):
        return self.w * self.w + self.x * self.x + self.y * self.y + self.z * self.z

    def abs(self):
        return shimnp.sqrt(self.norm())

    __abs__ = abs

    def conjugate(self):
        return quaternion(self.w, -self.x, -self.y, -self.z)

    conj = conjugate

    def normalized(self):
        return self / self.abs()

    def inverse(self):
        return self.conjugate() / self.norm()

    def copy(self):
        return quaternion(self.w, self.x, self.y, self.z)

    def __eq__(self, o):
        if not isinstance(o, quaternion):
            return False
        return shimnp.array_equal(self.components, o.components)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return 'quaternion(%s, %s, %s, %s)' % (self.w, self.x, self.y, self.z)


def module(npm):
    m = types.ModuleType('quaternion')
    m.quaternion = quaternion
    m.as_float_array = lambda q: q.components
    m.from_float_array = lambda a: quaternion(*a)
    m.one = quaternion(1., 0., 0., 0.)
    m.zero = quaternion()
    npm.quaternion = quaternion
    return m
