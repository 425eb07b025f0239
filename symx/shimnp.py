"""A stand-in for the `numpy` module that the code under test imports.

Float arrays become object arrays whose elements are np.float64 or symbolic
scalars; everything else is delegated to the real numpy.
"""
import builtins, math, types
import numpy as np
import z3
from . import core
from .core import S, SB, Unsupported, _lift, numval, rv_s

_real = np


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (S, builtins.float)) and not isinstance(x, bool)

    def __subclasscheck__(cls, c):
        try:
            return issubclass(c, (S, builtins.float))
        except TypeError:
            return False

    def __eq__(cls, o):
        return o is cls or o in (builtins.float, np.float64, np.float32) or isinstance(o, _FloatMeta) \
            or (isinstance(o, np.dtype) and o == np.dtype(object))

    def __ne__(cls, o):
        return not (cls == o)

    def __hash__(cls):
        return hash(np.float64)


def _tof(x):
    if isinstance(x, S):
        return x
    if isinstance(x, SB):
        return x._s()
    if isinstance(x, np.ndarray) and x.shape == ():
        return _tof(x.item())
    if isinstance(x, (np.ndarray, list, tuple)):
        return asarray(x, dtype=float64)
    return np.float64(x)


class float64(metaclass=_FloatMeta):
    def __new__(cls, x=0.):
        return _tof(x)


class pyfloat(metaclass=_FloatMeta):
    """stands for the builtin `float`"""
    def __new__(cls, x=0.):
        if isinstance(x, (S, SB)):
            return _tof(x)
        if isinstance(x, np.ndarray):
            return _tof(x.item())
        return builtins.float(x)

    @staticmethod
    def fromhex(s):
        return builtins.float.fromhex(s)


def _dt(dtype):
    """numpy dtype for a requested dtype"""
    if dtype is None:
        return None
    if isinstance(dtype, _FloatMeta):
        return object
    if isinstance(dtype, str):
        return object if dtype.startswith(('f', 'd')) else dtype
    try:
        d = np.dtype(dtype)
    except TypeError:
        return object
    if d.kind == 'f':
        return object
    return d


_NUM = (builtins.float, builtins.int, np.floating, np.integer)


def _norm(x):
    if isinstance(x, bool) or isinstance(x, np.bool_):
        return x
    if isinstance(x, _NUM) and not isinstance(x, np.float64):
        return np.float64(x)
    return x


class ndarray(np.ndarray):
    """array class seen by the code under test"""

    def __new__(cls, shape=(0,), dtype=None, *a, **k):
        return np.ndarray.__new__(cls, shape, _dt(dtype) or object, *a, **k)

    def __setitem__(self, k, v):
        if self.dtype == object:
            if isinstance(v, _NUM):
                v = _norm(v)
            elif isinstance(v, np.ndarray) and v.dtype != object and v.dtype.kind in 'fiu':
                v = _box(v)
        elif isinstance(v, S):
            v = int(v) if self.dtype.kind in 'iu' else v
        k = _idx(k)
        np.ndarray.__setitem__(self, k, v)

    def __getitem__(self, k):
        return np.ndarray.__getitem__(self, _idx(k))

    def astype(self, dtype, *a, **k):
        return _astype(self, dtype)

    def sum(self, axis=None, *a, **k):
        return sum_(self, axis)

    def prod(self, axis=None, *a, **k):
        return prod(self, axis)

    def mean(self, axis=None, *a, **k):
        return mean(self, axis)

    def max(self, axis=None, *a, **k):
        return max_(self, axis)

    def min(self, axis=None, *a, **k):
        return min_(self, axis)

    def all(self, axis=None, *a, **k):
        return all_(self, axis)

    def any(self, axis=None, *a, **k):
        return any_(self, axis)

    def clip(self, lo=None, hi=None, *a, **k):
        return clip(self, lo, hi)

    def argmin(self, *a, **k):
        return argmin(self)

    def argmax(self, *a, **k):
        return argmax(self)

    def argsort(self, *a, **k):
        return argsort(self)

    def dot(self, o):
        return dot(self, o)

    def __matmul__(self, o):
        return dot(self, o)

    def tolist(self):
        return np.ndarray.tolist(self)

    def fill(self, v):
        self[...] = v

    def __hash__(self):
        return id(self)

    # comparisons: keep symbolic results instead of forcing them
    def _c(self, o, f):
        if self.dtype == object or (isinstance(o, np.ndarray) and o.dtype == object) or isinstance(o, S):
            return _wrap(np.frompyfunc(f, 2, 1)(self.view(np.ndarray), _bare(o)))
        return None

    def __lt__(self, o):
        r = self._c(o, lambda a, b: a < b)
        return np.ndarray.__lt__(self, o) if r is None else r

    def __le__(self, o):
        r = self._c(o, lambda a, b: a <= b)
        return np.ndarray.__le__(self, o) if r is None else r

    def __gt__(self, o):
        r = self._c(o, lambda a, b: a > b)
        return np.ndarray.__gt__(self, o) if r is None else r

    def __ge__(self, o):
        r = self._c(o, lambda a, b: a >= b)
        return np.ndarray.__ge__(self, o) if r is None else r

    def __bool__(self):
        if self.size == 1:
            return bool(self.reshape(-1)[0])
        return np.ndarray.__bool__(self)


def _idx(k):
    if isinstance(k, np.ndarray) and k.dtype == object:
        if k.size and all(isinstance(e, (bool, np.bool_, SB)) for e in k.reshape(-1)):
            return np.array([bool(e) for e in k.reshape(-1)]).reshape(k.shape)
        if k.size and all(isinstance(e, (int, np.integer)) for e in k.reshape(-1)):
            return k.astype(int)
    if isinstance(k, tuple) and any(isinstance(e, np.ndarray) and e.dtype == object for e in k):
        return tuple(_idx(e) for e in k)
    return k


def _bare(o):
    return o.view(np.ndarray) if isinstance(o, np.ndarray) else o


def _box(a):
    """real numeric array -> object array of np.float64"""
    r = np.empty(a.shape, dtype=object)
    flat = a.reshape(-1)
    rf = r.reshape(-1)
    for i in range(flat.size):
        rf[i] = np.float64(flat[i])
    return r


def _wrap(a):
    if isinstance(a, ndarray):
        return a
    if isinstance(a, np.ndarray):
        return a.view(ndarray)
    return a


def _hassym(x):
    if isinstance(x, (S, SB)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(e, (S, SB)) for e in x.reshape(-1))
    if isinstance(x, (list, tuple)):
        return any(_hassym(e) for e in x)
    return False


def _unbox(x):
    """fully concrete object array/list -> real float array"""
    if isinstance(x, np.ndarray) and x.dtype == object:
        return np.array([_unboxs(e) for e in x.reshape(-1)], dtype=np.float64).reshape(x.shape)
    if isinstance(x, (list, tuple)):
        return np.array([_unbox(e) for e in x])
    return _unboxs(x)


def _unboxs(e):
    return e


def _astype(a, dtype):
    if isinstance(a, S):
        return core.conv_dtype(a, dtype)
    d = _dt(dtype)
    if d is object:
        if a.dtype == object:
            r = a.copy()
            f = r.reshape(-1)
            for i in range(f.size):
                np.ndarray.__setitem__(f, i, _norm(_tof(f[i])) if not isinstance(f[i], np.ndarray) else f[i])
            return r.reshape(a.shape)
        return _box(a).view(type(a) if isinstance(a, ndarray) else ndarray)
    if a.dtype == object and np.dtype(d) == np.uint8 and any(isinstance(x, S) for x in a.reshape(-1)):
        # levels stay symbolic; what does not fit wraps around
        r = np.empty(a.shape, dtype=object)
        rf, af = r.reshape(-1), a.reshape(-1)
        for i in range(af.size):
            x = af[i]
            if isinstance(x, S):
                if not bool(x >= 0) or not bool(x < 256):
                    x = int(x) % 256
                else:
                    x = core.trunc_any(x)
            else:
                x = int(x) % 256
            rf[i] = x
        return r.view(ndarray)
    if a.dtype == object and np.dtype(d).kind in 'iub':
        r = np.empty(a.shape, dtype=d)
        rf, af = r.reshape(-1), a.reshape(-1)
        for i in range(af.size):
            rf[i] = bool(af[i]) if np.dtype(d).kind == 'b' else int(af[i])
        return r.view(ndarray)
    return np.ndarray.astype(a, d).view(ndarray)


def array(x, dtype=None, copy=True, *a, **k):
    d = _dt(dtype)
    if isinstance(x, (S, SB)):
        r = np.empty((), dtype=object)
        r[()] = x
        return r.view(ndarray)
    if isinstance(x, np.ndarray):
        if d is None:
            r = x.copy() if copy else x
            if not k.get('subok'):
                r = r.view(np.ndarray)
            if r.dtype.kind == 'f':
                r = _box(r)
            return r.view(ndarray)
        return _astype(x.view(ndarray) if not isinstance(x, ndarray) else x.view(ndarray), dtype)
    if isinstance(x, types.GeneratorType):
        r = np.empty((), dtype=object)
        r[()] = x
        return r.view(ndarray)
    if not isinstance(x, (list, tuple, range)):
        try:
            r = np.array(x, dtype=None if d is object and not _hassym(x) else d)
        except Exception:
            r = np.empty((), dtype=object)
            r[()] = x
        if r.dtype.kind == 'f' or (d is object and r.dtype.kind in 'iu'):
            r = _box(r)
        return r.view(ndarray)
    # nested list: find whether it is numeric
    shp, leaves = _shape(list(x))
    if shp is None:
        # ragged or objects
        r = np.empty(len(x), dtype=object)
        for i, e in enumerate(x):
            r[i] = e
        return r.view(ndarray)
    allnum = all(isinstance(e, (int, float, np.number, bool, np.bool_)) for e in leaves)
    if allnum and d is not object:
        r = np.array(leaves, dtype=d).reshape(shp) if leaves else np.empty(shp, dtype=d or object)
        if r.dtype.kind == 'f':
            r = _box(r)
        return r.view(ndarray)
    if d is not None and d is not object:
        r = np.empty(shp, dtype=d)
        f = r.reshape(-1)
        for i, e in enumerate(leaves):
            f[i] = int(e) if np.dtype(d).kind in 'iu' else bool(e) if np.dtype(d).kind == 'b' else e
        return r.view(ndarray)
    r = np.empty(shp, dtype=object)
    f = r.reshape(-1)
    anys = d is object or any(isinstance(e, (S, float, np.floating)) for e in leaves)
    for i, e in enumerate(leaves):
        f[i] = _norm(e) if anys else e
    return r.view(ndarray)


def _shape(x):
    """(shape, leaves) of a nested list of scalars/arrays; (None, None) when ragged"""
    if isinstance(x, np.ndarray):
        return x.shape, list(x.reshape(-1)) if x.shape != () else [x.item()]
    if isinstance(x, (list, tuple, range)):
        if len(x) == 0:
            return (0,), []
        subs = [_shape(e) for e in x]
        s0 = subs[0][0]
        if any(s[0] is None or s[0] != s0 for s in subs):
            return None, None
        leaves = []
        for s in subs:
            leaves.extend(s[1])
        return (len(x),) + s0, leaves
    return (), [x]


def asarray(x, dtype=None, *a, **k):
    if isinstance(x, ndarray) and dtype is None:
        return x.view(ndarray)
    return array(x, dtype=dtype)


def asanyarray(x, dtype=None):
    if isinstance(x, ndarray) and dtype is None:
        return x
    return array(x, dtype=dtype)


ascontiguousarray = asarray
asfarray = lambda x, dtype=None: array(x, dtype=float64)


def empty(shape, dtype=float64, *a, **k):
    d = _dt(dtype)
    r = np.empty(_shp(shape), dtype=d)
    if d is object:
        r.fill(np.float64(0.))
    return r.view(ndarray)


def _shp(s):
    if isinstance(s, np.ndarray):
        return tuple(int(e) for e in s.reshape(-1))
    if isinstance(s, (list, tuple)):
        return tuple(int(e) for e in s)
    return int(s)


def full(shape, v, dtype=None, *a, **k):
    if dtype is None:
        if isinstance(v, (bool, np.bool_)):
            d = bool
        elif isinstance(v, (int, np.integer)):
            d = int
        else:
            d = object
    else:
        d = _dt(dtype)
    r = np.empty(_shp(shape), dtype=d).view(ndarray)
    r[...] = v
    return r


def zeros(shape, dtype=float64, *a, **k):
    return full(shape, 0 if _dt(dtype) is not object else 0., dtype)


def ones(shape, dtype=float64, *a, **k):
    return full(shape, 1 if _dt(dtype) is not object else 1., dtype)


def zeros_like(a, dtype=None):
    a = asanyarray(a)
    return full(a.shape, 0., dtype if dtype is not None else (float64 if a.dtype == object else a.dtype)).view(type(a))


def ones_like(a, dtype=None):
    a = asanyarray(a)
    return full(a.shape, 1., dtype if dtype is not None else (float64 if a.dtype == object else a.dtype)).view(type(a))


def full_like(a, v, dtype=None):
    a = asanyarray(a)
    return full(a.shape, v, dtype if dtype is not None else (float64 if a.dtype == object else a.dtype)).view(type(a))


def empty_like(a, dtype=None):
    return zeros_like(a, dtype)


def eye(n, m=None, dtype=float64, *a, **k):
    return asarray(np.eye(n, m), dtype=dtype)


identity = eye


def arange(*a, **k):
    dtype = k.pop('dtype', None)
    if any(isinstance(x, S) for x in a):
        raise Unsupported('arange of symbolic bounds')
    r = np.arange(*a)
    if dtype is not None:
        return _astype(r.view(ndarray), dtype)
    return array(r)


def linspace(a, b, num=50, endpoint=True, dtype=None, **k):
    n = int(num)
    den = (n - 1) if endpoint else n
    return array([a + (b - a) * (np.float64(i) / den if den else 0.) for i in range(n)], dtype=float64)


def copy(a, *x, **k):
    return array(a)


# ------------------------------------------------------------- elementwise
def _mk1(name, fscalar):
    def f(x, out=None, where=True, dtype=None, **k):
        if isinstance(x, (np.ndarray, list, tuple)):
            arr = asanyarray(x)
            r = np.frompyfunc(fscalar, 1, 1)(arr.view(np.ndarray))
            if not isinstance(r, np.ndarray):
                return r
            if all(isinstance(e, (bool, np.bool_)) for e in r.reshape(-1)):
                r = r.astype(bool)
            if out is not None:
                out[...] = r
                return out
            return r.view(type(arr))
        return fscalar(x)
    f.__name__ = name
    return f


def _s1(method, realf):
    def g(x):
        if isinstance(x, SB):
            x = x._s()
        if isinstance(x, S):
            return getattr(x, method)()
        if isinstance(x, (int, np.integer)) and not isinstance(x, bool):
            x = np.float64(x)
        with np.errstate(all='ignore'):
            return realf(x)
    return g


def _abs_s(x):
    if isinstance(x, S):
        return abs(x)
    return np.abs(x)


sqrt = _mk1('sqrt', _s1('sqrt', np.sqrt))
sin = _mk1('sin', _s1('sin', np.sin))
cos = _mk1('cos', _s1('cos', np.cos))
tan = _mk1('tan', _s1('tan', np.tan))
exp = _mk1('exp', _s1('exp', np.exp))
log = _mk1('log', _s1('log', np.log))
log2 = _mk1('log2', _s1('log2', np.log2))
log10 = _mk1('log10', _s1('log10', np.log10))
log1p = _mk1('log1p', lambda x: _s1('log', np.log)(1 + x))
expm1 = _mk1('expm1', lambda x: _s1('exp', np.exp)(x) - 1)
arccos = _mk1('arccos', _s1('arccos', np.arccos))
arcsin = _mk1('arcsin', _s1('arcsin', np.arcsin))
arctan = _mk1('arctan', _s1('arctan', np.arctan))
fabs = _mk1('fabs', _s1('fabs', np.fabs))
abs_ = _mk1('abs', _abs_s)
absolute = abs_
floor = _mk1('floor', _s1('floor', np.floor))
ceil = _mk1('ceil', _s1('ceil', np.ceil))
trunc = _mk1('trunc', _s1('trunc', np.trunc))
fix = trunc
rint = _mk1('rint', _s1('rint', np.rint))
sign = _mk1('sign', _s1('sign', np.sign))
square = _mk1('square', lambda x: x * x)
reciprocal = _mk1('reciprocal', lambda x: _div_s(1., x))
negative = _mk1('negative', lambda x: -x)
positive = _mk1('positive', lambda x: x)


def _angle(x, m, realf):
    if isinstance(x, S):
        return getattr(x, m)()
    if core.ENG is not None and isinstance(x, (int, float, np.number)) and m == 'deg2rad' and math.isfinite(x):
        return S(core.rv(x)).deg2rad()
    return realf(x)


deg2rad = _mk1('deg2rad', lambda x: _angle(x, 'deg2rad', np.deg2rad))
rad2deg = _mk1('rad2deg', lambda x: _angle(x, 'rad2deg', np.rad2deg))
radians, degrees = deg2rad, rad2deg
sinc = _mk1('sinc', _s1('sinc', np.sinc))
isnan = _mk1('isnan', lambda x: False if isinstance(x, (S, SB)) else bool(np.isnan(x)))
isinf = _mk1('isinf', lambda x: False if isinstance(x, (S, SB)) else bool(np.isinf(x)))
isfinite = _mk1('isfinite', lambda x: True if isinstance(x, (S, SB)) else bool(np.isfinite(x)))


def _lnot(x):
    return ~x if isinstance(x, SB) else not x


logical_not = _mk1('logical_not', _lnot)


def around(x, decimals=0, out=None):
    if decimals:
        if _hassym(x):
            raise Unsupported('round with decimals')
        return array(np.round(_unbox(x), decimals)) if isinstance(x, (np.ndarray, list)) else np.round(x, decimals)
    return rint(x)


round_ = around


def nan_to_num(x, *a, **k):
    if isinstance(x, (np.ndarray, list)):
        return _mk1('n', lambda e: e if isinstance(e, S) else np.nan_to_num(e))(x)
    return x if isinstance(x, S) else np.nan_to_num(x)


def _mk2(name, fscalar):
    def f(a, b, out=None, dtype=None, where=True, **k):
        if isinstance(a, (np.ndarray, list, tuple)) or isinstance(b, (np.ndarray, list, tuple)):
            aa = asanyarray(a) if isinstance(a, (np.ndarray, list, tuple)) else a
            bb = asanyarray(b) if isinstance(b, (np.ndarray, list, tuple)) else b
            r = np.frompyfunc(fscalar, 2, 1)(_bare(aa), _bare(bb))
            if not isinstance(r, np.ndarray):
                return r
            if r.size and all(isinstance(e, (bool, np.bool_)) for e in r.reshape(-1)):
                r = r.astype(bool)
            elif r.size and all(isinstance(e, (int, np.integer)) for e in r.reshape(-1)) and \
                    all(getattr(z, 'dtype', None) != object for z in (aa, bb)):
                r = r.astype(int)
            if out is not None:
                out[...] = r
                return out
            t = type(aa) if isinstance(aa, np.ndarray) else type(bb)
            if isinstance(aa, np.ndarray) and isinstance(bb, np.ndarray) and type(aa) is ndarray:
                t = type(bb)
            r = r.view(t if issubclass(t, ndarray) else ndarray)
            if dtype is not None:
                r = _astype(r, dtype)
            return r
        r = fscalar(a, b)
        if dtype is not None and isinstance(r, S):
            r = core.conv_dtype(r, dtype)
        elif dtype is not None and _dt(dtype) is not object:
            r = np.dtype(_dt(dtype)).type(r)
        return r
    f.__name__ = name
    return f


def _div_s(a, b):
    if isinstance(a, (S, SB)) or isinstance(b, (S, SB)):
        return a / b
    with np.errstate(all='ignore'):
        return np.true_divide(a, b)


def _n(x):
    return x if isinstance(x, (S, SB)) else np.float64(x) if isinstance(x, float) else x


def _fm(a, b, mn):
    # fmin/fmax: ignores nan
    if not isinstance(a, S) and isinstance(a, float) and math.isnan(a):
        return b
    if not isinstance(b, S) and isinstance(b, float) and math.isnan(b):
        return a
    return core._mm(a, b, mn)


def _mmx(a, b, mn):
    for z in (a, b):
        if not isinstance(z, S) and isinstance(z, float) and math.isnan(z):
            return np.float64('nan')
    return core._mm(a, b, mn)


multiply = _mk2('multiply', lambda a, b: _n(a) * _n(b))
add = _mk2('add', lambda a, b: _n(a) + _n(b))
subtract = _mk2('subtract', lambda a, b: _n(a) - _n(b))
true_divide = _mk2('true_divide', _div_s)
divide = true_divide
floor_divide = _mk2('floor_divide', lambda a, b: _n(a) // _n(b))
fmax = _mk2('fmax', lambda a, b: _fm(a, b, False))
fmin = _mk2('fmin', lambda a, b: _fm(a, b, True))
maximum = _mk2('maximum', lambda a, b: _mmx(a, b, False))
minimum = _mk2('minimum', lambda a, b: _mmx(a, b, True))
mod = _mk2('mod', lambda a, b: _n(a) % _n(b))
remainder = mod


def _fmod(a, b):
    if isinstance(a, S) or isinstance(b, S):
        q = a / b
        return a - (q.trunc() if isinstance(q, S) else np.trunc(q)) * b
    return np.fmod(a, b)


fmod = _mk2('fmod', _fmod)
hypot = _mk2('hypot', lambda a, b: sqrt(a * a + b * b))
less = _mk2('less', lambda a, b: a < b)
less_equal = _mk2('less_equal', lambda a, b: a <= b)
greater = _mk2('greater', lambda a, b: a > b)
greater_equal = _mk2('greater_equal', lambda a, b: a >= b)
equal = _mk2('equal', lambda a, b: a == b)
not_equal = _mk2('not_equal', lambda a, b: a != b)


def _toB(x):
    if isinstance(x, SB):
        return x
    if isinstance(x, S):
        return core.sb(x.e != core.ZERO)
    return bool(x)


def _land(a, b):
    a, b = _toB(a), _toB(b)
    if isinstance(a, SB) or isinstance(b, SB):
        return core.SB(z3.And(core._z3bool(a), core._z3bool(b)))
    return a and b


def _lor(a, b):
    a, b = _toB(a), _toB(b)
    if isinstance(a, SB) or isinstance(b, SB):
        return core.SB(z3.Or(core._z3bool(a), core._z3bool(b)))
    return a or b


logical_and = _mk2('logical_and', _land)
logical_or = _mk2('logical_or', _lor)
logical_xor = _mk2('logical_xor', lambda a, b: _toB(a) ^ _toB(b))


def _pow_s(a, b):
    if isinstance(a, (S, SB)) or isinstance(b, (S, SB)):
        la, lb = _lift(a), _lift(b)
        return core.s_pow(la, lb)
    with np.errstate(all='ignore'):
        if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)):
            return np.power(a, b)
        return np.power(np.float64(a), b)


power = _mk2('power', _pow_s)
float_power = power


def _at2(a, b):
    if isinstance(a, S) or isinstance(b, S):
        la, lb = _lift(a), _lift(b)
        return core.s_arctan2(la, lb)
    return np.arctan2(a, b)


arctan2 = _mk2('arctan2', _at2)


def _csign(a, b):
    if isinstance(a, S) or isinstance(b, S):
        m = abs(a)
        return m if b >= 0 else -m
    return np.copysign(a, b)


copysign = _mk2('copysign', _csign)


def clip(x, lo, hi, out=None, **k):
    if all(isinstance(e, (int, float, np.number)) for e in (x, lo, hi)):
        return np.clip(x, lo, hi)
    def g(e, l, h):
        if isinstance(e, float) and math.isnan(e):
            return e
        if isinstance(e, S):
            if isinstance(l, (int, float, S)) and isinstance(core._lift(l), S) and core.ENG.decided(e.e >= core._lift(l).e):
                l = None
            if isinstance(h, (int, float, S)) and isinstance(core._lift(h), S) and core.ENG.decided(e.e <= core._lift(h).e):
                h = None
        if l is not None:
            e = core._mm(e, l, False)
        if h is not None:
            e = core._mm(e, h, True)
        return e
    if isinstance(x, (np.ndarray, list, tuple)) or isinstance(lo, np.ndarray) or isinstance(hi, np.ndarray):
        arr = asanyarray(x)
        r = np.frompyfunc(g, 3, 1)(_bare(arr), _bare(lo), _bare(hi))
        if arr.dtype.kind in 'iu' and all(isinstance(e, (int, np.integer)) for e in r.reshape(-1)):
            r = r.astype(arr.dtype)
        if out is not None:
            out[...] = r
            return out
        return r.view(type(arr))
    return g(x, lo, hi)


def where(c, *ab):
    if not ab:
        c = asanyarray(c)
        m = np.array([bool(e) for e in c.reshape(-1)]).reshape(c.shape)
        return np.where(m)
    a, b = ab

    def g(cc, x, y):
        if isinstance(cc, SB):
            lx, ly = _lift(x), _lift(y)
            if isinstance(lx, S) and isinstance(ly, S) and core.ENG.ite and not lx.d and not ly.d:
                return S(z3.If(cc.e, lx.e, ly.e))
        return x if cc else y
    if any(isinstance(z, (np.ndarray, list, tuple)) for z in (c, a, b)):
        r = np.frompyfunc(g, 3, 1)(*[_bare(asanyarray(z)) if isinstance(z, (np.ndarray, list, tuple)) else z
                                     for z in (c, a, b)])
        return _wrap(r)
    return g(c, a, b)


select = None


# ------------------------------------------------------------- reductions
def _reduce(f, a, axis, init):
    a = asanyarray(a)
    if isinstance(axis, tuple):
        for ax in sorted([x % a.ndim for x in axis], reverse=True):
            a = asanyarray(_reduce(f, a, ax, init))
        return a if a.shape != () else a.item()
    if axis is None:
        it = list(a.reshape(-1))
        if not it:
            if init is None:
                raise ValueError('zero-size array to reduction operation')
            return init
        acc = it[0]
        for e in it[1:]:
            acc = f(acc, e)
        return acc
    n = a.shape[axis]
    b = np.moveaxis(a.view(np.ndarray), axis, 0)
    if n == 0:
        return full(b.shape[1:], init)
    acc = b[0].copy() if isinstance(b[0], np.ndarray) else b[0]
    g = np.frompyfunc(f, 2, 1)
    for i in range(1, n):
        acc = g(acc, b[i])
    if isinstance(acc, np.ndarray):
        if all(isinstance(e, (int, np.integer)) for e in acc.reshape(-1)) and a.dtype != object:
            acc = acc.astype(int)
        return acc.view(type(a))
    return acc


def _plainint(a):
    return isinstance(a, np.ndarray) and a.dtype.kind in 'iub'


def sum_(a, axis=None, *x, **k):
    if isinstance(a, types.GeneratorType):
        return builtins.sum(a)
    a = asanyarray(a)
    if _plainint(a):
        return np.sum(a.view(np.ndarray), axis=axis)
    return _reduce(lambda p, q: p + q, a, axis, np.float64(0.))


def prod(a, axis=None, *x, **k):
    a = asanyarray(a)
    if _plainint(a):
        return np.prod(a.view(np.ndarray), axis=axis)
    return _reduce(lambda p, q: p * q, a, axis, np.float64(1.))


def mean(a, axis=None, *x, **k):
    a = asanyarray(a)
    n = a.size if axis is None else a.shape[axis]
    return sum_(_astype(a, float64) if a.dtype != object else a, axis) / n


average = mean


def max_(a, axis=None, *x, **k):
    a = asanyarray(a)
    if _plainint(a):
        return np.max(a.view(np.ndarray), axis=axis)
    return _reduce(lambda p, q: _mmx(p, q, False), a, axis, None)


def min_(a, axis=None, *x, **k):
    a = asanyarray(a)
    if _plainint(a):
        return np.min(a.view(np.ndarray), axis=axis)
    return _reduce(lambda p, q: _mmx(p, q, True), a, axis, None)


def all_(a, axis=None, *x, **k):
    return _reduce(_land, asanyarray(a), axis, True) if axis is not None or asanyarray(a).size != 1 \
        else _toB(asanyarray(a).reshape(-1)[0])


def any_(a, axis=None, *x, **k):
    return _reduce(_lor, asanyarray(a), axis, False) if axis is not None or asanyarray(a).size != 1 \
        else _toB(asanyarray(a).reshape(-1)[0])


def cumsum(a, axis=None, *x, **k):
    a = asanyarray(a)
    if _plainint(a):
        return _wrap(np.cumsum(a.view(np.ndarray), axis=axis))
    if a.ndim > 1:
        raise Unsupported('cumsum nd')
    out, acc = [], None
    for e in a:
        acc = e if acc is None else acc + e
        out.append(acc)
    return array(out, dtype=float64)


def count_nonzero(a, *x, **k):
    return builtins.sum(1 for e in asanyarray(a).reshape(-1) if e)


def argmin(a, axis=None, **k):
    l = list(asanyarray(a).reshape(-1))
    b = 0
    for i in range(1, len(l)):
        if l[i] < l[b]:
            b = i
    return b


def argmax(a, axis=None, **k):
    l = list(asanyarray(a).reshape(-1))
    b = 0
    for i in range(1, len(l)):
        if l[i] > l[b]:
            b = i
    return b


def argsort(a, axis=-1, kind=None, **k):
    l = list(asanyarray(a).reshape(-1))
    idx = []
    for i in range(len(l)):          # insertion sort (stable)
        j = len(idx)
        while j > 0 and l[i] < l[idx[j - 1]]:
            j -= 1
        idx.insert(j, i)
    return array(idx, dtype=int)


def sort(a, axis=-1, **k):
    a = asanyarray(a)
    if a.ndim != 1:
        if _hassym(a):
            raise Unsupported('sort nd')
        return array(np.sort(_unbox(a), axis=axis))
    return a.view(ndarray)[argsort(a)]


def searchsorted(a, v, side='left', sorter=None):
    if isinstance(v, (np.ndarray, list, tuple)):
        return array([searchsorted(a, e, side) for e in v], dtype=int)
    l = list(asanyarray(a).reshape(-1))
    # the first index i with l[i] >= v (left) / l[i] > v (right); binary, like numpy
    lo, hi = 0, len(l)
    while lo < hi:
        m = (lo + hi) // 2
        c = (l[m] < v) if side == 'left' else (l[m] <= v)
        if c:
            lo = m + 1
        else:
            hi = m
    return lo


def digitize(x, bins, right=False):
    return searchsorted(bins, x, side='left' if right else 'right')


def trapz(y, x=None, dx=1., **k):
    y = asanyarray(y)
    n = len(y)
    acc = np.float64(0.)
    for i in range(n - 1):
        h = dx if x is None else x[i + 1] - x[i]
        acc = acc + (y[i] + y[i + 1]) * h / 2.
    return acc


trapezoid = trapz


def interp(x, xp, fp, left=None, right=None):
    if isinstance(x, (np.ndarray, list, tuple)):
        return array([interp(e, xp, fp, left, right) for e in x], dtype=float64)
    n = len(xp)
    if x < xp[0]:
        return fp[0] if left is None else left
    if x > xp[n - 1]:
        return fp[n - 1] if right is None else right
    for i in range(n - 1):
        if x <= xp[i + 1]:
            return fp[i] + (fp[i + 1] - fp[i]) * (x - xp[i]) / (xp[i + 1] - xp[i])
    return fp[n - 1]


# ------------------------------------------------------------- shapes
def shape(a):
    if isinstance(a, (S, SB)):
        return ()
    if isinstance(a, np.ndarray):
        return a.shape
    return np.shape(a) if not _hassym(a) else asanyarray(a).shape


def ndim(a):
    return len(shape(a))


def size(a, axis=None):
    a = asanyarray(a)
    return a.size if axis is None else a.shape[axis]


def _deleg(name):
    rf = getattr(np, name)

    def conv(x):
        if isinstance(x, np.ndarray):
            return x.view(np.ndarray)
        if isinstance(x, (list, tuple)):
            if any(isinstance(e, (np.ndarray, list, tuple)) for e in x):
                return type(x)(conv(e) if not isinstance(e, (S, SB)) else e for e in x)
            if _hassym(x) or any(isinstance(e, float) for e in x):
                return asanyarray(x).view(np.ndarray)
        return x

    def f(*a, **k):
        if 'dtype' in k:
            k['dtype'] = _dt(k['dtype'])
        r = rf(*[conv(x) for x in a], **k)
        if isinstance(r, np.ndarray):
            if r.dtype.kind == 'f':
                r = _box(r)
            return r.view(ndarray)
        if isinstance(r, list):
            return [_wrap(e) for e in r]
        return r
    f.__name__ = name
    return f


for _nm in ('tile', 'repeat', 'column_stack', 'concatenate', 'hstack', 'vstack', 'stack', 'dstack', 'reshape',
            'ravel', 'transpose', 'swapaxes', 'moveaxis', 'rollaxis', 'squeeze', 'expand_dims', 'flip', 'fliplr',
            'flipud', 'roll', 'append', 'insert', 'delete', 'atleast_1d', 'atleast_2d', 'broadcast_to', 'diag',
            'triu', 'tril', 'split', 'array_split', 'meshgrid', 'take', 'rot90', 'resize', 'pad', 'diagonal',
            'trace'):
    globals()[_nm] = _deleg(_nm)


def array_equal(a, b, **k):
    try:
        aa, bb = asanyarray(a), asanyarray(b)
    except Exception:
        return False
    if aa.shape != bb.shape:
        return False
    acc = []
    for x, y in zip(aa.reshape(-1), bb.reshape(-1)):
        c = x == y
        if isinstance(c, (bool, np.bool_)):
            if not c:
                return False
        elif isinstance(c, SB):
            acc.append(c.e)
        elif not c:
            return False
    if not acc:
        return True
    return core.sb(z3.simplify(z3.And(acc)))


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    def g(x, y):
        if isinstance(x, S) or isinstance(y, S):
            lx, ly = _lift(x), _lift(y)
            if not isinstance(lx, S) or not isinstance(ly, S):
                return False
            return abs(lx - ly) <= atol + rtol * abs(ly)
        return bool(np.isclose(x, y, rtol, atol, equal_nan))
    return _mk2('isclose', g)(a, b)


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return all_(isclose(a, b, rtol, atol, equal_nan))


# ------------------------------------------------------------- linear algebra
def _dot1(x, y):
    acc = None
    for a, b in zip(x, y):
        t = a * b
        acc = t if acc is None else acc + t
    return np.float64(0.) if acc is None else acc


def dot(a, b, out=None):
    if isinstance(a, (S, SB, int, float, np.number)) or isinstance(b, (S, SB, int, float, np.number)):
        return a * b
    A, B = asanyarray(a), asanyarray(b)
    if A.shape == () or B.shape == ():
        return A * B
    if A.dtype != object and B.dtype != object:
        return _wrap(np.dot(A.view(np.ndarray), B.view(np.ndarray)))
    A_, B_ = A.view(np.ndarray), B.view(np.ndarray)
    if A.ndim == 1 and B.ndim == 1:
        if A.shape != B.shape:
            raise ValueError('shapes not aligned')
        return _dot1(A_, B_)
    # result class: numpy picks the subclass of the first argument
    t = type(A) if type(A) is not ndarray else type(B)
    if A.ndim == 2 and B.ndim == 1:
        if A.shape[1] != B.shape[0]:
            raise ValueError('shapes %s and %s not aligned' % (A.shape, B.shape))
        r = np.empty(A.shape[0], dtype=object)
        for i in range(A.shape[0]):
            r[i] = _dot1(A_[i], B_)
        return r.view(t)
    if A.ndim == 1 and B.ndim == 2:
        if A.shape[0] != B.shape[0]:
            raise ValueError('shapes not aligned')
        r = np.empty(B.shape[1], dtype=object)
        for j in range(B.shape[1]):
            r[j] = _dot1(A_, B_[:, j])
        return r.view(t)
    if A.ndim == 2 and B.ndim == 2:
        if A.shape[1] != B.shape[0]:
            raise ValueError('shapes not aligned')
        r = np.empty((A.shape[0], B.shape[1]), dtype=object)
        for i in range(A.shape[0]):
            for j in range(B.shape[1]):
                r[i, j] = _dot1(A_[i], B_[:, j])
        return r.view(t)
    return _wrap(np.dot(A_, B_))


matmul = dot
vdot = dot
inner = lambda a, b: dot(a, asanyarray(b).T if asanyarray(b).ndim == 2 else b)


def outer(a, b):
    a, b = asanyarray(a).reshape(-1), asanyarray(b).reshape(-1)
    r = np.empty((len(a), len(b)), dtype=object)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i, j] = x * y
    return r.view(ndarray)


def cross(a, b, *x, **k):
    a, b = asanyarray(a), asanyarray(b)
    r = np.empty(3, dtype=object).view(ndarray)
    r[0] = a[1] * b[2] - a[2] * b[1]
    r[1] = a[2] * b[0] - a[0] * b[2]
    r[2] = a[0] * b[1] - a[1] * b[0]
    return r


def einsum(*a):
    return _wrap(np.einsum(*[_bare(x) for x in a]))


class _LinAlgError(np.linalg.LinAlgError):
    pass


LinAlgError = np.linalg.LinAlgError


def _det(M):
    n = M.shape[0]
    if n == 1:
        return M[0, 0]
    if n == 2:
        return M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0]
    acc = None
    for j in range(n):
        m = M[0, j]
        if not isinstance(m, S) and m == 0:
            continue
        if isinstance(m, S) and numval(m.e) == 0:
            continue
        sub = np.delete(np.delete(M, 0, 0), j, 1)
        t = m * _det(sub)
        if j % 2:
            t = -t
        acc = t if acc is None else acc + t
    return np.float64(0.) if acc is None else acc


def det(M):
    M = asanyarray(M)
    if not _hassym(M):
        return np.linalg.det(_unbox(M.view(np.ndarray)))
    return _det(M.view(np.ndarray))


def inv(M):
    M = asanyarray(M)
    if M.ndim != 2 or M.shape[0] != M.shape[1]:
        raise LinAlgError('not square')
    if not _hassym(M):
        return _box(np.linalg.inv(_unbox(M.view(np.ndarray)))).view(ndarray)
    A = M.view(np.ndarray)
    n = A.shape[0]
    d = _det(A)
    if isinstance(d, S):
        n0 = numval(d.e)
        if n0 == 0 if n0 is not None else core.ENG.is_zero(d.e):
            raise LinAlgError('Singular matrix')
    elif d == 0:
        raise LinAlgError('Singular matrix')
    r = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            sub = np.delete(np.delete(A, j, 0), i, 1)
            c = _det(sub) if n > 1 else np.float64(1.)
            if (i + j) % 2:
                c = -c
            r[i, j] = c / d
    return r.view(ndarray)


def solve(A, b):
    A, b = asanyarray(A), asanyarray(b)
    if not _hassym(A) and not _hassym(b):
        return _box(np.linalg.solve(_unbox(A.view(np.ndarray)), _unbox(b.view(np.ndarray)))).view(ndarray)
    if not _hassym(A):
        # exact inverse of the fixed matrix
        A = A.view(np.ndarray)
        X = np.empty(A.shape, dtype=object)
        for i in range(A.shape[0]):
            for j in range(A.shape[1]):
                X[i, j] = rv_s(A[i, j])
        A = X.view(ndarray)
    return dot(inv(A), b)


def norm(x, ord=None, axis=None, **k):
    if ord not in (None, 2) or axis is not None:
        raise Unsupported('norm')
    a = asanyarray(x).reshape(-1)
    return sqrt(_dot1(a.view(np.ndarray), a.view(np.ndarray)))


linalg = types.SimpleNamespace(inv=inv, det=det, solve=solve, norm=norm, LinAlgError=LinAlgError,
                               linalg=types.SimpleNamespace(LinAlgError=LinAlgError), pinv=inv)


def roots(p):
    p = [e for e in asanyarray(p).reshape(-1)]
    if not _hassym(p):
        return array(np.roots([float(e) for e in p]))
    p = list(p)
    while p and not bool(p[0] != 0):
        p.pop(0)
    if len(p) < 2:
        return array([], dtype=float64)
    if len(p) == 2:
        return array([-p[1] / p[0]], dtype=float64)
    if len(p) == 3:
        a, b, c = p
        disc = b * b - 4 * a * c
        if disc < 0:
            raise Unsupported('complex roots')
        r = sqrt(disc)
        x0, x1 = (-b - r) / (2 * a), (-b + r) / (2 * a)
        # numpy promises no order
        if core.ENG.choose('roots%d' % core.ENG.nfresh, 2):
            x0, x1 = x1, x0
        return array([x0, x1], dtype=float64)
    raise Unsupported('roots of degree > 2')


def frompyfunc(f, nin, nout):
    uf = np.frompyfunc(f, nin, nout)

    def g(*a):
        r = uf(*[_bare(asanyarray(x)) if isinstance(x, (np.ndarray, list, tuple)) else x for x in a])
        return _wrap(r)
    return g


def vectorize(f, otypes=None, **k):
    def g(*a):
        n = len(a)
        r = np.frompyfunc(f, n, 1)(*[_bare(asanyarray(x)) if isinstance(x, (np.ndarray, list, tuple)) else x
                                     for x in a])
        return _wrap(r)
    return g


def ndindex(*a):
    return np.ndindex(*a)


def polyval(p, x):
    acc = np.float64(0.)
    for c in p:
        acc = acc * x + c
    return acc


# ------------------------------------------------------------- randomness
class _Random(object):
    """every draw is a fresh symbolic number in [0, 1); permutations are chosen nondeterministically"""
    hook = None          # set by the harness context

    def rand(self, *shp):
        h = _Random.hook
        if h is None:
            raise Unsupported('random draw outside a harness')
        if not shp:
            return h.draw()
        r = np.empty(_shp(shp), dtype=object)
        f = r.reshape(-1)
        for i in range(f.size):
            f[i] = h.draw()
        return r.view(ndarray)

    def random(self, size=None):
        if size is None:
            return self.rand()
        return self.rand(*([size] if isinstance(size, int) else size))

    random_sample = random

    def uniform(self, a=0., b=1., size=None):
        return a + (b - a) * self.random(size)

    def randint(self, a, b=None, size=None):
        if b is None:
            a, b = 0, a
        if size is not None:
            raise Unsupported('randint size')
        return a + int(np.float64(0) if b - a <= 1 else self.rand() * (b - a))

    def shuffle(self, x):
        _Random.hook.shuffle(x)

    def permutation(self, x):
        if isinstance(x, (int, np.integer)):
            x = arange(x)
        else:
            x = array(x)
        self.shuffle(x)
        return x

    def seed(self, *a):
        pass


random = _Random()

# ------------------------------------------------------------- constants / types
inf = np.float64('inf')
nan = np.float64('nan')
Inf = infty = Infinity = inf
NaN = NAN = nan
newaxis = None
float_ = float64
float32 = float64
float16 = float64
floating = float64
double = float64
float128 = longdouble = float64
uint32 = np.uint32
uint8 = np.uint8
int8, int16, int32, int64 = np.int8, np.int16, np.int32, np.int64
uint16, uint64 = np.uint16, np.uint64
int_ = np.int64
integer = np.integer
bool_ = np.bool_
object_ = np.object_
number = np.number
generic = np.generic
finfo = lambda t=None: np.finfo(np.float64)
e = np.e
dtype = np.dtype


def errstate(*a, **k):
    return np.errstate(*a, **k)


def seterr(*a, **k):
    return {}


def _module(pi_value):
    """build the module object handed to the code under test"""
    m = types.ModuleType('numpy')
    g = globals()
    for k, v in g.items():
        if k.startswith('_') or k in ('np', 'core', 'builtins', 'math', 'types', 'z3', 'S', 'SB'):
            continue
        setattr(m, k, v)
    m.sum, m.max, m.min, m.all, m.any, m.abs = sum_, max_, min_, all_, any_, abs_
    m.amax, m.amin, m.product = max_, min_, prod
    m.round = around
    m.float = pyfloat
    m.int = builtins.int
    m.bool = builtins.bool
    m.object = object
    m.str = builtins.str
    m.pi = pi_value
    m.__version__ = '1.13.1'

    def __getattr__(name):
        if name.startswith('__'):
            raise AttributeError(name)
        # names missing from the installed runtime version must stay missing
        if name in _ABSENT:
            raise AttributeError("module 'numpy' has no attribute %r" % name)
        try:
            return getattr(np, name)
        except AttributeError:
            raise AttributeError("module 'numpy' has no attribute %r" % name)
    m.__getattr__ = __getattr__
    return m


_ABSENT = {'srqt', 'scos'}
