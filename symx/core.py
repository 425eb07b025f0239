"""Symbolic scalars and the path explorer.

A symbolic scalar `S` wraps a z3 Real term (optionally with forward-mode
derivatives).  The code under test is executed with `S` in place of floats;
whenever it branches on a symbolic condition the engine decides the branch
with the solver and, if both sides are feasible, records the other side as a
new path prefix.  Each path is executed from scratch from its prefix.
"""
import math, time, os
from fractions import Fraction
import numpy as _np
import z3
from . import poly


class Unsupported(BaseException):
    """The encoding does not cover an operation (an error of the check)."""
    def __init__(self, *a):
        super().__init__(*a)
        _poison(self)


class Abort(BaseException):
    """End this path silently (infeasible / assumption false)."""


class PathLimit(BaseException):
    def __init__(self, *a):
        super().__init__(*a)
        _poison(self)


def _poison(e):
    """remember it: the code under test may swallow any exception"""
    if ENG is not None and ENG.poison is None:
        ENG.poison = e


ENG = None      # the engine of the path being executed


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, _np.integer)):
        return Fraction(int(x))
    # shortest decimal: 0.1 means 1/10
    x = float(x)
    f = Fraction(repr(x))
    if f.denominator > 10**12:
        # a quotient of small numbers, rounded: 1/3, 1/6
        g = f.limit_denominator(1000)
        if float(g) == x:
            return g
    return f


def rv(x):
    f = frac(x)
    return z3.RatVal(f.numerator, f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)


ZERO = z3.RealVal(0)
ONE = z3.RealVal(1)

_vars_cache = {}


def fvars(e):
    """names of free constants of a z3 term (cached by ast id, term kept alive)"""
    key = e.get_id()
    hit = _vars_cache.get(key)
    if hit is not None:
        return hit[1]
    stack = [(e, False)]
    while stack:
        t, done = stack.pop()
        k = t.get_id()
        if k in _vars_cache:
            continue
        ch = t.children()
        if not ch:
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                _vars_cache[k] = (t, frozenset([t.decl().name()]))
            else:
                _vars_cache[k] = (t, frozenset())
            continue
        if done:
            s = set()
            for c in ch:
                s |= _vars_cache[c.get_id()][1]
            _vars_cache[k] = (t, frozenset(s))
        else:
            stack.append((t, True))
            for c in ch:
                if c.get_id() not in _vars_cache:
                    stack.append((c, False))
    return _vars_cache[key][1]


def numval(e):
    """Fraction of a numeral term or None"""
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    return None


def model_frac(v):
    """model value -> float"""
    n = numval(v)
    if n is not None:
        return n
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


# --------------------------------------------------------------------------
class SB(object):
    """symbolic boolean"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ENG.branch(self.e)

    @staticmethod
    def _l(o):
        if isinstance(o, SB):
            return o.e
        if isinstance(o, (bool, _np.bool_)):
            return z3.BoolVal(bool(o))
        if isinstance(o, (int, _np.integer)) and int(o) in (0, 1):
            return z3.BoolVal(bool(o))
        if isinstance(o, S):
            return o.e != ZERO
        return None

    def __and__(self, o):
        b = SB._l(o)
        return NotImplemented if b is None else SB(z3.And(self.e, b))
    __rand__ = __and__

    def __or__(self, o):
        b = SB._l(o)
        return NotImplemented if b is None else SB(z3.Or(self.e, b))
    __ror__ = __or__

    def __xor__(self, o):
        b = SB._l(o)
        return NotImplemented if b is None else SB(z3.Xor(self.e, b))
    __rxor__ = __xor__

    def __invert__(self):
        return SB(z3.Not(self.e))

    def logical_not(self):
        return SB(z3.Not(self.e))

    def __eq__(self, o):
        b = SB._l(o)
        return NotImplemented if b is None else SB(self.e == b)

    def __ne__(self, o):
        b = SB._l(o)
        return NotImplemented if b is None else SB(self.e != b)

    def __hash__(self):
        return hash(self.e)

    # used as a number
    def _s(self):
        return S(z3.If(self.e, ONE, ZERO))

    def __mul__(self, o):
        return self._s() * o
    __rmul__ = __mul__

    def __add__(self, o):
        return self._s() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._s() - o

    def __rsub__(self, o):
        return o - self._s()

    def __int__(self):
        return 1 if self else 0
    __index__ = __int__

    def all(self, *a, **k):
        return self

    any = all

    def __repr__(self):
        return 'SB(%s)' % str(self.e)[:200]


def sb(e):
    """z3 Bool -> SB or python bool when it is a literal"""
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SB(e)


def _z3bool(c):
    if isinstance(c, SB):
        return c.e
    if isinstance(c, (bool, _np.bool_)):
        return z3.BoolVal(bool(c))
    if z3.is_expr(c):
        return c
    if isinstance(c, _np.ndarray) and c.shape == ():
        return _z3bool(c.item())
    if isinstance(c, S):
        return c.e != ZERO
    return z3.BoolVal(bool(c))


def _lift(o):
    """-> S, special float (inf/nan), or None"""
    if isinstance(o, S):
        return o
    if isinstance(o, SB):
        return o._s()
    if isinstance(o, (bool, _np.bool_, int, _np.integer, Fraction)):
        return S(rv(o))
    if isinstance(o, (float, _np.floating)):
        f = float(o)
        if math.isinf(f) or math.isnan(f):
            return f
        return S(rv(f))
    if isinstance(o, _np.ndarray) and o.shape == () and not isinstance(o.item(), _np.ndarray):
        return _lift(o.item())
    return None


def _dadd(a, b, ca=None, cb=None):
    """ca*a.d + cb*b.d (ca None = 1)"""
    if not a and not b:
        return None
    r = {}
    for d, c in ((a, ca), (b, cb)):
        if d:
            for k, v in d.items():
                t = v if c is None else zmul(c, v)
                r[k] = zadd(r[k], t) if k in r else t
    return r


def cut(f):
    """bound the size of a constant (relative error below 1e-75)"""
    n, d = f.numerator, f.denominator
    if d.bit_length() < 800 and n.bit_length() < 1200:
        return f
    sh = 260 - (n.bit_length() - d.bit_length())
    q = (n << sh) // d if sh >= 0 else n // (d << -sh)
    return Fraction(q, 1 << sh) if sh >= 0 else Fraction(q << -sh)


def zadd(a, b):
    if a.eq(ZERO):
        return b
    if b.eq(ZERO):
        return a
    na, nb = numval(a), numval(b)
    if na is not None and nb is not None:
        return rv(cut(na + nb))
    return a + b


def zsub(a, b):
    if b.eq(ZERO):
        return a
    na, nb = numval(a), numval(b)
    if na is not None and nb is not None:
        return rv(cut(na - nb))
    if na is not None and na == 0:
        return -b
    if a.eq(b):
        return ZERO
    return a - b


def zmul(a, b):
    na, nb = numval(a), numval(b)
    if na is not None:
        if na == 0:
            return ZERO
        if na == 1:
            return b
        if nb is not None:
            return rv(cut(na * nb))
    if nb is not None:
        if nb == 0:
            return ZERO
        if nb == 1:
            return a
    return a * b


def zdiv(a, b):
    na, nb = numval(a), numval(b)
    if nb is not None:
        if nb == 1:
            return a
        if na is not None:
            return rv(cut(na / nb))
        return a * rv(1 / nb)
    if na is not None and na == 0:
        return ZERO
    return a / b


class S(object):
    """symbolic real with optional derivatives"""
    __slots__ = ('e', 'd')

    def __init__(self, e, d=None):
        self.e = e
        self.d = d or None

    # ---- arithmetic
    def __add__(self, o):
        b = _lift(o)
        if b is None:
            return NotImplemented
        if isinstance(b, float):
            return _np.float64(b)
        return S(zadd(self.e, b.e), _dadd(self.d, b.d))

    def __radd__(self, o):
        b = _lift(o)
        if b is None:
            return NotImplemented
        if isinstance(b, float):
            return _np.float64(b)
        return b.__add__(self)

    def __sub__(self, o):
        b = _lift(o)
        if b is None:
            return NotImplemented
        if isinstance(b, float):
            return _np.float64(-b)
        return S(zsub(self.e, b.e), _dadd(self.d, b.d, None, z3.RealVal(-1)))

    def __rsub__(self, o):
        b = _lift(o)
        if b is None:
            return NotImplemented
        if isinstance(b, float):
            return _np.float64(b)
        return b.__sub__(self)

    def __mul__(self, o):
        b = _lift(o)
        if b is None:
            return NotImplemented
        if isinstance(b, float):
            if math.isnan(b):
                return _np.float64(b)
            if ENG.branch(self.e > ZERO):
                return _np.float64(b)
            if ENG.branch(self.e < ZERO):
                return _np.float64(-b)
            return _np.float64('nan')
        return S(zmul(self.e, b.e), _dadd(self.d, b.d, b.e, self.e))

    __rmul__ = __mul__

    def __truediv__(self, o):
        b = _lift(o)
        if b is None:
            return NotImplemented
        if isinstance(b, float):
            return _np.float64(b) if math.isnan(b) else _np.float64(0.)
        nb = numval(b.e)
        if nb is None:
            if ENG.is_zero(b.e):
                nb = Fraction(0)
        if nb is not None and nb == 0:
            neg = ENG.zero_sign(b.e)
            if ENG.branch(self.e > ZERO):
                return _np.float64('-inf' if neg else 'inf')
            if ENG.branch(self.e < ZERO):
                return _np.float64('inf' if neg else '-inf')
            return _np.float64('nan')
        if self.e.eq(b.e):
            q = ONE
        else:
            q = zdiv(self.e, b.e)
        d = None
        if self.d or b.d:
            # (a/b)' = a'/b - q*b'/b
            ib = zdiv(ONE, b.e)
            d = _dadd(self.d, b.d, ib, zmul(zmul(z3.RealVal(-1), q), ib))
        return S(q, d)

    def __rtruediv__(self, o):
        b = _lift(o)
        if b is None:
            return NotImplemented
        if isinstance(b, float):
            if math.isnan(b):
                return _np.float64(b)
            if ENG.is_zero(self.e):
                return _np.float64(-b if ENG.zero_sign(self.e) else b)
            if ENG.branch(self.e > ZERO):
                return _np.float64(b)
            return _np.float64(-b)
        return b.__truediv__(self)

    __div__ = __truediv__
    __rdiv__ = __rtruediv__

    def __floordiv__(self, o):
        return (self / o).floor()

    def __rfloordiv__(self, o):
        return (_lift(o) / self).floor()

    def __mod__(self, o):
        q = (self / o).floor()
        return self - q * o

    def __rmod__(self, o):
        return _lift(o) % self

    def __divmod__(self, o):
        q = (self / o).floor()
        return q, self - q * o

    def __pow__(self, o):
        b = _lift(o)
        if b is None:
            return NotImplemented
        return s_pow(self, b)

    def __rpow__(self, o):
        return s_pow(_lift(o), self)

    def __neg__(self):
        n = numval(self.e)
        return S(rv(-n) if n is not None else -self.e,
                 None if not self.d else {k: zmul(z3.RealVal(-1), v) for k, v in self.d.items()})

    def __pos__(self):
        return self

    def __abs__(self):
        n = numval(self.e)
        if n is not None:
            return S(rv(abs(n)))
        if self.d or not ENG.ite:
            return self if ENG.branch(self.e >= ZERO) else -self
        return S(z3.If(self.e >= ZERO, self.e, -self.e))

    fabs = __abs__
    absolute = __abs__

    # ---- comparison
    def _cmp(self, o, op, inf_pos, inf_neg):
        b = _lift(o)
        if b is None:
            return NotImplemented
        if isinstance(b, float):
            if math.isnan(b):
                return False
            return inf_pos if b > 0 else inf_neg
        na, nb = numval(self.e), numval(b.e)
        if na is not None and nb is not None:
            return bool(op(na, nb))
        return sb(op(self.e, b.e))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, True, False)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, True, False)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, False, True)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, False, True)

    def __eq__(self, o):
        r = _lift(o)
        if r is None:
            return NotImplemented
        if not isinstance(r, float) and r.e.eq(self.e):
            return True
        return self._cmp(r, lambda a, b: a == b, False, False)

    def __ne__(self, o):
        r = _lift(o)
        if r is None:
            return NotImplemented
        if isinstance(r, float):
            return True
        if r.e.eq(self.e):
            return False
        return self._cmp(r, lambda a, b: a != b, True, True)

    def __hash__(self):
        return hash(self.e)

    def __bool__(self):
        n = numval(self.e)
        if n is not None:
            return n != 0
        return ENG.branch(self.e != ZERO)

    # ---- conversions
    def __int__(self):
        n = numval(self.e)
        if n is not None:
            return int(n)
        if ENG.branch(self.e >= ZERO):
            return ENG.choose_floor(self.e)
        return -ENG.choose_floor(-self.e)

    __trunc__ = __int__

    def __index__(self):
        raise TypeError("symbolic real used as an index")

    def __float__(self):
        n = numval(self.e)
        if n is not None:
            return float(n)
        raise Unsupported('float() of a symbolic value')

    def floor(self):
        n = numval(self.e)
        if n is not None:
            return S(rv(math.floor(n)))
        return S(rv(ENG.choose_floor(self.e)))

    __floor__ = floor

    def ceil(self):
        n = numval(self.e)
        if n is not None:
            return S(rv(math.ceil(n)))
        return S(rv(-ENG.choose_floor(-self.e)))

    __ceil__ = ceil

    def trunc(self):
        return S(rv(int(self)))

    def rint(self):
        n = numval(self.e)
        if n is not None:
            return S(rv(round(n)))
        k = ENG.choose_floor(self.e + rv(Fraction(1, 2)))
        # ties to even
        if k % 2 and ENG.branch(self.e + rv(Fraction(1, 2)) == rv(k)):
            k -= 1
        return S(rv(k))

    def __round__(self, nd=None):
        if nd:
            raise Unsupported('round(x, nd)')
        r = self.rint()
        return int(r) if nd is None else r

    def astype(self, t):
        return conv_dtype(self, t)

    def item(self):
        return self

    def copy(self):
        return self

    def is_integer(self):
        return self == self.floor()

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return S(ZERO)

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def conjugate(self):
        return self

    # ---- functions (names are the ones numpy's object loops look for)
    def sqrt(self):
        return s_sqrt(self)

    def sin(self):
        return s_sincos(self)[0]

    def cos(self):
        return s_sincos(self)[1]

    def tan(self):
        s, c = s_sincos(self)
        return s / c

    def exp(self):
        return s_exp(self)

    def log(self):
        return s_log(self)

    def log2(self):
        n = numval(self.e)
        if n is not None and n > 0:
            p = math.log2(n)
            return S(rv(p))
        return s_log(self) / rv_s(math.log(2))

    def log10(self):
        return s_log(self) / rv_s(math.log(10))

    def arccos(self):
        return s_arccos(self)

    def arcsin(self):
        return s_pi() / 2 - s_arccos(self)

    def arctan(self):
        return s_arctan2(self, S(ONE))

    def arctan2(self, o):
        return s_arctan2(self, _lift(o))

    def deg2rad(self):
        return self * s_pi() / 180

    def rad2deg(self):
        return self * 180 / s_pi()

    radians = deg2rad
    degrees = rad2deg

    def square(self):
        return self * self

    def sign(self):
        if ENG.branch(self.e > ZERO):
            return S(ONE)
        if ENG.branch(self.e < ZERO):
            return S(z3.RealVal(-1))
        return S(ZERO)

    def sinc(self):
        if ENG.is_zero(self.e):
            return S(ONE)
        x = self * s_pi()
        return x.sin() / x

    def isnan(self):
        return False

    def __repr__(self):
        n = numval(self.e)
        if n is not None:
            return 'S(%s)' % float(n)
        return 'S(%s)' % str(self.e)[:120].replace('\n', ' ')

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def rv_s(x):
    return S(rv(x))


def trunc_any(x):
    """the whole part of a number that is not negative, as any number in (x - 1, x]"""
    v = ENG.fresh('whole')
    ENG.define([v <= x.e, x.e < v + 1, v >= 0], v, 'whole part')
    return S(v)


def conv_dtype(x, t):
    n = getattr(t, '__name__', str(t))
    if 'int' in n:
        return int(x)
    if 'bool' in n:
        return bool(x)
    return x


def s_pi():
    return S(ENG.pi())


# ---------------------------------------------------------------- functions
def _simp(e):
    return z3.simplify(e)


def _nonneg(e, depth=0):
    """syntactically a sum of products of even powers and roots"""
    n = numval(e)
    if n is not None:
        return n >= 0
    if depth > 12 or not z3.is_app(e):
        return False
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        return all(_nonneg(c, depth + 1) for c in e.children())
    if k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV):
        cnt = {}
        st = list(e.children())
        while st:
            c = st.pop()
            if z3.is_app(c) and c.decl().kind() in (z3.Z3_OP_MUL, z3.Z3_OP_DIV):
                st.extend(c.children())
                continue
            i = c.get_id()
            cnt[i] = (c, cnt.get(i, (c, 0))[1] + 1)
        return all(m % 2 == 0 or _nonneg(c, depth + 1) for c, m in cnt.values())
    if k == z3.Z3_OP_POWER:
        p = numval(e.arg(1))
        return p is not None and p.denominator == 1 and p % 2 == 0
    if k == z3.Z3_OP_ITE:
        return _nonneg(e.arg(1), depth + 1) and _nonneg(e.arg(2), depth + 1)
    return e.get_id() in ENG.sqrtdef


def s_sqrt(x):
    n = numval(x.e)
    if n is not None:
        if n < 0:
            return _np.float64('nan')
        rn, rd = math.isqrt(n.numerator), math.isqrt(n.denominator)
        if rn * rn == n.numerator and rd * rd == n.denominator:
            return S(rv(Fraction(rn, rd)), None)
    xe = _simp(x.e)
    y = ENG.cache.get(('sqrt', xe.get_id()))
    if y is None:
        ck = ENG.N.key(xe)
        y = ENG.cache.get(('sqrt', ck))
    if y is None:
        sq = ENG.sqmap.get(ck)
        if sq is None:
            sq = ENG.N.square_root(xe)
        if sq is not None:
            n = numval(sq)
            if n is not None:
                y = rv(abs(n))
            elif ENG.ite and not x.d:
                if not ENG.feasible(sq < ZERO):
                    y = sq
                elif not ENG.feasible(sq > ZERO):
                    y = -sq
                else:
                    y = z3.If(sq >= ZERO, sq, -sq)
            else:
                y = sq if ENG.branch(sq >= ZERO) else -sq
    if y is None:
        n = numval(xe)
        if n is not None and n >= 0:
            rn, rd = math.isqrt(n.numerator), math.isqrt(n.denominator)
            if rn * rn == n.numerator and rd * rd == n.denominator:
                y = rv(Fraction(rn, rd))
        if y is None:
            if not (_nonneg(x.e) or _nonneg(xe)) and ENG.branch(xe < ZERO):
                return _np.float64('nan')
            y = ENG.fresh('sqrt')
            ENG.define([y * y == xe, y >= ZERO], y, ('sqrt', xe))
            ENG.sqrtdef[y.get_id()] = xe
            ENG.N.rule(y, 2, xe)
            ENG.N.pos.add(ENG.N.atom(y))
    if ('sqrt', xe.get_id()) not in ENG.cache:
        ENG.cache[('sqrt', xe.get_id())] = y
        ENG.cache[('sqrt', ENG.N.key(xe))] = y
        ENG.keep.append(xe)
        ENG.keep.append(y)
    d = None
    if x.d:
        if ENG.is_zero(y):
            raise Unsupported('derivative of sqrt at 0')
        h = zdiv(ONE, zmul(z3.RealVal(2), y))
        d = {k: zmul(h, v) for k, v in x.d.items()}
    return S(y, d)


_NICE = {}


def _shifted(xe):
    """(sin, cos) of an angle that is an earlier one (or its negative) plus quarter turns"""
    E = ENG
    if len(E.trigs) > 12:
        return None
    q = 2 / E.pi()
    for (oxe, os, oc) in E.trigs:
        for sg in (1, -1):
            try:
                nd = E.N.norm((xe - oxe if sg > 0 else xe + oxe) * q, 0.2)
                k = None if nd is None else 0 if not nd[0] else nd[0].get(()) if not nd[1] and len(nd[0]) == 1 else None
            except Exception:
                continue
            if k is None or k != int(k):
                continue
            s, c = (os, oc) if sg > 0 else (-os, oc)
            return [(s, c), (c, -s), (-s, -c), (-c, s)][int(k) % 4]
    return None


def s_sincos(x):
    """(sin, cos) with axioms"""
    E = ENG
    xe = _simp(x.e)
    n = numval(xe)
    if n is not None:
        if n == 0:
            s, c = ZERO, ONE
        else:
            s, c = rv(math.sin(n)), rv(math.cos(n))
    else:
        # strip a constant multiple of pi/2: x = x' + k*pi/2 is left to solver;
        # canonical sign: cos(-x) = cos(x)
        key = ('trig', xe.get_id())
        got = E.cache.get(key)
        ck = None
        if got is None:
            ck = E.N.key(xe)
            got = E.cache.get(('trig', ck))
        if got is None:
            ng = _simp(-xe)
            got2 = E.cache.get(('trig', E.N.key(ng)))
            if got2 is not None:
                got = (-got2[0], got2[1])
            else:
                got = E.trig_const(xe)
            if got is None:
                got = _shifted(xe)
            if got is None:
                s = E.fresh('sin')
                c = E.fresh('cos')
                pi = E.pi()
                ax = [s * s + c * c == ONE, s >= -1, s <= 1, c >= -1, c <= 1,
                      z3.Implies(xe == 0, z3.And(s == 0, c == 1)),
                      z3.Implies(z3.And(xe > 0, xe < pi), s > 0),
                      z3.Implies(z3.And(xe > -pi, xe < 0), s < 0),
                      z3.Implies(z3.And(xe > pi, xe < 2 * pi), s < 0),
                      z3.Implies(z3.And(xe > -pi / 2, xe < pi / 2), c > 0),
                      z3.Implies(z3.And(xe > pi / 2, xe < 3 * pi / 2), c < 0),
                      z3.Implies(z3.And(xe > 3 * pi / 2, xe < 5 * pi / 2), c > 0),
                      z3.Implies(z3.Or(xe == pi, xe == -pi), z3.And(s == 0, c == -1)),
                      z3.Implies(xe == pi / 2, z3.And(s == 1, c == 0)),
                      z3.Implies(xe == 2 * pi, z3.And(s == 0, c == 1)),
                      ]
                # congruence with the earlier arguments
                for (oxe, os, oc) in E.trigs:
                    ax.append(z3.Implies(oxe == xe, z3.And(os == s, oc == c)))
                    ax.append(z3.Implies(oxe + xe == 0, z3.And(os == -s, oc == c)))
                    ax.append(z3.Implies(oxe + xe == pi, z3.And(os == s, oc == -c)))
                    ax.append(z3.Implies(oxe + xe == 2 * pi, z3.And(os == -s, oc == c)))
                    ax.append(z3.Implies(oxe + xe == pi / 2, z3.And(os == c, oc == s)))
                    ax.append(z3.Implies(z3.Or(oxe - xe == pi, oxe - xe == -pi),
                                         z3.And(os == -s, oc == -c)))
                    ax.append(z3.Implies(z3.Or(oxe - xe == 2 * pi, oxe - xe == -2 * pi),
                                         z3.And(os == s, oc == c)))
                E.define_trig(ax, xe, s, c)
                E.N.rule(s, 2, ONE - c * c)
                E.sqmap[E.N.key(ONE - c * c)] = s
                got = (s, c)
            E.cache[key] = got
            if ck is not None:
                E.cache[('trig', ck)] = got
            E.keep.append(xe)
        s, c = got
    ds = dc = None
    if x.d:
        ds = {k: zmul(c, v) for k, v in x.d.items()}
        dc = {k: zmul(zmul(z3.RealVal(-1), s), v) for k, v in x.d.items()}
    return S(s, ds), S(c, dc)


def s_arccos(x):
    if isinstance(x, float):
        return _np.float64('nan')
    E = ENG
    xe = _simp(x.e)
    n = numval(xe)
    if n is not None and n == 1:
        return S(ZERO)
    if n is not None and n == -1:
        return s_pi()
    if n is not None and n == 0:
        return s_pi() / 2
    if n is not None:
        if abs(n) > 1:
            return _np.float64('nan')
        return S(rv(math.acos(n)))
    key = ('acos', xe.get_id())
    a = E.cache.get(key)
    if a is None:
        ck = E.N.key(xe)
        for (ox, os_, oc) in E.trigs:
            if E.N.key(oc) == ck and E.decided(z3.And(ox >= 0, ox <= E.pi())):
                d = None
                if x.d:
                    h = zdiv(z3.RealVal(-1), os_)
                    d = {k: zmul(h, v) for k, v in x.d.items()}
                return S(ox, d)
        if E.branch(z3.Or(xe < -1, xe > 1)):
            return _np.float64('nan')
        a = E.fresh('acos')
        pi = E.pi()
        E.defs.append(ONE - xe * xe >= 0)       # follows from |xe| <= 1
        E.litcache[_simp(ONE - xe * xe < ZERO).get_id()] = (_simp(ONE - xe * xe < ZERO), False)
        s = s_sqrt(S(ONE - xe * xe))
        ax = [a >= 0, a <= pi,
              z3.Implies(xe == 1, a == 0), z3.Implies(xe == -1, a == pi),
              z3.Implies(xe > 0, a < pi / 2), z3.Implies(xe < 0, a > pi / 2),
              z3.Implies(xe == 0, a == pi / 2),
              z3.Implies(xe < 1, a > 0), z3.Implies(xe > -1, a < pi)]
        for (ox, oa) in E.acoss:
            ax.append(z3.Implies(ox == xe, oa == a))
            ax.append(z3.Implies(ox < xe, oa > a))
            ax.append(z3.Implies(ox > xe, oa < a))
        E.define(ax, a, ('acos', xe))
        E.acoss.append((xe, a))
        E.cache[key] = a
        E.keep.append(xe)
        # sin / cos of the new angle are known
        E.cache[('trig', a.get_id())] = (s.e, xe)
        E.cache[('trig', E.N.key(a))] = (s.e, xe)
        E.trigs.append((a, s.e, xe))
    d = None
    if x.d:
        s = s_sqrt(S(ONE - xe * xe))
        if E.is_zero(s.e):
            raise Unsupported('derivative of arccos at the end of its domain')
        h = zdiv(z3.RealVal(-1), s.e)
        d = {k: zmul(h, v) for k, v in x.d.items()}
    return S(a, d)


def s_arctan2(y, x):
    E = ENG
    if isinstance(y, float) or isinstance(x, float):
        if isinstance(x, S):
            x = 0. if numval(x.e) is None else float(numval(x.e))
        raise Unsupported('arctan2 of inf/nan')
    ye, xe = _simp(y.e), _simp(x.e)
    ny, nx = numval(ye), numval(xe)
    if ny is not None and nx is not None:
        if ny == 0:
            return S(ZERO) if nx >= 0 else s_pi()
        if nx == 0:
            return s_pi() / 2 if ny > 0 else -(s_pi() / 2)
        if abs(nx) == abs(ny):
            q = s_pi() / 4
            if nx < 0:
                q = s_pi() - q
            return q if ny > 0 else -q
        return S(rv(math.atan2(ny, nx)))
    if nx is None and ny is None and not y.d and not x.d:
        # a fixed direction at some distance
        try:
            nd = E.N.norm(zdiv(ye, xe), 1.)
            k = None if nd is None else nd[0].get(()) if not nd[1] and len(nd[0]) == 1 else None
        except Exception:
            k = None
        if k is not None and k != 0:
            if E.branch(xe > ZERO):
                return s_arctan2(S(rv(k)), S(ONE))
            if E.branch(xe < ZERO):
                return s_arctan2(S(rv(-k)), S(z3.RealVal(-1)))
    key = ('atan2', ye.get_id(), xe.get_id())
    a = E.cache.get(key)
    r = s_sqrt(S(_simp(xe * xe + ye * ye)))
    if a is None:
        if E.is_zero(r.e):
            return S(ZERO)
        a = E.fresh('atan')
        pi = E.pi()
        ax = [a > -pi, a <= pi,
              z3.Implies(ye > 0, z3.And(a > 0, a < pi)),
              z3.Implies(ye < 0, z3.And(a < 0, a > -pi)),
              z3.Implies(z3.And(ye == 0, xe > 0), a == 0),
              z3.Implies(z3.And(ye == 0, xe < 0), a == pi),
              z3.Implies(xe > 0, z3.And(a > -pi / 2, a < pi / 2)),
              z3.Implies(z3.And(xe == 0, ye > 0), a == pi / 2),
              z3.Implies(z3.And(xe == 0, ye < 0), a == -pi / 2),
              z3.Implies(z3.And(xe < 0, ye > 0), a > pi / 2),
              z3.Implies(z3.And(xe < 0, ye < 0), a < -pi / 2)]
        s, c = zdiv(ye, r.e), zdiv(xe, r.e)
        for (oa, oy, ox) in E.atans:
            # same direction -> same angle
            ax.append(z3.Implies(z3.And(ye * ox == oy * xe, ye * oy + xe * ox > 0), a == oa))
            # order within the half planes
            ax.append(z3.Implies(z3.And(ye > 0, oy > 0, ye * ox > oy * xe), a > oa))
            ax.append(z3.Implies(z3.And(ye > 0, oy > 0, ye * ox < oy * xe), a < oa))
            ax.append(z3.Implies(z3.And(ye < 0, oy < 0, ye * ox > oy * xe), a > oa))
            ax.append(z3.Implies(z3.And(ye < 0, oy < 0, ye * ox < oy * xe), a < oa))
        # relation with known angles having the same sine and cosine
        for (oxe, os, oc) in E.trigs:
            ax.append(z3.Implies(z3.And(oxe > -pi, oxe <= pi, os * r.e == ye, oc * r.e == xe), a == oxe))
            ax.append(z3.Implies(z3.And(oxe > pi, oxe <= 3 * pi, os * r.e == ye, oc * r.e == xe), a == oxe - 2 * pi))
        E.define(ax, a, ('atan2', ye, xe))
        E.atans.append((a, ye, xe))
        E.cache[key] = a
        E.keep.extend([ye, xe])
        E.cache[('trig', a.get_id())] = (s, c)
        E.cache[('trig', E.N.key(a))] = (s, c)
        E.trigs.append((a, s, c))
    elif E.is_zero(r.e):
        return S(ZERO)
    d = None
    if y.d or x.d:
        r2 = zmul(r.e, r.e)
        d = _dadd(y.d, x.d, zdiv(xe, r2), zdiv(-ye, r2))
    return S(a, d)


def s_exp(x):
    if isinstance(x, float):
        return _np.float64(math.exp(x))
    E = ENG
    xe = _simp(x.e)
    n = numval(xe)
    if n is not None:
        if n == 0:
            return S(ONE)
        return S(rv(math.exp(n)))
    key = ('exp', xe.get_id())
    y = E.cache.get(key)
    if y is None:
        ng = _simp(-xe)
        got = E.cache.get(('exp', ng.get_id()))
        lg = None
        for (le, la) in E.logs:       # exp(log(a)) = a
            if le.eq(xe):
                lg = la
        if lg is not None:
            y = lg
        elif got is not None:
            y = zdiv(ONE, got)
        else:
            y = E.fresh('exp')
            ax = [y > 0, z3.Implies(xe == 0, y == 1), z3.Implies(xe < 0, y < 1),
                  z3.Implies(xe > 0, y > 1), y >= 1 + xe,
                  z3.Implies(xe < 1, y * (1 - xe) <= 1)]
            for (ox, oy) in E.exps:
                ax += [z3.Implies(ox == xe, oy == y), z3.Implies(ox < xe, oy < y),
                       z3.Implies(ox > xe, oy > y), z3.Implies(ox + xe == 0, oy * y == 1)]
            for i, (ax_, ay) in enumerate(E.exps):
                for (bx_, by) in E.exps[i + 1:]:
                    ax += [z3.Implies(ax_ + bx_ == xe, ay * by == y),
                           z3.Implies(ax_ + xe == bx_, ay * y == by),
                           z3.Implies(bx_ + xe == ax_, by * y == ay)]
            for (ax_, ay) in E.exps:
                ax += [z3.Implies(2 * ax_ == xe, ay * ay == y), z3.Implies(2 * xe == ax_, y * y == ay)]
            E.define(ax, y, ('exp', xe))
            E.exps.append((xe, y))
            E.N.pos.add(E.N.atom(y))
        E.cache[key] = y
        E.keep.append(xe)
    d = {k: zmul(y, v) for k, v in x.d.items()} if x.d else None
    return S(y, d)


def s_log(x):
    if isinstance(x, float):
        return _np.float64(math.log(x)) if x > 0 or math.isnan(x) else _np.float64('nan')
    E = ENG
    xe = _simp(x.e)
    n = numval(xe)
    if n is not None and n > 0:
        if n == 1:
            return S(ZERO)
        return S(rv(math.log(n)))
    if E.branch(xe <= 0):
        if E.branch(xe == 0):
            return _np.float64('-inf')
        return _np.float64('nan')
    key = ('log', xe.get_id())
    y = E.cache.get(key)
    if y is None:
        for (ex, ey) in E.exps:
            if ey.eq(xe):
                y = ex
        if y is None:
            y = E.fresh('log')
            ax = [z3.Implies(xe == 1, y == 0), z3.Implies(xe < 1, y < 0), z3.Implies(xe > 1, y > 0),
                  y <= xe - 1]
            for (oy, ox) in E.logs:
                ax += [z3.Implies(ox == xe, oy == y), z3.Implies(ox < xe, oy < y), z3.Implies(ox > xe, oy > y)]
            E.define(ax, y, ('log', xe))
            E.logs.append((y, xe))
        E.cache[key] = y
        E.keep.append(xe)
    d = None
    if x.d:
        h = zdiv(ONE, xe)
        d = {k: zmul(h, v) for k, v in x.d.items()}
    return S(y, d)


def s_pow(x, p):
    E = ENG
    if isinstance(p, float) or isinstance(x, float):
        if isinstance(x, S) and isinstance(p, float) and math.isinf(p):
            raise Unsupported('pow with inf')
        raise Unsupported('pow of special')
    n = numval(p.e)
    if n is not None and n.denominator == 1 and abs(n) <= 64:
        k = int(n)
        if k == 0:
            return S(ONE)
        r = None
        base = x
        m = abs(k)
        while m:
            if m & 1:
                r = base if r is None else r * base
            m >>= 1
            if m:
                base = base * base
        return r if k > 0 else S(ONE) / r
    nx = numval(x.e)
    if n is not None and nx is not None:
        if nx == 0:
            return S(ZERO) if n > 0 else _np.float64('inf')
        if nx < 0:
            return _np.float64('nan')
        v = float(nx) ** float(n)
        return S(rv(v))
    if n is not None and n == Fraction(1, 2):
        return s_sqrt(x)
    if n is not None and n == Fraction(3, 2):
        return s_sqrt(x) * x
    xe = _simp(x.e)
    pe = _simp(p.e)
    if n is None:
        try:
            nd = E.N.norm(pe, 0.2)
            k = None if nd is None else 0 if not nd[0] else nd[0].get(()) if not nd[1] and len(nd[0]) == 1 else None
        except Exception:
            k = None
        if k is not None:
            return s_pow(x, S(rv(Fraction(k))))
    if n is not None and n.denominator <= 12 and abs(n.numerator) <= 12 or \
            n is not None and abs(n - Fraction(n).limit_denominator(16)) < Fraction(1, 10**12):
        n = Fraction(n).limit_denominator(16)
        q, a = n.denominator, abs(n.numerator)
        key = ('root', xe.get_id(), q)
        y = E.cache.get(key)
        if y is None:
            if E.branch(xe < 0):
                return _np.float64('nan')
            y = E.fresh('root')
            t = y
            for _ in range(q - 1):
                t = t * y
            E.define([y >= 0, t == xe, z3.Implies(xe <= 1, y <= 1), z3.Implies(xe == 0, y == 0),
                      z3.Implies(xe > 0, y > 0), z3.Implies(xe < 1, y < 1), z3.Implies(xe > 1, y > 1)],
                     y, ('root', xe, q))
            E.N.rule(y, q, xe)
            E.N.pos.add(E.N.atom(y))
            E.cache[key] = y
            E.keep.append(xe)
        d = None
        if x.d:
            if E.is_zero(xe):
                raise Unsupported('derivative of root at 0')
            h = zdiv(y, zmul(rv(q), xe))
            d = {k: zmul(h, v) for k, v in x.d.items()}
        r = S(y, d)
        res = r
        for _ in range(a - 1):
            res = res * r
        return res if n > 0 else S(ONE) / res
    key = ('pow', xe.get_id(), pe.get_id())
    y = E.cache.get(key)
    if y is None:
        if nx is None and E.branch(xe < 0):
            return _np.float64('nan')
        y = E.fresh('pow')
        ax = [y >= 0, z3.Implies(xe > 0, y > 0), z3.Implies(xe == 1, y == 1), z3.Implies(pe == 0, y == 1),
              z3.Implies(pe == 1, y == xe),
              z3.Implies(z3.And(xe == 0, pe > 0), y == 0),
              z3.Implies(z3.And(xe > 0, xe < 1, pe > 0), y < 1),
              z3.Implies(z3.And(xe > 1, pe > 0), y > 1),
              z3.Implies(z3.And(xe > 0, xe < 1, pe < 0), y > 1),
              z3.Implies(z3.And(xe > 1, pe < 0), y < 1)]
        for (ox, op, oy) in E.pows:
            ax += [z3.Implies(z3.And(ox == xe, op == pe), oy == y),
                   z3.Implies(z3.And(ox == xe, op == pe + 1), oy == y * xe),
                   z3.Implies(z3.And(ox == xe, pe == op + 1), y == oy * xe),
                   # (ox^op)^pe = ox^(op*pe)
                   z3.Implies(z3.And(xe == oy, op * pe == 1, ox >= 0), y == ox),
                   z3.Implies(z3.And(ox == y, op * pe == 1, xe >= 0), oy == xe),
                   z3.Implies(z3.And(ox == xe, xe > 0, op + pe == 0), oy * y == 1),
                   z3.Implies(z3.And(op == pe, pe > 0, ox < xe, ox >= 0), oy < y),
                   z3.Implies(z3.And(op == pe, pe > 0, ox > xe, xe >= 0), oy > y)]
        E.define(ax, y, ('pow', xe, pe))
        E.pows.append((xe, pe, y))
        E.cache[key] = y
        E.keep.extend([xe, pe])
    d = None
    if x.d:
        if p.d:
            raise Unsupported('derivative of pow in the exponent')
        if E.is_zero(xe):
            raise Unsupported('derivative of pow at 0')
        h = zdiv(zmul(pe, y), xe)
        d = {k: zmul(h, v) for k, v in x.d.items()}
    return S(y, d)


def s_min(a, b):
    return _mm(a, b, True)


def s_max(a, b):
    return _mm(a, b, False)


def _mm_leaves(a, b, x, y, c, mn):
    """the smallest (largest) of the terms two results were made of, without those that differ from another one by a constant and lose"""
    memo = ENG.mmleaves.setdefault(mn, {})

    def leaves(t):
        r = memo.get(t.get_id())
        if r is not None:
            return r[1]
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            return [(t, None)]
        try:
            N = ENG.N
            N.stop = time.time() + 0.1
            return [(t, N.nf(t))]
        except poly.TooBig:
            return [(t, None)]
    lx, ly = leaves(x), leaves(y)
    keep, lost, new = list(lx), False, []
    for q in ly:
        beaten = False
        for p in list(keep):
            k = None
            if p[1] is not None and q[1] is not None and p[1][1] == q[1][1]:
                if p[1][1]:
                    k = 0 if p[1][0] == q[1][0] else None
                else:
                    df = poly.padd(q[1][0], {m: -v for m, v in p[1][0].items()})
                    k = 0 if not df else df[()] if list(df) == [()] else None
            elif p[0].eq(q[0]):
                k = 0
            if k is None:
                continue
            if k == 0 or (k > 0) == mn:
                beaten = True
                break
            keep.remove(p)
            lost = True
        if beaten:
            lost = True
        else:
            new.append(q)
    if not new and len(keep) == len(lx):
        return a
    if not keep and len(new) == len(ly):
        return b
    if not lost:
        r = z3.If(c.e, y, x)
    else:
        ts = [t for t, _ in keep + new]
        r = ts[0]
        for t in ts[1:]:
            r = z3.If(t < r if mn else t > r, t, r)
    out = S(r)
    memo[r.get_id()] = (r, keep + new)
    return out


def _mm(a, b, mn):
    """python min/max semantics: min(a, b) = b if b < a else a (and NaN -> first)"""
    if not isinstance(a, (S, SB)) and not isinstance(b, (S, SB)):
        return (b if b < a else a) if mn else (b if b > a else a)
    la, lb = _lift(a), _lift(b)
    if isinstance(la, S) and isinstance(lb, S):
        c = lb < la if mn else lb > la
        if isinstance(c, SB):
            c = sb(_simp(c.e))
        if isinstance(c, (bool, _np.bool_)):
            return b if c else a
        if ENG.ite and not la.d and not lb.d:
            return _mm_leaves(a, b, la.e, lb.e, c, mn)
        return b if c else a
    if la is None or lb is None:
        c = b < a if mn else b > a
        return b if c else a
    c = lb < la if mn else lb > la
    return b if c else a


# --------------------------------------------------------------------------
class Stats(object):
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.
        self.branch_queries = 0
        self.nodes = 0

    def as_dict(self):
        return dict(self.__dict__)


def solve(assertions, timeout_ms=2000, model=False, tactic=None, seed=0):
    """one solver call -> ('sat', model) | ('unsat', None) | ('unknown', None)"""
    if tactic is None:
        s = z3.Solver()
        s.set('random_seed', seed)
    else:
        s = z3.Tactic(tactic).solver()
    s.set('timeout', int(timeout_ms))
    s.add(assertions)
    try:
        r = s.check()
    except z3.Z3Exception:
        return 'unknown', None
    if r == z3.sat:
        return 'sat', s.model()
    if r == z3.unsat:
        return 'unsat', None
    return 'unknown', None


def solve_cvc5(assertions, timeout_ms=10000):
    """second opinion through SMT-LIB text; only unsat is used"""
    import subprocess
    s = z3.Solver()
    s.add(assertions)
    txt = '(set-logic QF_NRA)\n' + s.to_smt2().replace('(set-info :status unknown)', '')
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', '--nl-cov', '--tlimit=%d' % timeout_ms, '-'],
                           input=txt, capture_output=True, text=True, timeout=timeout_ms / 1000. + 5)
    except (OSError, subprocess.TimeoutExpired):
        return 'unknown'
    out = p.stdout.strip().splitlines()
    if '(error' in p.stdout or not out:
        return 'unknown'
    return out[0] if out[0] in ('sat', 'unsat') else 'unknown'


class Engine(object):
    def __init__(self, prefix=(), opts=None):
        opts = opts or {}
        self.prefix = list(prefix)
        self.pos = 0
        self.alts = []              # new prefixes found on this path
        self.pc = []                # path conditions and assumptions (z3 Bool)
        self.defs = []              # axioms of auxiliary variables
        self.cache = {}
        self.keep = []
        self.poison = None
        self.nfresh = 0
        self.trigs, self.exps, self.logs, self.acoss, self.pows, self.atans = [], [], [], [], [], []
        self.abstr = []             # (kind, args..., result) for refinement
        self.lemmas = []
        self.pivar = z3.Real('pi')
        self.defs.append(z3.And(self.pivar > z3.Q(3141592653589793, 10**15),
                                self.pivar < z3.Q(3141592653589794, 10**15)))
        self.decisions = []
        self.stats = opts.get('stats') or Stats()
        self.N = poly.Norm()
        self.mmleaves = {}
        self.ite = opts.get('ite', True)
        self.btimeout = opts.get('btimeout', 1500)
        self.max_decisions = opts.get('max_decisions', 400)
        self.signed_zero = opts.get('signed_zero', False)
        self.maxfork_int = opts.get('max_int', 64)
        self.deadline = opts.get('deadline')
        self.inputs = {}            # name -> ('real'|'int'|..., z3 const or value)
        self.zero_cache = {}
        self.zsign = {}
        self.litcache = {}
        self.floors = {}
        self.canon = {}
        self.lincanon = {}
        self.sqrtdef = {}
        self.sqmap = {}
        self.imprecise = False
        self.base_prefix_len = len(prefix)

    # -- variables
    def fresh(self, p):
        self.nfresh += 1
        return z3.Real('%s!%d' % (p, self.nfresh))

    def pi(self):
        return self.pivar

    def define(self, axs, var, what):
        self.defs.extend(axs)
        self.abstr.append((what, var))

    def define_trig(self, axs, xe, s, c):
        self.defs.extend(axs)
        self.trigs.append((xe, s, c))
        self.abstr.append((('trig', xe), (s, c)))

    def trig_const(self, xe):
        """sin/cos of rational multiples of pi"""
        fv = fvars(xe)
        if fv != frozenset(['pi']):
            return None
        q = _simp(xe / self.pi())
        k = numval(_simp(z3.substitute(xe, (self.pi(), ONE))))
        k0 = numval(_simp(z3.substitute(xe, (self.pi(), ZERO))))
        k2 = numval(_simp(z3.substitute(xe, (self.pi(), z3.RealVal(2)))))
        if k is not None and k0 is not None and k0 != 0 and k2 is not None and k2 - k == k - k0:
            # affine in pi: a number, like other constants
            v = float(k0) + float(k - k0) * math.pi
            return rv(math.sin(v)), rv(math.cos(v))
        if k is None or k0 != 0 or k2 != 2 * k:
            return None
        k = k % 2
        h = z3.Q(1, 2)

        def r2():
            return s_sqrt(S(z3.RealVal(2))).e / 2

        def r3():
            return s_sqrt(S(z3.RealVal(3))).e / 2
        F = Fraction
        sin_ = {F(0): lambda: ZERO, F(1, 6): lambda: h, F(1, 4): r2, F(1, 3): r3, F(1, 2): lambda: ONE}

        def sn(k):
            k = k % 2
            if k >= 1:
                v = sn(k - 1)
                return None if v is None else -v
            if k > F(1, 2):
                k = 1 - k
            f = sin_.get(k)
            return f() if f else None
        s, c = sn(k), sn(k + F(1, 2))
        if s is None or c is None:
            return rv(math.sin(float(k) * math.pi)), rv(math.cos(float(k) * math.pi))
        return _simp(s), _simp(c)

    # -- solver access
    def relevant(self, goals):
        """cone of influence of the goals in pc + defs + lemmas"""
        allc = [c for c in self.pc + self.defs + self.lemmas if not z3.is_true(c)]
        want = set()
        for g in goals:
            want |= fvars(g)
        want.discard('pi')
        items = [(c, fvars(c) - {'pi'}) for c in allc]
        out = []
        rest = items
        changed = True
        while changed:
            changed = False
            nrest = []
            for c, v in rest:
                if not v or (v & want):
                    out.append(c)
                    if not v <= want:
                        want |= v
                        changed = True
                else:
                    nrest.append((c, v))
            rest = nrest
        return out

    def query(self, goals, timeout_ms, tactic=None, seed=0, full=False):
        cs = (self.pc + self.defs + self.lemmas if full else self.relevant(goals)) + list(goals)
        t = time.time()
        r, m = solve(cs, timeout_ms, tactic=tactic, seed=seed)
        self.stats.time += time.time() - t
        self.stats.queries += 1
        setattr(self.stats, r, getattr(self.stats, r) + 1)
        return r, m

    def query_canon(self, goals, timeout_ms, tactic=None, seed=0):
        """the same query with every comparison brought to polynomial normal form"""
        t = time.time()
        cs = []
        for c in self.relevant(goals) + list(goals):
            k = c.get_id()
            if k not in self.canon:
                n = self.N.assertion(c)
                # a defining relation normalises to true: keep it as it is
                self.canon[k] = (c, c if z3.is_true(_simp(n)) else n)
            cs.append(self.canon[k][1])
        r, m = solve(cs, timeout_ms, tactic=tactic, seed=seed)
        self.stats.time += time.time() - t
        self.stats.queries += 1
        setattr(self.stats, r, getattr(self.stats, r) + 1)
        return r, m

    def query_linear(self, goals, timeout_ms=600):
        """the query with non-linear monomials as independent variables; only unsat counts"""
        t = time.time()
        cs = []
        for c in self.relevant(goals) + list(goals):
            k = c.get_id()
            if k not in self.lincanon:
                self.lincanon[k] = (c, self.N.linear(c))
            cs.append(self.lincanon[k][1])
        r, m = solve(cs + self.N.lin_side, timeout_ms)
        self.stats.time += time.time() - t
        self.stats.queries += 1
        if r != 'unsat':
            r = 'unknown'
        setattr(self.stats, r, getattr(self.stats, r) + 1)
        return r, None

    def feasible(self, cond, timeout=None):
        self.stats.branch_queries += 1
        to = timeout or self.btimeout
        r, m = self.query([cond], min(200, to))
        if r == 'unknown':
            r, m = self.query_linear([cond])
        if r == 'unknown':
            r, m = self.query([cond], to)
        if r == 'unknown':
            r, m = self.query_canon([cond], timeout or self.btimeout)
        return r != 'unsat'

    def decided(self, cond, ms=150):
        """True / False when the path condition settles cond, else None"""
        c = _simp(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        for q, v in ((z3.Not(c), True), (c, False)):
            r, m = self.query([q], ms)
            if r == 'unknown':
                r, m = self.query_linear([q], ms)
            if r == 'unsat':
                return v
        return None

    # -- branching
    def branch(self, cond, hint=None):
        if self.poison is not None:
            raise self.poison
        c = _simp(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = c.get_id()
        if k in self.litcache:
            return self.litcache[k][1]
        nc = _simp(z3.Not(c))
        nk = nc.get_id()
        if nk in self.litcache:
            return not self.litcache[nk][1]
        # a root is zero exactly when its argument is
        also = None
        if self.sqrtdef and z3.is_eq(c):
            a, b = c.arg(0), c.arg(1)
            for x, y in ((a, b), (b, a)):
                if x.get_id() in self.sqrtdef and numval(y) == 0:
                    also = _simp(self.N.atom_form(self.sqrtdef[x.get_id()] == ZERO))
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            val = d[0]
        else:
            if self.deadline and time.time() > self.deadline:
                raise PathLimit('time')
            self.stats.nodes += 1
            t = self.feasible(c if also is None else z3.And(c, also))
            if not t:
                val = False
                # forced; recorded so that replays need no query
            else:
                f = self.feasible(nc if also is None else z3.And(nc, z3.Not(also)))
                val = True
                if f:
                    self.alts.append(self.decisions + [(False, hint)])
            self.pos += 1
            self.prefix.append((val, hint))
        self.decisions.append((val, hint))
        if len(self.decisions) > self.max_decisions:
            raise PathLimit('decisions')
        self.pc.append(c if val else nc)
        if also is not None and not z3.is_true(also) and not z3.is_false(also):
            self.pc.append(also if val else _simp(z3.Not(also)))
        self.litcache[k] = (c, val)
        self.keep.append(nc)
        return val

    def is_zero(self, e):
        n = numval(e)
        if n is not None:
            return n == 0
        e = _simp(e)
        n = numval(e)
        if n is not None:
            return n == 0
        k = e.get_id()
        if k in self.zero_cache:
            return self.zero_cache[k]
        r = self.branch(e == ZERO)
        self.zero_cache[k] = r
        self.keep.append(e)
        return r

    def zero_sign(self, e):
        """sign of a zero divisor: +0 unless the harness asks for both"""
        if not self.signed_zero or numval(e) is not None:
            return False
        e = _simp(e)
        k = e.get_id()
        if k not in self.zsign:
            self.keep.append(e)
            self.zsign[k] = (e, None)
            self.zsign[k] = (e, self.branch(z3.Bool('zs!%d' % len(self.zsign))))
        return self.zsign[k][1]

    def choose_floor(self, e):
        """floor of a symbolic real as a python int, by forking"""
        e = _simp(e)
        n = numval(e)
        if n is not None:
            return math.floor(n)
        i = e.get_id()
        if i in self.floors:
            return self.floors[i]
        for _ in range(self.maxfork_int):
            if self.pos < len(self.prefix):
                k = self.prefix[self.pos][1]
                if k is None:
                    raise Unsupported('decision mismatch')
                self.pos += 1
            else:
                cs = self.relevant([e == ZERO])
                r, m = solve(cs, self.btimeout * 4)
                if r != 'sat':
                    r, m = solve(cs, self.btimeout * 8, tactic='qfnra-nlsat')
                if r != 'sat':
                    # no model of the cone: try the small integers in turn
                    k = None
                    for kk in sorted(range(-self.maxfork_int, self.maxfork_int + 1), key=abs):
                        if self.feasible(z3.And(e >= kk, e < kk + 1)):
                            k = kk
                            break
                    if k is None:
                        raise Abort()
                else:
                    v = model_frac(m.eval(e, model_completion=True))
                    if v is None:
                        raise Unsupported('no value for floor')
                    k = math.floor(v)
                self.pos += 1
                self.prefix.append((True, k))
            self.decisions.append((True, k))
            if self.branch(z3.And(e >= k, e < k + 1)):
                self.floors[i] = k
                self.keep.append(e)
                return k
        raise PathLimit('integer choices')

    def choose(self, name, n):
        """nondeterministic choice 0..n-1 (every alternative is explored)"""
        v = z3.Int('choice!' + name)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            k = d[1]
        else:
            self.stats.nodes += 1
            k = 0
            for j in range(1, n):
                self.alts.append(self.decisions + [(True, j)])
            self.pos += 1
            self.prefix.append((True, k))
        self.decisions.append((True, k))
        return k

    def assume(self, cond):
        c = _simp(_z3bool(cond))
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Abort()
        self.pc.append(c)
        self.litcache[c.get_id()] = (c, True)
