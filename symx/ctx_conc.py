"""Concrete interpretation of a harness: runs under the repository's own
interpreter and numpy, on the real package.  Must stay Python 3.9 compatible."""
import math
import numpy as np


class AssumeFail(Exception):
    pass


class ConcCtx(object):
    symbolic = False
    tier = 'quick'

    def __init__(self, inputs, harness=None):
        self.inputs = inputs
        self.checks = []        # (label, ok, detail)
        self.obs = {}
        self.ndraw = 0
        self.nshuf = 0
        self.param = None

    # -- inputs
    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        v = np.float64(self.inputs.get(name, 0. if lo is None else lo))
        if lo is not None and v < lo:
            v = np.float64(lo)
        if hi is not None and v > hi:
            v = np.float64(hi)
        return v

    def unit(self, name, lo_open=False):
        v = float(self.inputs.get(name, 0.5))
        v = min(max(v, 0.), 1. - 2.**-53)
        return np.float64(v)

    def choice(self, name, options):
        return options[int(self.inputs.get('choice:' + name, 0))]

    def integer(self, name, lo, hi):
        return int(self.inputs.get('choice:' + name, 0)) + lo

    def boolean(self, name):
        return bool(int(self.inputs.get('choice:' + name, 0)))

    def unit_vec3(self, name):
        v = np.array([float(self.inputs.get(name + c, c == '.z')) for c in '.x .y .z'.split()])
        n = math.sqrt(float(v.dot(v)))
        if n == 0:
            raise AssumeFail('zero vector')
        return [np.float64(e / n) for e in v]

    def unit_vec2(self, name):
        v = [float(self.inputs.get(name + c, c == '.x')) for c in '.x .y'.split()]
        n = math.sqrt(v[0] * v[0] + v[1] * v[1])
        if n == 0:
            raise AssumeFail('zero vector')
        return [np.float64(e / n) for e in v]

    def unit_quat(self, name):
        v = [float(self.inputs.get(name + c, c == '.a')) for c in ('.a', '.b', '.c', '.d')]
        n = math.sqrt(sum(e * e for e in v))
        if n == 0:
            raise AssumeFail('zero quaternion')
        return [np.float64(e / n) for e in v]

    def angle(self, name, lo, hi):
        return self.real(name, lo, hi)

    # -- randomness
    def draw(self):
        v = self.unit('rng%d' % self.ndraw)
        self.ndraw += 1
        return v

    def rng(self, *shp):
        if not shp:
            return self.draw()
        n = int(np.prod(shp))
        return np.array([self.draw() for _ in range(n)]).reshape(shp)

    def shuffle(self, x):
        n = len(x)
        perm = []
        left = list(range(n))
        for i in range(n - 1):
            k = int(self.inputs.get('choice:perm%d' % self.nshuf, 0))
            self.nshuf += 1
            perm.append(left.pop(k))
        perm += left
        y = [np.array(x[i]) for i in perm]
        for i in range(n):
            x[i] = y[i]

    # -- logic
    def assume(self, cond):
        if not bool(np.all(cond)):
            raise AssumeFail('assumption false')

    def square(self, h):
        pass

    def fact(self, cond):
        pass

    def assume_eq(self, a, b, tol=1e-9):
        if not abs(a - b) <= tol * (1 + abs(b)):
            raise AssumeFail('assumption false')

    def both(self, *cs):
        return all(bool(c) for c in cs)

    def either(self, *cs):
        return any(bool(c) for c in cs)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def neg(self, a):
        return not bool(a)

    def ite(self, c, a, b):
        return a if c else b

    def val(self, x):
        return float(x)

    # -- claims
    def _rec(self, label, ok, detail):
        self.checks.append((label, bool(ok), detail))

    def check(self, cond, label):
        self._rec(label, bool(np.all(cond)), 'condition is %r' % (bool(np.all(cond)),))

    def check_eq(self, a, b, label, tol=1e-6):
        if isinstance(a, (np.ndarray, list, tuple)) or isinstance(b, (np.ndarray, list, tuple)):
            fa, fb = self._flat(a), self._flat(b)
            if len(fa) != len(fb):
                self._rec(label, False, 'lengths %d and %d' % (len(fa), len(fb)))
                return
            for i, (x, y) in enumerate(zip(fa, fb)):
                self.check_eq(x, y, '%s[%d]' % (label, i), tol)
            return
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            ok = False
        elif math.isinf(a) or math.isinf(b):
            ok = a == b
        else:
            ok = abs(a - b) <= tol * (1 + abs(b))
        self._rec(label, ok, 'got %r, want %r' % (a, b))

    def _flat(self, a):
        if isinstance(a, np.ndarray):
            return [float(e) for e in np.asarray(a, dtype=float).ravel()]
        r = []
        for e in a:
            if isinstance(e, (np.ndarray, list, tuple)):
                r.extend(self._flat(e))
            else:
                r.append(float(e))
        return r

    def check_le(self, a, b, label, tol=1e-6):
        a, b = float(a), float(b)
        ok = (not math.isnan(a)) and (not math.isnan(b)) and a <= b + tol
        self._rec(label, ok, 'got %r, want <= %r' % (a, b))

    def check_ge(self, a, b, label, tol=1e-6):
        a, b = float(a), float(b)
        ok = (not math.isnan(a)) and (not math.isnan(b)) and a >= b - tol
        self._rec(label, ok, 'got %r, want >= %r' % (a, b))

    def check_finite(self, a, label):
        fl = self._flat(a) if isinstance(a, (np.ndarray, list, tuple)) else [float(a)]
        ok = all(not math.isnan(e) and not math.isinf(e) for e in fl)
        self._rec(label, ok, 'value %r' % (fl,))

    def unreachable(self, label):
        self._rec(label, False, 'reached')

    def observe(self, name, v):
        if isinstance(v, (np.ndarray, list, tuple)):
            for i, e in enumerate(self._flat(v)):
                self.obs['%s[%d]' % (name, i)] = float(e)
        else:
            self.obs[name] = float(v)

    def nontrivial(self, label=''):
        pass

    def jacobian(self, f, xs):
        """(f(xs), matrix of partial derivatives) by central differences"""
        y0 = f(*xs)
        cols = []
        for i in range(len(xs)):
            x = float(xs[i])
            h = 1e-6
            if x - h < 0:
                lo, hi = x, x + h
            elif x + h >= 1:
                lo, hi = x - h, x
            else:
                lo, hi = x - h, x + h
            a = list(xs)
            a[i] = np.float64(hi)
            y1 = self._flat(f(*a))
            a[i] = np.float64(lo)
            y2 = self._flat(f(*a))
            cols.append([(p - q) / (hi - lo) for p, q in zip(y1, y2)])
        n = len(cols[0])
        return y0, [[cols[j][i] for j in range(len(xs))] for i in range(n)]

    def sqrt(self, x):
        return np.sqrt(x)
