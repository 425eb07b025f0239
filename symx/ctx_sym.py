"""Symbolic interpretation of a harness."""
import math, random, time
from fractions import Fraction
import numpy as np
import z3
from . import core, shimnp
from .core import S, SB, ZERO, ONE, _lift, _z3bool, _simp, numval, model_frac, rv, fvars, Unsupported, Abort


class Candidate(object):
    def __init__(self, label, inputs, note=''):
        self.label, self.inputs, self.note = label, inputs, note


class SymCtx(object):
    symbolic = True

    def __init__(self, eng, opts):
        self.E = eng
        self.opts = opts
        self.names = []             # (key, z3 const)
        self.consts = {}
        self.choices = {}
        self.ndraw = 0
        self.nshuf = 0
        self.nchecks = 0
        self.ndischarged = 0
        self.nwithin = 0
        self.candidates = []
        self.inconclusive = []
        self.observed = []
        self.param = None
        self.check_log = []
        shimnp._Random.hook = self

    # -- inputs
    def _new(self, key):
        if key in self.consts:
            return self.consts[key]
        v = z3.Real('in_' + key)
        self.consts[key] = v
        self.names.append((key, v))
        return v

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        v = self._new(name)
        for b, is_lo in ((lo, True), (hi, False)):
            if b is None:
                continue
            b = _lift(b)
            if isinstance(b, float):
                continue
            if is_lo:
                self.E.assume(v > b.e if lo_open else v >= b.e)
            else:
                self.E.assume(v < b.e if hi_open else v <= b.e)
        return S(v)

    def unit(self, name, lo_open=False):
        return self.real(name, 0, 1, lo_open=lo_open, hi_open=True)

    def choice(self, name, options):
        k = self.E.choose(name, len(options))
        self.choices['choice:' + name] = k
        return options[k]

    def integer(self, name, lo, hi):
        k = self.E.choose(name, hi - lo + 1)
        self.choices['choice:' + name] = k
        return lo + k

    def boolean(self, name):
        k = self.E.choose(name, 2)
        self.choices['choice:' + name] = k
        return bool(k)

    def unit_vec3(self, name):
        v = [self._new(name + c) for c in '.x .y .z'.split()]
        self.E.assume(v[0] * v[0] + v[1] * v[1] + v[2] * v[2] == 1)
        self.E.N.rule(v[2], 2, ONE - v[0] * v[0] - v[1] * v[1])
        for c in v:
            self.E.assume(z3.And(c >= -1, c <= 1))
        return [S(c) for c in v]

    def unit_vec2(self, name):
        v = [self._new(name + c) for c in '.x .y'.split()]
        self.E.assume(v[0] * v[0] + v[1] * v[1] == 1)
        self.E.N.rule(v[1], 2, ONE - v[0] * v[0])
        for c in v:
            self.E.assume(z3.And(c >= -1, c <= 1))
        return [S(c) for c in v]

    def unit_quat(self, name):
        v = [self._new(name + c) for c in ('.a', '.b', '.c', '.d')]
        self.E.assume(sum(c * c for c in v) == 1)
        self.E.N.rule(v[3], 2, ONE - v[0] * v[0] - v[1] * v[1] - v[2] * v[2])
        for c in v:
            self.E.assume(z3.And(c >= -1, c <= 1))
        return [S(c) for c in v]

    def angle(self, name, lo, hi):
        return self.real(name, lo, hi)

    def draw(self):
        v = self.unit('rng%d' % self.ndraw)
        self.ndraw += 1
        return v

    def rng(self, *shp):
        return shimnp.random.rand(*shp)

    def shuffle(self, x):
        n = len(x)
        left = list(range(n))
        perm = []
        for i in range(n - 1):
            key = 'perm%d' % self.nshuf
            self.nshuf += 1
            k = self.E.choose(key, len(left))
            self.choices['choice:' + key] = k
            perm.append(left.pop(k))
        perm += left
        y = [x[i].copy() if isinstance(x[i], np.ndarray) else x[i] for i in perm]
        for i in range(n):
            x[i] = y[i]

    # -- logic
    def assume(self, cond):
        if isinstance(cond, np.ndarray):
            for c in cond.reshape(-1):
                self.E.assume(c)
        else:
            self.E.assume(cond)

    def fact(self, cond):
        """a consequence of what is assumed already (helps the solver)"""
        self.E.assume(cond)

    def square(self, h):
        """tell the engine that the square of h (times a square constant) may turn up under a root"""
        l = _lift(h)
        if isinstance(l, S):
            self.E.N.hint(l.e)

    def assume_eq(self, a, b, tol=None):
        self.E.assume(a == b)

    def both(self, *cs):
        return core.sb(_simp(z3.And([_z3bool(c) for c in cs])))

    def either(self, *cs):
        return core.sb(_simp(z3.Or([_z3bool(c) for c in cs])))

    def implies(self, a, b):
        return core.sb(_simp(z3.Implies(_z3bool(a), _z3bool(b))))

    def neg(self, a):
        return core.sb(_simp(z3.Not(_z3bool(a))))

    def ite(self, c, a, b):
        return shimnp.where(c if isinstance(c, SB) else bool(c), a, b)

    def val(self, x):
        return x

    def sqrt(self, x):
        return shimnp.sqrt(x)

    def observe(self, name, v):
        if isinstance(v, (np.ndarray, list, tuple)):
            for i, e in enumerate(_flat(v)):
                self.observed.append(('%s[%d]' % (name, i), e))
        else:
            self.observed.append((name, v))

    def nontrivial(self, label=''):
        pass

    # -- claims
    def check(self, cond, label):
        if isinstance(cond, np.ndarray):
            cond = self.both(*list(cond.reshape(-1)))
        self._claim(z3.Not(_z3bool(cond)), None, label)

    def check_eq(self, a, b, label, tol=1e-6):
        if isinstance(a, (np.ndarray, list, tuple)) or isinstance(b, (np.ndarray, list, tuple)):
            fa, fb = _flat(a), _flat(b)
            if len(fa) != len(fb):
                self._claim(z3.BoolVal(True), None, label)
                return
            for i, (x, y) in enumerate(zip(fa, fb)):
                self.check_eq(x, y, '%s[%d]' % (label, i), tol)
            return
        la, lb = _lift(a), _lift(b)
        if la is None or lb is None:
            raise Unsupported('check_eq of %r and %r' % (type(a), type(b)))
        if isinstance(la, float) or isinstance(lb, float):
            same = isinstance(la, float) and isinstance(lb, float) and la == lb
            self._claim(z3.BoolVal(not same), None, label)
            return
        m = rv(max(100 * tol, 1e-4))
        ab = z3.If(lb.e >= 0, lb.e, -lb.e)
        d = la.e - lb.e
        R = self.E.N.norm(d)
        if R is not None and not R[0]:
            # numerator of the difference is zero: nothing is left for the solver but 0 != 0
            self.E.query([ZERO != ZERO], 1000)
            self.nchecks += 1
            self.check_log.append(label)
            self.ndischarged += 1
            self._keep(la.e != lb.e)
            return
        if R is not None and max(abs(x) for x in R[0].values()) < 1e-9 and self.E.query_linear([z3.Or(d > m, -d > m)], 2000)[0] == 'unsat':
            # both sides differ by rounded constants
            self.nchecks += 1
            self.check_log.append(label)
            self.ndischarged += 1
            self.nwithin += 1
            return
        self._claim(la.e != lb.e, z3.Or(d > m * (1 + ab), -d > m * (1 + ab)), label)

    def check_le(self, a, b, label, tol=1e-6):
        self._ineq(a, b, label, tol)

    def check_ge(self, a, b, label, tol=1e-6):
        self._ineq(b, a, label, tol)

    def _ineq(self, a, b, label, tol):
        la, lb = _lift(a), _lift(b)
        if isinstance(la, float) or isinstance(lb, float):
            fa = la if isinstance(la, float) else None
            fb = lb if isinstance(lb, float) else None
            nan = (fa is not None and math.isnan(fa)) or (fb is not None and math.isnan(fb))
            ok = not nan and (fa == -math.inf or fb == math.inf)
            self._claim(z3.BoolVal(not ok), None, label)
            return
        m = rv(max(100 * tol, 1e-4))
        self._claim(la.e > lb.e, la.e > lb.e + m, label)

    def check_finite(self, a, label):
        fl = _flat(a) if isinstance(a, (np.ndarray, list, tuple)) else [a]
        for e in fl:
            if isinstance(_lift(e), float):
                self._claim(z3.BoolVal(True), None, label)
                return
        self._claim(z3.BoolVal(False), None, label)

    def unreachable(self, label):
        self._claim(z3.BoolVal(True), None, label)

    def _claim(self, bad, bad_margin, label):
        self.nchecks += 1
        self.check_log.append(label)
        bad = _simp(bad)
        if z3.is_false(bad):
            self.ndischarged += 1
            return
        st, m = self._decide(bad, label)
        if st == 'unsat':
            self.ndischarged += 1
            self._keep(bad)
            return
        if bad_margin is not None:
            bad2 = _simp(bad_margin)
            st2, m2 = self._decide(bad2, label)
            if st2 == 'unsat':
                self.ndischarged += 1
                self.nwithin += 1
                return
            if st2 == 'sat':
                self._violations(bad2, m2, label)
                return
            self._undecided(label)
            return
        if st == 'sat':
            self._violations(bad, m, label)
            return
        self._undecided(label)

    def _undecided(self, label):
        self.inconclusive.append(label)
        if len(self.inconclusive) >= 3:
            raise core.Abort()

    def _keep(self, bad):
        """a proven claim may be used afterwards only if the harness asks for it"""
        if self.opts.get('learn'):
            self.E.pc.append(_simp(z3.Not(bad)))

    def _decide(self, bad, label, refine=True):
        E = self.E
        scale = self.opts.get('tscale', 1.)
        for rnd in range(14):
            st, m = 'unknown', None
            for (to, tac, seed, canon) in ((300, None, 0, 0), (600, None, 0, 2), (1500, None, 0, 0), (3000, None, 0, 1), (5000, 'qfnra-nlsat', 0, 1),
                                           (5000, 'qfnra-nlsat', 0, 0), (6000, None, 7, 1), (6000, None, 7, 0)):
                st, m = \
                    E.query_linear([bad], to * scale) if canon == 2 else \
                    (E.query_canon if canon else E.query)([bad], to * scale, tactic=tac, seed=seed)
                if st != 'unknown':
                    break
            if st == 'unknown':
                t = time.time()
                r = core.solve_cvc5(E.relevant([bad]) + [bad], 20000 * scale)
                E.stats.time += time.time() - t
                E.stats.queries += 1
                if r == 'unsat':
                    E.stats.unsat += 1
                    return 'unsat', None
                E.stats.unknown += 1
            if st != 'sat' or not refine:
                return st, m
            # is the model consistent with the true functions?
            if not self._relevant_abstr(bad):
                break
            # complete model: all of the path, so that inputs are meaningful
            st2, mf = E.query([bad], 6000 * scale, full=True)
            if st2 == 'unsat':
                return 'unsat', None
            mm = mf if st2 == 'sat' else m
            if not self._refine(mm):
                return 'sat', mm
        return st, m

    def _relevant_abstr(self, bad):
        for what, v in self.E.abstr:
            if what[0] not in ('sqrt', 'root'):
                return True
        return False

    def _num(self, m, e):
        v = m.eval(e, model_completion=True)
        f = model_frac(v)
        if f is None:
            v = z3.simplify(v)
            f = model_frac(v)
        return f

    def _refine(self, m):
        """add lemmas for function values the model gets wrong; -> number added"""
        E = self.E
        n = 0
        lem = E.lemmas
        for what, res in E.abstr:
            kind = what[0]
            if kind == 'trig':
                xe = what[1]
                s, c = res
                x0, s0, c0 = self._num(m, xe), self._num(m, s), self._num(m, c)
                if x0 is None or s0 is None or c0 is None:
                    continue
                ts, tc = math.sin(x0), math.cos(x0)
                if abs(float(s0) - ts) < 1e-6 and abs(float(c0) - tc) < 1e-6:
                    continue
                x0 = Fraction(x0).limit_denominator(10**6)
                ts, tc = rv(math.sin(x0)), rv(math.cos(x0))
                d = xe - rv(x0)
                eps = rv(Fraction(1, 10**9))
                sq = d * d / 2 + eps
                lem += [s - (ts + tc * d) <= sq, (ts + tc * d) - s <= sq,
                        c - (tc - ts * d) <= sq, (tc - ts * d) - c <= sq]
                n += 1
            elif kind == 'exp':
                xe = what[1]
                x0, y0 = self._num(m, xe), self._num(m, res)
                if x0 is None or y0 is None or abs(x0) > 300:
                    continue
                ty = math.exp(x0)
                if abs(float(y0) - ty) < 1e-6 * (1 + ty):
                    continue
                x0 = Fraction(x0).limit_denominator(10**6)
                t = rv(math.exp(x0))
                lem += [res >= t * (1 - rv(1e-12)) * (1 + xe - rv(x0)),
                        z3.Implies(xe <= rv(x0), res <= t * (1 + rv(1e-12))),
                        z3.Implies(xe >= rv(x0), res >= t * (1 - rv(1e-12))),
                        z3.Implies(z3.And(xe > rv(x0), xe < rv(x0) + 1),
                                   res * (1 - (xe - rv(x0))) <= t * (1 + rv(1e-12)))]
                n += 1
            elif kind == 'log':
                xe = what[1]
                x0, y0 = self._num(m, xe), self._num(m, res)
                if x0 is None or y0 is None or x0 <= 0:
                    continue
                ty = math.log(x0)
                if abs(float(y0) - ty) < 1e-6 * (1 + abs(ty)):
                    continue
                x0 = Fraction(x0).limit_denominator(10**6)
                if x0 <= 0:
                    continue
                t = rv(math.log(x0))
                e = rv(1e-10)
                lem += [res <= t + (xe - rv(x0)) / rv(x0) + e,
                        z3.Implies(xe <= rv(x0), res <= t + e), z3.Implies(xe >= rv(x0), res >= t - e),
                        (res - t) * xe >= (xe - rv(x0)) - e]
                n += 1
            elif kind == 'acos':
                xe = what[1]
                x0, y0 = self._num(m, xe), self._num(m, res)
                if x0 is None or y0 is None or abs(x0) > 1:
                    continue
                ty = math.acos(x0)
                if abs(float(y0) - ty) < 1e-6:
                    continue
                e = rv(1e-7)
                x0 = Fraction(x0).limit_denominator(10**6)
                t = rv(math.acos(x0))
                lem += [z3.Implies(xe <= rv(x0), res >= t - e), z3.Implies(xe >= rv(x0), res <= t + e)]
                n += 1
            elif kind == 'atan2':
                ye, xe = what[1], what[2]
                y0, x0, a0 = self._num(m, ye), self._num(m, xe), self._num(m, res)
                if None in (y0, x0, a0) or (x0 == 0 and y0 == 0):
                    continue
                ta = math.atan2(y0, x0)
                if abs(float(a0) - ta) < 1e-6:
                    continue
                t = rv(ta)
                e = rv(1e-7)
                ct, stt = rv(math.cos(ta)), rv(math.sin(ta))
                cr = ye * ct - xe * stt        # r sin(a - t)
                pi = E.pi()
                # monotone in the half plane of the point
                if y0 > 0:
                    lem += [z3.Implies(z3.And(ye > 0, cr >= 0), res >= t - e),
                            z3.Implies(z3.And(ye > 0, cr <= 0), res <= t + e)]
                elif y0 < 0:
                    lem += [z3.Implies(z3.And(ye < 0, cr >= 0), res >= t - e),
                            z3.Implies(z3.And(ye < 0, cr <= 0), res <= t + e)]
                else:
                    continue
                n += 1
            elif kind == 'pow':
                xe, pe = what[1], what[2]
                x0, p0, y0 = self._num(m, xe), self._num(m, pe), self._num(m, res)
                if None in (x0, p0, y0) or x0 <= 0 or abs(p0 * Fraction(math.log(x0))) > 300:
                    continue
                ty = float(x0) ** float(p0)
                if abs(float(y0) - ty) < 1e-6 * (1 + ty):
                    continue
                e = rv(1e-9)
                t = rv(ty)
                x0r, p0r = rv(x0), rv(p0)
                lem += [z3.Implies(z3.And(pe == p0r, pe > 0, xe <= x0r), res <= t * (1 + e)),
                        z3.Implies(z3.And(pe == p0r, pe > 0, xe >= x0r), res >= t * (1 - e)),
                        z3.Implies(z3.And(pe == p0r, pe < 0, xe <= x0r), res >= t * (1 - e)),
                        z3.Implies(z3.And(pe == p0r, pe < 0, xe >= x0r), res <= t * (1 + e)),
                        z3.Implies(z3.And(xe == x0r, xe < 1, pe >= p0r), res <= t * (1 + e)),
                        z3.Implies(z3.And(xe == x0r, xe < 1, pe <= p0r), res >= t * (1 - e)),
                        z3.Implies(z3.And(xe == x0r, xe > 1, pe >= p0r), res >= t * (1 - e)),
                        z3.Implies(z3.And(xe == x0r, xe > 1, pe <= p0r), res <= t * (1 + e))]
                n += 1
        return n

    # -- models
    def _robust(self, cs, delta):
        d = rv(delta)

        def go(t, neg):
            while z3.is_not(t):
                t = t.arg(0)
                neg = not neg
            k = t.decl().kind() if z3.is_app(t) else None
            if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
                ch = [go(x, neg) for x in t.children()]
                return z3.And(ch) if (k == z3.Z3_OP_AND) != neg else z3.Or(ch)
            if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and t.arg(0).sort() == z3.RealSort():
                a, b = t.arg(0), t.arg(1)
                less = k in (z3.Z3_OP_LE, z3.Z3_OP_LT)
                if neg:
                    less = not less
                return a + d <= b if less else a >= b + d
            if k == z3.Z3_OP_EQ and neg and t.arg(0).sort() == z3.RealSort():
                a, b = t.arg(0), t.arg(1)
                return z3.Or(a >= b + d, a + d <= b)
            return z3.Not(t) if neg else t
        return [go(c, False) for c in cs]

    def models(self, bad, first, want=5):
        """diverse complete models of path + bad (robust ones first)"""
        E = self.E
        res = []
        base = list(E.defs) + list(E.lemmas)
        scale = self.opts.get('tscale', 1.)
        bound = []
        for key, v in self.names:
            bound.append(z3.And(v >= -1000, v <= 1000))
        for delta in (0.05, 0.003, 0.0001):
            for extra in (bound, []):
                cs = base + self._robust(E.pc, delta) + self._robust([bad], delta) + extra
                st, m = core.solve(cs, 3000 * scale)
                E.stats.queries += 1
                if st == 'sat':
                    for _ in range(6):
                        if not self._refine(m):
                            break
                        base = list(E.defs) + list(E.lemmas)
                        cs = base + self._robust(E.pc, delta) + self._robust([bad], delta) + extra
                        st, m2 = core.solve(cs, 3000 * scale)
                        if st != 'sat':
                            break
                        m = m2
                    res.append(m)
                    break
            if len(res) >= 2:
                break
        if first is not None:
            # complete the cone model over the whole path
            st, m = core.solve(list(E.pc) + base + [bad], 5000 * scale)
            E.stats.queries += 1
            if st == 'sat':
                res.append(m)
            else:
                st, m = core.solve(list(E.pc) + base + [bad], 8000 * scale, tactic='qfnra-nlsat')
                if st == 'sat':
                    res.append(m)
                else:
                    res.append(first)
        # snap the inputs to short numbers when the solver agrees
        snapped = []
        for m in res[:3]:
            fx = []
            for key, v in self.names:
                f = self._num(m, v)
                if f is not None:
                    fx.append(v == rv(Fraction(round(f * 64), 64)))
            st, m2 = core.solve(list(E.pc) + list(E.defs) + list(E.lemmas) + [bad] + fx, 1500 * scale)
            E.stats.queries += 1
            if st == 'sat':
                snapped.append(m2)
        return (snapped + res)[:want + 1]

    def inputs_of(self, m):
        d = {}
        for key, v in self.names:
            f = self._num(m, v)
            d[key] = float(f) if f is not None else 0.
            zs = self.E.zsign.get(v.get_id())
            if zs is not None and zs[1] and d[key] == 0:
                d[key] = -0.
        d.update(self.choices)
        return d

    def _violations(self, bad, m, label):
        # the cone of the claim has a model: does the whole path?
        st, _ = self.E.query([bad], 4000 * self.opts.get('tscale', 1.), full=True)
        if st == 'unsat':
            self.ndischarged += 1
            if z3.is_true(bad):
                raise core.Abort()
            return
        seen = []
        for mm in self.models(bad, m):
            i = self.inputs_of(mm)
            if i not in seen:
                seen.append(i)
        self.candidates.append((label, seen))
        if len(self.candidates) >= 4:
            raise core.Abort()

    def crash(self, exc):
        """an exception escaped from the code under test on this path"""
        label = 'raises %s' % type(exc).__name__
        self.nchecks += 1
        st, m = self._decide(z3.BoolVal(True), label)
        if st == 'unsat':
            self.ndischarged += 1
            return
        E = self.E
        st, m = core.solve(list(E.pc) + E.defs + E.lemmas, 5000)
        if st == 'unsat':
            self.ndischarged += 1
            return
        seen = []
        for mm in self.models(z3.BoolVal(True), m):
            i = self.inputs_of(mm)
            if i not in seen:
                seen.append(i)
        self.candidates.append((label, seen))

    def witness(self):
        """inputs that follow this path, with the values observed on it"""
        E = self.E
        base = E.defs + E.lemmas
        scale = self.opts.get('tscale', 1.)
        bound = [z3.And(v >= -100, v <= 100) for k, v in self.names]
        for delta in (0.02, 0.0005, 0):
            for extra in (bound, []):
                cs = base + (self._robust(E.pc, delta) if delta else list(E.pc)) + extra
                st, m = core.solve(cs, 2500 * scale)
                E.stats.queries += 1
                if st == 'sat':
                    exact = not any(w[0] not in ('sqrt', 'root') for w, _ in E.abstr)
                    if not exact:
                        for _ in range(4):
                            if not self._refine(m):
                                exact = True
                                break
                            st, m2 = core.solve(cs + E.lemmas, 2500 * scale)
                            if st != 'sat':
                                break
                            m = m2
                    obs = {}
                    for n, e in self.observed:
                        l = _lift(e)
                        if isinstance(l, float):
                            obs[n] = l
                        elif l is not None:
                            f = self._num(m, l.e)
                            if f is not None:
                                obs[n] = float(f)
                    return {'inputs': self.inputs_of(m), 'obs': obs, 'exact': exact, 'delta': delta}
                if st == 'unsat' and delta == 0 and not extra:
                    return None
        return {'inputs': None}

    def probe(self):
        """inputs of the path so far (well inside it, and moved about), when there is no verdict"""
        E = self.E
        bound = [z3.And(v >= -100, v <= 100) for k, v in self.names]
        rnd = random.Random(1)
        for delta in (0.05, 0.001):
            base = E.defs + E.lemmas + self._robust(E.pc, delta) + bound
            st, m = core.solve(base, 2500)
            E.stats.queries += 1
            if st != 'sat':
                continue
            res = [self.inputs_of(m)]
            t0 = time.time()
            for i in range(10):
                if time.time() - t0 > 4:
                    break
                extra = []
                for k, v in self.names:
                    f = self._num(m, v)
                    if f is not None and rnd.random() < 0.5:
                        d = rv(Fraction(rnd.choice([1, 4, 16, 64]), 16))
                        extra.append(v >= rv(f) + d if rnd.random() < 0.5 else v <= rv(f) - d)
                if not extra:
                    continue
                st, m2 = core.solve(base + extra, 500)
                E.stats.queries += 1
                if st == 'sat':
                    res.append(self.inputs_of(m2))
                    if rnd.random() < 0.5:
                        m = m2
            return res[:7]
        return []

    def jacobian(self, f, xs):
        """(f(xs), matrix of partial derivatives), by forward differentiation"""
        ds = [S(_lift(x).e, {('j', i): ONE}) for i, x in enumerate(xs)]
        y = f(*ds)
        fl = _flat(y) if isinstance(y, (np.ndarray, list, tuple)) else [y]
        J = []
        for e in fl:
            l = _lift(e)
            row = []
            for i in range(len(xs)):
                d = l.d.get(('j', i)) if isinstance(l, S) and l.d else None
                row.append(S(d) if d is not None else S(ZERO))
            J.append(row)
        return _strip(y), J


def _strip(y):
    """drop derivatives"""
    if isinstance(y, S):
        return S(y.e)
    if isinstance(y, np.ndarray):
        r = y.copy()
        f = r.reshape(-1)
        for i in range(f.size):
            if isinstance(f[i], S):
                np.ndarray.__setitem__(f, i, S(f[i].e))
        return f.reshape(y.shape)
    if isinstance(y, (list, tuple)):
        return type(y)(_strip(e) for e in y)
    return y


def _flat(a):
    if isinstance(a, np.ndarray):
        r = []
        for e in a.reshape(-1):
            r.extend(_flat(e) if isinstance(e, (np.ndarray, list, tuple)) else [e])
        return r
    r = []
    for e in a:
        if isinstance(e, (np.ndarray, list, tuple)):
            r.extend(_flat(e))
        else:
            r.append(e)
    return r
