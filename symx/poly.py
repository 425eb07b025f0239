"""Rational normal form of the arithmetic terms built on a path.

Terms are rewritten to numerator / denominators over Q, modulo the defining
relations of auxiliary variables (s*s = e for square roots, s*s = 1 - c*c for
sine and cosine, the relation of a unit vector).  An equality claim is turned
into `numerator = 0` before it is given to the solver; divisions are by terms
the path conditions keep away from zero, so clearing them is sound.
"""
from fractions import Fraction
import time
import z3

LIMIT = 2500


class TooBig(Exception):
    pass


def _num(e):
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    return None


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, k in b:
        d[v] = d.get(v, 0) + k
    return tuple(sorted(d.items()))


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        t = r.get(m, 0) + s * c
        if t == 0:
            r.pop(m, None)
        else:
            r[m] = t
    if len(r) > LIMIT:
        raise TooBig()
    return r


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


ONEP = {(): Fraction(1)}


class Norm(object):
    def __init__(self):
        self.sqhints = []
        self.vid = {}           # ast id -> index
        self.vars = []          # z3 terms
        self.memo = {}
        self.keep = []
        self.rules = {}         # var index -> (exponent, R) : var^exponent -> R
        self.dens = []          # canonical denominators (Poly)
        self.dkey = {}
        self.lin = False        # terms with one variable per monomial
        self.mono = {}
        self.lin_side = []
        self.pos = set()        # variables known not to be negative
        self.stop = 0

    # -- atoms
    def atom(self, e):
        k = e.get_id()
        i = self.vid.get(k)
        if i is None:
            i = len(self.vars)
            self.vid[k] = i
            self.vars.append(e)
        return i

    def rule(self, var, exp, term):
        """var^exp = term"""
        new = var.get_id() not in self.vid
        i = self.atom(var)
        if i in self.rules:
            return
        try:
            self.stop = time.time() + 2
            r = self.nf(term)
        except TooBig:
            return
        self.rules[i] = (exp, r)
        if not new:
            self.memo.clear()

    # -- polynomials modulo the rules
    def pmul(self, a, b):
        if len(a) * len(b) > 60000:
            raise TooBig()
        if time.time() > self.stop:
            raise TooBig()
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = mmul(m1, m2)
                t = r.get(m, 0) + c1 * c2
                if t == 0:
                    r.pop(m, None)
                else:
                    r[m] = t
        if len(r) > LIMIT * 4:
            raise TooBig()
        return r

    def reducible(self, p):
        rules = self.rules
        for m in p:
            for v, k in m:
                if v in rules and k >= rules[v][0]:
                    return v
        return None

    def reduce(self, R):
        """apply the rules to the numerator"""
        num, den = R
        while True:
            v = self.reducible(num)
            if v is None:
                num, den = self.cancel(num, den)
                d2 = self.den_rule(den)
                if d2 is None:
                    return num, den
                den, mult = d2
                num = self.pmul(num, mult)
                continue
            n, (rn, rd) = self.rules[v]
            # num = sum_k v^k * c_k ; group by k // n
            groups = {}
            for m, c in num.items():
                k = 0
                rest = []
                for w, e in m:
                    if w == v:
                        k = e
                    else:
                        rest.append((w, e))
                q, r = divmod(k, n)
                if r:
                    rest.append((v, r))
                    rest.sort()
                g = groups.setdefault(q, {})
                rest = tuple(rest)
                t = g.get(rest, 0) + c
                if t == 0:
                    g.pop(rest, None)
                else:
                    g[rest] = t
            q = max(groups)
            acc = {}
            # sum g_k * rn^k * rd^(q-k), over rd^q
            rdp = self.denpoly(rd)
            pw = [ONEP]
            pd = [ONEP]
            for _ in range(q):
                pw.append(self.pmul(pw[-1], rn))
                pd.append(self.pmul(pd[-1], rdp))
            for k, g in groups.items():
                acc = padd(acc, self.pmul(self.pmul(g, pw[k]), pd[q - k]))
            den = dict(den)
            for d, e in rd.items():
                den[d] = den.get(d, 0) + e * q
            num = acc

    def den_rule(self, den):
        """replace v^n in the denominators by its defining term -> (den, factor of the numerator)"""
        for d, e in den.items():
            p = self.dens[d]
            if len(p) != 1:
                continue
            (m, c), = p.items()
            if len(m) != 1 or m[0][1] != 1 or m[0][0] not in self.rules:
                continue
            n, (rn, rd) = self.rules[m[0][0]]
            if e < n or not rn:
                continue
            q = e // n
            den = dict(den)
            den[d] -= q * n
            if not den[d]:
                del den[d]
            mult = ONEP
            for _ in range(q):
                mult = self.pmul(mult, self.denpoly(rd))
            # / rn^q
            if len(rn) == 1:
                (m2, c2), = rn.items()
                for v, k in m2:
                    i, _ = self.denkey({((v, 1),): Fraction(1)})
                    den[i] = den.get(i, 0) + k * q
                mult = pscale(mult, 1 / c2 ** q)
            else:
                i, lead = self.denkey(rn)
                den[i] = den.get(i, 0) + q
                mult = pscale(mult, 1 / lead ** q)
            return den, mult
        return None

    def denpoly(self, den):
        r = ONEP
        for d, e in den.items():
            for _ in range(e):
                r = self.pmul(r, self.dens[d])
        return r

    def cancel(self, num, den):
        """cancel variable factors"""
        if not num:
            return {}, {}
        if not den:
            return num, den
        # monomial common factor
        common = None
        for m in num:
            d = dict(m)
            if common is None:
                common = d
            else:
                common = {v: min(k, d[v]) for v, k in common.items() if v in d}
            if not common:
                break
        if common:
            sub = {}
            den = dict(den)
            for d in list(den):
                p = self.dens[d]
                if len(p) == 1:
                    (m, c), = p.items()
                    if len(m) == 1 and m[0][1] == 1 and m[0][0] in common:
                        v = m[0][0]
                        k = min(common[v], den[d])
                        if k:
                            sub[v] = k
                            den[d] -= k
                            if not den[d]:
                                del den[d]
            if sub:
                r = {}
                for m, c in num.items():
                    m2 = tuple((v, k - sub.get(v, 0)) for v, k in m if k - sub.get(v, 0))
                    r[m2] = c
                num = r
        # exact division by a denominator
        for d in list(den):
            p = self.dens[d]
            while len(p) > 1 and len(num) >= len(p) and d in den:
                q = self.exact(num, p)
                if q is None:
                    break
                num = q
                den = dict(den)
                den[d] -= 1
                if not den[d]:
                    del den[d]
        # whole denominators
        for d in list(den):
            p = self.dens[d]
            if len(p) > 1 and len(p) == len(num):
                k = self.ratio(num, p)
                if k is not None:
                    den = dict(den)
                    den[d] -= 1
                    if not den[d]:
                        del den[d]
                    num = {(): k}
                    break
        return num, den

    @staticmethod
    def exact(a, p):
        """a / p when p divides a exactly, else None (lexicographic division)"""
        vs = sorted({v for m in a for v, k in m} | {v for m in p for v, k in m})
        if not {v for m in p for v, k in m} <= {v for m in a for v, k in m}:
            return None
        ix = {v: i for i, v in enumerate(vs)}

        def vec(m):
            r = [0] * len(vs)
            for v, k in m:
                r[ix[v]] = k
            return tuple(r)
        a = {vec(m): c for m, c in a.items()}
        p = {vec(m): c for m, c in p.items()}
        lp = max(p)
        tp = min(p)
        ta = min(a)
        if any(x < y for x, y in zip(ta, tp)):
            return None
        cp = p[lp]
        q = {}
        n = 0
        while a:
            la = max(a)
            m = tuple(x - y for x, y in zip(la, lp))
            if min(m) < 0:
                return None
            n += 1
            if n > 400:
                return None
            c = a[la] / cp
            q[m] = c
            for mp, k in p.items():
                t = tuple(x + y for x, y in zip(m, mp))
                v = a.get(t, 0) - c * k
                if v == 0:
                    a.pop(t, None)
                else:
                    a[t] = v
        return {tuple((vs[i], k) for i, k in enumerate(m) if k): c for m, c in q.items()}

    @staticmethod
    def ratio(a, b):
        k = None
        for m, c in a.items():
            if m not in b:
                return None
            t = c / b[m]
            if k is None:
                k = t
            elif k != t:
                return None
        return k

    def denkey(self, p):
        """register a polynomial (not constant) as a denominator -> (key, constant factor)"""
        lead = p[min(p)]
        q = {m: c / lead for m, c in p.items()}
        k = frozenset(q.items())
        i = self.dkey.get(k)
        if i is None:
            i = len(self.dens)
            self.dens.append(q)
            self.dkey[k] = i
        return i, lead

    # -- rational functions
    def radd(self, A, B, s=1):
        (a, da), (b, db) = A, B
        if not b:
            return A
        if da == db:
            return self.cancel(padd(a, b, s), da)
        den = dict(da)
        for d, e in db.items():
            den[d] = max(den.get(d, 0), e)
        fa = {d: e - da.get(d, 0) for d, e in den.items() if e > da.get(d, 0)}
        fb = {d: e - db.get(d, 0) for d, e in den.items() if e > db.get(d, 0)}
        na = self.pmul(a, self.denpoly(fa)) if fa else a
        nb = self.pmul(b, self.denpoly(fb)) if fb else b
        return self.reduce((padd(na, nb, s), den))

    def rmul(self, A, B):
        (a, da), (b, db) = A, B
        # cancel a whole denominator by the other numerator
        den = dict(da)
        for d, e in db.items():
            den[d] = den.get(d, 0) + e
        for (x, y) in ((a, b), (b, a)):
            pass
        return self.reduce((self.pmul(a, b), den))

    def rinv(self, A):
        a, da = A
        if not a:
            raise TooBig()
        n = self.denpoly(da)
        if len(a) == 1:
            (m, c), = a.items()
            den = {}
            for v, k in m:
                i, _ = self.denkey({((v, 1),): Fraction(1)})
                den[i] = den.get(i, 0) + k
            return self.reduce((pscale(n, 1 / c), den))
        i, lead = self.denkey(a)
        return self.reduce((pscale(n, 1 / lead), {i: 1}))

    def rdiv(self, A, B):
        if A[1] == B[1] and len(A[0]) == len(B[0]):
            k = self.ratio(A[0], B[0])
            if k is not None:
                return {(): k}, {}
        b, db = B
        if len(b) == 1 or not db:
            return self.rmul(A, self.rinv(B))
        # A / (b/db) = A*db/b, cancelling equal denominators
        a, da = A
        da = dict(da)
        db = dict(db)
        for d in list(db):
            if d in da:
                k = min(da[d], db[d])
                da[d] -= k
                db[d] -= k
                if not da[d]:
                    del da[d]
                if not db[d]:
                    del db[d]
        i, lead = self.denkey(b)
        num = self.pmul(a, self.denpoly(db)) if db else a
        da[i] = da.get(i, 0) + 1
        return self.reduce((pscale(num, 1 / lead), da))

    def nf(self, e):
        """normal form of a z3 real term"""
        stack = [(e, False)]
        memo = self.memo
        while stack:
            t, done = stack.pop()
            k = t.get_id()
            if k in memo:
                continue
            n = _num(t)
            if n is not None:
                memo[k] = ({(): n} if n else {}, {})
                self.keep.append(t)
                continue
            kind = t.decl().kind()
            if kind not in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS,
                            z3.Z3_OP_POWER):
                i = self.atom(t)
                memo[k] = self.reduce(({((i, 1),): Fraction(1)}, {}))
                self.keep.append(t)
                continue
            ch = t.children()
            if kind == z3.Z3_OP_POWER:
                n = _num(ch[1])
                if n is None or n.denominator != 1 or n < 0 or n > 12:
                    i = self.atom(t)
                    memo[k] = ({((i, 1),): Fraction(1)}, {})
                    self.keep.append(t)
                    continue
            if not done:
                stack.append((t, True))
                for c in ch:
                    if c.get_id() not in memo:
                        stack.append((c, False))
                continue
            if time.time() > self.stop:
                raise TooBig()
            rs = [memo[c.get_id()] for c in ch]
            if kind == z3.Z3_OP_ADD:
                r = rs[0]
                for x in rs[1:]:
                    r = self.radd(r, x)
            elif kind == z3.Z3_OP_SUB:
                r = rs[0]
                for x in rs[1:]:
                    r = self.radd(r, x, -1)
            elif kind == z3.Z3_OP_UMINUS:
                r = (pscale(rs[0][0], -1), rs[0][1])
            elif kind == z3.Z3_OP_MUL:
                r = rs[0]
                for x in rs[1:]:
                    r = self.rmul(r, x)
            elif kind == z3.Z3_OP_DIV:
                r = self.rdiv(rs[0], rs[1])
            else:
                r = ({(): Fraction(1)}, {})
                for _ in range(int(_num(ch[1]))):
                    r = self.rmul(r, rs[0])
            memo[k] = r
            self.keep.append(t)
        return memo[e.get_id()]

    def norm(self, e, secs=1.0):
        """(num, den) or None"""
        self.stop = time.time() + secs
        try:
            return self.nf(e)
        except TooBig:
            return None

    # -- back to z3
    def term(self, p):
        ts = []
        for m, c in sorted(p.items()):
            if self.lin and m and not (len(m) == 1 and m[0][1] == 1):
                x = self.mono.get(m)
                if x is None:
                    x = z3.Real('mono!%d' % len(self.mono))
                    self.mono[m] = x
                    if all(k % 2 == 0 or v in self.pos for v, k in m):
                        self.lin_side.append(x >= 0)
                ts.append(z3.RatVal(c.numerator, c.denominator) * x if c != 1 else x)
                continue
            f = [z3.RatVal(c.numerator, c.denominator)] if c != 1 or not m else []
            for v, k in m:
                f += [self.vars[v]] * k
            t = f[0]
            for x in f[1:]:
                t = t * x
            ts.append(t)
        if not ts:
            return z3.RealVal(0)
        r = ts[0]
        for x in ts[1:]:
            r = r + x
        return r

    def subst(self, R, eqs):
        """substitute variables by rationals/polynomials given as {index: R}"""
        num, den = R
        if not eqs:
            return R
        acc = ({}, {})
        cache = {}
        for m, c in num.items():
            t = ({(): c}, {})
            rest = []
            for v, k in m:
                if v in eqs:
                    for _ in range(k):
                        t = self.rmul(t, eqs[v])
                else:
                    rest.append((v, k))
            if rest:
                t = self.rmul(t, ({tuple(rest): Fraction(1)}, {}))
            acc = self.radd(acc, t)
        return acc            # only the numerator's zeroness matters

    # -- whole assertions
    def key(self, e, secs=0.3):
        """hashable canonical form of a term, or its ast id"""
        r = self.norm(e, secs)
        if r is None:
            return ('id', e.get_id())
        return (frozenset(r[0].items()), frozenset(r[1].items()))

    def hint(self, h, secs=1.0):
        """h may turn up under a square root as a square"""
        R = self.norm(h * h, secs)
        if R is not None:
            self.sqhints.append((h, R))

    def square_root(self, e, secs=0.3):
        """e = (c * monomial)^2 -> term of c*monomial (sign unknown), or None"""
        import math
        r = self.norm(e, secs)
        if r is None:
            return None
        num, den = r
        for h, H in self.sqhints:
            if len(H[0]) != len(num):
                continue
            if den == H[1]:
                k = self.ratio(num, H[0])
            else:
                k = self.ratio(self.pmul(num, self.denpoly(H[1])), self.pmul(H[0], self.denpoly(den)))
            if k is not None and k > 0:
                a, b = math.isqrt(k.numerator), math.isqrt(k.denominator)
                if a * a == k.numerator and b * b == k.denominator:
                    return h * z3.RatVal(a, b)
        if len(num) != 1:
            return None
        (m, c), = num.items()
        if c < 0:
            return None
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a != c.numerator or b * b != c.denominator:
            return None
        if any(k % 2 for v, k in m) or any(k % 2 for k in den.values()):
            return None
        t = self.term({tuple((v, k // 2) for v, k in m): Fraction(a, b)})
        if den:
            t = t / self.term(self.denpoly({d: k // 2 for d, k in den.items()}))
        return t

    def linear(self, c):
        """c with one fresh variable per non-linear monomial (a weakening); None when it has none"""
        self.lin = True
        try:
            return self.assertion(c)
        finally:
            self.lin = False

    def atom_form(self, t):
        """comparison -> the same comparison of a polynomial with zero"""
        k = t.decl().kind()
        a, b = t.arg(0), t.arg(1)
        if a.sort() != z3.RealSort():
            return t
        R = self.norm(a - b, 2.)
        if R is None:
            return z3.Bool('lin!%d' % t.get_id()) if self.lin else t
        num, den = R
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            e = self.term(num)
            return e == 0 if k == z3.Z3_OP_EQ else e != 0
        for d, n in den.items():
            if n % 2:
                p = self.dens[d]
                if len(p) == 1 and next(iter(p.values())) > 0 and all(v in self.pos for v, k in next(iter(p))):
                    continue
                try:
                    num = self.pmul(num, self.dens[d])
                    num, x = self.reduce((num, {}))
                    if x:
                        raise TooBig()
                except TooBig:
                    self.keep.append(t)
                    return z3.Bool('lin!%d' % t.get_id()) if self.lin else t
        e = self.term(num)
        return {z3.Z3_OP_LE: e <= 0, z3.Z3_OP_LT: e < 0, z3.Z3_OP_GE: e >= 0, z3.Z3_OP_GT: e > 0}[k]

    def assertion(self, c):
        k = c.decl().kind() if z3.is_app(c) else None
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES):
            ch = [self.assertion(x) for x in c.children()]
            return {z3.Z3_OP_AND: lambda: z3.And(ch), z3.Z3_OP_OR: lambda: z3.Or(ch),
                    z3.Z3_OP_NOT: lambda: z3.Not(ch[0]), z3.Z3_OP_IMPLIES: lambda: z3.Implies(*ch)}[k]()
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT)                 and len(c.children()) == 2:
            return self.atom_form(c)
        return c
