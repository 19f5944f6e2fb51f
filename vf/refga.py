"""Boring reference model of a Clifford algebra of an arbitrary symmetric bilinear form.

An element is a dict {bitmask: coefficient} over the outer-product basis of
e_0 .. e_{n-1} (bit i set <=> e_i is a factor, factors in ascending order).
Coefficients may be Fractions, sympy polys-ring elements or sympy expressions:
only + - * and the zero test of the domain are used.
"""
from fractions import Fraction
import sympy as sp
from sympy.polys.rings import PolyRing
from sympy import QQ


# ------------------------------------------------------------------ domains
class QDom:
    name = 'QQ'
    one, zero = Fraction(1), Fraction(0)

    @staticmethod
    def conv(e):
        if isinstance(e, Fraction):
            return e
        e = sp.sympify(e)
        if not e.is_Rational:
            e = sp.nsimplify(sp.simplify(e))
        if not e.is_Rational:
            raise ValueError('not rational: %s' % e)
        return Fraction(int(e.p), int(e.q))

    @staticmethod
    def is_zero(c):
        return c == 0

    @staticmethod
    def expr(c):
        return sp.Rational(c.numerator, c.denominator)


class PolyDom:
    """Polynomials over QQ in the given symbols (exact, canonical)."""
    def __init__(self, syms):
        self.syms = list(syms)
        self.name = 'QQ[%s]' % ','.join(map(str, self.syms))
        self.R = PolyRing(self.syms, QQ, 'grevlex')
        self.one, self.zero = self.R.one, self.R.zero

    def conv(self, e):
        if isinstance(e, Fraction):
            return self.R(QQ(e.numerator, e.denominator))
        return self.R.from_expr(sp.expand(sp.sympify(e)))

    def is_zero(self, c):
        return not c

    def expr(self, c):
        return c.as_expr()


def probe_points(syms, k=3):
    """A fixed, enumerated set of generic positive points in (0, 1.3)."""
    ps = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97]
    out = []
    for t in range(k):
        out.append({s: sp.Rational(ps[(3 * i + 7 * t + 1) % len(ps)], ps[(3 * i + 5 * t + 4) % len(ps)] + 17 + 3 * t)
                    for i, s in enumerate(syms)})
    return out


def concretize(e):
    """Replace every applied undefined function by a fixed concrete smooth one."""
    fs = sorted({f.func for f in e.atoms(sp.core.function.AppliedUndef)}, key=lambda f: str(f))
    reps = {}
    for k, f in enumerate(fs):
        def conc(*args, k=k):
            s = sp.Integer(0)
            for j, a in enumerate(args):
                s += (a ** 3 * (j + 2 + k) + (k + 1) * a ** 2 + a * (2 * j + 1)) / (k + 3)
            p = sp.Integer(1)
            for j, a in enumerate(args):
                p *= (a + j + k + 1)
            return s + p
        reps[f] = conc
    for f, c in reps.items():
        e = e.replace(f, c)
    return e.doit()


def expr_zero(e):
    """Decide e == 0 for the expressions this package produces.

    Exact where sympy can decide cheaply; otherwise evaluated to 30 digits at
    a fixed set of points (a nonzero value is a proof of difference; agreement
    at all points is taken as equality)."""
    e = sp.sympify(e)
    if e == 0:
        return True
    if e.is_number and e.is_Rational:
        return False
    x = sp.expand(e)
    if x == 0:
        return True
    if e.has(sp.nan, sp.zoo, sp.oo):
        return False
    e = concretize(e)
    if e == 0:
        return True
    syms = sorted(e.free_symbols, key=str)
    if not syms:
        v = sp.N(e, 40, chop=False)
        return abs(v) < sp.Float('1e-25')
    bad = 0
    for pt in probe_points(syms):
        v = e.xreplace(pt)
        try:
            v = sp.N(v, 40)
        except Exception:
            v = sp.nan
        if v.has(sp.nan, sp.zoo, sp.oo):
            bad += 1
            continue
        if v.free_symbols or not v.is_number:
            v = sp.simplify(v)
            if v != 0:
                return False
            continue
        # scale-aware
        if abs(v) > sp.Float('1e-20'):
            return False
    if bad == 3:
        return bool(sp.simplify(e) == 0)
    return True


class ExprDom:
    name = 'EX'
    one, zero = sp.S.One, sp.S.Zero

    @staticmethod
    def conv(e):
        if isinstance(e, Fraction):
            return sp.Rational(e.numerator, e.denominator)
        return sp.sympify(e)

    is_zero = staticmethod(expr_zero)

    @staticmethod
    def expr(c):
        return c


def popcount(m):
    return bin(m).count('1')


def bits(m):
    out, i = [], 0
    while m:
        if m & 1:
            out.append(i)
        m >>= 1
        i += 1
    return out


class RefGA:
    def __init__(self, g, dom):
        """g: n x n nested list of sympy-able entries."""
        self.n = len(g)
        self.dom = dom
        self.g = [[dom.conv(x) for x in row] for row in g]
        self._gp = {}
        self.N = 1 << self.n
        # masks in the order: by grade, then lexicographic in the index tuple
        self.masks = sorted(range(self.N), key=lambda m: (popcount(m), bits(m)))

    # -- linear algebra on dicts
    def clean(self, A):
        return {m: c for m, c in A.items() if not self.dom.is_zero(c)}

    def add(self, *As):
        out = {}
        for A in As:
            for m, c in A.items():
                out[m] = out[m] + c if m in out else c
        return self.clean(out)

    def scale(self, s, A):
        return self.clean({m: s * c for m, c in A.items()})

    def neg(self, A):
        return {m: -c for m, c in A.items()}

    def sub(self, A, B):
        return self.add(A, self.neg(B))

    def eq(self, A, B):
        return not self.sub(A, B)

    def const(self, s):
        return self.clean({0: self.dom.conv(s)})

    def vec(self, i):
        return {1 << i: self.dom.one}

    # -- products
    def _vec_blade(self, i, B):
        """e_i B = e_i . B + e_i ^ B for a dict B."""
        out = {}
        for m, c in B.items():
            k = 0
            for a in bits(m):
                gg = self.g[i][a]
                if not self.dom.is_zero(gg):
                    t = m & ~(1 << a)
                    v = gg * c if k % 2 == 0 else -(gg * c)
                    out[t] = out[t] + v if t in out else v
                k += 1
            if not (m >> i) & 1:
                t = m | (1 << i)
                s = popcount(m & ((1 << i) - 1))
                v = c if s % 2 == 0 else -c
                out[t] = out[t] + v if t in out else v
        return self.clean(out)

    def gp_blades(self, a, b):
        """Geometric product of two basis blades, by e_i^A' = e_i A' - e_i . A'."""
        key = (a, b)
        if key in self._gp:
            return self._gp[key]
        if a == 0:
            r = {b: self.dom.one}
        else:
            i = bits(a)[0]
            rest = a & ~(1 << i)
            r = self._vec_blade(i, self.gp_blades(rest, b))
            k = 0
            for x in bits(rest):       # subtract (e_i . A') b
                gg = self.g[i][x]
                if not self.dom.is_zero(gg):
                    t = self.gp_blades(rest & ~(1 << x), b)
                    r = self.sub(r, self.scale(gg if k % 2 == 0 else -gg, t))
                k += 1
        self._gp[key] = r
        return r

    def _bil(self, A, B, f):
        out = {}
        for a, ca in A.items():
            for b, cb in B.items():
                r = f(a, b)
                if r:
                    cc = ca * cb
                    for m, c in r.items():
                        v = cc * c
                        out[m] = out[m] + v if m in out else v
        return self.clean(out)

    def gp(self, A, B):
        return self._bil(A, B, self.gp_blades)

    def wedge_blades(self, a, b):
        if a & b:
            return {}
        s = 0
        t = a >> 1
        while t:
            s += popcount(t & b)
            t >>= 1
        return {a | b: self.dom.one if s % 2 == 0 else -self.dom.one}

    def wedge(self, A, B):
        return self._bil(A, B, self.wedge_blades)

    def _sel(self, A, B, grade):
        def f(a, b):
            k = grade(popcount(a), popcount(b))
            if k is None or k < 0:
                return {}
            return {m: c for m, c in self.gp_blades(a, b).items() if popcount(m) == k}
        return self._bil(A, B, f)

    def dot(self, A, B):
        return self._sel(A, B, lambda r, s: None if r == 0 or s == 0 else abs(r - s))

    def lc(self, A, B):
        return self._sel(A, B, lambda r, s: s - r)

    def rc(self, A, B):
        return self._sel(A, B, lambda r, s: r - s)

    def sp(self, A, B):
        return self._sel(A, B, lambda r, s: 0)

    def com(self, A, B):
        return self.scale(self.dom.conv(Fraction(1, 2)), self.sub(self.gp(A, B), self.gp(B, A)))

    def acom(self, A, B):
        return self.scale(self.dom.conv(Fraction(1, 2)), self.add(self.gp(A, B), self.gp(B, A)))

    def op(self, o, A, B):
        return {'*': self.gp, '^': self.wedge, '|': self.dot, '<': self.lc, '>': self.rc,
                '<<': self.acom, '>>': self.com, '+': self.add, '-': self.sub, 'sp': self.sp}[o](A, B)

    # -- linear maps by grade
    def bygrade(self, A, sign):
        return {m: (c if sign(popcount(m)) > 0 else -c) for m, c in A.items()}

    def rev(self, A):
        return self.bygrade(A, lambda k: -1 if (k * (k - 1) // 2) % 2 else 1)

    def invol(self, A):
        return self.bygrade(A, lambda k: -1 if k % 2 else 1)

    def ccon(self, A):
        return self.bygrade(A, lambda k: -1 if (k * (k + 1) // 2) % 2 else 1)

    def grade(self, A, r):
        return {m: c for m, c in A.items() if popcount(m) == r}

    def even(self, A):
        return {m: c for m, c in A.items() if popcount(m) % 2 == 0}

    def odd(self, A):
        return {m: c for m, c in A.items() if popcount(m) % 2 == 1}

    def grades(self, A):
        return sorted({popcount(m) for m in self.clean(A)})

    def base_word(self, m):
        """The geometric product e_i e_j ... of the basis vectors in mask m (ascending)."""
        r = {0: self.dom.one}
        for i in reversed(bits(m)):
            r = self._vec_blade(i, r)
        return r

    def key(self, A):
        return tuple(sorted((m, str(c)) for m, c in A.items()))

    def show(self, A):
        return '{' + ', '.join('%s: %s' % (''.join('e%d' % i for i in bits(m)) or '1', c)
                               for m, c in sorted(A.items(), key=lambda t: (popcount(t[0]), bits(t[0])))) + '}'
