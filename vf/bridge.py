"""Moves values between the real code and the reference model, using only what
a user sees: the sympy expression of a multivector and the algebra's blades."""
import sympy as sp
from galgebra.ga import Ga
from galgebra.mv import Mv
from vf.refga import RefGA, QDom, PolyDom, ExprDom


class Alg:
    """A real algebra with its reference twin."""

    def __init__(self, ga, g=None, dom=None):
        self.ga = ga
        self.n = ga.n
        if g is None:
            g = ga.g.tolist() if self.n else []
        self.g = [[sp.sympify(x) for x in r] for r in g]
        if dom is None:
            fs = sorted(set().union(*[x.free_symbols for r in self.g for x in r]) if self.n else [], key=str)
            dom = QDom() if not fs else PolyDom(fs)
        self.dom = dom
        self.ref = RefGA(self.g, dom)
        self.blade2mask = {}
        for b, idx in zip(ga.blades.flat, ga.indexes.flat):
            self.blade2mask[b] = sum(1 << i for i in idx)
        self.mask2blade = {m: b for b, m in self.blade2mask.items()}
        self._base2mask = None

    @property
    def base2mask(self):
        if self._base2mask is None:
            self._base2mask = {}
            for b, idx in zip(self.ga.bases.flat, self.ga.indexes.flat):
                self._base2mask[b] = sum(1 << i for i in idx)
        return self._base2mask

    def terms(self, obj):
        """{basis symbol or 1: commutative coefficient} of a sympy expression."""
        obj = sp.expand(sp.sympify(obj))
        out = {}
        for t in sp.Add.make_args(obj):
            if t.is_commutative:
                c, b = t, sp.S.One
            else:
                cs, nc = t.args_cnc(split_1=False)
                if len(nc) != 1:
                    raise ValueError('not a linear combination of basis elements: %s' % t)
                c, b = sp.Mul(*cs), nc[0]
            out[b] = out.get(b, sp.S.Zero) + c
        return {b: c for b, c in out.items() if c != 0}

    def ref_of(self, A, dom=None):
        """Reference value denoted by a real multivector (or scalar expression)."""
        dom = dom or self.dom
        obj = A.obj if isinstance(A, Mv) else A
        out = {}
        for b, c in self.terms(obj).items():
            c = dom.conv(c)
            if b in self.blade2mask:
                add = {self.blade2mask[b]: c}
            elif b in self.base2mask:
                add = {m: c * (d if dom is self.dom else dom.conv(self.dom.expr(d)))
                       for m, d in self.ref.base_word(self.base2mask[b]).items()}
            else:
                raise ValueError('unknown basis symbol %s' % b)
            for m, d in add.items():
                out[m] = out[m] + d if m in out else d
        return {m: d for m, d in out.items() if not dom.is_zero(d)}

    def mv(self, A):
        """Real multivector with the reference value A (fresh object, blade form)."""
        e = sp.S.Zero
        for m, c in A.items():
            e += self.dom.expr(c) * self.mask2blade[m]
        return self.ga.mv(e)


def with_syms(alg, syms):
    """The same algebra, with extra polynomial coefficients in `syms`."""
    fs = sorted(set().union(*[x.free_symbols for r in alg.g for x in r]) if alg.n else [], key=str)
    return Alg(alg.ga, alg.g, PolyDom(fs + [s for s in syms if s not in fs]))


def mk(basis, g=None, coords=None, **kw):
    return Ga(basis, g=g, coords=coords, **kw)
