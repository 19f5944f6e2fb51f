"""Independent tensor calculus: multivector fields over a coordinate metric.

Fields are reference multivectors over the (possibly normalised) coordinate
basis.  Derivatives of the basis come from the Levi-Civita connection of the
metric, worked out here from first principles.
"""
import sympy as sp
from vf.refga import RefGA, ExprDom, bits


class Calc:
    def __init__(self, g, coords, h=None):
        """g: metric of the coordinate basis; h: norms of the basis vectors when the basis is normalised."""
        self.coords = list(coords)
        n = self.n = len(coords)
        self.g0 = sp.Matrix(g)
        self.gi0 = (self.g0.adjugate() / self.g0.det()).applyfunc(sp.simplify)
        g0, gi0, x = self.g0, self.gi0, self.coords
        # first and second kind
        self.G1 = [[[(sp.diff(g0[j, k], x[i]) + sp.diff(g0[i, k], x[j]) - sp.diff(g0[i, j], x[k])) / 2 for k in range(n)] for j in range(n)] for i in range(n)]
        self.G2 = [[[sp.simplify(sum(self.G1[i][j][l] * gi0[l, k] for l in range(n))) for k in range(n)] for j in range(n)] for i in range(n)]
        self.h = [sp.S.One] * n if h is None else [sp.sympify(e) for e in h]
        h = self.h
        # derivative of the used basis: d_i b_j = sum_k D[i][j][k] b_k  with b_j = e_j / h_j
        self.D = [[[sp.simplify(self.G2[i][j][k] * h[k] / h[j] - (sp.diff(h[j], x[i]) / h[j] if j == k else 0)) for k in range(n)] for j in range(n)] for i in range(n)]
        self.g = sp.Matrix(n, n, lambda i, j: sp.simplify(g0[i, j] / (h[i] * h[j])))
        self.gi = sp.Matrix(n, n, lambda i, j: sp.simplify(gi0[i, j] * h[i] * h[j]))
        self.ref = RefGA(self.g.tolist(), ExprDom())
        # reciprocal vectors of the coordinate basis, in the used basis: e^i = g^{ij} e_j = g^{ij} h_j b_j
        self.recip = [self.ref.clean({1 << j: sp.simplify(gi0[i, j] * h[j]) for j in range(n)}) for i in range(n)]
        self._db = {}

    def dblade(self, i, m):
        """Derivative of a basis blade (Leibniz over its factors)."""
        if (i, m) not in self._db:
            b = bits(m)
            out = {}
            for t, j in enumerate(b):
                dv = {1 << k: self.D[i][j][k] for k in range(self.n) if self.D[i][j][k] != 0}
                w = {0: sp.S.One}
                for u, q in enumerate(b):
                    w = self.ref.wedge(w, dv if u == t else {1 << q: sp.S.One})
                out = self.ref.add(out, w)
            self._db[(i, m)] = out
        return self._db[(i, m)]

    def d(self, i, A):
        """Derivative of the field A with respect to coordinate i (or an outside parameter)."""
        if not isinstance(i, int):
            if i in self.coords:
                i = self.coords.index(i)
            else:
                return {m: v for m, v in ((m, sp.diff(c, i)) for m, c in A.items()) if v != 0}
        out = {}
        for m, c in A.items():
            dc = sp.diff(c, self.coords[i])
            if dc != 0:
                out[m] = out.get(m, sp.S.Zero) + dc
            for q, v in self.dblade(i, m).items():
                out[q] = out.get(q, sp.S.Zero) + c * v
        return {m: c for m, c in out.items() if c != 0}

    def grad(self, A, op='*', left=True):
        out = {}
        for i in range(self.n):
            dA = self.d(i, A)
            p = self.ref.op(op, self.recip[i], dA) if left else self.ref.op(op, dA, self.recip[i])
            for m, c in p.items():
                out[m] = out.get(m, sp.S.Zero) + c
        return {m: c for m, c in out.items() if c != 0}
