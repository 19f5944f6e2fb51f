"""C14: multilinear functions (tensors)."""
import itertools
import sympy as sp
from galgebra.mv import Mv
from galgebra.lt import Mlt
from vf import configs
from vf.bridge import Alg, mk
from vf.refga import ExprDom, expr_zero, bits
from vf.refcalc import Calc
from vf.checks.common import vname, chunks
from vf.configs import x, y, z, r, th, ph, rp

BOUNDS = ('tensors of rank 0-3 (thorough 4) with generic components in every way of describing them (name, name as field, vector, linear transformation, scalar- and '
          'multivector-valued functions, component expressions); all ordered pairs under + - * ^ |, all slots of pdiff and contract, dd and cderiv in flat, oblique, '
          'curvilinear and normalised bases, operation words of length 3, and every sequence of creations of other tensors up to length 2 (thorough 3) before and after')


# ---- reference: component arrays with multivector values ------------------

class RT:
    def __init__(self, n, rank, comps):
        self.n, self.rank, self.c = n, rank, comps

    @classmethod
    def make(cls, n, rank, f):
        return cls(n, rank, {i: f(i) for i in itertools.product(range(n), repeat=rank)})


def lin(*terms):
    out = {}
    for c, A in terms:
        for m, v in A.items():
            out[m] = out.get(m, sp.S.Zero) + c * v
    return {m: v for m, v in out.items() if v != 0}


def is0(e):
    e = sp.expand(e)
    return e == 0 or expr_zero(e)


def same(A, B):
    return all(is0(A.get(k, 0) - B.get(k, 0)) for k in set(A) | set(B))


class W:
    """One algebra with its coordinates and calculus."""

    def __init__(self, spec):
        self.spec = spec
        kw = dict(SPEC[spec])
        norm = kw.pop('norm', False)
        g = [[sp.sympify(e) for e in row] for row in kw['g']]
        n = self.n = len(g)
        self.ga = mk(kw.get('basis', configs.basis(n)), g=g, coords=kw.get('coords'), norm=norm)
        self.alg = Alg(self.ga, self.ga.g.tolist(), ExprDom())
        self.ref = self.alg.ref
        h = [sp.sqrt(g[i][i]) for i in range(n)] if norm else None
        if norm:
            h = [sp.sympify(e) for e in kw['h']]
        self.calc = Calc(g, kw['coords'], h) if kw.get('coords') and sp.Matrix(g).det() != 0 else None
        self.gi = None if self.ga.sing_flg else sp.Matrix(self.ga.g.tolist()).inv()

    def ev(self, T, vs):
        out = {}
        for idx, val in T.c.items():
            c = sp.S.One
            for k, i in enumerate(idx):
                c = c * vs[k][i]
            if c != 0:
                for m, v in val.items():
                    out[m] = out.get(m, sp.S.Zero) + c * v
        return out

    def vec(self, comps):
        return self.ga.mv(sum((c * b for c, b in zip(comps, self.ga.basis)), sp.S.Zero))

    # operations on reference tensors
    def bil(self, o, S, T):
        return RT.make(self.n, S.rank + T.rank, lambda i: self.ref.op(o, S.c[i[:S.rank]], T.c[i[S.rank:]]))

    def add(self, S, T, s=1):
        return RT.make(self.n, S.rank, lambda i: lin((1, S.c[i]), (s, T.c[i])))

    def scale(self, k, T):
        return RT.make(self.n, T.rank, lambda i: lin((k, T.c[i])))

    def contract(self, T, p, q):
        p, q = min(p, q) - 1, max(p, q) - 1

        def f(i):
            terms = []
            for k in range(self.n):
                for l in range(self.n):
                    j = list(i)
                    j.insert(p, k)
                    j.insert(q, l)
                    if self.gi[k, l] != 0:
                        terms.append((self.gi[k, l], T.c[tuple(j)]))
            return lin(*terms)
        return RT.make(self.n, T.rank - 2, f)

    def ddir(self, j, A):
        """Directional derivative along the j-th (used) basis vector."""
        return lin((1 / self.calc.h[j], self.calc.d(j, A)))

    def dd(self, T):
        return RT.make(self.n, T.rank + 1, lambda i: self.ddir(i[-1], T.c[i[:-1]]))

    def cderiv(self, T):
        def f(i):
            j, idx = i[-1], i[:-1]
            terms = [(1, self.ddir(j, T.c[idx]))]
            for s, k in enumerate(idx):
                for m, c in self.ddir(j, {1 << k: sp.S.One}).items():
                    l = m.bit_length() - 1
                    terms.append((-c, T.c[idx[:s] + (l,) + idx[s + 1:]]))
            return lin(*terms)
        return RT.make(self.n, T.rank + 1, f)


XY, XYZ = (x, y), (x, y, z)
D = configs.diag
SPEC = {
    'E2': dict(g=D(1, 1), coords=XY), 'M2': dict(g=D(1, -2), coords=XY), 'O2': dict(g=[[1, 1], [1, 3]], coords=XY), 'NULL2': dict(g=[[0, 1], [1, 0]], coords=XY),
    'E3': dict(g=D(1, 1, 1), coords=XYZ), 'O3': dict(g=[[1, 1, 0], [1, 3, 0], [0, 0, -1]], coords=XYZ), 'E2nc': dict(g=D(1, 1)), 'O2nc': dict(g=[[2, 1], [1, 3]]),
    'Z2': dict(g=D(0, 1)), 'E1': dict(g=D(2), coords=(x,)), 'names': dict(g=D(1, -1), coords=XY, basis='gamma_t gamma_s'),
    'polar': dict(g=D(1, rp ** 2), coords=(rp, th)), 'polar-n': dict(g=D(1, rp ** 2), coords=(rp, th), norm=True, h=(1, rp)),
    'obl-x': dict(g=[[1 + x ** 2, x * y], [x * y, 1 + y ** 2]], coords=XY), 'sph': dict(g=D(1, r ** 2, r ** 2 * sp.sin(th) ** 2), coords=(r, th, ph)),
    'S2': dict(g=D(1, sp.sin(th) ** 2), coords=(th, ph)),
}


def scal(e):
    return {0: sp.sympify(e)} if e != 0 else {}


def kinds(w, field=False):
    """name -> (maker of the real tensor, reference tensor)."""
    ga, n, alg, ref = w.ga, w.n, w.alg, w.ref
    sup = ga.basis_super_scripts
    cs = ga.coords

    def sym(nm):
        if field:
            return sp.Function(nm, real=True)(*cs)
        return sp.Symbol(nm, real=True)
    v = {1 << i: sym('v%d' % i) for i in range(n)}
    q = {1 << i: sym('q%d' % i) for i in range(n)}
    B = {m: sym('B%s' % vname(m)) for m in range(1 << n) if bin(m).count('1') == 2}
    A = {m: sym('A%s' % vname(m)) for m in range(1 << n)}
    M = sp.Matrix(n, n, lambda i, j: sym('m%d%d' % (i, j)))

    def real(A):
        return ga.mv(sum((c * alg.mask2blade[m] for m, c in A.items()), sp.S.Zero))
    rv, rq, rB, rA = real(v), real(q), real(B), real(A)
    e = [{1 << i: sp.S.One} for i in range(n)]
    dot, gp, wedge = ref.dot, ref.gp, ref.wedge
    mk_ = lambda rank, f: RT.make(n, rank, f)
    out = {}
    for rank in (1, 2, 3):
        nm = 'TSR'[rank - 1]
        out['str%d' % rank] = (lambda rank=rank, nm=nm: Mlt(nm, ga, nargs=rank, **(dict(fct=True) if field else {})),
                               mk_(rank, lambda i, nm=nm: scal(sym('%s_%s' % (nm, ''.join(str(sup[k]) for k in i))))))
    out['vec'] = (lambda: Mlt(rv, ga), mk_(1, lambda i: dot(v, e[i[0]])))
    out['lt'] = (lambda: Mlt(ga.lt(M), ga), mk_(2, lambda i: dot(e[i[0]], {1 << k: M[k, i[1]] for k in range(n)})))
    out['fn-biv'] = (lambda: Mlt(lambda u, t: rB | (u ^ t), ga), mk_(2, lambda i: dot(B, wedge(e[i[0]], e[i[1]]))))
    out['fn-two'] = (lambda: Mlt(lambda u, t: (u | rv) * (t | rq), ga), mk_(2, lambda i: gp(dot(e[i[0]], v), dot(e[i[1]], q))))
    out['fn-expr'] = (lambda: Mlt(lambda u, t: (u | t).scalar() * sym('k'), ga), mk_(2, lambda i: lin((sym('k'), dot(e[i[0]], e[i[1]])))))
    out['fn-metric'] = (lambda: Mlt(lambda u, t: u | t, ga), mk_(2, lambda i: dot(e[i[0]], e[i[1]])))
    out['fn-three'] = (lambda: Mlt(lambda u, t, s: (u | rv) * (t | s), ga), mk_(3, lambda i: gp(dot(e[i[0]], v), dot(e[i[1]], e[i[2]]))))
    out['fn-one'] = (lambda: Mlt(lambda u: u | rv, ga), mk_(1, lambda i: dot(e[i[0]], v)))
    out['fn-vec'] = (lambda: Mlt(lambda u: u | rB, ga), mk_(1, lambda i: dot(e[i[0]], B)))
    out['fn-vec2'] = (lambda: Mlt(lambda u, t: (u | t) * rv, ga), mk_(2, lambda i: gp(dot(e[i[0]], e[i[1]]), v)))
    out['fn-wedge'] = (lambda: Mlt(lambda u, t: u ^ t, ga), mk_(2, lambda i: wedge(e[i[0]], e[i[1]])))
    out['fn-gp'] = (lambda: Mlt(lambda u: u * rA, ga), mk_(1, lambda i: gp(e[i[0]], A)))
    out['expr'] = (lambda: Mlt(2 * Mlt('S', ga, nargs=2, **(dict(fct=True) if field else {})).fvalue, ga, nargs=2), w.scale(2, out['str2'][1]))
    if ga.n == 1:
        for k in ('fn-biv', 'fn-vec', 'fn-wedge'):
            del out[k]
    if w.ga.sing_flg:
        pass
    return out


SCALAR = ('str1', 'str2', 'str3', 'vec', 'lt', 'fn-biv', 'fn-two', 'fn-expr', 'fn-metric', 'fn-three', 'fn-one', 'expr')


def value(w, v):
    return w.alg.ref_of(v)


def gens(w, rank):
    return [[sp.Symbol('u%d_%d' % (k, i), real=True) for i in range(w.n)] for k in range(rank)]


def probe(ctx, w, T, R, key, full=True):
    """T evaluates as R, on generic vectors and (full) on every tuple of basis vectors and combinations."""
    ctx.step()
    if not ctx.check(T.nargs == R.rank, key, lambda: 'nargs %s, expected %d' % (T.nargs, R.rank)):
        return
    vs = gens(w, R.rank)
    if R.rank == 0:
        ok, v = ctx.guard(key, lambda: T())
        if ok:
            ctx.check(same(value(w, v), R.c[()]), key, lambda: 'value %s, expected %s' % (v, R.c[()]))
        return
    ok, v = ctx.guard(key, lambda: T(*[w.vec(c) for c in vs]))
    if ok:
        ok, rv = ctx.guard(key, lambda: value(w, v))
        if ok:
            ctx.check(same(rv, w.ev(R, vs)), key, lambda: 'T(generic) = %s, expected %s' % (v, w.ev(R, vs)))
            ctx.outcome((key, str(v)[:300]))
    if not full:
        return
    es = w.ga.mv()
    for i in itertools.product(range(w.n), repeat=R.rank):
        ok, v = ctx.guard(key, lambda: T(*[es[k] for k in i]))
        ctx.step()
        if ok:
            ctx.check(same(value(w, v), R.c[i]), key, lambda: 'T%s = %s, expected %s' % (i, v, R.c[i]))
    ok, v = ctx.guard(key, lambda: T())
    if ok:
        slots = [w.ga.mv('a_%d' % (k + 1), 'vector') for k in range(R.rank)]
        comps = [s.get_coefs(1) for s in slots]
        ctx.check(same(value(w, v), w.ev(R, comps)), key, lambda: 'component expression %s' % v)
        # arguments that are themselves the slot vectors, in another order
        ok, v = ctx.guard(key, lambda: T(*reversed(slots)))
        if ok:
            ctx.check(same(value(w, v), w.ev(R, list(reversed(comps)))), key, lambda: 'arguments a_n..a_1: %s' % v)
        ok, v = ctx.guard(key, lambda: T(*[2 * s - slots[0] for s in slots]))
        if ok:
            ctx.check(same(value(w, v), w.ev(R, [[2 * p - q for p, q in zip(c, comps[0])] for c in comps])), key, lambda: 'arguments 2a_i - a_1: %s' % v)
    if w.gi is not None:
        ok, v = ctx.guard(key, lambda: T(*[w.ga.mvr()[k % w.n] for k in range(R.rank)]))
        if ok:
            ctx.check(same(value(w, v), w.ev(R, [[w.gi[k % w.n, j] for j in range(w.n)] for k in range(R.rank)])), key, lambda: 'on reciprocal vectors: %s' % v)


def j_eval(ctx, spec, field=False):
    w = W(spec)
    ks = kinds(w, field)
    for name, (f, R) in ks.items():
        key = 'eval:%s:%s%s' % (name, spec, ':field' if field else '')
        ctx.state(key)
        ok, T = ctx.guard(key, f)
        if ok:
            probe(ctx, w, T, R, key)
            probe(ctx, w, T.expand(), R, key + ':expand', full=False) if name in SCALAR and not isinstance(T.fvalue, Mv) else None
    ctx.sample('%s: %s evaluated on all basis tuples, generic and slot vectors' % (spec, sorted(ks)))


def j_ops(ctx, spec, field=False, names=None):
    w = W(spec)
    ks = kinds(w, field)
    made = {}
    for k, (f, R) in ks.items():
        if names and k not in names:
            continue
        ok, T = ctx.guard('make:%s:%s' % (k, spec), f)
        if ok:
            made[k] = (T, R)
    for (p, (S, RS)), (q, (T, RT_)) in itertools.product(made.items(), repeat=2):
        ctx.where = '%s %s %s' % (spec, p, q)
        todo = []
        if RS.rank == RT_.rank:
            todo += [('+', lambda: S + T, w.add(RS, RT_)), ('-', lambda: S - T, w.add(RS, RT_, -1))]
        if RS.rank + RT_.rank <= 3:
            todo += [('*', lambda: S * T, w.bil('*', RS, RT_)), ('^', lambda: S ^ T, w.bil('^', RS, RT_)), ('|', lambda: S | T, w.bil('|', RS, RT_))]
        for o, f, R in todo:
            key = 'op:%s:%s:%s:%s' % (o, p, q, spec)
            ctx.state(key)
            ok, U = ctx.guard(key, f)
            if ok:
                probe(ctx, w, U, R, key, full=False)
    k = sp.Symbol('k', real=True)
    for p, (S, RS) in made.items():
        for c in (2, k, sp.Rational(-1, 2)):
            key = 'scale:%s:%s' % (p, spec)
            ok, U = ctx.guard(key, lambda: S * c)
            if ok:
                probe(ctx, w, U, w.scale(c, RS), key, full=False)
        probe(ctx, w, S, RS, 'operand-changed:%s:%s' % (p, spec), full=False)
    ctx.sample('%s: all ordered pairs of %s' % (spec, sorted(made)))


def j_deriv(ctx, spec, field=False, names=None):
    w = W(spec)
    ks = kinds(w, field)
    for k, (f, R) in ks.items():
        if names and k not in names:
            continue
        ok, T = ctx.guard('make:%s:%s' % (k, spec), f)
        if not ok:
            continue
        tag = '%s:%s%s' % (k, spec, ':field' if field else '')
        ctx.state(tag)
        if k in SCALAR:
            for s in range(1, R.rank + 1):
                ok, v = ctx.guard('pdiff:' + tag, lambda: T.pdiff(s))
                ctx.step()
                if ok:
                    comps = [w.ga.mv('a_%d' % (j + 1), 'vector').get_coefs(1) for j in range(R.rank)]
                    want = {}
                    for i in range(w.n):
                        c = list(comps)
                        c[s - 1] = [sp.S.One if j == i else sp.S.Zero for j in range(w.n)]
                        e_i = {1 << j: w.gi[i, j] for j in range(w.n)}
                        want = lin((1, want), (w.ev(R, c).get(0, sp.S.Zero), e_i))
                    ctx.check(same(value(w, v), want), 'pdiff:' + tag, lambda: 'gradient in slot %d is %s, expected %s' % (s, v, want))
            for p, q in itertools.permutations(range(1, R.rank + 1), 2):
                ok, U = ctx.guard('contract:' + tag, lambda: T.contract(p, q))
                if ok:
                    probe(ctx, w, U, w.contract(R, p, q), 'contract:' + tag, full=R.rank == 3)
        if w.calc is not None and R.rank <= (2 if w.n < 3 or k in ('str2', 'lt') else 1):
            ok, U = ctx.guard('dd:' + tag, T.dd)
            if ok:
                probe(ctx, w, U, w.dd(R), 'dd:' + tag, full=False)
            ok, U = ctx.guard('cderiv:' + tag, T.cderiv)
            if ok:
                probe(ctx, w, U, w.cderiv(R), 'cderiv:' + tag, full=R.rank == 1)
                if k == 'fn-metric':
                    ctx.check(is0(sp.sympify(value(w, U(*[w.vec(c) for c in gens(w, 3)])).get(0, 0))), 'metric-compatible:' + tag, 'covariant derivative of the metric is not zero')
        probe(ctx, w, T, R, 'operand-changed:' + tag, full=False)
        # the algebra itself is as before: derivatives with respect to coordinates
        if w.calc is not None:
            F = {m: sp.Function('F%s' % vname(m))(*w.ga.coords) for m in range(1 << w.n)}
            real = w.ga.mv(sum((c * w.alg.mask2blade[m] for m, c in F.items()), sp.S.Zero))
            ok, v = ctx.guard('grad-after:' + tag, lambda: w.ga.grad * real)
            if ok:
                ctx.check(same(value(w, v), w.calc.grad(F)), 'grad-after:' + tag, lambda: 'after tensor operations the gradient of a field is %s' % v)
    ctx.sample('%s: slot gradients, contractions, tensor and covariant derivatives' % spec)


def j_words(ctx, spec, depth, cap):
    w = W(spec)
    ks = kinds(w, w.calc is not None and spec not in ('E2', 'O2'))
    base = {k: (ks[k][0](), ks[k][1]) for k in ('str1', 'vec', 'str2', 'fn-metric')}
    frontier = [((k,), T, R) for k, (T, R) in base.items()]
    for d in range(depth):
        new = []
        for wd, T, R in frontier:
            steps = []
            for k, (B, RB) in base.items():
                if k == 'fn-metric' and d:
                    continue
                if RB.rank == R.rank:
                    steps += [(wd + ('+' + k,), lambda T=T, B=B: T + B, w.add(R, RB)), (wd + ('r-' + k,), lambda T=T, B=B: B - T, w.add(RB, R, -1))]
                if RB.rank + R.rank <= cap:
                    steps += [(wd + ('*' + k,), lambda T=T, B=B: T * B, w.bil('*', R, RB)), (wd + ('r*' + k,), lambda T=T, B=B: B * T, w.bil('*', RB, R))]
            for p, q in itertools.combinations(range(1, R.rank + 1), 2):
                steps.append((wd + ('c%d%d' % (p, q),), lambda T=T, p=p, q=q: T.contract(p, q), w.contract(R, p, q)))
            if w.calc is not None and R.rank < cap and R.rank <= 2:
                steps.append((wd + ('cd',), lambda T=T: T.cderiv(), w.cderiv(R)))
            for nw, f, N in steps:
                key = 'word:%s' % spec
                ctx.where = '%s %s' % (spec, nw)
                ctx.state((spec, nw))
                ctx.trace()
                ok, U = ctx.guard(key, f)
                if ok:
                    n0 = len(ctx.fails)
                    probe(ctx, w, U, N, key, full=False)
                    if len(ctx.fails) == n0:
                        new.append((nw, U, N))
        frontier = new
    ctx.sample('%s: %s' % (spec, frontier[-1][0] if frontier else ''))


def j_high(ctx, spec, rank, field=False, deriv=False):
    """Tensors of rank 4 and more: all pairs of slots, then all pairs of what remains, products and sums."""
    w = W(spec)
    ga, n = w.ga, w.n
    sup = ga.basis_super_scripts
    kw = dict(fct=True) if field else {}

    def sym(nm):
        return sp.Function(nm, real=True)(*ga.coords) if field else sp.Symbol(nm, real=True)

    def strR(nm, r):
        return RT.make(n, r, lambda i: scal(sym('%s_%s' % (nm, ''.join(str(sup[k]) for k in i)))))
    v = [{1 << i: sp.Integer((3 * k + 2 * i + 1) % 7 - 2) for i in range(n)} for k in range(rank)]
    rv = [ga.mv(sum((c * w.alg.mask2blade[m] for m, c in a.items()), sp.S.Zero)) for a in v]
    e = [{1 << i: sp.S.One} for i in range(n)]

    def prodR(i):
        out = {0: sp.S.One}
        for k in range(rank):
            out = w.ref.gp(out, w.ref.dot(e[i[k]], v[k]))
        return out

    def mixR(i):  # slots 1 and 3 against each other, the others against vectors
        out = w.ref.dot(e[i[0]], e[i[2]])
        for k in range(rank):
            if k not in (0, 2):
                out = w.ref.gp(out, w.ref.dot(e[i[k]], v[k]))
        return out
    names = ['u%d' % k for k in range(rank)]
    prod = eval('lambda %s: %s' % (', '.join(names), '*'.join('(%s | rv[%d]).scalar()' % (a, k) for k, a in enumerate(names))), dict(rv=rv))
    mix = eval('lambda %s: (u0 | u2).scalar()*%s' % (', '.join(names), '*'.join('(%s | rv[%d]).scalar()' % (a, k) for k, a in enumerate(names) if k not in (0, 2))), dict(rv=rv))
    J = [('str', lambda: Mlt('Q', ga, nargs=rank, **kw), strR('Q', rank)),
         ('str*str', lambda: Mlt('S', ga, nargs=2, **kw) * Mlt('R', ga, nargs=rank - 2, **kw), w.bil('*', strR('S', 2), strR('R', rank - 2))),
         ('fn-prod', lambda: Mlt(prod, ga), RT.make(n, rank, prodR)), ('fn-mix', lambda: Mlt(mix, ga), RT.make(n, rank, mixR))]
    for k, f, R in J:
        key = 'high:%s:%s:%d' % (k, spec, rank)
        ctx.where = key
        ctx.state((key, field))
        ok, T = ctx.guard(key, f)
        if not ok:
            continue
        probe(ctx, w, T, R, key, full=not field and n ** rank <= 32)
        ok, U = ctx.guard(key, lambda: T + T)
        if ok:
            probe(ctx, w, U, w.add(R, R), key + ':sum', full=False)
        for p, q in itertools.permutations(range(1, rank + 1), 2):
            if w.gi is None:
                break
            ok, U = ctx.guard(key + ':contract', lambda: T.contract(p, q))
            ctx.trace()
            if not ok:
                continue
            C = w.contract(R, p, q)
            probe(ctx, w, U, C, key + ':contract', full=p < q)
            if p > q or field:
                continue
            for p2, q2 in itertools.combinations(range(1, rank - 1), 2):
                ok, V = ctx.guard(key + ':contract twice', lambda: U.contract(p2, q2))
                ctx.trace()
                if ok:
                    probe(ctx, w, V, w.contract(C, p2, q2), key + ':contract twice', full=False)
        if w.gi is not None:
            for s in range(1, rank + 1):
                ok, g = ctx.guard(key + ':pdiff', lambda: T.pdiff(s))
                ctx.step()
                if ok:
                    comps = [ga.mv('a_%d' % (j + 1), 'vector').get_coefs(1) for j in range(rank)]
                    want = {}
                    for i in range(n):
                        c = list(comps)
                        c[s - 1] = [sp.S.One if j == i else sp.S.Zero for j in range(n)]
                        want = lin((1, want), (w.ev(R, c).get(0, sp.S.Zero), {1 << j: w.gi[i, j] for j in range(n)}))
                    ctx.check(same(value(w, g), want), key + ':pdiff', lambda: 'gradient in slot %d is %s, expected %s' % (s, g, want))
        if deriv and w.calc is not None:
            ok, U = ctx.guard(key + ':cderiv', T.cderiv)
            if ok:
                probe(ctx, w, U, w.cderiv(R), key + ':cderiv', full=False)
            ok, U = ctx.guard(key + ':dd', T.dd)
            if ok:
                probe(ctx, w, U, w.dd(R), key + ':dd', full=False)
        probe(ctx, w, T, R, key + ':operand changed', full=False)
    ctx.sample('%s rank %d: %s' % (spec, rank, [k for k, _, _ in J]))


# ---- histories -----------------------------------------------------------

def events(w):
    ga = w.ga
    return {
        's1': lambda: Mlt('H', ga, nargs=1), 's2': lambda: Mlt('H', ga, nargs=2), 's3': lambda: Mlt('H', ga, nargs=3), 'f2': lambda: Mlt(lambda u, t: u ^ t, ga),
        'vec': lambda: Mlt(ga.mv()[0], ga), 'prod': lambda: Mlt('H', ga, nargs=2) * Mlt('K', ga, nargs=1), 'contract': lambda: Mlt('H', ga, nargs=2).contract(1, 2),
        'pdiff': lambda: Mlt('H', ga, nargs=2).pdiff(2), 'cderiv': lambda: Mlt('H', ga, nargs=1).cderiv() if ga.coords else None,
        'print': lambda: (str(Mlt('H', ga, nargs=2)), Mlt('H', ga, nargs=2)._latex), 'user-a1': lambda: ga.mv('a_1', 'vector'),
    }


def j_hist(ctx, spec, length, first):
    names = list(events(W(spec)))
    probes = ('str1', 'str2', 'vec', 'lt', 'fn-biv', 'fn-three', 'fn-vec')
    for tail in itertools.product(names, repeat=length - 1):
        seq = (first,) + tail
        for cut in ((length,) if length < 2 else (length, 1)):
            w = W(spec)
            ev, ks = events(w), kinds(w)
            ctx.trace()
            ctx.state((spec, seq, cut))
            key = 'history:%s' % spec
            ctx.where = 'sequence %s, created after step %d' % (seq, cut)
            for e in seq[:cut]:
                ctx.guard('history-event:%s:%s' % (spec, e), ev[e])
            made = []
            for k in probes:
                ok, T = ctx.guard(key, ks[k][0])
                if ok:
                    made.append((k, T))
            for e in seq[cut:]:
                ctx.guard('history-event:%s:%s' % (spec, e), ev[e])
            for k, T in made:
                probe(ctx, w, T, ks[k][1], '%s:%s:after-%s' % (key, k, '-'.join(seq)), full=False)
                if k == 'str2' and w.gi is not None:
                    ok, U = ctx.guard(key, lambda: T.contract(1, 2))
                    if ok:
                        probe(ctx, w, U, w.contract(ks[k][1], 1, 2), '%s:contract:after-%s' % (key, '-'.join(seq)))
    ctx.sample('%s: every tensor kind created and used after %s...' % (spec, first))


def j_refuse(ctx, spec):
    w = W(spec)
    ga = w.ga
    S, T, V = Mlt('S', ga, nargs=2), Mlt('T', ga, nargs=1), ga.mv('v', 'vector')
    other = W(spec).ga
    U = Mlt('U', other, nargs=2)
    bad = {'rank+': (ValueError, lambda: S + T), 'rank-': (ValueError, lambda: S - T), 'type+': (TypeError, lambda: S + 1), 'type-': (TypeError, lambda: S - V),
           'nargs': (TypeError, lambda: Mlt(sp.Symbol('q'), ga)), 'other+': (ValueError, lambda: S + U), 'other-': (ValueError, lambda: S - U), 'other*': (ValueError, lambda: S * U),
           'other^': (ValueError, lambda: S ^ U), 'other|': (ValueError, lambda: S | U)}
    for k, (exc, f) in bad.items():
        ctx.step()
        ctx.state((spec, k))
        ctx.raises('refuse:%s:%s' % (k, spec), exc, f, k)
    ctx.sample('%s: %s' % (spec, sorted(bad)))


def jobs(tier):
    th_ = tier == 'thorough'
    J = [dict(fn='j_refuse', kw=dict(spec='E2')), dict(fn='j_refuse', kw=dict(spec='O2nc'))]
    for s in ['E2', 'M2', 'O2', 'NULL2', 'E3', 'O3', 'E2nc', 'O2nc', 'Z2', 'E1', 'names', 'polar', 'polar-n', 'obl-x']:
        J.append(dict(fn='j_eval', kw=dict(spec=s)))
    for s in ['E2', 'O2', 'polar', 'polar-n', 'obl-x', 'E3'] + (['sph', 'O3'] if th_ else []):
        J.append(dict(fn='j_eval', kw=dict(spec=s, field=True)))
    few = ['str1', 'str2', 'vec', 'fn-biv', 'fn-vec', 'fn-wedge', 'fn-gp']
    for s in ['E2', 'M2', 'O2nc', 'E1', 'polar-n', 'E3'] + (['O2', 'O3', 'Z2', 'names'] if th_ else []):
        J.append(dict(fn='j_ops', kw=dict(spec=s, names=None if th_ or s in ('E2', 'M2', 'E1') else few)))
    for s in ['E2', 'M2', 'O2', 'NULL2', 'E2nc', 'O2nc', 'names', 'E1', 'E3', 'O3', 'polar']:
        J.append(dict(fn='j_deriv', kw=dict(spec=s)))
    groups = [('str1', 'str2'), ('vec', 'fn-metric', 'fn-one'), ('lt', 'fn-two'), ('fn-biv', 'fn-expr', 'expr'), ('fn-vec',), ('fn-vec2', 'fn-wedge'), ('fn-gp',), ('str3', 'fn-three')]
    for s in ['E2', 'O2', 'polar', 'polar-n', 'S2', 'obl-x'] + (['sph', 'O3'] if th_ else []):
        for gr in groups:
            if s in ('obl-x', 'sph') and gr[0] not in ('str1', 'vec', 'fn-vec') and not th_:
                continue
            J.append(dict(fn='j_deriv', kw=dict(spec=s, field=True, names=list(gr))))
    for s in ['E2', 'O2', 'M2'] + (['polar', 'polar-n', 'O3'] if th_ else ['polar-n']):
        J.append(dict(fn='j_words', kw=dict(spec=s, depth=3 if th_ or s == 'E2' else 2, cap=4 if th_ and s in ('E2', 'O2') else 3)))
    for s in ['E2', 'M2', 'O2', 'E1', 'Z2'] + (['O2nc', 'NULL2', 'polar-n'] if th_ else []):
        J.append(dict(fn='j_high', kw=dict(spec=s, rank=4)))
    J.append(dict(fn='j_high', kw=dict(spec='E2', rank=5)))
    J.append(dict(fn='j_high', kw=dict(spec='E1', rank=6)))
    for s in ['polar-n'] + (['polar', 'O2', 'S2'] if th_ else []):
        J.append(dict(fn='j_high', kw=dict(spec=s, rank=4 if th_ else 3, field=True, deriv=True)))
    if th_:
        J += [dict(fn='j_high', kw=dict(spec='E3', rank=4)), dict(fn='j_high', kw=dict(spec='O2', rank=5))]
    ev = list(events(W('E2')))
    for s in ['E2', 'O2nc'] + (['polar-n', 'E3'] if th_ else []):
        for e in ev:
            J.append(dict(fn='j_hist', kw=dict(spec=s, length=1, first=e)))
            J.append(dict(fn='j_hist', kw=dict(spec=s, length=3 if th_ and s == 'E2' else 2, first=e)))
    return J
