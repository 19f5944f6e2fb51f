"""C12: metric, connection and submanifold structure against an independent Levi-Civita reference."""
import itertools
import sympy as sp
from galgebra.ga import Ga, Sm
from galgebra.metric import Metric
from galgebra.mv import Mv
from vf import configs
from vf.bridge import Alg, mk
from vf.refga import ExprDom, expr_zero, bits
from vf.refcalc import Calc
from vf.checks.common import vname
from vf.checks.c10 import SYS, build, close, fld

BOUNDS = ('every coordinate system of the library and completely generic 2-d metrics x normalised or not x all index pairs and triples; '
          'a library of embeddings and submanifold maps (coordinate maps, vector-valued maps, nested, coordinate-name swaps) x normalised or not; all ordered pairs and triples of first accesses to the lazily built tables')
r, th, ph, x, y, z, t, u, v, w = (getattr(configs, k) for k in 'r th ph x y z t u v w'.split())
s_, c_ = sp.sin, sp.cos


def F(n, *a):
    return sp.Function(n)(*a)


GEN = {
    'gen2': ([x, y], [[F('A', x, y), F('B', x, y)], [F('B', x, y), F('C', x, y)]]),
    'gend3': ([x, y, z], [[F('A', x, y, z), 0, 0], [0, F('B', x, y, z), 0], [0, 0, F('C', x, y, z)]]),
    'gen1': ([x], [[F('A', x)]]),
    'gen3': ([x, y, z], [[F('A', x, y, z), F('D', x, y, z), F('E', x, y, z)], [F('D', x, y, z), F('B', x, y, z), F('G', x, y, z)], [F('E', x, y, z), F('G', x, y, z), F('C', x, y, z)]]),
    'schw': ([t, r, th, ph], [[-(1 - 2 / r), 0, 0, 0], [0, 1 / (1 - 2 / r), 0, 0], [0, 0, r**2, 0], [0, 0, 0, r**2 * s_(th)**2]]),
    'rot': ([t, r, ph], [[-1, 0, r**2], [0, 1, 0], [r**2, 0, r**2]]),
}


def zero(e):
    return expr_zero(sp.expand(e)) if not isinstance(e, int) else e == 0


def eq_table(ctx, key, got, want, dims):
    """Entry-by-entry comparison of nested lists or matrices."""
    for ix in itertools.product(*[range(d) for d in dims]):
        g, wv = got, want
        if isinstance(got, sp.MatrixBase):
            g = got[ix]
        else:
            for i in ix:
                g = g[i]
        if isinstance(want, sp.MatrixBase):
            wv = want[ix]
        else:
            for i in ix:
                wv = wv[i]
        ctx.check(zero(sp.sympify(g) - sp.sympify(wv)), key + str(list(ix)), lambda: 'got %s want %s' % (g, wv))
    ctx.trace()


def tables(ctx, key, M, cal, mode2=True, raw=True):
    """g, g_inv, dg, Christoffel symbols of both kinds of a Metric or Ga (coordinate metric)."""
    n = cal.n
    g0 = cal.g0
    if not M.norm:
        eq_table(ctx, key + '/g', M.g, g0, (n, n))
        if mode2:
            eq_table(ctx, key + '/g_inv', M.g_inv, cal.gi0, (n, n))
    eq_table(ctx, key + '/g_raw', M.g_raw, g0, (n, n))
    ctx.step(3)
    flat = all(sp.diff(g0[i, j], c) == 0 for i in range(n) for j in range(n) for c in cal.coords)
    ctx.check(M.connect_flg == (not flat), key + '/connect_flg', 'connect_flg %s' % M.connect_flg)
    eq_table(ctx, key + '/dg', M.dg, [[[sp.diff(g0[i, j], c) for c in cal.coords] for j in range(n)] for i in range(n)], (n, n, n))
    ctx.step(2)
    for mode, want in ((1, cal.G1), (2, getattr(cal, 'G2', None))):
        if mode == 2 and not mode2:
            continue
        ok, C = ctx.guard('%s/Christoffel %d' % (key, mode), M.Christoffel_symbols, mode=mode)
        ctx.step()
        if ok:
            if flat:
                ctx.check(C is None, '%s/Christoffel %d' % (key, mode), 'got %s for a constant metric' % (C,))
            else:
                eq_table(ctx, '%s/Christoffel %d' % (key, mode), C, want, (n, n, n))
                ctx.outcome((key, mode, str(C)))
    if not flat:
        for bad in (0, 3, None):
            ctx.raises('%s/Christoffel mode %s' % (key, bad), ValueError, lambda: M.Christoffel_symbols(mode=bad), 'unknown mode')
            ctx.step()


def system(ctx, name, norm):
    """A library coordinate system: tables, derivatives of the basis vectors and of every blade."""
    bs, coords, g, h, _ = SYS[name]
    ga, alg, cal = build(name, norm)
    n = cal.n
    key = '%s/norm=%s' % (name, norm)
    ctx.where = key
    ctx.state(key)
    tables(ctx, key, ga, cal)
    eq_table(ctx, key + '/g', ga.g, cal.g, (n, n))
    eq_table(ctx, key + '/g_inv', ga.g_inv, cal.gi, (n, n))
    ctx.check(ga.is_ortho == all(cal.g[i, j] == 0 for i in range(n) for j in range(n) if i != j), key + '/is_ortho', 'is_ortho %s' % ga.is_ortho)
    if norm:
        for i in range(n):
            ctx.check(zero(ga.g[i, i] ** 2 - 1), key + '/unit', lambda: 'normalised basis vector has square %s' % ga.g[i, i])
            ctx.check(zero(ga.e_norm[i] ** 2 * ga.g[i, i] - cal.g0[i, i]), key + '/e_norm', lambda: 'e_norm %s' % ga.e_norm[i])
            ctx.check(zero((ga.mv(ga.basis[i]) | ga.mv(ga.basis[i])).obj - ga.g[i, i]), key + '/square', 'square of the basis vector')
    else:
        ctx.check(ga.e_norm is None, key + '/e_norm', 'e_norm set without normalisation')
    ctx.step(3)
    if ga.connect_flg:
        for i in range(n):
            for j in range(n):
                want = {1 << k: cal.D[i][j][k] for k in range(n) if cal.D[i][j][k] != 0}
                close(ctx, alg, '%s/de[%d][%d]' % (key, i, j), alg.ref_of(ga.de[i][j]), want)
                ctx.step()
            for m in alg.ref.masks[1:]:
                for arg in (i, coords[i]):
                    ok, X = ctx.guard('%s/blade_derivation %s %s' % (key, vname(m), arg), ga.blade_derivation, alg.mask2blade[m], arg)
                    ctx.step()
                    if ok:
                        close(ctx, alg, '%s/blade_derivation %s %s' % (key, vname(m), arg), alg.ref_of(X), cal.dblade(i, m))
                        ctx.outcome((key, i, m, str(X)))
                ctx.state((key, i, m))
        # metric compatibility: d_k g_ij = (d_k e_i).e_j + e_i.(d_k e_j), on the real products
        for i, j, k in itertools.product(range(n), repeat=3):
            lhs = sp.diff(ga.g[i, j], coords[k])
            di, dj = ga.mv(ga.de[k][i]), ga.mv(ga.de[k][j])
            rhs = (di | ga.mv(ga.basis[j])) + (ga.mv(ga.basis[i]) | dj)
            ctx.check(zero(lhs - rhs.scalar()), '%s/compatible[%d,%d,%d]' % (key, i, j, k), 'got %s want %s' % (rhs, lhs))
            ctx.step()
            if not norm:
                ctx.check(zero(sum((c for c in alg.ref.sub(alg.ref_of(ga.de[i][j]), alg.ref_of(ga.de[j][i])).values()), sp.S.Zero)), '%s/torsion[%d,%d]' % (key, i, j), 'connection not symmetric')
    else:
        ctx.check(ga.de is None, key + '/de', 'de %s for a constant metric' % ga.de)
    ctx.sample('%s: e.g. de[0][0]=%s' % (key, ga.de[0][0] if ga.de else None))


def generic(ctx, name, cls, mode2=True):
    """Metrics given by undefined functions: the identities then hold for every metric of the dimension."""
    coords, g = GEN[name]
    cal = Calc(g, coords) if mode2 else None
    if cal is None:
        class C:
            pass
        cal = C()
        n = cal.n = len(coords)
        cal.coords, cal.g0 = coords, sp.Matrix(g)
        cal.G1 = [[[(sp.diff(g[j][k], coords[i]) + sp.diff(g[i][k], coords[j]) - sp.diff(g[i][j], coords[k])) / 2 for k in range(n)] for j in range(n)] for i in range(n)]
    bs = ' '.join('e_%s' % c for c in coords)
    for form in ('list', 'Matrix', 'root') if len(coords) > 1 else ('root',):
        key = '%s/%s/%s' % (name, cls, form)
        gg = [list(row) for row in g] if form != 'Matrix' else sp.Matrix(g)
        ctx.where = key
        ctx.state(key)
        M = (Metric if cls == 'Metric' else Ga)(bs if form != 'root' else 'e', g=gg, coords=coords)
        tables(ctx, key, M, cal, mode2)
        ctx.check([str(b) for b in M.basis] == ['e_%s' % c for c in coords], key + '/names', 'basis %s' % (M.basis,))
    ctx.sample('%s (%s): generic coordinate metric' % (name, cls))


def plain_metric(ctx):
    """The Metric class on its own: inverse, adjugate, determinant, without and with coordinates, orthogonal or not."""
    a, b, c = configs.a, configs.b, configs.c
    for nm, g in (('diag', [[a, 0], [0, b]]), ('num', [[1, 0], [0, -3]]), ('full', [[a, b], [b, c]]), ('diag3', [[1, 0, 0], [0, 2, 0], [0, 0, x ** 2]]), ('full3', [[2, 1, -1], [1, 3, 2], [-1, 2, 5]]), ('one', [[a]])):
        n = len(g)
        for coords in (None, [x, y, z][:n]):
            key = 'Metric/%s/coords=%s' % (nm, coords is not None)
            ctx.state(key)
            M = Metric(configs.basis(n), g=[list(q) for q in g], coords=coords)
            G = sp.Matrix(g)
            adj = G.adjugate()
            ok, X = ctx.guard(key + '/g_inv', lambda: M.g_inv)
            ctx.step()
            if ok:
                eq_table(ctx, key + '/g_inv', X, adj / G.det(), (n, n))
            ok, X = ctx.guard(key + '/g_adj', lambda: M.g_adj)
            ctx.step()
            if ok:
                eq_table(ctx, key + '/g_adj', X, adj, (n, n))
            ok, X = ctx.guard(key + '/detg', lambda: M.detg.doit())
            ctx.step()
            if ok:
                ctx.check(zero(X - G.det()), key + '/detg', 'got %s' % X)
                ctx.trace()
            ctx.check(M.connect_flg == (coords is not None and nm == 'diag3'), key + '/connect_flg', 'got %s' % M.connect_flg)
            ctx.outcome(key)
    # the shorthand for a general metric: symmetric functions of the coordinates
    for coords in ([x, y], [x, y, z]):
        n = len(coords)
        for cls in (Metric, Ga):
            key = "g='g'/%s/%d" % (cls.__name__, n)
            M = cls(' '.join('e_%s' % c for c in coords), g='g', coords=coords)
            ctx.step()
            ctx.state(key)
            for i, j in itertools.product(range(n), repeat=2):
                ctx.check(M.g[i, j] == M.g[j, i], key + '/symmetric', 'g[%d,%d]=%s, g[%d,%d]=%s' % (i, j, M.g[i, j], j, i, M.g[j, i]))
                ctx.check(M.g[i, j] == F('g_%s_%s' % (coords[min(i, j)], coords[max(i, j)]), *coords), key + '/entry', 'got %s' % M.g[i, j])
            gs = [[M.g[i, j] for j in range(n)] for i in range(n)]
            C = M.Christoffel_symbols(mode=1)
            G1 = [[[(sp.diff(gs[j][k], coords[i]) + sp.diff(gs[i][k], coords[j]) - sp.diff(gs[i][j], coords[k])) / 2 for k in range(n)] for j in range(n)] for i in range(n)]
            eq_table(ctx, key + '/Christoffel', C, G1, (n, n, n))
            ctx.outcome(key)
            if n == 3:
                break
    ctx.sample('Metric on its own')


ACC = ('g', 'dg', 'connect_flg', 'de', 'g_inv', 'C1', 'C2', 'mvr', 'grad', 'e_sq', 'r_basis')


def access(M, a, coords):
    if a == 'C1':
        return M.Christoffel_symbols(mode=1)
    if a == 'C2':
        return M.Christoffel_symbols(mode=2)
    if a == 'mvr':
        return [q.obj for q in M.mvr()]
    if a == 'grad':
        return [(c.obj, tuple(p.pdiffs.items())) for c, p in M.grad.terms]
    return getattr(M, a)


def order(ctx, name, norm, depth, first=None):
    """Every ordered sequence of first accesses on a new algebra gives the same tables."""
    bs, coords, g, h, _ = SYS[name]

    def new():
        return mk(bs, g=[[sp.sympify(e) for e in row] for row in g], coords=coords, norm=norm)
    base = {}
    for a in ACC:
        base[a] = access(new(), a, coords)

    def same(p, q):
        if isinstance(p, sp.MatrixBase):
            return p.shape == q.shape and all(zero(i - j) for i, j in zip(p, q))
        if isinstance(p, (list, tuple)):
            return len(p) == len(q) and all(same(i, j) for i, j in zip(p, q))
        if isinstance(p, sp.Expr) and isinstance(q, sp.Expr):
            d = sp.expand(p - q)
            if d == 0:
                return True
            if d.is_commutative:
                return zero(d)
            return all(zero(c) for b in {s for s in d.free_symbols if not s.is_commutative} for c in [d.coeff(b)])
        return p == q
    for seq in itertools.permutations(ACC, depth):
        if first is not None and seq[0] != first:
            continue
        M = new()
        for k, a in enumerate(seq):
            ok, X = ctx.guard('%s/norm=%s/%s@%d' % (name, norm, '>'.join(seq), k), access, M, a, coords)
            ctx.step()
            if ok:
                ctx.check(same(X, base[a]), '%s/norm=%s/%s@%d' % (name, norm, '>'.join(seq), k), lambda: 'got %s want %s' % (X, base[a]))
        ctx.state((name, norm, seq))
        ctx.trace()
    ctx.outcome((name, norm))
    ctx.sample('%s norm=%s: %d-sequences of %d accesses' % (name, norm, depth, len(ACC)))


# ------------------------------------------------------------------ embeddings and submanifolds
EMB = {
    'polar': ([r, th], [r * c_(th), r * s_(th)]),
    'sphere': ([th, ph], [s_(th) * c_(ph), s_(th) * s_(ph), c_(th)]),
    'ball': ([r, th, ph], [r * s_(th) * c_(ph), r * s_(th) * s_(ph), r * c_(th)]),
    'torus': ([u, v], [(2 + c_(u)) * c_(v), (2 + c_(u)) * s_(v), s_(u)]),
    'paraboloid': ([x, y], [x, y, x**2 + y**2]),
    'saddle': ([x, y], [x, y, x * y]),
    'helicoid': ([u, v], [u * c_(v), u * s_(v), v]),
    'graph': ([x, y], [x, y, F('f', x, y)]),
    'surface': ([u, v], [F('X', u, v), F('Y', u, v), F('Z', u, v)]),
    'curve': ([t], [c_(t), s_(t), t]),
    'curve2': ([t], [F('X', t), F('Y', t)]),
    'linear': ([u, v], [u + v, u - 2 * v, 3 * v]),
    'shift': ([x, y], [x + 1, y - 2]),
    'R4': ([u, v], [c_(u), s_(u), c_(v), s_(v)]),
    'skew': ([x, y], [x + y, y]),
}


def induced(G, subs_pairs, U, coords):
    """J^T G(U) J by first principles."""
    G = sp.Matrix(G).subs(subs_pairs, simultaneous=True)
    J = sp.Matrix(len(U), len(coords), lambda i, j: sp.diff(U[i], coords[j]))
    return (J.T * G * J).applyfunc(sp.simplify)


def check_geometry(ctx, key, M, coords, g, norm, deep):
    """Metric, connection and gradient of the algebra M are those of the metric g in the coordinates."""
    n = len(coords)
    if norm:
        # use the norms the algebra states, once they are checked
        for i in range(n):
            ctx.check(zero(M.e_norm[i] ** 2 * M.g[i, i] - g[i, i]), key + '/e_norm', lambda: 'norm %s for square %s' % (M.e_norm[i], g[i, i]))
            ctx.check(zero(M.g[i, i] ** 2 - 1), key + '/unit', lambda: 'normalised basis vector has square %s' % M.g[i, i])
        h = list(M.e_norm)
    cal = Calc(g, coords, h if norm else None)
    eq_table(ctx, key + '/g_raw', M.g_raw, g, (n, n))
    eq_table(ctx, key + '/g', M.g, cal.g, (n, n))
    ctx.step(2)
    if not deep:
        return
    tables(ctx, key, M, cal)
    alg = Alg(M, cal.g.tolist(), ExprDom())
    for m in ([0, 1, (1 << n) - 1] if deep == 1 else alg.ref.masks):
        R = fld(cal, [m])
        ok, X = ctx.guard('%s/grad %s' % (key, vname(m)), lambda: M.grad * alg.mv(R))
        ctx.step()
        if ok:
            close(ctx, alg, '%s/grad %s' % (key, vname(m)), alg.ref_of(X), cal.grad(R))


def embedding(ctx, name, norm, deep):
    """An algebra defined by its embedding in Euclidean space has the induced metric."""
    coords, X = EMB[name]
    g = induced(sp.eye(len(X)), [], X, coords)
    n = len(coords)
    if norm and any(g[i, j] != 0 for i in range(n) for j in range(n) if i != j):
        return
    for form in ('list', 'tuple', 'Metric'):
        key = 'X=%s/norm=%s/%s' % (name, norm, form)
        ctx.where = key
        ctx.state(key)
        XX = list(X) if form != 'tuple' else tuple(X)
        if form == 'Metric':
            M = Metric(' '.join('e_%s' % c for c in coords), X=XX, coords=coords)
            eq_table(ctx, key + '/g', M.g, g, (n, n))
            ctx.step()
            continue
        M = Ga(' '.join('e_%s' % c for c in coords), X=XX, coords=coords if form == 'list' else tuple(coords), norm=norm)
        check_geometry(ctx, key, M, coords, g, norm, deep if form == 'list' else 0)
        ctx.outcome((key, str(M.g)))
    ctx.sample('X=%s: g=%s' % (name, g.tolist()))


BASE = {
    'E2': ('e_x e_y', [x, y], [[1, 0], [0, 1]]),
    'E3': ('e_x e_y e_z', [x, y, z], [[1, 0, 0], [0, 1, 0], [0, 0, 1]]),
    'STA': ('g_t g_x g_y g_z', [t, x, y, z], [[1, 0, 0, 0], [0, -1, 0, 0], [0, 0, -1, 0], [0, 0, 0, -1]]),
    'M2': ('e_t e_x', [t, x], [[-1, 0], [0, 1]]),
    'polar': ('e_r e_th', [r, th], [[1, 0], [0, r**2]]),
    'sph': ('e_r e_th e_ph', [r, th, ph], [[1, 0, 0], [0, r**2, 0], [0, 0, r**2 * s_(th)**2]]),
    'skew': ('e_x e_y', [x, y], [[1, x], [x, 2 + x**2 + y**2]]),
    'obl': ('e_x e_y', [x, y], [[2, 1], [1, 3]]),
    'fn': ('e_x e_y', [x, y], [[F('A', x, y), F('B', x, y)], [F('B', x, y), F('C', x, y)]]),
}
SUBS = {
    'E3': [([th, ph], [s_(th) * c_(ph), s_(th) * s_(ph), c_(th)]), ([u, v], [(2 + c_(u)) * c_(v), (2 + c_(u)) * s_(v), s_(u)]), ([u, v], [u + v, u - v, 3 * v]), ([u], [c_(u), s_(u), u]), ([x, y], [x, y, x * y]), ([y, x], [x, y, x + y]),
           ([u, v, w], [u * c_(v), u * s_(v), w]), ([u, v], [F('X', u, v), F('Y', u, v), F('Z', u, v)])],
    'E2': [([r, th], [r * c_(th), r * s_(th)]), ([u], [u, u**2]), ([x, y], [y, x]), ([x, y], [x + y, x * y]), ([u, v], [F('X', u, v), F('Y', u, v)])],
    'STA': [([u, v, w], [sp.cosh(u), sp.sinh(u) * c_(v), sp.sinh(u) * s_(v), w]), ([t, x], [t, x, 0, 0]), ([u], [u, s_(u), 0, 1])],
    'M2': [([u], [sp.sinh(u), sp.cosh(u)]), ([u, v], [u + v, u - 2 * v]), ([x, t], [t, x])],
    'polar': [([r, th], [th, r]), ([th, r], [th, r]), ([u], [u, u]), ([u, v], [u, u + v]), ([r, th], [r**2, th + r]), ([th, r], [th**2 + 1, r]), ([u], [2, u]), ([r], [r + 1, r])],
    'sph': [([th, ph], [sp.Integer(1), th, ph]), ([th, ph], [2 + c_(th), th, ph]), ([th, r], [th, r, th + r]), ([ph, th], [th, ph, th]), ([u, v], [F('R', u, v), u, v]), ([r, ph], [r, sp.pi / 3, ph])],
    'skew': [([u, v], [u + v, v]), ([u], [u, u**2]), ([x, y], [y, x]), ([y, x], [x * y, y])],
    'obl': [([u, v], [u + v, u * v]), ([u], [u, 3 * u]), ([x, y], [y, x])],
    'fn': [([u, v], [u, v]), ([x, y], [y, x]), ([u], [u, 2 * u]), ([x, y], [x + y, x])],
}


def base_ga(name, norm=False):
    b, c, g = BASE[name]
    return Ga(b, g=[[sp.sympify(e) for e in row] for row in g], coords=c, norm=norm)


def sm(ctx, name, idx, basenorm, deep):
    """Coordinate-map submanifold: induced metric, connection, gradient, names; both normalisations."""
    coords, U = SUBS[name][idx]
    bc, g0 = BASE[name][1], BASE[name][2]
    g = induced(g0, list(zip(bc, U)), [sp.sympify(e) for e in U], coords)
    n = len(coords)
    B = base_ga(name, basenorm)
    for norm in (False, True):
        if norm and any(g[i, j] != 0 for i in range(n) for j in range(n) if i != j):
            ctx.raises('%s%d/norm of oblique basis' % (name, idx), ValueError, lambda: B.sm(U, coords, norm=True), 'normalising a basis that is not orthogonal')
            ctx.step()
            continue
        for how in ('sm', 'Sm', 'root') if deep or n == 1 else ('sm',):
            key = 'sm %s/%s/%s%s/norm=%s' % (how, name, coords, U, norm)
            ctx.where = key
            ctx.state(key)
            mkr = {'sm': lambda: B.sm(U, coords, norm=norm), 'Sm': lambda: Sm(U, coords, ga=B, norm=norm), 'root': lambda: B.sm(tuple(U), coords, norm=norm, root='q')}[how]
            ok, M = ctx.guard(key, mkr)
            ctx.step()
            if not ok:
                continue
            rt = 'q' if how == 'root' else 'e'
            ctx.check([str(b) for b in M.basis] == ['%s_%s' % (rt, c) for c in coords], key + '/names', 'basis %s' % (M.basis,))
            ctx.check(M.ga is B and list(M.coords) == list(coords) and isinstance(M, Ga), key + '/parent', 'parent or coordinates')
            check_geometry(ctx, key, M, coords, g, norm, deep if how == 'sm' and g.det() != 0 else 0)
            if how == 'sm' and deep:
                def tab(D):
                    return {tuple(p.pdiffs.items()): c for c, p in D.terms}
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    ok, V = ctx.guard(key + '/vpds', M.vpds)
                ctx.step()
                if ok:
                    ctx.check(V[0] == M.grad and V[1] == M.rgrad and V[0].cmpflg is False and V[1].cmpflg is True, key + '/vpds', lambda: 'vector derivatives %s differ from the gradient %s' % (V, M.grad))
            ctx.outcome((key, str(M.g)))
    eq_table(ctx, 'sm %s%d/parent metric untouched' % (name, idx), B.g_raw, sp.Matrix(g0), (B.n, B.n))
    ctx.sample('%s -> %s: g=%s' % (name, U, g.tolist()))


def sm_vector(ctx, name, idx, deep):
    """Vector-valued map: the same metric as the coordinate map with those components (constant parent basis)."""
    coords, U = SUBS[name][idx]
    bc, g0 = BASE[name][1], BASE[name][2]
    if set(coords) & set(bc):
        return
    B = base_ga(name)
    g = induced(g0, [], [sp.sympify(e) for e in U], coords)
    X = sum((e * b for e, b in zip(U, B.mv())), B.mv(sp.S.Zero))
    n = len(coords)
    for norm in (False, True):
        if norm and any(g[i, j] != 0 for i in range(n) for j in range(n) if i != j):
            continue
        for rep in ('blade', 'base'):
            key = 'sm vector/%s/%s%s/norm=%s/%s' % (name, coords, U, norm, rep)
            ctx.where = key
            ctx.state(key)
            ok, M = ctx.guard(key, lambda: B.sm(X if rep == 'blade' else X.base_rep(), coords, norm=norm))
            ctx.step()
            if ok:
                check_geometry(ctx, key, M, coords, g, norm, deep if rep == 'blade' and g.det() != 0 else 0)
                ctx.outcome((key, str(M.g)))
    ctx.sample('%s: X=%s' % (name, X))


def nested(ctx, name, norm1, norm2):
    """Submanifold of a submanifold: the metric of the composed map, whatever was normalised in between."""
    for (c1, U1), (c2, U2) in NEST[name]:
        bc, g0 = BASE[name][1], BASE[name][2]
        key = 'nested %s %s %s norm=%s,%s' % (name, U1, U2, norm1, norm2)
        ctx.where = key
        g1 = induced(g0, list(zip(bc, U1)), U1, c1)
        g2 = induced(g1, list(zip(c1, U2)), U2, c2)
        comp = [sp.sympify(e).subs(list(zip(c1, U2)), simultaneous=True) for e in U1]
        gc = induced(g0, list(zip(bc, comp)), comp, c2)
        assert all(zero(e) for e in (g2 - gc))

        def diagonal(g):
            return all(g[i, j] == 0 for i in range(g.rows) for j in range(g.rows) if i != j)
        if norm1 and not diagonal(g1) or norm2 and not diagonal(g2):
            continue
        ctx.state(key)
        ok, M = ctx.guard(key, lambda: base_ga(name).sm(U1, c1, norm=norm1).sm(U2, c2, norm=norm2))
        ctx.step(2)
        if ok:
            check_geometry(ctx, key, M, c2, g2, norm2, 1 if g2.det() != 0 else 0)
            ctx.outcome((key, str(M.g)))
    ctx.sample('nested %s' % name)


NEST = {
    'E3': [(([th, ph], [s_(th) * c_(ph), s_(th) * s_(ph), c_(th)]), ([u], [u, 2 * u])), (([r, th, z], [r * c_(th), r * s_(th), z]), ([u, v], [2 + c_(u), v, s_(u)])), (([u, v], [u, v, u * v]), ([v, u], [v + u, u]))],
    'E2': [(([r, th], [r * c_(th), r * s_(th)]), ([u], [u, u])), (([r, th], [r * c_(th), r * s_(th)]), ([th, r], [th, r])), (([r, th], [r * c_(th), r * s_(th)]), ([r, th], [r**2, 2 * th])), (([x, y], [x + y, y]), ([y, x], [x, y]))],
    'sph': [(([th, ph], [sp.Integer(3), th, ph]), ([u], [sp.pi / 4, u])), (([th, ph], [sp.Integer(3), th, ph]), ([ph, th], [th, ph]))],
    'STA': [(([t, x, y], [t, x, y, 0]), ([u, v], [sp.cosh(u), sp.sinh(u) * c_(v), sp.sinh(u) * s_(v)]))],
}


def refused(ctx):
    """Descriptions that do not fit are refused."""
    B = base_ga('E3')
    for nm, fn in (('short map', lambda: B.sm([u, v], [u, v])), ('long map', lambda: B.sm([u, v, 1, 2], [u, v])), ('no parent', lambda: Sm([u, v, 1], [u, v], ga=None)),
                   ('X without coords', lambda: Ga('e_x e_y', X=[x, y])), ('norm oblique', lambda: Ga('e_x e_y', g=[[1, x], [x, 3]], coords=[x, y], norm=True)), ('root without coords', lambda: Metric('e')),
                   ):
        ctx.raises(nm, ValueError, fn, nm)
        ctx.step()
        ctx.trace()
        ctx.state(nm)
    ctx.raises('basis not a string', TypeError, lambda: Metric(3), 'basis not a string')
    # dot product of embedding vectors
    for g in (None, [1, 1], [1, -1], [configs.a, 2]):
        for V1, V2 in (([x, y], [y, 2]), ([1, 0], [0, 1])):
            want = sum((1 if g is None else g[i]) * V1[i] * V2[i] for i in range(2))
            ctx.check(zero(sp.sympify(Metric.dot_orthogonal(V1, V2, g) - want)), 'dot_orthogonal', 'wrong')
            ctx.step()
    ctx.raises('dot_orthogonal', ValueError, lambda: Metric.dot_orthogonal([1, 2], [1, 2], [1]), 'metric of another dimension')
    ctx.outcome('refused')
    ctx.sample('refusals')


def jobs(tier):
    js = []

    def add(fn, **kw):
        js.append(dict(fn=fn, kw=kw))
    T = tier == 'thorough'
    add('refused')
    add('plain_metric')
    for k in SYS:
        for nm in (False, True):
            if nm and SYS[k][3] is None:
                continue
            add('system', name=k, norm=nm)
    for k in GEN:
        for cls in ('Metric', 'Ga'):
            m2 = k != 'gen3'
            if not m2 and cls == 'Ga':
                continue
            add('generic', name=k, cls=cls, mode2=m2)
    for k, nm in (('polar', False), ('polar', True), ('skew', False), ('flat2', False), ('sphere', True)) + ((('sph', True), ('obl3', False), ('lc', False)) if T else ()):
        if T and k != 'obl3':
            for a in ACC:
                add('order', name=k, norm=nm, depth=3, first=a)
        else:
            add('order', name=k, norm=nm, depth=2)
    heavy = ('surface', 'graph')
    for k in EMB:
        for nm in (False, True):
            add('embedding', name=k, norm=nm, deep=(2 if T else 1) if k not in heavy else (1 if T and k == 'graph' else 0))
    for k in SUBS:
        for i in range(len(SUBS[k])):
            gen = any(sp.sympify(e).has(sp.core.function.AppliedUndef) for e in SUBS[k][i][1]) or k == 'fn'
            if gen and k == 'fn' and i in (2, 3) and not T:
                continue
            deep = 0 if gen else (2 if T else 1)
            add('sm', name=k, idx=i, basenorm=False, deep=deep)
            if k in ('E3', 'polar', 'sph', 'M2') and (not gen or T):
                add('sm', name=k, idx=i, basenorm=True, deep=0)
            if k in ('E2', 'E3', 'STA', 'M2', 'obl'):
                add('sm_vector', name=k, idx=i, deep=deep)
    for k in NEST:
        for n1 in (False, True):
            for n2 in (False, True):
                add('nested', name=k, norm1=n1, norm2=n2)
    return js
