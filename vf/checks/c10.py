"""C10: the geometric derivative against independent tensor calculus and against Cartesian embeddings."""
import itertools
import sympy as sp
from galgebra.mv import Mv
from galgebra.dop import Pdop
from vf import configs
from vf.bridge import Alg, mk
from vf.refga import RefGA, ExprDom, expr_zero, popcount, bits
from vf.refcalc import Calc
from vf.checks.common import OPS, vname

BOUNDS = ('coordinate systems of the library (flat, polar, cylindrical, spherical, Rindler, light-cone, skew, generic 2-d metrics with undefined functions) x normalised or not '
          'x every basis blade with an undefined-function coefficient x {* ^ | < >} x left/right x first and second derivatives x representation x every ordered pair of first operations')

r, th, ph, x, y, z, t, u, v, w = (getattr(configs, k) for k in 'r th ph x y z t u v w'.split())
s_, c_ = sp.sin, sp.cos
# name: basis, coords, metric, norms of basis vectors, Cartesian map or None (map, metric of the ambient space)
SYS = {
    'flat2': ('e_x e_y', [x, y], [[1, 0], [0, 1]], [1, 1], ([x, y], [1, 1])),
    'flat3': ('e_x e_y e_z', [x, y, z], [[1, 0, 0], [0, 1, 0], [0, 0, 1]], [1, 1, 1], ([x, y, z], [1, 1, 1])),
    'sta': ('g_t g_x g_y g_z', [t, x, y, z], [[1, 0, 0, 0], [0, -1, 0, 0], [0, 0, -1, 0], [0, 0, 0, -1]], [1, 1, 1, 1], None),
    'polar': ('e_r e_th', [r, th], [[1, 0], [0, r**2]], [1, r], ([r * c_(th), r * s_(th)], [1, 1])),
    'sph': ('e_r e_th e_ph', [r, th, ph], [[1, 0, 0], [0, r**2, 0], [0, 0, r**2 * s_(th)**2]], [1, r, r * s_(th)], ([r * s_(th) * c_(ph), r * s_(th) * s_(ph), r * c_(th)], [1, 1, 1])),
    'cyl': ('e_r e_th e_z', [r, th, z], [[1, 0, 0], [0, r**2, 0], [0, 0, 1]], [1, r, 1], ([r * c_(th), r * s_(th), z], [1, 1, 1])),
    'para': ('e_u e_v', [u, v], [[u**2 + v**2, 0], [0, u**2 + v**2]], [sp.sqrt(u**2 + v**2)] * 2, ([(u**2 - v**2) / 2, u * v], [1, 1])),
    'rind': ('e_t e_x', [t, x], [[-x**2, 0], [0, 1]], [x, 1], ([x * sp.sinh(t), x * sp.cosh(t)], [-1, 1])),
    'sphere': ('e_th e_ph', [th, ph], [[1, 0], [0, s_(th)**2]], [1, s_(th)], None),
    'skewc': ('e_x e_y', [x, y], [[1, sp.Rational(1, 2)], [sp.Rational(1, 2), 3]], None, None),
    'skew': ('e_x e_y', [x, y], [[1, x], [x, 2 + x**2 + y**2]], None, None),
    'skewpol': ('e_u e_v', [u, v], [[2, u], [u, u**2]], None, ([u * c_(v) , u * s_(v), u + 0 * v], None)),
    'lc': ('e_u e_v', [u, v], [[0, 1 + u**2], [1 + u**2, 0]], None, None),
    'lc3': ('e_u e_v e_w', [u, v, w], [[0, 1 + u**2, 0], [1 + u**2, 0, 0], [0, 0, 2 + v**2]], None, None),
    'obl3': ('e_x e_y e_z', [x, y, z], [[1, y, 0], [y, 2 + y**2, 0], [0, 0, 1 + x**2]], None, None),
    'fn': ('e_x e_y', [x, y], [[sp.Function('A')(x, y), 0], [0, sp.Function('B')(x, y)]], None, None),
    'line': ('e_x', [x], [[1 + x**2]], [sp.sqrt(1 + x**2)], None),
}
# metrics of a flat space: coordinate derivatives commute there on every field, elsewhere on scalar fields only
FLAT = {'flat2', 'flat3', 'sta', 'polar', 'sph', 'cyl', 'para', 'rind', 'skewc', 'line'}
SYS['skewpol'] = ('e_u e_v', [u, v], [[2, 0 * u + u], [u, u**2 + 1]], None, None)


def build(name, norm):
    bs, coords, g, h, X = SYS[name]
    ga = mk(bs, g=[[sp.sympify(e) for e in row] for row in g], coords=coords, norm=norm)
    cal = Calc(g, coords, h if norm else None)
    alg = Alg(ga, cal.g.tolist(), ExprDom())
    return ga, alg, cal


def fld(cal, masks, tag='f'):
    return {m: sp.Function('%s%d' % (tag, m))(*cal.coords) for m in masks}


def close(ctx, alg, key, got, want):
    d = {m: c for m, c in alg.ref.sub(got, want).items() if not expr_zero(c)}
    ctx.trace()
    return ctx.check(not d, key, lambda: 'got %s want %s' % (alg.ref.show(got), alg.ref.show(want)))


def first(ctx, name, norm, masks=None, ops='*^|<>'):
    """grad o F and F o rgrad on every basis blade with an arbitrary coefficient; derivatives by each coordinate."""
    ga, alg, cal = build(name, norm)
    allm = alg.ref.masks if masks is None else masks
    fields = [(vname(m), fld(cal, [m])) for m in allm] + [('all', fld(cal, alg.ref.masks))]
    for fn, R in fields:
        M = alg.mv(R)
        lab = '%s/norm=%s/%s' % (name, norm, fn)
        ctx.where = lab
        ctx.state(lab)
        for o in ops:
            for side in 'LR':
                key = '%s/%s%s' % (lab, o, side)
                ok, X = ctx.guard(key, lambda: OPS[o](ga.grad, M) if side == 'L' else OPS[o](M, ga.rgrad))
                ctx.step()
                if ok and ctx.check(isinstance(X, Mv), key, 'not a multivector'):
                    close(ctx, alg, key, alg.ref_of(X), cal.grad(R, o, side == 'L'))
                    ctx.outcome((name, norm, fn, o, side))
        for i, c in enumerate(cal.coords):
            want = cal.d(i, R)
            for nm, f in (('pDiff', lambda: ga.pDiff(M, c)), ('diff', lambda: M.diff(c)), ('pdiff', lambda: M.pdiff(c)), ('Pdop', lambda: Pdop(c) * M), ('Pdop call', lambda: Pdop(c)(M))):
                key = '%s/%s %s' % (lab, nm, c)
                ok, X = ctx.guard(key, f)
                ctx.step()
                if ok:
                    close(ctx, alg, key, alg.ref_of(X), want)
    ctx.sample('%s norm=%s: %s' % (name, norm, [a for a, _ in fields]))


def second(ctx, name, norm, sel='some'):
    """Second derivatives, Laplacians, operator products applied to fields, mixed coordinate derivatives."""
    ga, alg, cal = build(name, norm)
    n = alg.n
    ms = [0, 1, 1 << (n - 1)] + ([3] if n > 1 else []) if sel == 'some' else alg.ref.masks
    for m in ms:
        R = fld(cal, [m])
        M = alg.mv(R)
        lab = '%s/norm=%s/%s' % (name, norm, vname(m))
        ctx.where = lab
        ctx.state(lab)
        gl = {o: cal.grad(R, o) for o in '*^|'}
        for o1, o2 in (('*', '*'), ('^', '^'), ('|', '^'), ('^', '|'), ('|', '|')):
            key = '%s/grad%s(grad%sF)' % (lab, o1, o2)
            ok, X = ctx.guard(key, lambda: OPS[o1](ga.grad, OPS[o2](ga.grad, M)))
            ctx.step()
            if ok:
                close(ctx, alg, key, alg.ref_of(X), cal.grad(gl[o2], o1))
                if o1 == o2 == '^':
                    ctx.check(not alg.ref_of(X), key + '=0', 'curl of a curl is %s' % X)
        commute = name in FLAT or m == 0
        for key, f in (('(grad*grad)*F', lambda: (ga.grad * ga.grad) * M),) if commute else ():
            ok, X = ctx.guard(lab + '/' + key, f)
            ctx.step()
            if ok:
                close(ctx, alg, lab + '/' + key, alg.ref_of(X), cal.grad(gl['*']))
        # (grad|grad) F and (grad^grad) F: connection included in the operator product
        for o in '|^' if commute else '|' if name == 'sphere' else '':
            key = '%s/(grad%sgrad)*F' % (lab, o)
            ok, X = ctx.guard(key, lambda: OPS[o](ga.grad, ga.grad) * M)
            ctx.step()
            if ok:
                want = {}
                for i in range(n):
                    for j in range(n):
                        # (e^i o d_i e^j) d_j F + (e^i o e^j) d_i d_j F
                        a = alg.ref.op(o, cal.recip[i], cal.d(i, cal.recip[j]))
                        b = alg.ref.op(o, cal.recip[i], cal.recip[j])
                        want = alg.ref.add(want, alg.ref.gp(a, cal.d(j, R)), alg.ref.gp(b, cal.d(i, cal.d(j, R))))
                close(ctx, alg, key, alg.ref_of(X), want)
        key = lab + '/F*rgrad*rgrad'  # two successive first-order operators
        ok, X = ctx.guard(key, lambda: (M * ga.rgrad) * ga.rgrad)
        ctx.step()
        if ok:
            close(ctx, alg, key, alg.ref_of(X), cal.grad(cal.grad(R, '*', False), '*', False))
        for orders in itertools.product(range(3 if n < 3 else 2), repeat=n):
            if sum(orders) > 2 or sum(orders) == 0 or (not commute and max(orders) < sum(orders)):
                continue
            want = R
            for i, k in enumerate(orders):
                for _ in range(k):
                    want = cal.d(i, want)
            for nm, f in (('pDiff', lambda: ga.pDiff(M, list(orders))), ('Pdop', lambda: Pdop({c: k for c, k in zip(cal.coords, orders) if k}) * M)):
                key = '%s/%s %s' % (lab, nm, orders)
                ok, X = ctx.guard(key, f)
                ctx.step()
                if ok:
                    close(ctx, alg, key, alg.ref_of(X), want)
        ctx.outcome((name, norm, m))
    ctx.sample('%s norm=%s: second derivatives of %s' % (name, norm, [vname(m) for m in ms]))


def reps(ctx, name, norm):
    """Base representation, unexpanded expressions, outside parameters, sympy scalars."""
    ga, alg, cal = build(name, norm)
    n = alg.n
    p = sp.Symbol('p', real=True)
    f, g = sp.Function('f')(*cal.coords), sp.Function('g')(*cal.coords)
    N = (1 << n) - 1
    R = {0: f, 1: g * p, N: f * g + p ** 2}
    M = alg.mv(R)
    forms = {'blade': M, 'base': M.base_rep(), }
    if n > 1:
        forms['factored'] = ga.mv(sp.Add(f, g * p * alg.mask2blade[1], sp.Mul(f * g + p ** 2, alg.mask2blade[N], evaluate=False)))
        forms['product'] = ga.mv(g * (alg.mask2blade[1] + alg.mask2blade[2])) * 1
    for fn, F in forms.items():
        RR = R if fn != 'product' else {1: g, 2: g}
        lab = '%s/norm=%s/%s' % (name, norm, fn)
        ctx.state(lab)
        todo = [('grad*', lambda: ga.grad * F, cal.grad(RR)), ('grad|', lambda: ga.grad | F, cal.grad(RR, '|')), ('^rgrad', lambda: F ^ ga.rgrad, cal.grad(RR, '^', False)),
                ('diff p', lambda: F.diff(p), cal.d(p, RR)), ('pDiff p', lambda: ga.pDiff(F, p), cal.d(p, RR)), ('Pdop p', lambda: Pdop(p) * F, cal.d(p, RR)), ('Pdop p c', lambda: Pdop({p: 1, cal.coords[0]: 1}) * F, cal.d(0, cal.d(p, RR))),
                ('diff c', lambda: F.diff(cal.coords[-1]), cal.d(n - 1, RR))]
        for nm, fun, want in todo:
            ok, X = ctx.guard('%s/%s' % (lab, nm), fun)
            ctx.step()
            if ok:
                close(ctx, alg, '%s/%s' % (lab, nm), alg.ref_of(X), want)
    for nm, fun, want in (('grad*f', lambda: ga.grad * f, cal.grad({0: f})), ('grad*3', lambda: ga.grad * 3, {}), ('grad*S', lambda: ga.grad * sp.S(3), {}), ('f*rgrad', lambda: f * ga.rgrad, cal.grad({0: f}, '*', False)),
                          ('grad^f', lambda: ga.grad ^ f, cal.grad({0: f}, '^')), ('grad|f', lambda: ga.grad | f, cal.grad({0: f}, '|')), ('grad<f', lambda: ga.grad < f, cal.grad({0: f}, '<')), ('grad>f', lambda: ga.grad > f, cal.grad({0: f}, '>'))):
        ok, X = ctx.guard('%s/norm=%s/%s' % (name, norm, nm), fun)
        ctx.step()
        if ok:
            close(ctx, alg, '%s/norm=%s/%s' % (name, norm, nm), alg.ref_of(X), want)
    # directional derivative: (a|grad) F = sum a^i d_i F
    a = {1 << i: sp.Function('a%d' % i)(*cal.coords) for i in range(n)}
    A = alg.mv(a)
    for m in (0, 1, N):
        Rm = fld(cal, [m])
        want = {}
        for i in range(n):
            want = alg.ref.add(want, alg.ref.scale(alg.ref.sp(a, cal.recip[i]).get(0, sp.S.Zero), cal.d(i, Rm)))
        ok, X = ctx.guard('%s/(a|grad)%s' % (name, vname(m)), lambda: (A | ga.grad) * alg.mv(Rm))
        ctx.step()
        if ok:
            close(ctx, alg, '%s/norm=%s/(a|grad) %s' % (name, norm, vname(m)), alg.ref_of(X), want)
    ctx.outcome((name, norm))
    ctx.sample('%s norm=%s: %s' % (name, norm, sorted(forms)))


def orders(ctx, name, norm):
    """Each ordered pair of first operations on a new algebra, then both results judged."""
    _, _, cal = build(name, norm)
    R = fld(cal, [1, (1 << cal.n) - 1])
    acts = {
        'grad*': (lambda ga, M: ga.grad * M, cal.grad(R)), 'grad|': (lambda ga, M: ga.grad | M, cal.grad(R, '|')), '*rgrad': (lambda ga, M: M * ga.rgrad, cal.grad(R, '*', False)),
        'pDiff0': (lambda ga, M: ga.pDiff(M, cal.coords[0]), cal.d(0, R)), 'pDiffn': (lambda ga, M: ga.pDiff(M, cal.coords[-1]), cal.d(cal.n - 1, R)), 'diff': (lambda ga, M: M.diff(cal.coords[-1]), cal.d(cal.n - 1, R)),
        'lap': (lambda ga, M: (ga.grad * ga.grad) * M, cal.grad(cal.grad(R)) if name in FLAT else None), 'product': (lambda ga, M: M * M.rev(), None), 'g_inv': (lambda ga, M: ga.g_inv, None),
        'Gamma': (lambda ga, M: ga.Christoffel_symbols(mode=1), None), 'Gamma2': (lambda ga, M: ga.Christoffel_symbols(mode=2), None), 'mvr': (lambda ga, M: ga.mvr(), None), 'print': (lambda ga, M: (str(ga.grad), str(M)), None),
        'make_grad': (lambda ga, M: ga.make_grad(sp.symbols('a0:%d' % cal.n, real=True)) * ga.mv(1), None),
    }
    for p, q in itertools.permutations(acts, 2):
        ga, alg, _ = (mk(SYS[name][0], g=[[sp.sympify(e) for e in row] for row in SYS[name][2]], coords=SYS[name][1], norm=norm), None, None)
        alg = Alg(ga, cal.g.tolist(), ExprDom())
        M = alg.mv(R)
        for a in (p, q, p):
            key = '%s/norm=%s/%s>%s/%s' % (name, norm, p, q, a)
            f, want = acts[a]
            ok, X = ctx.guard(key, f, ga, M)
            ctx.step()
            if ok and want is not None:
                close(ctx, alg, key, alg.ref_of(X), want)
        ctx.state((name, norm, p, q))
    ctx.outcome((name, norm))
    ctx.sample('%s: all ordered pairs of %d first operations' % (name, len(acts)))


def embed(ctx, name, norm):
    """The same derivative computed in the ambient Cartesian algebra, where the basis is constant."""
    ga, alg, cal = build(name, norm)
    X, eta = SYS[name][4]
    n, N = alg.n, len(X)
    amb = RefGA([[sp.sympify(eta[i]) if i == j else sp.S.Zero for j in range(N)] for i in range(N)], ExprDom())
    E = [amb.clean({1 << k: sp.diff(X[k], c) for k in range(N)}) for c in cal.coords]
    Bv = [amb.scale(1 / sp.sympify(cal.h[i]), E[i]) for i in range(n)]
    gm = sp.Matrix(n, n, lambda i, j: amb.sp(E[i], E[j]).get(0, sp.S.Zero)).applyfunc(sp.trigsimp)
    gi = (gm.adjugate() / gm.det()).applyfunc(sp.simplify)
    rec = [amb.add({}, *[amb.scale(gi[i, j], E[j]) for j in range(n) if gi[i, j] != 0]) for i in range(n)]

    def up(R):
        out = {}
        for m, c in R.items():
            b = {0: sp.S.One}
            for i in bits(m):
                b = amb.wedge(b, Bv[i])
            out = amb.add(out, {q: c * k for q, k in b.items()})
        return out
    for m in alg.ref.masks:
        R = fld(cal, [m])
        U = up(R)
        M = alg.mv(R)
        lab = '%s/norm=%s/%s' % (name, norm, vname(m))
        ctx.state(lab)
        for o in '*^|':
            want = {}
            for i, c in enumerate(cal.coords):
                dU = {q: sp.diff(k, c) for q, k in U.items()}
                want = amb.add(want, amb.op(o, rec[i], amb.clean(dU)))
            ok, Y = ctx.guard(lab + o, lambda: OPS[o](ga.grad, M))
            ctx.step()
            if ok:
                got = up(alg.ref_of(Y))
                d = amb.sub(got, want)
                ctx.trace()
                ctx.check(not d, lab + '/embedded ' + o, lambda: 'got %s want %s' % (amb.show(got), amb.show(want)))
        ctx.outcome(lab)
    ctx.sample('%s: grad %s compared in the ambient space' % (name, 'normalised' if norm else ''))


def classical(ctx, name):
    """Divergence, curl and Laplacian by the scale-factor formulas."""
    ga, alg, cal = build(name, True)
    h, c, n = cal.h, cal.coords, cal.n
    H = sp.prod(h)
    F = [sp.Function('F%d' % i)(*c) for i in range(n)]
    f = sp.Function('f')(*c)
    V = ga.mv(sum(a * b for a, b in zip(F, ga.basis)))
    div = sum(sp.diff(F[i] * H / h[i], c[i]) for i in range(n)) / H
    lap = sum(sp.diff(sp.diff(f, c[i]) * H / h[i] ** 2, c[i]) for i in range(n)) / H
    ctx.state(name)
    for nm, X, want in (('div', ga.grad | V, div), ('div<', ga.grad < V, div), ('lap', ga.grad * (ga.grad * f), lap), ('lap|', ga.grad | (ga.grad * f), lap), ('lap op', (ga.grad * ga.grad) * ga.mv(f), lap), ('lap op|', (ga.grad | ga.grad) * ga.mv(f), lap)):
        ctx.step()
        close(ctx, alg, '%s/%s' % (name, nm), alg.ref_of(X), {0: want})
    if n == 3:
        want = {}
        for i, j, k in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
            want[1 << i] = (sp.diff(h[k] * F[k], c[j]) - sp.diff(h[j] * F[j], c[k])) / (h[j] * h[k])
        ctx.step()
        close(ctx, alg, name + '/curl', alg.ref_of(-ga.I() * (ga.grad ^ V)), want)
    ctx.trace()
    ctx.outcome(name)
    ctx.sample('%s: divergence %s' % (name, ga.grad | V))


def jobs(tier):
    js = []

    def add(fn, **kw):
        js.append(dict(fn=fn, kw=kw))
    T = tier == 'thorough'
    for k in SYS:
        for nm in (False, True):
            if nm and SYS[k][3] is None:
                continue
            big = k in ('sph', 'lc3', 'obl3', 'sta')
            if big:
                allm = sorted(range(1 << len(SYS[k][1])), key=lambda m: bin(m).count('1'))
                for i in range(4):
                    ms = allm[i::4]
                    if not T and k in ('lc3', 'obl3'):
                        ms = ms[:1]
                    add('first', name=k, norm=nm, masks=ms, ops='*^|<>' if T or k != 'obl3' else '*|')
            else:
                add('first', name=k, norm=nm)
            if k not in ('obl3', 'lc3', 'sta') or T:
                add('second', name=k, norm=nm, sel='all' if T and not big else 'some')
            if k not in ('obl3',) or T:
                add('reps', name=k, norm=nm)
            if SYS[k][4] is not None:
                add('embed', name=k, norm=nm)
    for k in ('flat2', 'flat3', 'polar', 'cyl', 'sph', 'para'):
        add('classical', name=k)
    for k, nm in (('polar', False), ('polar', True), ('skew', False)) + ((('sphere', True), ('sph', True)) if T else ()):
        add('orders', name=k, norm=nm)
    return js
