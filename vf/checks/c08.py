"""C08: reciprocal frames, inverse metric, gradients with respect to coordinates and vectors."""
import itertools
from fractions import Fraction
import sympy as sp
from galgebra.mv import Mv
from galgebra.ga import Ga
from vf import configs
from vf.bridge import Alg, mk
from vf.refga import RefGA, QDom, ExprDom, expr_zero, popcount, bits
from vf.checks.common import mstr, chunks, vname

BOUNDS = ('every nondegenerate symmetric metric with entries {-1,0,1,2} (n=2) and {-1,0,1} (n=3), the named library to n=5 incl. symbolic entries, '
          'coordinate metrics of the library; every frame of k<=n vectors from an integer box; every ordered pair (thorough: triple) of first accesses')


def det_ok(g):
    return sp.Matrix(g).det() != 0


def inv_ref(g):
    """Gauss-free cofactor inverse."""
    m = sp.Matrix(g)
    return m.adjugate() / m.det()


def vdot(g, u, v):
    n = len(g)
    s = sp.S.Zero
    for i in range(n):
        for j in range(n):
            a, b = u.get(1 << i, 0), v.get(1 << j, 0)
            if a != 0 and b != 0 and g[i][j] != 0:
                s += a * b * g[i][j]
    return s


def is_vec(R):
    return all(popcount(m) == 1 for m in R)


def probes(g):
    """What a user can read off the algebra; each name is one access."""
    n = len(g)

    def P(ga, alg):
        return {
            'mvr': lambda: [alg.ref_of(v) for v in ga.mvr()],
            'mvr_raw': lambda: [alg.ref_of(v) for v in ga.mvr(norm=False)],
            'r_basis_mv': lambda: [alg.ref_of(v) for v in ga.r_basis_mv],
            'r_basis': lambda: [alg.ref_of(v) for v in ga.r_basis],
            'r_basis_dict': lambda: [alg.ref_of(ga.r_basis_dict[s]) for s in ga.r_symbols],
            'g_inv': lambda: ga.g_inv,
            'e_sq': lambda: ga.e_sq,
            'blades': lambda: {m: alg.ref_of(grad_probe(ga, alg, m)) for m in alg.ref.masks},
            'frame': lambda: [alg.ref_of(v) for v in ga.ReciprocalFrame([ga.mv(b) for b in ga.basis])],
            'product': lambda: alg.ref_of(ga.mv(ga.basis[0]) * ga.mv(ga.basis[-1]) * ga.I() if not ga.sing_flg else ga.mv(ga.basis[0]) * ga.mv(ga.basis[-1])),
        }
    return P


def generic_mv(ga, alg):
    syms = {m: sp.Symbol('p_%d' % m, real=True) for m in alg.ref.masks}
    return syms, ga.mv(sp.Add(*[s * alg.mask2blade[m] for m, s in syms.items()]))


def grad_probe(ga, alg, m):
    syms, A = generic_mv(ga, alg)
    return ga.make_grad(A) * ga.mv(syms[m])


def judge(ctx, lab, name, g, alg, val):
    n = alg.n
    m = sp.Matrix(g)
    e2 = sp.Integer((-1) ** (n * (n - 1) // 2)) * m.det()
    ortho = all(g[i][j] == 0 for i in range(n) for j in range(n) if i != j)
    key = '%s/%s' % (lab, name)
    ctx.step()
    if name == 'e_sq':
        ctx.check(expr_zero(val - e2), key, lambda: 'E^2 = %s, should be %s' % (val, e2))
    elif name == 'g_inv':
        p = (m * sp.Matrix(val)).applyfunc(sp.expand)
        ctx.check(all(expr_zero(p[i, j] - (1 if i == j else 0)) for i in range(n) for j in range(n)), key, lambda: 'g g_inv = %s' % p)
    elif name in ('mvr', 'mvr_raw', 'r_basis_mv', 'r_basis', 'r_basis_dict', 'frame'):
        f = sp.S.One if (ortho or name in ('mvr', 'frame')) else e2
        ctx.check(len(val) == n and all(is_vec(v) for v in val), key, 'not n vectors: %s' % val)
        for i in range(n):
            for j in range(n):
                d = vdot(g, val[i], {1 << j: sp.S.One})
                ctx.check(expr_zero(d - (f if i == j else 0)), key + ':%d%d' % (i, j), lambda: 'e^%d . e_%d = %s, want %s' % (i, j, d, f if i == j else 0))
    elif name == 'blades':
        ref = alg.ref
        for ma, R in val.items():
            ctx.check(ref.grades(R) == [popcount(ma)], key + ':grade ' + vname(ma), lambda: 'grade of %s' % ref.show(R))
            for mb in ref.masks:
                ctx.step()
                s = ref.sp(R, {mb: ref.dom.one}).get(0, sp.S.Zero)
                ctx.check(expr_zero(s - (1 if ma == mb else 0)), key + ':' + vname(ma) + vname(mb), lambda: '<e^%s e_%s> = %s' % (vname(ma), vname(mb), s))
    ctx.trace()
    ctx.outcome((name, str(val)))


ACCESS = ['mvr', 'mvr_raw', 'r_basis_mv', 'r_basis', 'r_basis_dict', 'g_inv', 'e_sq', 'blades', 'frame', 'product']


def tables(ctx, metrics, what=None):
    for g in metrics:
        g = [[configs.S(e) for e in row] for row in g]
        if not det_ok(g):
            continue
        lab = 'g=' + mstr(g)
        ctx.where = lab
        ctx.state(lab)
        ga = mk(configs.basis(len(g)), g=g)
        alg = Alg(ga, g, ExprDom())
        pr = probes(g)(ga, alg)
        for name in what or ACCESS:
            ok, val = ctx.guard(lab + '/' + name, pr[name])
            if ok and name != 'product':
                judge(ctx, lab, name, g, alg, val)
        # the user reads them again
        for name in ('mvr', 'r_basis_mv', 'g_inv'):
            judge(ctx, lab + '/again', name, g, alg, pr[name]())
    ctx.sample('%d metrics' % len(metrics))


def orders(ctx, name, depth):
    """Every ordered tuple of first accesses on a new algebra."""
    g = configs.metric(name)
    for seq in itertools.permutations(ACCESS, depth):
        ga = mk(configs.basis(len(g)), g=g)
        alg = Alg(ga, g, ExprDom())
        pr = probes(g)(ga, alg)
        lab = '%s/%s' % (name, '>'.join(seq))
        ctx.state(lab)
        for s in seq + seq[:1]:
            ok, val = ctx.guard(lab + '/' + s, pr[s])
            if ok and s != 'product':
                judge(ctx, lab, s, g, alg, val)
    ctx.sample('%s: all ordered %d-tuples of %s' % (name, depth, ACCESS))


def frames(ctx, name, box, k, sl=None):
    """Reciprocal frames of every k-tuple of vectors from the box."""
    g = configs.metric(name)
    n = len(g)
    ga = configs.algebra(name)
    alg = Alg(ga, g)
    vs = [v for v in itertools.product(box, repeat=n) if any(v)]
    vs = [{1 << i: Fraction(x) for i, x in enumerate(v) if x} for v in vs]
    frs = list(itertools.permutations(range(len(vs)), k)) if k <= 2 else list(itertools.combinations(range(len(vs)), k))
    if sl:
        frs = frs[sl[0]::sl[1]]
    mvs = [alg.mv(v) for v in vs]
    for fr in frs:
        V = [vs[i] for i in fr]
        gram = sp.Matrix(k, k, lambda i, j: vdot(alg.g, {m: sp.Rational(c.numerator, c.denominator) for m, c in V[i].items()}, {m: sp.Rational(c.numerator, c.denominator) for m, c in V[j].items()}))
        d = gram.det()
        lab = '%s/%s' % (name, '|'.join(alg.ref.show(v) for v in V))
        ctx.where = lab
        if d == 0:
            continue
        e2 = d * (-1) ** (k * (k - 1) // 2)
        ctx.state(lab)
        E = {0: Fraction(1)}
        for v in V:
            E = alg.ref.wedge(E, v)
        for mode in ('norm', 'append'):
            ok, r = ctx.guard(lab + '/' + mode, ga.ReciprocalFrame, [mvs[i] for i in fr], mode)
            ctx.step()
            ctx.trace()
            if not ok:
                continue
            if mode == 'append':
                ctx.check(len(r) == k + 1 and sp.expand(r[-1] - e2) == 0, lab + '/append E^2', lambda: 'appended %s want %s' % (r[-1], e2))
                r = r[:-1]
            f = Fraction(1) if mode == 'norm' else Fraction(int(e2.p), int(e2.q))
            ctx.check(len(r) == k, lab + '/len', 'length %d' % len(r))
            for i, x in enumerate(r):
                X = alg.ref_of(x)
                if not ctx.check(is_vec(X) and not alg.ref.wedge(E, X), lab + '/%s:%d' % (mode, i), lambda: 'reciprocal vector %s is not in the span' % x.obj):
                    continue
                for j, y in enumerate(V):
                    s = alg.ref.sp(X, y).get(0, Fraction(0))
                    ctx.check(s == (f if i == j else 0), lab + '/%s:%d.%d' % (mode, i, j), lambda: 'v^%d . v_%d = %s want %s' % (i, j, s, f if i == j else 0))
                ctx.outcome(alg.ref.key(X))
    ctx.sample('%s: %d frames of %d vectors' % (name, len(frs), k))


def vgrad(ctx, name):
    """Gradients with respect to a vector or multivector argument, left and right, given as Mv or list, cached or not."""
    g = configs.metric(name)
    n = len(g)
    for order in itertools.permutations(['mv', 'list', 'right', 'other', 'full'], 3):
        ga = configs.algebra(name)
        alg = Alg(ga, g, ExprDom())
        ginv = inv_ref(g)
        a = sp.symbols('a1:%d' % (n + 1), real=True)
        b = sp.symbols('b1:%d' % (n + 1), real=True)
        A = ga.mv(sum(s * e for s, e in zip(a, ga.basis)))
        B = ga.mv(sum(s * e for s, e in zip(b, ga.basis)))
        F = {1: sp.sin(a[0]) * a[-1] + b[0] * a[0] ** 2, 0: a[0] * a[-1] ** 3 * b[-1], (1 << n) - 1: a[-1] ** 2 + b[0] * a[0]}
        Fm = ga.mv(sp.Add(*[c * alg.mask2blade[m] for m, c in F.items()]))
        lab0 = '%s/%s' % (name, '>'.join(order))
        ctx.state(lab0)
        for what in order + order[:1]:
            if what == 'full':
                syms, G = generic_mv(ga, alg)
                # gradient by the whole multivector: sum of e^I d/dp_I
                for m in alg.ref.masks:
                    val = alg.ref_of(ga.make_grad(G) * ga.mv(syms[m] ** 2))
                    s = alg.ref.sp(val, {m: sp.S.One}).get(0, sp.S.Zero)
                    ctx.step()
                    ctx.check(expr_zero(s - 2 * syms[m]), '%s/full %s' % (lab0, vname(m)), lambda: '%s' % alg.ref.show(val))
                continue
            syms = b if what == 'other' else a
            ok, D = ctx.guard('%s/%s' % (lab0, what), lambda: ga.make_grad(list(a)) if what == 'list' else ga.make_grad(A, cmpflg=True) if what == 'right' else ga.make_grad(B if what == 'other' else A))
            if not ok:
                continue
            want = {}
            for i in range(n):
                ei = {1 << j: ginv[i, j] for j in range(n) if ginv[i, j] != 0}
                dF = alg.ref.clean({m: sp.diff(c, syms[i]) for m, c in F.items()})
                want = alg.ref.add(want, alg.ref.gp(dF, ei) if what == 'right' else alg.ref.gp(ei, dF))
            got = alg.ref_of(Fm * D if what == 'right' else D * Fm)
            ctx.step()
            ctx.trace()
            ctx.check(alg.ref.eq(got, want), '%s/%s' % (lab0, what), lambda: 'got %s want %s' % (alg.ref.show(got), alg.ref.show(want)))
            ctx.outcome((what, alg.ref.key(want)))
    ctx.sample('%s: vector gradients in all orders of creation' % name)


CX = {
    'polar': ('e_r e_th', [configs.r, configs.th], [['1', '0'], ['0', 'r**2']]),
    'sph': ('e_r e_th e_ph', [configs.r, configs.th, configs.ph], [['1', '0', '0'], ['0', 'r**2', '0'], ['0', '0', 'r**2*sin(th)**2']]),
    'cyl': ('e_r e_th e_z', [configs.r, configs.th, configs.z], [['1', '0', '0'], ['0', 'r**2', '0'], ['0', '0', '1']]),
    'skew': ('e_x e_y', [configs.x, configs.y], [['1', 'x'], ['x', '2+x**2+y**2']]),
    'rind': ('e_t e_x', [configs.t, configs.x], [['-x**2', '0'], ['0', '1']]),
    'const': ('e_x e_y e_z', [configs.x, configs.y, configs.z], [['1', '1/2', '0'], ['1/2', '3', '2'], ['0', '2', '-1']]),
    'flat': ('e_x e_y e_z', [configs.x, configs.y, configs.z], [['1', '0', '0'], ['0', '1', '0'], ['0', '0', '1']]),
    'mink': ('e_t e_x', [configs.t, configs.x], [['1', '0'], ['0', '-1']]),
    'lc': ('e_u e_v e_w', [configs.u, configs.v, configs.w], [['0', '1+u**2', '0'], ['1+u**2', '0', '0'], ['0', '0', '2']]),
}


def coord_grad(ctx, name, norm):
    """grad and rgrad on generic scalar functions; the reciprocal basis of coordinate metrics; every order of first access."""
    bs, coords, g0 = CX[name]
    g = [[configs.S(e) for e in row] for row in g0]
    n = len(g)
    ortho = all(g[i][j] == 0 for i in range(n) for j in range(n) if i != j)
    if norm and not ortho:
        return
    f = sp.Function('f')(*coords)
    acts = ['grad', 'rgrad', 'fright', 'mvr', 'r_basis_mv', 'g_inv', 'e_sq']
    for seq in itertools.permutations(acts, 2):
        ga = mk(bs, g=g, coords=coords, norm=norm)
        if norm:      # unit basis
            h = [sp.sqrt(g[i][i] * (-1 if (name, i) in (('rind', 0), ('mink', 1)) else 1)) for i in range(n)]
            gn = [[g[i][j] / (h[i] * h[j]) for j in range(n)] for i in range(n)]
            gn = [[sp.simplify(e) for e in r] for r in gn]
        else:
            h, gn = [sp.S.One] * n, g
        alg = Alg(ga, gn, ExprDom())
        gi = inv_ref(gn)
        lab = '%s/norm=%s/%s' % (name, norm, '>'.join(seq))
        ctx.where = lab
        ctx.state(lab)
        for what in seq + seq[:1]:
            key = lab + '/' + what
            ctx.step()
            ctx.trace()
            if what in ('grad', 'rgrad', 'fright'):
                D = ga.grad if what == 'grad' else ga.rgrad
                if ctx.check(ga.grads()[0] is ga.grad and ga.grads()[1] is ga.rgrad, key + ':grads', 'grads() differs from grad, rgrad'):
                    pass
                ok, X = ctx.guard(key, lambda: D * f if what == 'grad' else (f * D if what == 'fright' else ga.mv(f) * D))
                if not ok:
                    continue
                want = {}
                for i in range(n):
                    want = alg.ref.add(want, {1 << j: gi[i, j] * sp.diff(f, coords[i]) / h[i] for j in range(n) if gi[i, j] != 0})
                got = alg.ref_of(X)
                ctx.check(alg.ref.eq(got, want), key, lambda: 'got %s want %s' % (alg.ref.show(got), alg.ref.show(want)))
                ctx.outcome((what, alg.ref.key(want)))
            else:
                pr = probes(gn)(ga, alg)
                ok, val = ctx.guard(key, pr[what])
                if ok:
                    judge(ctx, lab, what, gn, alg, val)
    ctx.sample('%s norm=%s: grad, reciprocal basis, all ordered pairs' % (name, norm))


def gsym(ctx, n):
    """gsym: E^2 is kept as a function symbol; relations hold up to substituting its definition."""
    coords = [configs.x, configs.y, configs.z][:n]
    g = [[sp.Integer(2 if i == j else 0) for j in range(n)] for i in range(n)]
    g[0][1] = g[1][0] = sp.Rational(1, 2)
    ga = mk('e_x e_y e_z'[:4 * n - 1], g=g, coords=coords, gsym='g')
    alg = Alg(ga, g, ExprDom())
    det = sp.Matrix(g).det()
    ctx.state(n)
    ctx.check(ga.detg.has(sp.Function('g')) or 'g' in str(ga.detg), 'gsym name', str(ga.detg))
    want = (-1) ** (n * (n - 1) // 2) * ga.detg
    ctx.check(ga.e_sq == want, 'gsym e_sq %d' % n, lambda: '%s want %s' % (ga.e_sq, want))
    for i, v in enumerate(ga.mvr()):
        R = {alg.blade2mask[b]: sp.simplify(c.subs(ga.detg, det)) for b, c in alg.terms(v.obj).items()}
        for j in range(n):
            ctx.step()
            d = vdot(g, R, {1 << j: sp.S.One})
            ctx.check(expr_zero(d - (1 if i == j else 0)), 'gsym mvr %d%d%d' % (n, i, j), lambda: 'e^i.e_j = %s' % d)
    ctx.trace()


def jobs(tier):
    js = []

    def add(fn, **kw):
        js.append(dict(fn=fn, kw=kw))
    T = tier == 'thorough'
    M = configs.METRICS

    def ok(ms):
        return [m for m in ms if det_ok([[configs.S(e) for e in r] for r in m])]
    m2 = ok(configs.sym_matrices(2, [-1, 0, 1, 2]))
    for ch in chunks(m2, 15):
        add('tables', metrics=ch)
    m3 = ok(configs.sym_matrices(3, [-1, 0, 1]))
    if not T:
        m3 = m3[::5]
    for ch in chunks(m3, 14):
        add('tables', metrics=ch)
    for k in ('S1', 'S3', 'SYM2', 'UNIT3', 'FULL4', 'CGA2', 'NULL4', 'TAIL4', 'STA', 'S4'):
        add('tables', metrics=[M[k]])
    for k in ('CGAo', 'E5', 'D5', 'CGA3'):
        add('tables', metrics=[M[k]], what=['mvr', 'r_basis_mv', 'g_inv', 'e_sq', 'frame'] + (['blades'] if T else []))
    for k in ('O2', 'M2', 'CGA1', 'D3'):
        add('orders', name=k, depth=3 if T else 2)
    for k in ('E2', 'M2', 'O2', 'NULL2', 'E3', 'O3', 'M3', 'MIX3', 'PGA2'):
        n = len(M[k])
        for q in range(1, n + 1):
            for i in range(1 if n == 2 else (4 if T else 2)):
                sl = None if n == 2 else [i, 4 if T else (24 if q == 3 else 12 if q == 2 else 2)]
                add('frames', name=k, box=[-2, -1, 0, 1, 2] if n == 2 and (T or q == 1) else [-1, 0, 2], k=q, sl=sl)
    for k in ('E2', 'O2', 'M2', 'E3', 'O3', 'CGA1') + (('STA', 'FULL4') if T else ()):
        add('vgrad', name=k)
    for k in CX:
        for nm in (False, True):
            add('coord_grad', name=k, norm=nm)
    add('gsym', n=2)
    add('gsym', n=3)
    return js
