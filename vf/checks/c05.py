"""C05: duality in the eight conventions, and the pseudoscalar facts it rests on."""
import itertools
import sympy as sp
from galgebra.ga import Ga
from galgebra.mv import Mv
import galgebra.mv as gmv
from vf import configs
from vf.bridge import Alg, mk, with_syms
from vf.refga import ExprDom, QDom, RefGA, popcount
from vf.checks.common import chunks, mstr, vname

MODES = ['+I', 'I+', '-I', 'I-', '+Iinv', 'Iinv+', '-Iinv', 'Iinv-']
BOUNDS = ('all 8 conventions x every basis blade and a generic multivector x all nondegenerate metrics with entries {-1,0,1,2} n<=2, '
          '{-1,0,1} tridiagonal n=3, all signatures n<=5; all ordered pairs of convention changes (triples in the thorough tier) including refused names and the Cl helpers')


def pseudo(ref, dom, isq=None):
    """(E, E^2, I, I^-1) of the reference algebra, by its own definition of normalisation."""
    N = ref.N - 1
    E = {N: dom.one}
    esq = ref.gp(E, E)
    assert set(esq) <= {0}, esq
    esq = dom.expr(esq.get(0, dom.zero))
    if esq == 0:
        return E, esq, None, None
    if esq.is_number:
        s = 1 if esq > 0 else -1
    else:
        s = 1 if isq == '+' else -1
    root = sp.sqrt(s * esq)
    I = {N: 1 / root}
    Iinv = {N: s / root}
    return E, esq, I, Iinv


def expected(ref, mode, I, Iinv, A):
    P = Iinv if 'Iinv' in mode else I
    r = ref.gp(P, A) if mode[0] in '+-' else ref.gp(A, P)
    return ref.neg(r) if '-' in mode else r


def build(g, isq=None):
    gs = [[configs.S(e) for e in row] for row in g]
    n = len(gs)
    kw = {} if isq is None else dict(Isq=isq)
    ga = mk(configs.basis(n), g=gs, **kw)
    alg0 = Alg(ga, gs)
    E, esq, I, Iinv = pseudo(alg0.ref, alg0.dom, isq)
    if I is None:
        return ga, None, None, None, None
    rational = all(sp.sympify(x).is_Rational for x in list(I.values()))
    alg = alg0 if rational and isinstance(alg0.dom, QDom) else Alg(ga, gs, ExprDom())
    conv = {m: alg.dom.conv(x) for m, x in I.items()}, {m: alg.dom.conv(x) for m, x in Iinv.items()}
    return ga, alg, esq, conv[0], conv[1]


def metrics(ctx, gl, isq=None):
    for g in gl:
        ga, alg, esq, I, Iinv = build(g, isq)
        if alg is None:
            continue
        lab0 = 'g=%s%s' % (mstr(g), '' if isq is None else '/Isq=%s' % isq)
        ref, dom = alg.ref, alg.dom
        ctx.state(lab0)
        N = ref.N - 1
        # the pseudoscalar facts
        for nm, X, want in (('E()', ga.E(), {N: dom.one}), ('I()', ga.I(), I), ('i', ga.i, I), ('i_inv', ga.i_inv, Iinv), ('i*i_inv', ga.i * ga.i_inv, {0: dom.one}),
                            ('i_inv*i', ga.i_inv * ga.i, {0: dom.one}), ('I**2', ga.I() ** 2, ref.gp(I, I)), ('E**2', ga.E() * ga.E(), ref.gp({N: dom.one}, {N: dom.one}))):
            got = alg.ref_of(X)
            ctx.step()
            ctx.check(ref.eq(got, want), '%s/%s' % (lab0, nm), lambda: 'got %s want %s' % (ref.show(got), ref.show(want)))
        ctx.check(ExprDom.is_zero(sp.sympify(ga.e_sq) - esq), lab0 + '/e_sq', lambda: 'got %s want %s' % (ga.e_sq, esq))
        sq = ref.gp(I, I)
        ctx.check(ref.eq(sq, {0: dom.one}) or ref.eq(sq, {0: -dom.one}), lab0 + '/I**2 = +-1', '%s' % sq)
        ops = [(vname(m), {m: dom.one}) for m in ref.masks]
        ops.append(('full', {m: dom.conv(sp.Integer((i * 7) % 5 - 2 or 3)) for i, m in enumerate(ref.masks)}))
        real = [(s, R, alg.mv(R)) for s, R in ops]
        if ref.n <= 3:
            gen = {m: sp.Symbol('p_%d' % m, real=True) for m in ref.masks}
            galg = alg if isinstance(alg.dom, ExprDom) else with_syms(alg, list(gen.values()))
            A = ga.mv(sp.Add(*[s * alg.mask2blade[m] for m, s in gen.items()]))
        for mode in MODES:
            Ga.dual_mode(mode)
            for s, R, M in real:
                lab = '%s/%s/%s' % (lab0, mode, s)
                want = expected(ref, mode, I, Iinv, R)
                ok, D = ctx.guard(lab, M.dual)
                ctx.step()
                ctx.trace()
                if not ok:
                    continue
                got = alg.ref_of(D)
                ctx.check(ref.eq(got, want), lab, lambda: 'dual: got %s want %s' % (ref.show(got), ref.show(want)))
                ctx.state(lab)
                ctx.outcome(ref.key(want))
                for nm, f in (('dual(undual)', lambda: M.undual().dual()), ('undual(dual)', lambda: D.undual()),
                              ('fn', lambda: gmv.undual(gmv.dual(M))), ('fn2', lambda: gmv.dual(gmv.undual(M)))):
                    ok, U = ctx.guard(lab + ':' + nm, f)
                    ctx.step()
                    if ok:
                        got = alg.ref_of(U)
                        ctx.check(ref.eq(got, R), lab + ':' + nm, lambda: 'got %s want %s' % (ref.show(got), ref.show(R)))
            if ref.n <= 3:
                rA = {m: galg.dom.conv(s) for m, s in gen.items()}
                gi = {m: galg.dom.conv(alg.dom.expr(x)) for m, x in I.items()}
                gj = {m: galg.dom.conv(alg.dom.expr(x)) for m, x in Iinv.items()}
                want = expected(galg.ref, mode, gi, gj, rA)
                got = galg.ref_of(A.dual())
                ctx.step()
                ctx.check(galg.ref.eq(got, want), '%s/%s/generic' % (lab0, mode), lambda: 'got %s want %s' % (galg.ref.show(got), galg.ref.show(want)))
                back = galg.ref_of(A.dual().undual())
                ctx.check(galg.ref.eq(back, rA), '%s/%s/generic undual' % (lab0, mode), lambda: 'got %s' % galg.ref.show(back))
        Ga.dual_mode()
    ctx.sample('%d metrics, e.g. %s; 8 conventions, all blades' % (len(gl), mstr(gl[-1])))


def machine(ctx, depth):
    """All sequences of convention changes: the model state is the last accepted name."""
    from galgebra.interop import Cl
    from galgebra.interop.kingdon import Cl as KCl
    algs = []
    for g in ([[1, 0], [0, 1]], [[-1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 1], [1, 0]]):
        ga, alg, esq, I, Iinv = build(g)
        algs.append((ga, alg, I, Iinv))
    acts = [('set ' + m, lambda m=m: Ga.dual_mode(m), lambda s, m=m: m) for m in MODES]
    acts.append(('set default', lambda: Ga.dual_mode(), lambda s: 'I+'))
    acts.append(('interop.Cl', lambda: Cl(2), lambda s: 'I+'))
    acts.append(('kingdon.Cl', lambda: KCl(2), lambda s: 'Iinv+'))
    acts.append(('new algebra', lambda: mk('q*1|2', g=[1, 1]), lambda s: s))
    acts.append(('dual+undual', lambda: algs[0][0].mv('A', 'mv').dual().undual(), lambda s: s))
    for bad in ('', 'I', 'Iinv', '+i', 'i+', 'I++', '+I-', 'J+', ' I+', 'I+ ', '+Iinv+', '+', 'iinv+'):
        def f(bad=bad):
            try:
                Ga.dual_mode(bad)
            except (ValueError, TypeError):
                return
            ctx.fail('machine/bad name %r' % bad, 'the unknown convention %r was accepted' % bad)
        acts.append(('bad %r' % bad, f, lambda s: s))
    frontier = [((), 'I+')]
    probes = {'I+': 0}
    for d in range(depth):
        nxt = []
        for hist, s in frontier:
            for nm, f, t in acts:
                if d == depth - 1 and nm.startswith('bad') and hist and hist[-1].startswith('bad'):
                    continue
                Ga.dual_mode('I+')
                for h in hist:
                    [x for x in acts if x[0] == h][0][1]()
                f()
                ctx.step()
                s2 = t(s)
                lab = 'machine/' + ' ; '.join(hist + (nm,))
                for ga, alg, I, Iinv in algs:
                    for m in alg.ref.masks:
                        got = alg.ref_of(alg.mv({m: alg.dom.one}).dual())
                        want = expected(alg.ref, s2, I, Iinv, {m: alg.dom.one})
                        ctx.check(alg.ref.eq(got, want), lab, lambda: 'after this history the dual of %s is %s, but the convention is %s' % (vname(m), alg.ref.show(got), s2))
                ctx.state((hist[-1:], nm, s2))
                ctx.outcome((nm, s2))
                nxt.append((hist + (nm,), s2))
        frontier = nxt if len(nxt) < 3000 else [x for x in nxt if not x[0][-1].startswith('bad')]
        ctx.trace(len(nxt))
    Ga.dual_mode('I+')
    ctx.sample('sequences of %d convention changes over %d actions' % (depth, len(acts)))


def jobs(tier):
    js = []

    def add(fn, **kw):
        js.append(dict(fn=fn, kw=kw))

    def det(g):
        return sp.Matrix([[configs.S(e) for e in r] for r in g]).det()
    for n in (1, 2):
        for ch in chunks([g for g in configs.sym_matrices(n, [-1, 0, 1, 2]) if det(g) != 0], 8):
            add('metrics', gl=ch)
    m3 = []
    for xs in itertools.product([-1, 1, 2], repeat=3):
        m3.append(configs.diag(*xs))
    for xs in itertools.product([-1, 0, 1], repeat=3):
        for off in itertools.product([0, 1], repeat=2):
            if off != (0, 0):
                g = configs.diag(*xs)
                for i, o in enumerate(off):
                    g[i][i + 1] = g[i + 1][i] = o
                if det(g) != 0:
                    m3.append(g)
    if tier == 'thorough':
        m3 = [g for g in configs.sym_matrices(3, [-1, 0, 1]) if det(g) != 0] + m3[:27]
    for ch in chunks(m3, 4):
        add('metrics', gl=ch)
    for xs in itertools.product([-1, 1], repeat=4):
        add('metrics', gl=[configs.diag(*xs)])
    for nm in ('CGA2', 'NULL4', 'FULL4', 'TAIL4', 'O3', 'FULL3', 'MIX3'):
        add('metrics', gl=[configs.METRICS[nm]])
    for p in range(6):
        add('metrics', gl=[configs.diag(*([1] * p + [-1] * (5 - p)))])
    if tier == 'thorough':
        add('metrics', gl=[configs.METRICS['CGA3']])
    for nm in ('S1', 'SYM2', 'S3'):
        for isq in ('+', '-'):
            add('metrics', gl=[configs.METRICS[nm]], isq=isq)
    add('machine', depth=2 if tier == 'quick' else 3)
    return js
