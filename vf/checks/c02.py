"""C02: wedge, inner product, contractions, scalar product and (anti)commutator
are the grade selections / combinations of the geometric product."""
import itertools
import sympy as sp
from vf import configs
from vf.checks.common import *   # noqa
from vf.checks.common import sweep_blades, sweep_shapes, sweep_generic, sweep_words, sweep_coefs, sweep_scalars, chunks, check_product, shapes
from vf.bridge import Alg

PROD = ['^', '|', '<', '>', 'sp']
BOUNDS = 'as C01, for ^ | < > scalar product << >>, dot_mode dispatch, products with plain scalars on either side'


def ga_level(ctx, name):
    """The algebra-level product functions on expressions agree with the reference."""
    ga = configs.algebra(name)
    alg = Alg(ga, configs.metric(name))
    sh = [(s, R, alg.mv(R)) for s, R in shapes(alg).items()]
    for sa, ra, A in sh:
        for sb, rb, B in sh:
            fns = [('wedge', ga.wedge, '^'), ('hestenes_dot', ga.hestenes_dot, '|'), ('left_contract', ga.left_contract, '<'),
                   ('right_contract', ga.right_contract, '>'), ('scalar_product', ga.scalar_product, 'sp')]
            fns += [('Mul ' + o, lambda X, Y, o=o: ga.Mul(X, Y, mode=o), o) for o in '^|<>']
            if ga.is_ortho:
                fns += [('mul', ga.mul, '*'), ('Mul *', lambda X, Y: ga.Mul(X, Y), '*')]
            for dm in '|<>':
                def f(X, Y, dm=dm):
                    ga.dot_mode = dm
                    try:
                        return ga.dot(X, Y)
                    finally:
                        ga.dot_mode = '|'
                fns.append(('dot mode ' + dm, f, dm))
            for fn, F, o in fns:
                lab = '%s/%s(%s,%s)' % (name, fn, sa, sb)
                ok, res = ctx.guard(lab, F, A.obj, B.obj)
                ctx.step()
                ctx.trace()
                if ok:
                    got, want = alg.ref_of(res), alg.ref.op(o, ra, rb)
                    ctx.check(alg.ref.eq(got, want), lab, lambda: 'got %s want %s' % (alg.ref.show(got), alg.ref.show(want)))
                    ctx.state((lab, alg.ref.key(got)))
            for o in '*^|<>':
                from galgebra.mv import Mv
                lab = '%s/Mv.Mul(%s,%s,%s)' % (name, sa, sb, o)
                ok, res = ctx.guard(lab, Mv.Mul, A, B, o)
                ctx.step()
                if ok:
                    got, want = alg.ref_of(res), alg.ref.op(o, ra, rb)
                    ctx.check(alg.ref.eq(got, want), lab, lambda: 'got %s want %s' % (alg.ref.show(got), alg.ref.show(want)))
    ctx.sample('%s: wedge/hestenes_dot/left/right/scalar_product/Mul/dot on %d shape pairs' % (name, len(sh) ** 2))


def switches(ctx, name):
    """Scalar product with and without reversing the left factor, method and function form; com()."""
    from galgebra.mv import sp as fsp
    from galgebra.ga import Ga
    ga = configs.algebra(name)
    alg = Alg(ga, configs.metric(name))
    sh = [(s, R, alg.mv(R)) for s, R in shapes(alg).items()]
    for sa, ra, A in sh:
        for sb, rb, B in sh:
            for sw in ('', 'rev'):
                want = alg.ref.sp(alg.ref.rev(ra) if sw else ra, rb)
                for fn, F in (('method', lambda: A.sp(B, sw)), ('function', lambda: fsp(A, B, sw))):
                    lab = '%s/sp %s %s %r %s' % (name, sa, sb, sw, fn)
                    ok, res = ctx.guard(lab, F)
                    ctx.step()
                    ctx.trace()
                    if ok:
                        got = alg.ref_of(res)
                        ctx.check(got == want, lab, lambda: 'got %s want %s' % (got, want))
                        ctx.state((lab, alg.ref.key(got)))
            lab = '%s/Ga.com %s %s' % (name, sa, sb)
            ok, res = ctx.guard(lab, Ga.com, A, B)
            ctx.step()
            if ok:
                got = alg.ref_of(res)
                want = alg.ref.com(ra, rb)
                ctx.check(alg.ref.eq(got, want), lab, lambda: 'got %s want %s' % (alg.ref.show(got), alg.ref.show(want)))


def jobs(tier):
    js = []

    def add(fn, **kw):
        js.append(dict(mod='c02', fn=fn, kw=kw))
    lib = [n for n in configs.METRICS if len(configs.METRICS[n]) <= 4]
    for n in (1, 2):
        for ch in chunks(configs.sym_matrices(n, [-1, 0, 1, 2]), 60):
            add('sweep_blades', metrics=ch, ops=PROD, n=n)
    m3 = list(configs.sym_matrices(3, [-1, 0, 1]))
    if tier == 'quick':
        m3 = [m for m in configs.sym_matrices(3, [0, 1]) if True] + [m for m in configs.sym_matrices(3, [-1, 2]) if m[0][1] == -1]
    for ch in chunks(m3, 8):
        add('sweep_blades', metrics=ch, ops=PROD, n=3)
    d4 = [configs.diag(*xs) for xs in itertools.product([-1, 0, 2], repeat=4)]
    for ch in chunks(d4, 9):
        add('sweep_blades', metrics=ch, ops=PROD, n=4)
    for nm in ('CGA3', 'FULL4', 'CGA2', 'NULL4', 'TAIL4', 'S4', 'CGAo', 'D5', 'S3', 'SYM2', 'UNIT3'):
        add('sweep_blades', metrics=[configs.METRICS[nm]], ops=['^', '|', '<', '>'], n=len(configs.METRICS[nm]))
    for o in PROD:
        add('sweep_blades', metrics=[configs.diag(1, -1, 2, 1, -3, 0)], ops=[o], n=6)
    for nm in lib:
        add('sweep_shapes', name=nm, ops=PROD + ['<<', '>>'])
        add('sweep_scalars', name=nm, ops=['^', '|', '<', '>', '*', '+', '-'])
    for nm in ('E3', 'M3', 'O3', 'SYM2', 'PGA2', 'STA', 'CGA1'):
        add('ga_level', name=nm)
        add('switches', name=nm)
    for nm in ('E3', 'M3', 'D3', 'S3', 'O3', 'FULL3', 'SYM2', 'STA', 'PGA3', 'CGA2'):
        add('sweep_generic', name=nm, ops=PROD + ['<<', '>>'])
    for nm in ('E2', 'O2'):
        add('sweep_coefs', name=nm, ops=['*', '^', '|', '<', '>'], coefs=None if tier == 'thorough' else ['2', 'sqrt(2)', '1/a', 'F(x)', 'a+b', '(a+b)**2'])
    for nm, dep in (('E2', 3), ('O2', 3), ('E3', 2), ('M3', 2), ('O3', 2), ('STA', 2)):
        add('sweep_words', name=nm, depth=dep, ops=['*', '^', '|', '<', '>', '<<', '>>', '+', '-'])
    if tier == 'thorough':
        tri = []
        for xs in itertools.product([-1, 0, 1], repeat=4):
            for off in itertools.product([0, 1], repeat=3):
                g = configs.diag(*xs)
                for i, o in enumerate(off):
                    g[i][i + 1] = g[i + 1][i] = o
                tri.append(g)
        for ch in chunks(tri[::3], 8):
            add('sweep_blades', metrics=ch, ops=PROD, n=4)
        d5 = [configs.diag(*xs) for xs in itertools.product([-1, 0, 1], repeat=5)]
        for ch in chunks(d5, 9):
            add('sweep_blades', metrics=ch, ops=PROD, n=5)
        for nm, dep in (('E3', 3), ('O3', 3), ('M3', 3)):
            add('sweep_words', name=nm, depth=dep, ops=['*', '^', '|', '<', '>', '<<', '>>'])
        for nm in ('E3', 'MIX3'):
            add('sweep_coefs', name=nm, ops=['*', '^', '|', '<', '>'])
    return js
