"""C03: the value of a multivector does not depend on its internal representation
(sum of blades or sum of geometric products of basis vectors)."""
import itertools
import sympy as sp
from galgebra.mv import Mv
import galgebra.mv as gmv
from vf import configs
from vf.bridge import Alg, mk
from vf.refga import ExprDom, popcount, bits
from vf.checks.common import shapes, OPS, chunks, mstr, vname

BOUNDS = 'library metrics n<=4 and all {-1,0,1} non-diagonal metrics n<=2 ({0,1} for n=3); operand shapes; every representation combination; conversion words to length 3'


def reps(M):
    """The same value in every representation a user can reach."""
    b = M.base_rep()
    yield 'blade', M
    yield 'base', b
    yield 'base-copy', Mv(b, ga=M.Ga)
    yield 'base-neg-neg', -(-b)
    yield 'base-round', b.blade_rep().base_rep()


def roundtrip(ctx, metrics, n):
    """Every basis element and every shape: conversions denote the same value, and invert each other."""
    for g in metrics:
        gs = [[configs.S(e) for e in row] for row in g]
        ga = mk(configs.basis(n), g=gs)
        alg = Alg(ga, gs)
        ops = dict(shapes(alg))
        for m in alg.ref.masks:
            ops[vname(m)] = {m: alg.dom.one}
        for s, R in ops.items():
            M = alg.mv(R)
            lab = 'g=%s/%s' % (mstr(g), s)
            ok, b = ctx.guard(lab + ':base_rep', M.base_rep)
            ctx.step()
            ctx.trace()
            if not ok:
                continue
            ctx.check(alg.ref.eq(alg.ref_of(b), R), lab + ':base_rep', lambda: 'base form %s denotes %s, not %s' % (b.obj, alg.ref.show(alg.ref_of(b)), alg.ref.show(R)))
            if not ga.is_ortho:
                bad = [t for t in alg.terms(b.obj) if t != 1 and t not in alg.base2mask]
                ctx.check(not bad, lab + ':base_rep', 'base form %s contains blades %s' % (b.obj, bad))
            b2 = b.blade_rep()
            ctx.step()
            ctx.check(sp.expand(b2.obj - M.obj) == 0, lab + ':roundtrip', lambda: 'blade(base(A)) = %s for A=%s' % (b2.obj, M.obj))
            if not ga.is_ortho:
                B = ga.mv(sum((alg.dom.expr(c) * {v: k for k, v in alg.base2mask.items()}[m] for m, c in R.items()), sp.S.Zero))
                want = {}
                for m, c in R.items():
                    want = alg.ref.add(want, alg.ref.scale(c, alg.ref.base_word(m)))
                bb = B.blade_rep()
                ctx.step()
                ctx.check(alg.ref.eq(alg.ref_of(bb), want), lab + ':blade_rep', lambda: 'blade form of %s is %s, want %s' % (B.obj, bb.obj, alg.ref.show(want)))
                bad = [t for t in alg.terms(bb.obj) if t not in alg.blade2mask]
                ctx.check(not bad, lab + ':blade_rep', 'blade form %s contains bases %s' % (bb.obj, bad))
                b3 = bb.base_rep()
                ctx.check(sp.expand(b3.obj - B.obj) == 0, lab + ':roundtrip2', lambda: 'base(blade(B)) = %s for B=%s' % (b3.obj, B.obj))
            ctx.check(bool(M == b) and bool(b == M), lab + ':eq', 'A == base(A) is false')
            ctx.state((lab, alg.ref.key(R)))
            ctx.outcome(alg.ref.key(alg.ref_of(b2)))
    ctx.sample('n=%d %d metrics, %d operands each' % (n, len(metrics), len(ops)))


def binary(ctx, name, ops):
    """Every operand pair in every combination of representations."""
    ga = configs.algebra(name)
    alg = Alg(ga, configs.metric(name))
    sh = shapes(alg, full=False)
    R = {s: [(rn, X) for rn, X in reps(alg.mv(r))] for s, r in sh.items()}
    for sa, ra in sh.items():
        for sb, rb in sh.items():
            for o in ops:
                want = alg.ref.op(o, ra, rb)
                for (na, A), (nb, B) in itertools.product(R[sa], R[sb]):
                    if na not in ('blade', 'base') and nb not in ('blade', 'base'):
                        continue
                    lab = '%s/%s[%s] %s %s[%s]' % (name, sa, na, o, sb, nb)
                    ok, res = ctx.guard(lab, OPS[o], A, B)
                    ctx.step()
                    ctx.trace()
                    if not ok:
                        continue
                    ok, got = ctx.guard(lab + ':value', alg.ref_of, res)
                    if not ok:
                        continue
                    ctx.check(alg.ref.eq(got, want), lab, lambda: 'got %s want %s' % (alg.ref.show(got), alg.ref.show(want)))
                    ctx.state((name, sa, na, o, sb, nb))
                    ctx.outcome(alg.ref.key(got))
                    if isinstance(res, Mv) and o in '*+-':
                        # and the result converts correctly again
                        for f in ('blade_rep', 'base_rep'):
                            ok, r2 = ctx.guard(lab + ':' + f, getattr(res, f))
                            ctx.step()
                            if ok:
                                ctx.check(alg.ref.eq(alg.ref_of(r2), want), lab + ':' + f, lambda: 'got %s want %s' % (alg.ref.show(alg.ref_of(r2)), alg.ref.show(want)))
    ctx.sample('%s: %d shapes x reps, ops %s' % (name, len(sh), ops))


def unary_list(ga):
    n = ga.n
    U = {}
    for nm in ('__neg__', 'is_scalar', 'is_vector', 'is_blade', 'is_versor', 'is_zero', 'scalar', 'components', 'blade_coefs',
               'even', 'odd', 'g_invol', 'rev', '__invert__', 'ccon', 'qform', 'norm2', 'simplify', 'trigsimp', 'expand',
               'collect', 'list', 'grade', 'pure_grade', 'mag2', 'dual', 'undual'):
        U[nm] = lambda A, nm=nm: getattr(A, nm)()
    for k in range(n + 1):
        U['get_grade%d' % k] = lambda A, k=k: A.get_grade(k)
        U['A[%d]' % k] = lambda A, k=k: A[k]
        U['proj%d' % k] = lambda A, k=k: A.proj([ga.mv(b) for b in ga.blades[k]])
        U['coefs%d' % k] = lambda A, k=k: A.get_coefs(k)
    for nm in ('even', 'odd', 'g_invol', 'rev', 'ccon', 'scalar', 'qform', 'norm2', 'mag2', 'grade', 'dual', 'undual'):
        U['fn:' + nm] = lambda A, nm=nm: getattr(gmv, nm)(A)
    U['sq'] = lambda A: A * A
    U['A**3'] = lambda A: A ** 3
    U['2A'] = lambda A: 2 * A
    U['A*a'] = lambda A: A * configs.a
    U['A/3'] = lambda A: A / 3
    U['A+1'] = lambda A: A + 1
    U['1-A'] = lambda A: 1 - A
    U['A^2'] = lambda A: A ^ 2
    U['A<2'] = lambda A: A < 2
    U['A>2'] = lambda A: A > 2
    U['subs'] = lambda A: A.subs(configs.a, 2)
    U['diff'] = lambda A: A.diff(configs.a)
    U['grades'] = lambda A: ga.grades(A.obj)
    U['decomp'] = lambda A: ga.grade_decomposition(A)
    U['inv'] = lambda A: A.inv()
    U['shirokov'] = lambda A: A.shirokov_inverse()
    U['hitzer'] = lambda A: A.hitzer_inverse()
    U['exp'] = lambda A: A.exp()
    U['hash'] = lambda A: hash(A)
    return U


def unary(ctx, name):
    ga = configs.algebra(name)
    base = Alg(ga, configs.metric(name))
    alg = Alg(ga, configs.metric(name), ExprDom())

    def canon(v):
        if isinstance(v, Mv):
            return ('mv', {m: c for m, c in alg.ref_of(v).items()})
        if isinstance(v, (list, tuple)):
            return ('list', [canon(q) for q in v])
        if isinstance(v, dict):
            return ('dict', {k: canon(q) for k, q in v.items() if canon(q) != ('mv', {})})
        if isinstance(v, sp.Basic):
            return ('expr', v)
        return ('py', v)

    def same(p, q):
        if 'zoo' in str(p) + str(q) or 'nan' in str(p) + str(q):
            return ('zoo' in str(p) or 'nan' in str(p)) and ('zoo' in str(q) or 'nan' in str(q))
        if p[0] != q[0]:
            return p[0] in ('expr', 'py') and q[0] in ('expr', 'py') and alg.dom.is_zero(sp.sympify(p[1]) - sp.sympify(q[1]))
        if p[0] == 'mv':
            return alg.ref.eq(p[1], q[1])
        if p[0] == 'list':
            return len(p[1]) == len(q[1]) and all(same(s, t) for s, t in zip(p[1], q[1]))
        if p[0] == 'dict':
            return p[1].keys() == q[1].keys() and all(same(p[1][k], q[1][k]) for k in p[1])
        if p[0] == 'expr':
            return alg.dom.is_zero(p[1] - q[1])
        return p[1] == q[1]
    for s, R in shapes(base).items():
        M = base.mv(R)
        for un, f in unary_list(ga).items():
            res = {}
            for rn, X in reps(base.mv(R)):
                ctx.step()
                ctx.trace()
                try:
                    res[rn] = canon(f(X))
                except Exception as e:
                    res[rn] = ('exc', type(e).__name__)
            ctx.state((name, s, un))
            for rn in res:
                lab = '%s/%s of %s[%s]' % (name, un, s, rn)
                if res['blade'][0] == 'exc' or res[rn][0] == 'exc':
                    ctx.check(res[rn] == res['blade'], lab, lambda: '%s, but in blade form %s' % (res[rn], res['blade']))
                else:
                    ctx.check(same(res[rn], res['blade']), lab, lambda: '%s, but in blade form %s' % (res[rn], res['blade']))
            ctx.outcome(str(res['blade'])[:300])
    ctx.sample('%s: %d unary operations x representations' % (name, len(unary_list(ga))))


def words(ctx, name, depth):
    """All words over {to base, to blade, *G, G*, ^G, |G, +G, rev, neg} up to the depth: value tracked by the reference."""
    ga = configs.algebra(name)
    alg = Alg(ga, configs.metric(name))
    one = alg.dom.one
    n = alg.n
    G = {1: one, 1 << (n - 1): 2 * one, 0: -one, 3: one}
    acts = [('base', lambda M: M.base_rep(), lambda R: R), ('blade', lambda M: M.blade_rep(), lambda R: R),
            ('neg', lambda M: -M, alg.ref.neg), ('rev', lambda M: M.rev(), alg.ref.rev)]
    for form in ('blade', 'base'):
        g = alg.mv(G) if form == 'blade' else alg.mv(G).base_rep()
        for o in ('*', '^', '|', '+', '-'):
            acts.append(('%sG[%s]' % (o, form), lambda M, o=o, g=g: OPS[o](M, g), lambda R, o=o: alg.ref.op(o, R, G)))
        acts.append(('G[%s]*' % form, lambda M, g=g: g * M, lambda R: alg.ref.gp(G, R)))
    start = {1: one, 2: 3 * one, 3: -one}
    frontier = [((), alg.mv(start), start)]
    seen = 0
    for d in range(depth):
        nxt = []
        for w, M, R in frontier:
            for an, f, rf in acts:
                lab = '%s/%s' % (name, '.'.join(w + (an,)))
                ok, M2 = ctx.guard(lab, f, M)
                ctx.step()
                if not ok:
                    continue
                R2 = rf(R)
                got = alg.ref_of(M2)
                if ctx.check(alg.ref.eq(got, R2), lab, lambda: 'got %s want %s' % (alg.ref.show(got), alg.ref.show(R2))):
                    ctx.state((name, w, an))
                    ctx.outcome(alg.ref.key(R2))
                    nxt.append((w + (an,), M2, R2))
                seen += 1
        frontier = nxt
    ctx.trace(len(frontier))
    ctx.sample('%s: %d words, e.g. %s' % (name, seen, '.'.join(frontier[-1][0]) if frontier else ''))


def jobs(tier):
    js = []

    def add(fn, **kw):
        js.append(dict(fn=fn, kw=kw))
    for n in (1, 2):
        for ch in chunks(configs.sym_matrices(n, [-1, 0, 1, 2]), 30):
            add('roundtrip', metrics=ch, n=n)
    for ch in chunks(configs.sym_matrices(3, [0, 1] if tier == 'quick' else [-1, 0, 1]), 8):
        add('roundtrip', metrics=ch, n=3)
    non = ['O2', 'NULL2', 'SYM2', 'O3', 'FULL3', 'MIX3', 'UNIT3', 'NUL3']
    for nm in ('FULL4', 'CGA2', 'TAIL4'):
        add('roundtrip', metrics=[configs.METRICS[nm]], n=4)
    for nm in non:
        for o in ('*', '^', '|', '<', '>', '+', '-', 'sp', '<<', '>>'):
            if len(configs.METRICS[nm]) == 3 or o == '*':
                add('binary', name=nm, ops=[o] if len(configs.METRICS[nm]) == 3 else ['*', '^', '|', '<', '>', '+', '-', 'sp', '<<', '>>'])
    for nm in ('E3', 'M2'):
        add('binary', name=nm, ops=['*', '^', '|', '<', '>', '+', '-', 'sp', '<<', '>>'])
    for nm in ['O2', 'SYM2', 'O3', 'FULL3', 'MIX3', 'E3'] + (['UNIT3', 'CGA2', 'TAIL4'] if tier == 'thorough' else []):
        add('unary', name=nm)
    for nm in ['O2', 'O3', 'SYM2', 'MIX3']:
        add('words', name=nm, depth=3 if tier == 'quick' or nm == 'SYM2' else 4)
    if tier == 'thorough':
        for nm in ('CGA2', 'TAIL4'):
            for o in ('*', '^', '|', '<', '>', '+', '-'):
                add('binary', name=nm, ops=[o])
    return js
