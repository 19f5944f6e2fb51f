"""C09: equality, hashing, result types and mixing rules."""
import copy
import itertools
from fractions import Fraction
import sympy as sp
from galgebra import mv as gmv, lt as glt
from galgebra.mv import Mv, Dop
from galgebra.dop import Pdop, Sdop
from galgebra.ga import Ga
from vf import configs
from vf.bridge import Alg, mk
from vf.refga import popcount, PolyDom, expr_zero
from vf.checks.common import OPS, vname, shapes

BOUNDS = ('all pairs from a population of values x build histories per algebra; every operator x operand kinds x ordered pair of distinct algebras (incl. twins and submanifolds)')
A_, B_ = configs.a, configs.b


def alg_of(name):
    if name == 'COORD2':
        g = [[configs.S('1'), configs.S('0')], [configs.S('0'), configs.S('r**2')]]
        ga = mk('e_r e_th', g=g, coords=[configs.r, configs.th])
        gsyms = [configs.r]
    else:
        g = configs.metric(name)
        ga = configs.algebra(name)
        gsyms = sorted(set().union(*[e.free_symbols for r in g for e in r]), key=str)
    dom = PolyDom(gsyms + [s for s in (A_, B_) if s not in gsyms])
    return Alg(ga, g, dom)


def values(alg):
    """Distinct reference values (some differing only in one coefficient)."""
    n = alg.n
    c = alg.dom.conv
    N = (1 << n) - 1
    out = {
        '0': {}, '1': {0: c(1)}, '2': {0: c(2)}, 'a': {0: c(A_)}, 'a2': {0: c((A_ + B_) ** 2)},
        'e1': {1: c(1)}, '-e1': {1: c(-1)}, 'en': {1 << (n - 1): c(1)}, 'a e1': {1: c(A_)}, '(a+b)^2 e1': {1: c((A_ + B_) ** 2)}, '(a2+b2) e1': {1: c(A_ ** 2 + B_ ** 2)},
        'v': {1 << i: c(i + 1) for i in range(n)}, 'av': {1 << i: c((i + 1) * (A_ + B_)) for i in range(n)},
        '1+e1': {0: c(1), 1: c(1)}, 'a+b e1': {0: c(A_), 1: c(B_)}, 'b+a e1': {0: c(B_), 1: c(A_)},
        'I': {N: c(1)}, '2I': {N: c(2)}, 'full': {m: c(Fraction(m + 1, 2)) for m in range(N + 1)}, 'sym': {m: c((A_ + m) * (B_ - m)) for m in range(N + 1)},
    }
    res = {}
    for k, v in out.items():
        v = alg.ref.clean(v)
        if v not in res.values():
            res[k] = v
    return res


DEEP = ('hidden quotient', 'hidden trig')      # equal only after simplification, expansion is not enough


def _base(ga, e):
    M = ga.mv(e)
    M.is_blade_rep = False
    return M


def builds(alg, R):
    """The same value reached by different histories."""
    ga = alg.ga
    out = {}
    items = [(alg.dom.expr(c), m) for m, c in R.items()]
    n_ = alg.n
    out['sum'] = lambda: alg.mv(R)
    out['factored'] = lambda: ga.mv(sp.Add(*[sp.factor(c) * alg.mask2blade[m] for c, m in items]))
    out['terms reversed'] = lambda: sum((c * ga.mv(alg.mask2blade[m]) for c, m in reversed(items)), ga.mv(sp.S.Zero))
    out['split'] = lambda: ga.mv(sp.Add(*[sp.Mul(sp.factor(c) - 1, alg.mask2blade[m], evaluate=False) for c, m in items])) + ga.mv(sp.Add(*[alg.mask2blade[m] for c, m in items]))
    out['+w-w'] = lambda: (alg.mv(R) + ga.mv(A_ * ga.basis[0] + 3)) - ga.mv(3 + A_ * ga.basis[0])
    out['base'] = lambda: alg.mv(R).base_rep()
    out['base blade'] = lambda: alg.mv(R).base_rep().blade_rep()
    out['rev rev'] = lambda: alg.mv(R).rev().rev()
    out['neg neg'] = lambda: -(-alg.mv(R))
    out['1*'] = lambda: ga.mv(1) * alg.mv(R)
    out['*1'] = lambda: alg.mv(R) * 1
    out['copy'] = lambda: ga.mv(alg.mv(R))
    out['copy.copy'] = lambda: copy.copy(alg.mv(R))
    out['even+odd'] = lambda: alg.mv(R).even() + alg.mv(R).odd()
    out['grades'] = lambda: sum((alg.mv(R).grade(k) for k in range(alg.n + 1)), ga.mv(sp.S.Zero))
    out['coefs'] = lambda: sum((c * b for c, b in zip(alg.mv(R).blade_coefs(), ga.mv_blades.flat)), ga.mv(sp.S.Zero))

    zeros = {'poly': (A_ + B_) ** 2 - A_ ** 2 - 2 * A_ * B_ - B_ ** 2, 'quotient': (A_ ** 2 - B_ ** 2) / (A_ - B_) - A_ - B_,
             'trig': sp.sin(A_) ** 2 + sp.cos(A_) ** 2 - 1}
    # vanishing coefficients that only simplification reveals, on every blade
    for zn, z in zeros.items():
        for k in range(n_ + 1):
            if zn != 'poly' and k != (n_ if zn == 'quotient' else 1):
                continue
            blade = ga.blades[k][-1]
            out['hidden %s zero grade %d' % (zn, k)] = lambda z=z, blade=blade: ga.mv(sp.Add(*[c * alg.mask2blade[m] for c, m in items], z * blade))
            if zn == 'poly' and k:
                out['hidden zero base grade %d' % k] = lambda z=z, blade=ga.bases[k][-1] if not ga.is_ortho else blade: ga.mv(sp.Add(alg.mv(R).base_rep().obj, z * blade)) if ga.is_ortho else _base(ga, sp.Add(alg.mv(R).base_rep().obj, z * blade))

    def queried():
        M = alg.mv(R)
        M.is_blade(), M.is_versor(), str(M), M.is_scalar(), M.pure_grade()
        return M
    out['queried'] = queried

    def setc():
        M = ga.mv(sp.S.Zero)
        for c, m in items:
            idx = [i for i in ga.indexes.flat if sum(1 << j for j in i) == m][0]
            M.set_coef(len(idx), ga.indexes[len(idx)].index(idx), c)
        return M
    out['set_coef'] = setc
    q = alg.ref.gp({1: alg.dom.one}, {1: alg.dom.one})
    if set(q) == {0}:
        e = alg.dom.expr(q[0])
        if not e.free_symbols:
            out['*e1*e1/q'] = lambda: alg.mv(R) * ga.mv(ga.basis[0]) * ga.mv(ga.basis[0]) / e
            out['base product'] = lambda: (ga.mv(ga.basis[0]).base_rep() * (ga.mv(ga.basis[0]).base_rep() * alg.mv(R).base_rep())) / e
    return out


def population(ctx, name, rows):
    """All ordered pairs of (value, history)."""
    alg = alg_of(name)
    vals = values(alg)
    pop = []
    for vn, R in vals.items():
        for bn, f in builds(alg, R).items():
            ok, M = ctx.guard('%s/build %s %s' % (name, vn, bn), f)
            if not ok:
                continue
            ctx.check(isinstance(M, Mv) and M.Ga is alg.ga, '%s/type %s %s' % (name, vn, bn), 'not a multivector of the algebra')
            pop.append((vn, bn, R, M))
    hashes = {}
    for vn, bn, R, M in pop:
        ctx.state((name, vn, bn))
        h = hash(M)
        if alg.ref.grades(R) not in ([], [0]):
            # one hash per value
            key = 'hash of hidden %s zeros' % bn.split()[1] if bn.startswith(DEEP) else '%s/hash %s %s' % (name, vn, bn)
            ctx.check(hashes.setdefault(vn, h) == h, key, lambda: 'equal multivectors hash differently (%s)' % M.obj)
        elif bn == 'sum':
            ctx.check(h == hash(M.obj), '%s/hash scalar %s' % (name, vn), 'a scalar does not hash like its expression')
    for i in range(rows[0], len(pop), rows[1]):
        vn, bn, R, M = pop[i]
        for vn2, bn2, R2, M2 in pop:
            if vn != vn2 and bn2 not in ('sum', 'base'):
                continue
            same = vn == vn2
            key = '%s/%s(%s)==%s(%s)' % (name, vn, bn, vn2, bn2)
            ctx.where = key
            ok, e = ctx.guard(key, lambda: M == M2)
            ctx.step()
            ctx.trace()
            if ok:
                ctx.check(bool(e) == same, key, lambda: '%s == %s is %s' % (M.obj, M2.obj, e))
                if bn2 == 'sum':
                    ctx.check(bool(M != M2) != same, key + ' !=', '!= is not the negation of ==')
            ctx.outcome((vn, vn2, same))
    # dictionary / set membership, which needs both
    ns = [(vn, M) for vn, bn, R, M in pop if not bn.startswith(DEEP) and alg.ref.grades(R) not in ([], [0])]
    d = {}
    for vn, M in ns:
        d.setdefault(M, set()).add(vn)
    ctx.check(len(d) == len(set(vn for vn, _ in ns)) and all(len(s) == 1 for s in d.values()), name + '/dict', lambda: 'as dictionary keys: %s' % [sorted(s) for s in d.values()])
    # scalars: a multivector equals a scalar exactly when it is that scalar
    for vn, bn, R, M in pop[rows[0]::rows[1]]:
        for sc in (0, 1, 2, sp.S(0), sp.S(1), A_, A_ + 1, sp.Rational(1, 2)):
            e = sp.sympify(sc)
            want = alg.ref.eq(R, alg.ref.clean({0: alg.dom.conv(e)}))
            key = '%s/%s(%s) vs scalar %s' % (name, vn, bn, sc)
            ctx.step()
            if bn in ('split', 'factored') and want and M.obj != e:
                continue
            ctx.check(bool(M == sc) == want and (isinstance(sc, sp.Basic) or bool(sc == M) == want) and bool(M != sc) != want, key, lambda: '%s == %s gives %s' % (M.obj, sc, M == sc))
    ctx.sample('%s: %d values, %d built objects' % (name, len(vals), len(pop)))


def transc(ctx, name):
    """Coefficients that are only equal after simplification."""
    alg = alg_of(name)
    ga = alg.ga
    x = configs.x
    pairs = [(sp.sin(x) ** 2 + sp.cos(x) ** 2, 1), ((A_ ** 2 - B_ ** 2) / (A_ - B_), A_ + B_), (sp.exp(x) * sp.exp(-x), 1), (1 / (1 + 1 / A_), A_ / (A_ + 1)),
             (sp.sin(2 * x), 2 * sp.sin(x) * sp.cos(x)), (sp.sqrt(A_ ** 2), sp.Abs(A_)), (sp.cosh(x) ** 2 - 1, sp.sinh(x) ** 2), (sp.log(sp.exp(x)), x), ((A_ + B_) ** 3, sp.expand((A_ + B_) ** 3)), (sp.sqrt(8), 2 * sp.sqrt(2))]
    off = [0, 1, x]
    for i, (u, v) in enumerate(pairs):
        for m in alg.ref.masks:
            for o in off:
                U = ga.mv(sp.sympify(u) * alg.mask2blade[m])
                V = ga.mv(sp.sympify(v + o) * alg.mask2blade[m])
                want = o == 0
                for p, q in ((U, V), (V, U), (U.base_rep(), V), (U, V.base_rep()), (U + ga.mv(ga.basis[0]), ga.mv(ga.basis[0]) + V)):
                    key = '%s/simp %d %s %s' % (name, i, vname(m), o)
                    ctx.step()
                    ctx.trace()
                    ctx.check(bool(p == q) == want and bool(p != q) != want, key, lambda: '%s == %s is %s' % (p.obj, q.obj, p == q))
                ctx.state((i, m, o))
    ctx.outcome(name)
    ctx.sample('%s: %d coefficient identities on every blade' % (name, len(pairs)))


def compare(ctx, name, sl):
    """compare(A, B): the factor c with B = c A, or 0."""
    import contextlib
    import io
    alg = alg_of(name)
    ga = alg.ga
    vals = {k: v for k, v in values(alg).items() if v}
    facs = {'1': sp.S(1), '-1': sp.S(-1), '2': sp.S(2), '1/2': sp.Rational(1, 2), 'a': A_, '-3a': -3 * A_, 'a+b': A_ + B_, '1/a': 1 / A_, 'sin': sp.sin(configs.x)}
    for i, (vn, R) in enumerate(vals.items()):
        if i % sl[1] != sl[0]:
            continue
        M = alg.mv(R)
        for fn, f in facs.items():
            for bn, B in (('plain', ga.mv(sp.expand(f * M.obj))), ('factored', f * M), ('base', (f * M).base_rep())):
                key = '%s/compare(%s, %s of %s*)' % (name, vn, bn, fn)
                ctx.step()
                ctx.trace()
                ctx.state(key)
                ok, c = ctx.guard(key, gmv.compare, M, B)
                if ok:
                    ctx.check(expr_zero(sp.sympify(c) - f), key, lambda: 'compare(%s, %s) = %s, want %s' % (M.obj, B.obj, c, f))
        for vn2, R2 in vals.items():
            ks = set(R) | set(R2)
            prop = set(R) == set(R2) and all(R[p] * R2[q] == R[q] * R2[p] for p in ks for q in ks)
            key = '%s/compare(%s, %s)' % (name, vn, vn2)
            ctx.step()
            ok, c = ctx.guard(key, gmv.compare, M, alg.mv(R2))
            if ok:
                ctx.check((sp.sympify(c) != 0) == prop, key, lambda: 'compare = %s, proportional: %s' % (c, prop))
            ctx.outcome((prop,))
        ctx.raises('%s/compare type' % name, TypeError, lambda: gmv.compare(M, 2), 'compare with a number')


def types(ctx, name):
    """The result of every operator with a multivector operand is a multivector of the same algebra."""
    alg = alg_of(name)
    ga = alg.ga
    ops = dict(OPS)
    ops['+='] = lambda A, B: A.__add__(B)
    vals = {k: v for k, v in values(alg).items() if k in ('0', '1', 'a', 'e1', 'v', '1+e1', 'I', 'sym')}
    for vn, R in vals.items():
        for rep in ('blade', 'base'):
            M = alg.mv(R) if rep == 'blade' else alg.mv(R).base_rep()
            others = [(vn2, alg.mv(R2)) for vn2, R2 in vals.items()] + [('2', 2), ('S2', sp.S(2)), ('sym', A_), ('0', 0), ('half', sp.Rational(1, 2))]
            for on, X in others:
                for o, f in ops.items():
                    for side in 'RL':
                        if side == 'L' and (isinstance(X, Mv) or o in ('sp', '+=') or (o in '<>' and isinstance(X, sp.Basic))):
                            continue
                        if o == 'sp' and not isinstance(X, Mv):
                            continue
                        key = '%s/%s(%s) %s %s %s' % (name, vn, rep, o, on, side)
                        ok, res = ctx.guard(key, f, *((M, X) if side == 'R' else (X, M)))
                        ctx.step()
                        if not ok:
                            continue
                        if o == 'sp':
                            ctx.check(isinstance(res, (int, sp.Basic)), key, 'sp returned %s' % type(res).__name__)
                        else:
                            ctx.check(isinstance(res, Mv) and res.Ga is ga, key, lambda: 'result is a %s' % type(res).__name__)
                        ctx.state(key)
            for u in ('rev', 'g_invol', 'ccon', 'even', 'odd', 'expand', 'simplify', 'trigsimp', 'blade_rep', 'base_rep', 'collect', '__neg__'):
                ok, res = ctx.guard('%s/%s.%s' % (name, vn, u), getattr(M, u))
                ctx.step()
                if ok:
                    ctx.check(isinstance(res, Mv) and res.Ga is ga, '%s/%s.%s' % (name, vn, u), lambda: 'result is a %s' % type(res).__name__)
    ctx.trace()
    ctx.outcome(name)
    ctx.sample('%s: result types of %d operators' % (name, len(ops)))


def mkpair(which):
    if which == 'twin':
        return configs.algebra('E2'), configs.algebra('E2')
    if which == 'twin3':
        return configs.algebra('O3'), configs.algebra('O3')
    if which == 'metric':
        return configs.algebra('E2'), configs.algebra('M2')
    if which == 'dim':
        return configs.algebra('E2'), configs.algebra('E3')
    if which == 'coords':
        c = [configs.x, configs.y]
        return mk('e_x e_y', g=[1, 1], coords=c), mk('e_x e_y', g=[1, 1], coords=c)
    if which == 'sm':
        x, y, z = configs.x, configs.y, configs.z
        o3 = mk('e_x e_y e_z', g=[1, 1, 1], coords=[x, y, z])
        return o3, o3.sm([sp.cos(configs.u) * sp.cos(configs.v), sp.sin(configs.u) * sp.cos(configs.v), sp.sin(configs.v)], [configs.u, configs.v], norm=True)
    if which == 'zero':
        return configs.algebra('E1'), mk('', g=[])


def cross(ctx, which, swap):
    """Every operator on operands of two different algebras is refused."""
    g1, g2 = mkpair(which)
    if swap:
        g1, g2 = g2, g1
    ctx.check(g1 == g1 and g2 == g2 and not (g1 == g2) and g1 != g2, which + ' identity', 'different algebras compare equal')

    def kinds(ga):
        out = {'scalar': ga.mv(3), 'zero': ga.mv(0), 'full': ga.mv(sum(ga.blades.flat, sp.S(0)))}
        if ga.n:
            e1 = ga.mv(ga.basis[0])
            out.update({'e1': e1, '1+e1': 1 + e1, 'I': ga.mv(ga.blades.flat[-1]), 'base': (ga.mv(ga.blades.flat[-1]) + e1).base_rep()})
        return out
    for k1, M1 in kinds(g1).items():
        for k2, M2 in kinds(g2).items():
            for o, f in list(OPS.items()) + [('/', lambda A, B: A / B), ('Mv.Mul *', lambda A, B: Mv.Mul(A, B, '*')), ('Mv.Mul ^', lambda A, B: Mv.Mul(A, B, '^'))]:
                if o == '/' and k2 in ('zero', 'full', '1+e1', 'base', 'I'):
                    continue
                key = '%s/%s/%s %s %s' % (which, swap, k1, o, k2)
                ctx.state(key)
                ctx.step()
                ctx.trace()
                ctx.raises(key, ValueError, lambda: f(M1, M2), 'operands of different algebras')
            key = '%s/%s/%s == %s' % (which, swap, k1, k2)
            try:
                e = M1 == M2
            except ValueError:
                e = False
            ctx.check(not e, key, 'multivectors of different algebras compare equal')
            if k1 == 'e1' and k2 == 'e1':
                for nm, f in (('refl', lambda: M1.reflect_in_blade(M2)), ('proj', lambda: M1.project_in_blade(M2)), ('fn refl', lambda: gmv.refl(M2, M1)), ('com', lambda: Ga.com(M1, M2))):
                    ctx.step()
                    ctx.raises('%s/%s/%s' % (which, swap, nm), ValueError, f, 'operands of different algebras')
    if g1.coords and g2.coords:
        for k2, M2 in kinds(g2).items():
            for o in '*^|<>':
                for nm, f in (('D o M', lambda: OPS[o](g1.grad, M2)), ('M o D', lambda: OPS[o](M2, g1.grad)), ('D o rD', lambda: OPS[o](g1.rgrad, M2))):
                    key = '%s/%s/%s %s %s' % (which, swap, nm, o, k2)
                    ctx.step()
                    ctx.trace()
                    ctx.raises(key, ValueError, f, 'operator and operand of different algebras')
        for o in '*^|+-':
            ctx.step()
            ctx.raises('%s/%s/D %s D' % (which, swap, o), ValueError, lambda: OPS[o](g1.grad, g2.grad), 'operators of different algebras')
    if g1.n == g2.n and g1.n:
        L1, L2 = g1.lt(sp.eye(g1.n)), g2.lt(sp.eye(g2.n))
        for nm, f in (('L+L', lambda: L1 + L2), ('L-L', lambda: L1 - L2), ('L*L', lambda: L1 * L2), ('L(M)', lambda: L1(g2.mv(g2.basis[0])))):
            ctx.step()
            ctx.raises('%s/%s/%s' % (which, swap, nm), ValueError, f, 'transformation of another algebra')
    ctx.outcome((which, swap))
    ctx.sample('%s: all operators on all kinds of operands' % which)


def badargs(ctx):
    """Operands that are not scalars nor multivectors are refused, never silently absorbed."""
    ga = configs.algebra('E2')
    e1 = ga.mv(ga.basis[0])
    for o, f in OPS.items():
        if o == 'sp':
            ctx.raises('sp number', ValueError, lambda: e1.sp(2), 'sp with a number')
        ctx.step()
    ctx.raises('Mul op', ValueError, lambda: Mv.Mul(e1, e1, '%'), 'unknown operation')
    for p in (sp.Rational(1, 2), 1.5, 'x'):
        ctx.step()
        ctx.raises('power %s' % p, (ValueError, TypeError), lambda: e1 ** p, 'non-integer power')
    ctx.state(1)
    ctx.trace()


def jobs(tier):
    js = []

    def add(fn, **kw):
        js.append(dict(fn=fn, kw=kw))
    T = tier == 'thorough'
    add('badargs')
    for k in ('E1', 'E2', 'M2', 'O2', 'SYM2', 'E3', 'COORD2') + (('O3', 'CGA1', 'PGA2') if T else ()):
        parts = 6 if k not in ('O3', 'CGA1') else 24
        for i in range(parts):
            st = parts * (1 if T else (6 if k not in ('E3',) else 12))
            add('population', name=k, rows=[i, st])
    for k in ('E2', 'O2', 'M2', 'Z1'):
        add('transc', name=k)
    for k in ('E2', 'O2', 'E3'):
        for i in range(3):
            add('compare', name=k, sl=[i, 3])
    for k in ('E2', 'O2', 'PGA2', 'SYM2'):
        add('types', name=k)
    for wch in ('twin', 'twin3', 'metric', 'dim', 'coords', 'sm', 'zero'):
        for s in (False, True):
            add('cross', which=wch, swap=s)
    return js
