"""C04: grade structure, extraction and involutions."""
import itertools
from fractions import Fraction
import sympy as sp
from galgebra.mv import Mv
import galgebra.mv as gmv
from vf import configs
from vf.bridge import Alg, mk, with_syms
from vf.refga import popcount, bits
from vf.checks.common import chunks, vname

BOUNDS = ('every blade support for n<=3 (2^(2^n) of them) x every way of writing the expression, every grade pattern for n=4,5; '
          'every query, method and function form; set_coef on every blade; all pairs (grade, support) for coefficient lists')

a, b, c = configs.a, configs.b, configs.c


def forms(alg, sup, wanted):
    """Ways of writing a multivector with the given support: (name, expression, reference value)."""
    B = alg.mask2blade
    P = alg.dom.conv
    co = {m: sp.Rational(2 * i + 1, 1 + i % 3) * (-1) ** (i % 2) * [1, a, 1, b, a * b][i % 5] for i, m in enumerate(sup)}
    val = {m: P(x) for m, x in co.items()}
    plain = sp.Add(*[x * B[m] for m, x in co.items()])
    allb = sp.Add(*B.values())
    if 'plain' in wanted:
        yield 'plain', plain, val
    if 'factored' in wanted:        # one unexpanded product
        yield 'factored', (a + b) * sp.Add(*[B[m] for m in sup]), {m: P(a + b) for m in sup}
    if 'cancel' in wanted:          # terms that vanish only after expansion, over every blade
        yield 'cancel', plain + (a + 1) * allb - a * allb - allb, val
    if 'nested' in wanted:
        yield 'nested', a * (b * (plain + c * allb) + allb) - a * b * c * allb - a * allb, {m: P(a * b) * v for m, v in val.items()}
    if 'reversed' in wanted:        # same value, assembled from the highest blade down, in two pieces
        e = sp.S.Zero
        for m in reversed(sup):
            e = e + co[m] * B[m] / 2
        yield 'reversed', e + e * sp.Integer(1), val
    if 'unsimplified' in wanted:
        yield 'unsimplified', sp.Add(*[((x + 1) ** 2 - x ** 2 - 1) * B[m] / 2 for m, x in co.items()]), val


def query(ctx, alg, M, R, lab, deep=True):
    ga, ref, n = alg.ga, alg.ref, alg.n
    dom = alg.dom
    before = M.obj

    def eqmv(what, X, want):
        ctx.step()
        if not isinstance(X, Mv):
            ctx.fail('%s:%s' % (lab, what), 'returned %s, not a multivector' % type(X).__name__)
            return
        got = alg.ref_of(X)
        ctx.check(ref.eq(got, want), '%s:%s' % (lab, what), lambda: 'obj=%s got %s want %s' % (before, ref.show(got), ref.show(want)))

    def eqex(what, X, want):
        ctx.step()
        X = sp.sympify(X)
        if not X.is_commutative:
            ctx.fail('%s:%s' % (lab, what), 'obj=%s: not a scalar: %s' % (before, X))
            return
        got = dom.conv(X)
        ctx.check(dom.is_zero(got - want), '%s:%s' % (lab, what), lambda: 'obj=%s got %s want %s' % (before, got, want))

    def eqexpr(what, X, want):
        ctx.step()
        got = alg.ref_of(sp.sympify(X))
        ctx.check(ref.eq(got, want), '%s:%s' % (lab, what), lambda: 'obj=%s got %s want %s' % (before, ref.show(got), ref.show(want)))

    def eqpy(what, X, want):
        ctx.step()
        ctx.check(X == want and type(X) == type(want), '%s:%s' % (lab, what), lambda: 'obj=%s got %r want %r' % (before, X, want))

    gr = ref.grades(R)
    # predicates and pure grade, asked on the fresh object and again at the end
    for again in (0, 1):
        eqpy('is_scalar', M.is_scalar(), all(g == 0 for g in gr))
        eqpy('is_vector', M.is_vector(), gr == [1])
        eqpy('is_zero', bool(M.is_zero()), not gr)
        eqpy('is_base', M.is_base(), len(R) == 1 and list(R.values())[0] == dom.one)
        eqpy('pure_grade', int(M.pure_grade()), (gr[0] if len(gr) == 1 else 0 if not gr else -max(gr)))
        if again:
            break
        for r in range(-1, n + 2):
            w = ref.grade(R, r)
            eqmv('get_grade(%d)' % r, M.get_grade(r), w)
            if deep:
                eqmv('grade(%d)' % r, M.grade(r), w)
                eqmv('[%d]' % r, M[r], w)
                eqmv('fn grade(%d)' % r, gmv.grade(M, r), w)
                eqexpr('Ga.get_grade(%d)' % r, ga.get_grade(M.obj, r), w)
        eqmv('grade()', M.grade(), ref.grade(R, 0))
        for nm, w in (('even', ref.even(R)), ('odd', ref.odd(R)), ('rev', ref.rev(R)), ('g_invol', ref.invol(R)), ('ccon', ref.ccon(R))):
            eqmv(nm, getattr(M, nm)(), w)
            eqmv('fn ' + nm, getattr(gmv, nm)(M), w)
        eqmv('~', ~M, ref.rev(R))
        eqexpr('Ga.reverse', ga.reverse(M.obj), ref.rev(R))
        eqexpr('Ga.even_odd', ga.even_odd(M.obj, True), ref.even(R))
        eqexpr('Ga.even_odd-', ga.even_odd(M.obj, False), ref.odd(R))
        s0 = R.get(0, dom.zero)
        eqex('scalar', M.scalar(), s0)
        eqex('fn scalar', gmv.scalar(M), s0)
        for what, arg in (('mv', M), ('expr', M.obj)):
            eqex('scalar_part ' + what, ga.scalar_part(arg), s0)
            p, q = ga.split_multivector(arg)
            eqex('split[0] ' + what, p, s0)
            rest = {m: x for m, x in R.items() if m}
            eqexpr('split[1] ' + what, q, rest)
            eqexpr('remove_scalar_part ' + what, ga.remove_scalar_part(arg), rest)
        eqpy('grades', [int(g) for g in ga.grades(M.obj)], gr if gr else [0])
        for what, arg in (('mv', M), ('expr', M.obj)):
            d = ga.grade_decomposition(arg)
            ctx.step()
            ks = sorted(int(k) for k in d)
            ctx.check(ks == gr or (not gr and ks == [0]), lab + ':decomposition keys', lambda: '%s has grades %s, decomposition %s' % (before, gr, ks))
            for k, v in d.items():
                (eqmv if what == 'mv' else eqexpr)('decomposition %s %s' % (what, k), v, ref.grade(R, k))
        # components: one blade each, in blade order, summing back
        cs = M.components()
        tot = {}
        order = []
        for x in cs:
            rx = alg.ref_of(x)
            ctx.check(len(rx) <= 1, lab + ':components', lambda: '%s has a component %s' % (before, x.obj))
            order += [ref.masks.index(m) for m in rx]
            tot = ref.add(tot, rx)
        ctx.step()
        ctx.check(ref.eq(tot, R) and order == sorted(set(order)), lab + ':components', lambda: 'components of %s are %s' % (before, [x.obj for x in cs]))
        # coefficient lists
        def eqlist(what, L, want):
            ctx.step()
            ok = len(L) == len(want) and all(sp.sympify(x).is_commutative and dom.is_zero(dom.conv(x) - w) for x, w in zip(L, want))
            ctx.check(ok, '%s:%s' % (lab, what), lambda: 'obj=%s got %s want %s' % (before, L, [str(w) for w in want]))
        eqlist('blade_coefs()', M.blade_coefs(), [R.get(m, dom.zero) for m in ref.masks])
        eqlist('list', M.list(), [R.get(1 << i, dom.zero) for i in range(n)])
        mvb = {m: bl for m, bl in zip(ref.masks, ga.mv_blades.flat)}
        for g in range(n + 1):
            ms = [m for m in ref.masks if popcount(m) == g]
            eqlist('blade_coefs[%d]' % g, M.blade_coefs([mvb[m] for m in ms]), [R.get(m, dom.zero) for m in ms])
            eqmv('proj[%d]' % g, M.proj([mvb[m] for m in ms]), ref.grade(R, g))
            if all(k == g for k in gr):
                eqlist('get_coefs(%d)' % g, M.get_coefs(g), [R.get(m, dom.zero) for m in ms])
            else:
                ctx.step()
                ctx.raises('%s:get_coefs(%d)' % (lab, g), ValueError, lambda: M.get_coefs(g), 'get_coefs(%d) of %s' % (g, before))
        sel = [m for i, m in enumerate(reversed(ref.masks)) if i % 2 == 0]
        eqlist('blade_coefs sel', M.blade_coefs([mvb[m] for m in sel]), [R.get(m, dom.zero) for m in sel])
        eqmv('proj sel', M.proj([mvb[m] for m in sel]), {m: x for m, x in R.items() if m in sel})
        eqmv('proj none', M.proj([]), {})
        eqmv('collect', M.collect(), R)
        eqmv('expand', M.expand(), R)
    ctx.check(M.obj == before, lab + ':mutated', lambda: 'a query changed %s to %s' % (before, M.obj))
    ctx.trace()


def supports(ctx, name, sups, wanted, deep=True):
    ga = configs.algebra(name)
    alg = with_syms(Alg(ga, configs.metric(name)), [a, b, c])
    for s in sups:
        sup = [alg.ref.masks[i] for i in range(1 << alg.n) if (s >> i) & 1]
        for fn, e, R in forms(alg, sup, wanted):
            lab = '%s/%s/%s' % (name, '+'.join(vname(m) for m in sup) or '0', fn)
            ok, M = ctx.guard(lab, ga.mv, e)
            if not ok:
                continue
            ctx.state((lab,))
            ctx.outcome((tuple(sup), fn))
            ctx.where = lab
            query(ctx, alg, M, R, lab, deep)
            if not ga.is_ortho and fn == 'plain':
                query_base = M.base_rep()
                lab += '[base]'
                ctx.state((lab,))
                for q, want in (('even', alg.ref.even(R)), ('odd', alg.ref.odd(R)), ('rev', alg.ref.rev(R)), ('g_invol', alg.ref.invol(R)), ('ccon', alg.ref.ccon(R))):
                    got = alg.ref_of(getattr(query_base, q)())
                    ctx.step()
                    ctx.check(alg.ref.eq(got, want), '%s:%s' % (lab, q), lambda: 'got %s want %s' % (alg.ref.show(got), alg.ref.show(want)))
    ctx.sample('%s: %d supports, forms %s; last %s' % (name, len(sups), wanted, lab))


def coef_errors(ctx, name):
    """Asking for coefficients of things that are not basis blades is refused."""
    ga = configs.algebra(name)
    alg = Alg(ga, configs.metric(name))
    bl = list(ga.mv_blades.flat)
    M = ga.mv('A', 'mv')
    for x in bl:
        for y in bl:
            ctx.step(2)
            ctx.state((str(x.obj), str(y.obj)))
            if x is not y:
                ctx.raises('%s/blade_coefs(%s+%s)' % (name, x.obj, y.obj), ValueError, lambda: M.blade_coefs([x + y]), 'blade_coefs of a sum')
            ctx.raises('%s/blade_coefs(2*%s)' % (name, x.obj), ValueError, lambda: M.blade_coefs([y, 2 * x]), 'blade_coefs of a scaled blade')
    for f in ('even', 'odd', 'rev', 'ccon', 'g_invol', 'scalar', 'grade', 'dual', 'undual', 'inv', 'shirokov_inverse', 'hitzer_inverse'):
        for bad in (2, sp.Symbol('q'), 'A', None):
            ctx.step()
            ctx.raises('%s/%s(%r)' % (name, f, bad), (ValueError, TypeError), lambda: getattr(gmv, f)(bad), '%s(%r)' % (f, bad))
    ctx.trace()


def set_coef(ctx, name):
    """set_coef changes exactly the named coefficient, and every later query sees the new value."""
    base = configs.algebra(name)
    alg = with_syms(Alg(base, configs.metric(name)), [a, b, c])
    ref, dom, ga = alg.ref, alg.dom, base
    starts = {'0': {}, 's': {0: dom.conv(a)}, 'v': {1: dom.one, 2: dom.conv(b)}, 'B': {3: dom.one}, 'mix': {0: dom.one, 1: dom.conv(a), (1 << alg.n) - 1: dom.conv(-2)},
              'unexp': None}
    for sn, R0 in starts.items():
        for g in range(alg.n + 1):
            for i, idx in enumerate(ga.indexes[g]):
                for val in (sp.S(0), sp.S(5), a + b):
                    for pre in ('none', 'queries'):
                        if sn == 'unexp':
                            M = ga.mv((a + b) * (alg.mask2blade[1] + alg.mask2blade[0] * 2))
                            R = {1: dom.conv(a + b), 0: dom.conv(2 * a + 2 * b)}
                        else:
                            M, R = ga.mv(sp.Add(*[dom.expr(x) * alg.mask2blade[m] for m, x in R0.items()])), dict(R0)
                        if pre == 'queries':
                            M.is_blade(), M.is_versor(), M.pure_grade(), M.is_scalar()
                        lab = '%s/set_coef(%s,%d,%d,%s)/%s' % (name, sn, g, i, val, pre)
                        ok, _ = ctx.guard(lab, M.set_coef, g, i, val)
                        if not ok:
                            continue
                        m = sum(1 << j for j in idx)
                        R.pop(m, None)
                        R[m] = dom.conv(val)
                        R = ref.clean(R)
                        ctx.state((lab,))
                        got = alg.ref_of(M)
                        ctx.step()
                        if not ctx.check(ref.eq(got, R), lab, lambda: 'got %s want %s' % (ref.show(got), ref.show(R))):
                            continue
                        F = ga.mv(M.obj)       # a fresh object with the same expression
                        for q in ('pure_grade', 'is_scalar', 'is_vector', 'is_zero', 'is_blade', 'is_versor', 'is_base'):
                            x, y = getattr(M, q)(), getattr(F, q)()
                            ctx.step()
                            ctx.check(x == y, lab + ':' + q, lambda: '%s after set_coef is %r, on a fresh copy of the same value %r (%s)' % (q, x, y, M.obj))
                        ctx.outcome((g, i, str(val), sn))
    ctx.trace()
    ctx.sample('%s: set_coef on every blade of %s' % (name, list(starts)))


FORMS = ['plain', 'factored', 'cancel', 'nested', 'reversed', 'unsimplified']


def pattern_supports(n):
    """For every set of grades: the first blade, the last blade and all blades of each grade."""
    from vf.refga import RefGA, QDom
    masks = sorted(range(1 << n), key=lambda m: (popcount(m), bits(m)))
    out = set()
    for pat in range(1 << (n + 1)):
        gs = [g for g in range(n + 1) if (pat >> g) & 1]
        for pick in ('first', 'last', 'all'):
            s = 0
            for g in gs:
                idx = [i for i, m in enumerate(masks) if popcount(m) == g]
                for i in ({'first': idx[:1], 'last': idx[-1:], 'all': idx}[pick]):
                    s |= 1 << i
            out.add(s)
    return sorted(out)


def jobs(tier):
    js = []

    def add(fn, **kw):
        js.append(dict(fn=fn, kw=kw))
    for nm in ('E1', 'E2', 'O2', 'NULL2', 'M2', 'SYM2'):
        n = len(configs.METRICS[nm])
        add('supports', name=nm, sups=list(range(1 << (1 << n))), wanted=FORMS)
    third = ['E3', 'O3', 'M3', 'MIX3', 'FULL3'] if tier == 'quick' else ['E3', 'O3', 'M3', 'MIX3', 'PGA2', 'FULL3', 'S3']
    for nm in third:
        allf = nm == 'E3' or tier == 'thorough'
        for w in ([[f] for f in FORMS] if allf else [['plain'], ['cancel']]):
            for ch in chunks(range(256), 64 if nm == 'E3' else 43):
                add('supports', name=nm, sups=ch, wanted=w, deep=nm == 'E3')
    for nm, ws in (('STA', ['plain', 'cancel']), ('CGA2', ['plain'])):
        for ch in chunks(pattern_supports(4), 16):
            add('supports', name=nm, sups=ch, wanted=ws if tier == 'quick' else FORMS, deep=False)
    for nm in ('CGAo', 'CGA3') if tier == 'thorough' else ('CGAo',):
        for ch in chunks(pattern_supports(5), 16):
            add('supports', name=nm, sups=ch, wanted=['plain', 'factored', 'cancel'] if tier == 'thorough' else ['plain'], deep=False)
    hi = [s for s in pattern_supports(6) if bin(s).count('1') <= 3 or s == (1 << 64) - 1]
    for ch in chunks(hi if tier == 'thorough' else hi[::3] + hi[-1:], 16):
        add('supports', name='D6', sups=ch, wanted=['plain'], deep=False)
    for m in range(8):
        add('supports', name='E7', sups=[1 << i for i in (127, 126 - m, m)], wanted=['plain'], deep=False)
    for nm in ('E2', 'E3', 'O2') if tier == 'quick' else ('E2', 'E3', 'O2', 'O3', 'STA'):
        add('coef_errors', name=nm)
        add('set_coef', name=nm)
    return js
