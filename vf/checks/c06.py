"""C06: inverses and quotients."""
import itertools
from fractions import Fraction
import sympy as sp
from galgebra.mv import Mv
import galgebra.mv as gmv
from vf import configs
from vf.bridge import Alg, mk, with_syms
from vf.refga import ExprDom, QDom, RefGA, popcount
from vf.checks.common import chunks, mstr, vname, shapes

BOUNDS = ('all multivectors with coefficients {-1,0,1} x all {-1,0,1,2} metrics n<=1, {-1,0,1} n=2; all {0,1} multivectors n=3 x 6 metrics; '
          'all sums/differences of two blades n=4,5; generic symbolic multivectors; methods inv, shirokov, hitzer, division by and of, negative powers')


def rank_full(ref, A):
    """Is left multiplication by A bijective?  (rational Gaussian elimination)"""
    N = ref.N
    cols = []
    for m in range(N):
        c = ref.gp(A, {m: ref.dom.one})
        cols.append([c.get(k, Fraction(0)) for k in range(N)])
    rows = cols
    r = 0
    for j in range(N):
        p = next((i for i in range(r, N) if rows[i][j] != 0), None)
        if p is None:
            return False
        rows[r], rows[p] = rows[p], rows[r]
        for i in range(r + 1, N):
            if rows[i][j] != 0:
                q = rows[i][j] / rows[r][j]
                rows[i] = [x - q * y for x, y in zip(rows[i], rows[r])]
        r += 1
    return True


def finite(X):
    return not sp.sympify(X.obj).has(sp.zoo, sp.nan, sp.oo)


METHODS = [('inv', lambda A: A.inv()), ('fn inv', gmv.inv), ('shirokov', lambda A: A.shirokov_inverse()), ('hitzer', lambda A: A.hitzer_inverse()),
           ('fn shirokov', gmv.shirokov_inverse), ('fn hitzer', gmv.hitzer_inverse), ('1/A', lambda A: 1 / A), ('A**-1', lambda A: A ** -1)]
GENERAL = ('shirokov', 'hitzer', 'fn shirokov', 'fn hitzer')


def one_mv(ctx, alg, R, M, lab, methods, invertible=None, rep='blade'):
    """All inverse methods on one multivector."""
    ref, dom = alg.ref, alg.dom
    one = {0: dom.one}
    if invertible is None:
        invertible = rank_full(ref, R)
    def scal(X):
        return all(m == 0 for m in X)
    basic = scal(R) or scal(ref.gp(R, R)) or scal(ref.gp(R, ref.rev(R)))
    ctx.state(lab)
    for nm, f in methods:
        if 'hitzer' in nm and alg.n > 5:
            continue
        key = '%s:%s' % (lab, nm)
        ctx.step()
        ctx.trace()
        try:
            X = f(M)
        except Exception as e:
            if nm in GENERAL:
                ctx.check(not invertible, key, lambda: 'invertible, but refused with %s: %s' % (type(e).__name__, e))
                ctx.check(isinstance(e, (ValueError, ZeroDivisionError)), key, lambda: 'refused with %s: %s' % (type(e).__name__, e))
            else:
                ctx.check(not (invertible and basic), key, lambda: 'an invertible blade/versor-like multivector was refused with %s: %s' % (type(e).__name__, e))
            ctx.outcome((nm, 'refused', invertible))
            continue
        if not isinstance(X, Mv):
            ctx.fail(key, 'returned %s' % type(X).__name__)
            continue
        if not finite(X):
            ctx.check(not invertible, key, lambda: 'not finite: %s' % X.obj)
            ctx.outcome((nm, 'infinite', invertible))
            continue
        inv = alg.ref_of(X)
        l, r = ref.gp(inv, R), ref.gp(R, inv)
        ctx.check(ref.eq(l, one) and ref.eq(r, one), key, lambda: 'A=%s inverse=%s products %s and %s' % (M.obj, X.obj, ref.show(l), ref.show(r)))
        ctx.outcome((nm, ref.key(inv) if isinstance(dom, QDom) else str(sorted(inv))))
    # negative powers and quotients agree with products of inverses
    return invertible


def quotients(ctx, alg, ops, lab):
    """A/B B = A, (s/B) B = s, A/s s = A, B**-k B**k = 1 whenever they return."""
    ref, dom = alg.ref, alg.dom
    for (sa, RA, A), (sb, RB, B) in itertools.product(ops, ops):
        key = '%s/%s/%s' % (lab, sa, sb)
        ctx.step()
        ctx.state(key)
        try:
            Q = A / B
        except (TypeError, ValueError, ZeroDivisionError):
            Q = None
        if Q is not None and finite(Q):
            got = ref.gp(alg.ref_of(Q), RB)
            ctx.check(ref.eq(got, RA), key, lambda: '(A/B)*B = %s, A = %s' % (ref.show(got), ref.show(RA)))
            ctx.trace()
    for sb, RB, B in ops:
        for s in (2, sp.Rational(-3, 4), 1):
            rs = dom.conv(s)
            key = '%s/%s/scalar %s' % (lab, sb, s)
            ctx.step(2)
            got = alg.ref_of(B / s)
            ctx.check(ref.eq(ref.scale(rs, got), RB), key, lambda: 'A/%s = %s' % (s, ref.show(got)))
            try:
                Q = s / B
            except (TypeError, ValueError, ZeroDivisionError):
                continue
            if finite(Q):
                got = ref.gp(alg.ref_of(Q), RB)
                ctx.check(ref.eq(got, {0: rs}), key, lambda: '(%s/A)*A = %s' % (s, ref.show(got)))
        for k in (1, 2, 3):
            key = '%s/%s**-%d' % (lab, sb, k)
            ctx.step()
            try:
                Q = B ** (-k)
            except (TypeError, ValueError, ZeroDivisionError):
                continue
            if finite(Q):
                P = {0: dom.one}
                for _ in range(k):
                    P = ref.gp(P, RB)
                got = ref.gp(alg.ref_of(Q), P)
                ctx.check(ref.eq(got, {0: dom.one}), key, lambda: 'A**-%d * A**%d = %s' % (k, k, ref.show(got)))
            ctx.trace()


def box(ctx, gl, values, methods=('inv', 'shirokov', 'hitzer', 'A**-1'), base=False, sl=None):
    for g in gl:
        gs = [[configs.S(e) for e in row] for row in g]
        ga = mk(configs.basis(len(g)), g=gs)
        alg = Alg(ga, gs)
        ms = [x for x in METHODS if x[0] in methods]
        vecs = itertools.product(values, repeat=1 << alg.n)
        if sl:
            vecs = itertools.islice(vecs, *sl)
        for v in vecs:
            R = {m: Fraction(x) for m, x in zip(alg.ref.masks, v) if x}
            M = alg.mv(R)
            lab = 'g=%s/%s' % (mstr(g), alg.ref.show(R))
            ctx.where = lab
            inv = one_mv(ctx, alg, R, M, lab, ms)
            if base and not ga.is_ortho and R:
                one_mv(ctx, alg, R, M.base_rep(), lab + '[base]', ms, inv)
    ctx.sample('g=%s: all coefficients %s, methods %s' % (mstr(gl[-1]), values, methods))


def pairs(ctx, g, sl, quot=False):
    """Sums and differences of two blades, and three shapes more."""
    gs = [[configs.S(e) for e in row] for row in g]
    ga = mk(configs.basis(len(g)), g=gs)
    alg = Alg(ga, gs)
    ps = [(p, q) for p in alg.ref.masks for q in alg.ref.masks if p < q]
    ms = [x for x in METHODS if x[0] in ('inv', 'shirokov', 'hitzer')]
    for p, q in ps[sl[0]:sl[1]]:
        for s in (1, -2):
            R = {p: Fraction(1), q: Fraction(s)}
            one_mv(ctx, alg, R, alg.mv(R), 'g=%s/%s%+d%s' % (mstr(g), vname(p), s, vname(q)), ms)
    ctx.sample('g=%s: pairs %s' % (mstr(g), sl))


def shape(ctx, name, which):
    ga = configs.algebra(name)
    alg = Alg(ga, configs.metric(name))
    ops = []
    for s, R in shapes(alg).items():
        M = alg.mv(R)
        if which == 'all':
            one_mv(ctx, alg, R, M, '%s/%s' % (name, s), METHODS if alg.n <= 4 else METHODS[:4])
        ops.append((s, R, M))
    if which == 'quot':
        quotients(ctx, alg, ops, name)
    ctx.sample('%s: %s on %d shapes' % (name, which, len(ops)))


def symbolic(ctx, name, kind, methods):
    """Generic coefficients: the product with the returned inverse is identically 1."""
    ga = configs.algebra(name)
    alg = Alg(ga, configs.metric(name), ExprDom())
    sel = {'vector': lambda k: k == 1, 'bivector': lambda k: k == 2, 'even': lambda k: k % 2 == 0, 'odd': lambda k: k % 2, 'mv': lambda k: True, 'scalar': lambda k: k == 0,
           'pseudo': lambda k: k == alg.n, 'para': lambda k: k < 2}[kind]
    syms = {m: sp.Symbol('p_%d' % m, real=True) for m in alg.ref.masks if sel(popcount(m))}
    M = ga.mv(sp.Add(*[s * alg.mask2blade[m] for m, s in syms.items()]))
    for nm, f in METHODS:
        if nm not in methods:
            continue
        lab = '%s/generic %s:%s' % (name, kind, nm)
        ctx.step()
        ctx.state(lab)
        ok, X = ctx.guard(lab, f, M)
        if not ok:
            continue
        # evaluated at enumerated integer points: exact rational check at each
        from vf.refga import RefGA
        inv = alg.terms(X.obj) if False else None
        pts = 0
        for t in range(1, 7):
            sub = {s: sp.Integer(((i * i + 3 * t * i + 2 * t) % 11) - 4) for i, s in enumerate(syms.values())}
            gsyms = sorted(set().union(*[e.free_symbols for r in alg.g for e in r]), key=str)
            sub.update({s: sp.Integer(2 + 3 * i + t) for i, s in enumerate(gsyms)})
            q = RefGA([[e.subs(sub) for e in r] for r in alg.g], QDom())
            R = q.clean({m: Fraction(int(sub[s])) for m, s in syms.items()})
            if not rank_full(q, R):
                continue
            co = {}
            for mask, blade in alg.mask2blade.items():
                co[mask] = 0
            for b, cf in zip_terms(X.obj, ga):
                v = cf.subs(sub)
                v = sp.simplify(v) if not v.is_Rational else v
                co[alg.blade2mask[b]] += v
            inv = q.clean({m: QDom.conv(v) for m, v in co.items()})
            ctx.step()
            pts += 1
            ctx.check(q.eq(q.gp(inv, R), {0: Fraction(1)}) and q.eq(q.gp(R, inv), {0: Fraction(1)}), lab, lambda: 'at %s: A^-1 A = %s' % (sub, q.show(q.gp(inv, R))))
            ctx.state((lab, t))
            ctx.outcome((lab, q.key(inv)))
        ctx.check(pts >= 2, lab, 'no invertible evaluation point')
        ctx.trace()
    ctx.sample('%s: generic %s, %s' % (name, kind, methods))


def zip_terms(obj, ga):
    """(blade, coefficient) pairs of a possibly unexpanded linear combination, by substitution of unit blades."""
    bl = list(ga.blades.flat)[1:]
    dummies = {b: sp.Dummy('d%d' % i) for i, b in enumerate(bl)}
    e = obj.xreplace(dummies)
    zero = {d: 0 for d in dummies.values()}
    base = e.xreplace(zero)
    yield ga.blades.flat[0], base
    for b, d in dummies.items():
        z = dict(zero)
        z[d] = sp.S.One
        yield b, e.xreplace(z) - base


def small(ctx):
    """Dimensions 0 and 6, and the error contract at the edges."""
    from galgebra.ga import Ga
    ga = Ga('', g=[])
    for v in (1, -2, sp.Rational(3, 4)):
        for nm, f in METHODS:
            key = 'n=0/%s:%s' % (v, nm)
            ok, X = ctx.guard(key, f, ga.mv(v))
            ctx.step()
            ctx.state(key)
            if ok:
                ctx.check(sp.sympify(X.obj) * v == 1, key, lambda: 'inverse of %s is %s' % (v, X.obj))
    g6 = configs.diag(1, -1, 1, 1, -1, 1)
    ga = mk(configs.basis(6), g=g6)
    alg = Alg(ga, g6)
    for R in ({0: Fraction(1), 3: Fraction(2)}, {1: Fraction(1), 62: Fraction(1)}, {0: Fraction(2), 7: Fraction(1), 33: Fraction(1)}):
        one_mv(ctx, alg, R, alg.mv(R), 'n=6/%s' % alg.ref.show(R), [x for x in METHODS if x[0] in ('inv', 'shirokov')])
    ctx.raises('n=6/hitzer', NotImplementedError, lambda: alg.mv({0: Fraction(1), 3: Fraction(2)}).hitzer_inverse(), 'hitzer_inverse in six dimensions')
    ga = configs.algebra('E3')
    for bad in (sp.Rational(1, 2), 0.5, sp.Symbol('n'), '2'):
        ctx.step()
        ctx.raises('power %r' % bad, (ValueError, TypeError), lambda: ga.mv('A', 'vector') ** bad, 'non-integer power')
    ctx.trace()


def jobs(tier):
    js = []

    def add(fn, **kw):
        js.append(dict(fn=fn, kw=kw))
    T = tier == 'thorough'
    allm = [m for m, _ in METHODS]
    add('box', gl=list(configs.sym_matrices(1, [-1, 0, 1, 2])), values=[-2, -1, 0, 1, 3], methods=allm)
    for ch in chunks(configs.sym_matrices(2, [-1, 0, 1]), 2):
        add('box', gl=ch, values=[-1, 0, 1], base=True)
    for nm in ('D2', 'O2'):
        add('box', gl=[configs.METRICS[nm]], values=[-1, 0, 2], methods=allm)
    for nm in ('E3', 'M3', 'PGA2', 'D3', 'O3', 'MIX3'):
        for s in range(0, 256, 64):
            add('box', gl=[configs.METRICS[nm]], values=[0, 1], sl=[s, s + 64])
    for nm in ('STA', 'E4', 'PGA3', 'CGA2'):
        for s in range(0, 120, 40):
            add('pairs', g=configs.METRICS[nm], sl=[s, s + 40])
    for nm in ('CGAo', 'E5'):
        for s in range(0, 496, 31) if T else range(0, 62, 31):
            add('pairs', g=configs.METRICS[nm], sl=[s, s + 31])
    for nm in ('E1', 'E2', 'O2', 'E3', 'M3', 'O3', 'D3', 'PGA2', 'STA', 'D4'):
        add('shape', name=nm, which='all')
        add('shape', name=nm, which='quot')
    for nm in ('CGAo', 'D5'):
        add('shape', name=nm, which='all')
    add('shape', name='CGA2', which='all')
    for nm in ('E2', 'M2', 'O2', 'E3', 'M3', 'FULL3', 'S3', 'SYM2', 'STA'):
        for k in ('vector', 'pseudo', 'scalar'):
            add('symbolic', name=nm, kind=k, methods=['inv', '1/A', 'A**-1'])
    for nm in ('E2', 'M2', 'O2', 'SYM2'):
        for k in ('even', 'mv', 'para', 'vector'):
            add('symbolic', name=nm, kind=k, methods=['shirokov', 'hitzer'] + (['inv'] if k in ('even', 'vector') else []))
    for nm in ('E3', 'M3'):
        for k in ('bivector', 'even', 'vector', 'para') + (('mv', 'odd') if T else ()):
            add('symbolic', name=nm, kind=k, methods=['shirokov', 'hitzer'] + (['inv'] if k in ('bivector', 'even') else []))
    if T:
        for nm in ('E3', 'M3'):
            for s in range(0, 6561, 205):
                add('box', gl=[configs.METRICS[nm]], values=[-1, 0, 1], sl=[s, s + 205])
        for nm in ('N3', 'FULL3', 'CGA1', 'NUL3'):
            for s in range(0, 256, 64):
                add('box', gl=[configs.METRICS[nm]], values=[0, 1], sl=[s, s + 64], base=True)
        for xs in itertools.product([-1, 0, 1], repeat=4):
            add('pairs', g=configs.diag(*xs), sl=[0, 120])
    add('small')
    return js
