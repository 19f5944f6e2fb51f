"""C20: coefficient transformations act on every coefficient and on nothing else.

For every support of blades, every assignment of coefficient kinds to a support
of up to two (three) blades, blade and base form, every transformation and all
compositions of value-preserving ones up to a depth, the result is compared
coefficient by coefficient with the transformation of the coefficients alone."""
import itertools
import sympy as sp
from sympy import S, symbols, Symbol, Function, Rational
from galgebra.ga import Ga
from galgebra.mv import Mv, Dop
from galgebra.dop import Sdop, Pdop
from galgebra import metric
from galgebra.metric import Simp
from vf.bridge import Alg
from vf import configs
from vf.checks.common import *   # noqa

BOUNDS = ('supports: all subsets of blades n<=3; coefficient kinds: all ordered pairs of 19 kinds on all pairs of blades n=2 (blade and base form); '
          'transformations: 26; compositions of 10 value-preserving steps to depth 3; all sequences of 3 simplification profiles')

a, b, c, k = symbols('a b c k', real=True)
x, y, z = symbols('x y z', real=True)
p_, q_ = symbols('p q', positive=True)
f = Function('f', real=True)
g = Function('g', real=True)

KINDS = {
    'one': S.One, 'int': sp.Integer(-3), 'rat': Rational(2, 3), 'float': sp.Float('0.5'), 'sym': a, 'mono': a * b ** 2,
    'sum': a + b, 'square': (a + b) ** 2, 'diffsq': (a ** 2 - b ** 2) / (a - b), 'trig1': sp.sin(x) ** 2 + sp.cos(x) ** 2, 'trig2': 2 * sp.sin(x) * sp.cos(x) + a,
    'exp': sp.exp(x) * sp.exp(y), 'sqrt': sp.sqrt(p_ ** 2 * q_), 'ratio': 1 / a + 1 / b, 'fun': f(x, y), 'der': sp.Derivative(f(x, y), x) * x, 'poly': x ** 2 * y + x,
    'cancel': (x + y) * (x - y) - x ** 2 + y ** 2 + k, 'log': sp.log(p_) + sp.log(q_),
}


def zero(e):
    e = sp.sympify(e)
    if e == 0:
        return True
    e = sp.expand(e)
    if e == 0:
        return True
    e = sp.simplify(e)
    if e.has(sp.Float):
        # decimal coefficients: equal up to rounding
        e = e.xreplace({q: S.Zero for q in e.atoms(sp.Float) if abs(q) < 1e-12})
    return e == 0


def coefs(alg, A):
    """{mask: coefficient} in the basis A is written in (blades or products of basis vectors)."""
    tab = alg.blade2mask
    out = {}
    for s, cf in alg.terms(A.obj if isinstance(A, Mv) else A).items():
        out[s] = cf
    return out


def denote(alg, A):
    """{mask: expression} of the blades of A, whatever its form."""
    out = {}
    for s, cf in coefs(alg, A).items():
        if s in alg.blade2mask:
            add = {alg.blade2mask[s]: S.One}
        else:
            add = {m: alg.dom.expr(d) for m, d in alg.ref.base_word(alg.base2mask[s]).items()}
        for m, d in add.items():
            out[m] = out.get(m, S.Zero) + cf * d
    return out


def same(ctx, key, alg, got, want, what='value'):
    """Both {key: expression}, equal coefficient by coefficient."""
    for m in set(got) | set(want):
        d = got.get(m, S.Zero) - want.get(m, S.Zero)
        if not zero(d):
            ctx.fail(key, '%s: coefficient of %s is %s, want %s' % (what, m, got.get(m, 0), want.get(m, 0)))
            return False
    return True


class Recorder:
    def __init__(self, fn):
        self.fn, self.calls = fn, []

    def __call__(self, e):
        self.calls.append(e)
        return self.fn(e)


def pair(i):
    return lambda e: e + Symbol('s%d' % i, real=True)


PRESERVING = {
    'simplify()': lambda A: A.simplify(), 'simplify(expand)': lambda A: A.simplify(sp.expand), 'simplify([factor,expand])': lambda A: A.simplify([sp.factor, sp.expand]),
    'simplify((together,))': lambda A: A.simplify((sp.together,)), 'simplify(modes=)': lambda A: A.simplify(modes=sp.trigsimp), 'simplify([])': lambda A: A.simplify([]),
    'trigsimp()': lambda A: A.trigsimp(), 'expand()': lambda A: A.expand(), 'collect()': lambda A: A.collect(), 'func(factor)': lambda A: A.func(sp.factor),
    'func(together)': lambda A: A.func(sp.together), 'func(identity)': lambda A: A.func(lambda e: e), 'subs({})': lambda A: A.subs({}), 'subs absent': lambda A: A.subs(Symbol('absent'), 5),
    'applymv': lambda A: Simp.applymv(A), 'Mv': lambda A: A.Ga.mv(A),
}
CHEAP = ['simplify(expand)', 'trigsimp()', 'expand()', 'collect()', 'func(factor)', 'func(together)', 'subs absent', 'simplify([factor,expand])']

# name, application to a multivector, application to one coefficient
EXACT = {
    'func(square)': (lambda A: A.func(lambda e: e ** 2), lambda e: e ** 2),
    'func(3c)': (lambda A: A.func(lambda e: 3 * e), lambda e: 3 * e),
    'func(zero)': (lambda A: A.func(lambda e: S.Zero), lambda e: S.Zero),
    'func(neg)': (lambda A: A.func(lambda e: -e), lambda e: -e),
    'func(diff x)': (lambda A: A.func(lambda e: sp.diff(e, x)), lambda e: sp.diff(e, x)),
    'simplify([neg,square])': (lambda A: A.simplify([lambda e: e + 1, lambda e: e ** 2]), lambda e: (e + 1) ** 2),
    'simplify([square,neg])': (lambda A: A.simplify((lambda e: e ** 2, lambda e: e + 1)), lambda e: e ** 2 + 1),
    'subs(a,2)': (lambda A: A.subs(a, 2), lambda e: e.subs(a, 2)),
    'subs(a,b)': (lambda A: A.subs(a, b + 1), lambda e: e.subs(a, b + 1)),
    'subs({a:2,b:5})': (lambda A: A.subs({a: 2, b: 5}), lambda e: e.subs({a: 2, b: 5})),
    'subs([(a,2b),(b,7)])': (lambda A: A.subs([(a, 2 * b), (b, 7)]), lambda e: e.subs(a, 2 * b).subs(b, 7)),
    'subs swap': (lambda A: A.subs({a: b, b: a}, simultaneous=True), lambda e: e.subs({a: b, b: a}, simultaneous=True)),
    'subs(x,y)': (lambda A: A.subs(x, y ** 2), lambda e: e.subs(x, y ** 2)),
    'subs((a+b),c)': (lambda A: A.subs(a + b, c), None),
    'subs(f)': (lambda A: A.subs(f(x, y), x * y), lambda e: e.subs(f(x, y), x * y)),
    'diff(x)': (lambda A: A.diff(x), lambda e: sp.diff(e, x)),
    'diff(a)': (lambda A: A.diff(a), lambda e: sp.diff(e, a)),
    'diff(k)': (lambda A: A.diff(k), lambda e: sp.diff(e, k)),
    'pdiff(a)': (lambda A: A.pdiff(a), lambda e: sp.diff(e, a)),
    'pdiff(y)': (lambda A: A.pdiff(y), lambda e: sp.diff(e, y)),
}
LINEAR = {'func(3c)', 'func(zero)', 'func(neg)', 'func(diff x)', 'subs(a,2)', 'subs(a,b)', 'subs({a:2,b:5})', 'subs([(a,2b),(b,7)])', 'subs swap', 'subs(x,y)', 'subs(f)',
          'diff(x)', 'diff(a)', 'diff(k)', 'pdiff(a)', 'pdiff(y)'}


def alg_of(name, coords=False):
    kw = {'coords': (x, y, z)[:len(configs.METRICS[name])]} if coords else {}
    ga = configs.algebra(name, **kw)
    return Alg(ga, configs.metric(name))


def one(ctx, key, alg, A, names=None):
    """Every transformation of one multivector."""
    cs = coefs(alg, A)
    den = denote(alg, A)
    obj0, blade0 = A.obj, A.is_blade_rep
    singular = any(isinstance(e, sp.Expr) and e.has(1 / a, 1 / (a - b), 1 / b) for e in cs.values())
    for nm, F in PRESERVING.items():
        if names is not None and nm not in names:
            continue
        kk = key + '/' + nm
        ok, R = ctx.guard(kk, F, A)
        ctx.step()
        if ok:
            same(ctx, kk, alg, denote(alg, R), den)
            ctx.check(isinstance(R, Mv) and R.Ga is A.Ga, kk + '/ga', 'another algebra')
    for nm, (F, one_) in EXACT.items():
        if names is not None and nm not in names or one_ is None:
            continue
        if singular and 'b' in nm and 'subs' in nm:
            pass
        kk = key + '/' + nm
        ok, R = ctx.guard(kk, F, A)
        ctx.step()
        if not ok:
            continue
        want = {m: one_(e) for m, e in cs.items()}
        if nm.startswith(('diff', 'pdiff')):
            # derivatives are linear, the form of the result is free
            w = denote(alg, sum((e * s for s, e in want.items()), S.Zero))
            same(ctx, kk, alg, denote(alg, R), w)
        elif cs:
            same(ctx, kk, alg, coefs(alg, R), {m: e for m, e in want.items()})
        else:
            same(ctx, kk, alg, coefs(alg, R), {S.One: one_(S.Zero)} if nm.startswith('simplify') or nm == 'func(square)' else {})
    # exactly once per coefficient, in order of the given modes
    if cs:
        for lab, mk_ in (('func', lambda r: A.func(r)), ('simplify', lambda r: A.simplify(r)), ('simplify list', lambda r: A.simplify([r]))):
            rec = Recorder(lambda e: e)
            ok, R = ctx.guard(key + '/calls ' + lab, mk_, rec)
            ctx.step()
            if ok:
                got = sorted(map(str, rec.calls))
                ctx.check(len(rec.calls) == len(cs) and got == sorted(str(e) for e in cs.values())
                          or all(zero(u - v) for u, v in zip(sorted(rec.calls, key=str), sorted(cs.values(), key=str))) and len(rec.calls) == len(cs),
                          key + '/calls ' + lab, lambda: 'called with %s, the coefficients are %s' % (rec.calls, cs))
    ctx.check(A.obj == obj0 and A.is_blade_rep == blade0, key + '/operand', 'the operand changed')
    ctx.state((key, str(sorted((str(m), str(e)) for m, e in cs.items()))))
    ctx.trace()


def build(alg, items, base=False):
    """Multivector with the given (blade symbol, coefficient) items."""
    A = alg.ga.mv(sum((e * s for s, e in items), S.Zero))
    return A


def kinds_pairs(ctx, name, base, sl, coords=False, names=None):
    alg = alg_of(name, coords)
    ga = alg.ga
    syms = list((ga.bases if base else ga.blades).flat)
    pos = list(itertools.combinations(range(len(syms)), 2))
    ks = list(KINDS)
    for t, ((i, j), (k1, k2)) in enumerate(itertools.product(pos, itertools.product(ks, repeat=2))):
        if t % sl[1] != sl[0]:
            continue
        key = '%s/%s%s:%s,%s:%s' % (name, 'base ' if base else '', syms[i], k1, syms[j], k2)
        ok, A = ctx.guard(key, build, alg, [(syms[i], KINDS[k1]), (syms[j], KINDS[k2])])
        if ok:
            one(ctx, key, alg, A, names)
    ctx.sample('%s base=%s: pairs of coefficient kinds, slice %s' % (name, base, sl))


def supports(ctx, name, base, sl=(0, 1), coords=False):
    alg = alg_of(name, coords)
    ga = alg.ga
    syms = list((ga.bases if base else ga.blades).flat)
    ks = list(KINDS.values())
    for t, mask in enumerate(itertools.product((0, 1), repeat=len(syms))):
        if t % sl[1] != sl[0]:
            continue
        items = [(s, ks[(3 * i + t) % len(ks)]) for i, (s, m) in enumerate(zip(syms, mask)) if m]
        key = '%s/%ssupport %s' % (name, 'base ' if base else '', ''.join(map(str, mask)))
        ok, A = ctx.guard(key, build, alg, items)
        if ok:
            one(ctx, key, alg, A)
    # unexpanded sums, products of sums and repeated blades
    e = list(syms)
    raw = [(a + b) * (e[1] + c * e[-1]), a * e[1] + b * e[1] + c * e[1], (a + b) ** 2 * (e[1] - e[-1]) + a * e[-1], sp.Mul(a, sp.Add(e[1], e[-1], evaluate=False), evaluate=False),
           (x + 1) * (y * (e[1] + 2) + e[-1] * (x - 1)), a * (e[1] + e[-1]) - a * e[1],
           sum(((a + i) * s for i, s in enumerate(e)), S.Zero) + sum(((b - i) * s for i, s in enumerate(e)), S.Zero)]
    for i, r in enumerate(raw):
        key = '%s/%sraw %d' % (name, 'base ' if base else '', i)
        ok, A = ctx.guard(key, ga.mv, r)
        if ok:
            one(ctx, key, alg, A)
    ctx.sample('%s base=%s: all supports' % (name, base))


def compose(ctx, name, depth, first):
    """Compositions of value-preserving steps, changes of form included."""
    alg = alg_of(name)
    ga = alg.ga
    steps = {n_: PRESERVING[n_] for n_ in CHEAP}
    if not ga.is_ortho:
        steps['base_rep'] = lambda A: A.base_rep()
        steps['blade_rep'] = lambda A: A.blade_rep()
    steps['+0'] = lambda A: A + 0
    ks = list(KINDS.values())
    bl = list(ga.blades.flat)
    starts = [[(bl[1], KINDS['square']), (bl[-1], KINDS['ratio'])], [(bl[0], KINDS['trig1']), (bl[-1], KINDS['diffsq'])],
              [(s, ks[(5 * i + 4) % len(ks)]) for i, s in enumerate(bl)], []]
    names = list(steps)
    for si, items in enumerate(starts):
        A0 = build(alg, items)
        den = denote(alg, A0)
        seen = {}

        def go(A, path):
            if len(path) == depth:
                return
            for nm in names:
                if not path and nm != names[first % len(names)]:
                    continue
                key = '%s/start%d/%s' % (name, si, '.'.join(path + [nm]))
                ok, R = ctx.guard(key, steps[nm], A)
                ctx.step()
                if not ok:
                    continue
                st = (R.obj, R.is_blade_rep)
                if st not in seen:
                    seen[st] = same(ctx, key, alg, denote(alg, R), den)
                    ctx.state((name, si, str(st)))
                ctx.check(seen[st], key, 'value changed')
                go(R, path + [nm])
        go(A0, [])
        ctx.trace()
    ctx.sample('%s: compositions of %s to depth %d' % (name, names, depth))


def coordinates(ctx, name):
    """diff in an algebra with coordinates: constant basis, and other symbols than coordinates."""
    alg = alg_of(name, True)
    ga = alg.ga
    bl = list(ga.blades.flat)
    ks = list(KINDS.items())
    for (n1, e1), (n2, e2) in itertools.product(ks, repeat=2):
        for base in (False, True):
            if base and ga.is_ortho:
                continue
            src = list(ga.bases.flat) if base else bl
            A = build(alg, [(src[1], e1), (src[-1], e2)])
            for v in (x, y, z, a, k):
                key = '%s/%sdiff(%s) %s,%s' % (name, 'base ' if base else '', v, n1, n2)
                for lab, F in (('diff', lambda: A.diff(v)), ('pdiff', lambda: A.pdiff(v))):
                    ok, R = ctx.guard(key + lab, F)
                    ctx.step()
                    if ok:
                        w = denote(alg, sp.diff(e1, v) * src[1] + sp.diff(e2, v) * src[-1])
                        same(ctx, key + lab, alg, denote(alg, R), w)
            ctx.trace()
            ctx.state((name, n1, n2, base))
    F = ga.mv('F', 'mv', f=True)
    for v, w in itertools.product((x, y), repeat=2):
        ctx.step()
        R = F.diff(v).diff(w)
        want = {s: sp.diff(e, v, w) for s, e in coefs(alg, F).items()}
        same(ctx, '%s/second %s%s' % (name, v, w), alg, coefs(alg, R), want)


def pk(q):
    """Hashable form of a partial derivative operator."""
    return frozenset(q.pdiffs.items())


def operators(ctx, name, sl=(0, 1)):
    """simplify/TSimplify/consolidation of Sdop and Dop act on the coefficients alone."""
    alg = alg_of(name, True)
    ga = alg.ga
    bl = list(ga.blades.flat)
    ps = [Pdop({}), Pdop(x), Pdop({x: 1, y: 1}), Pdop({y: 2})]
    F = f(x, y) * g(x)
    ks = dict(KINDS, **{'python int': 3})
    for t_, ((n1, e1), (n2, e2)) in enumerate(itertools.product(ks.items(), repeat=2)):
        if t_ % sl[1] != sl[0]:
            continue
        for i, j in itertools.combinations(range(len(ps)), 2):
            if (i + j + len(n1) + len(n2)) % 3:
                continue
            D = Sdop([(e1, ps[i]), (e2, ps[j])])
            key = '%s/Sdop %s,%s @%d%d' % (name, n1, n2, i, j)
            for lab, G, fn in (('simplify', lambda: D.simplify(), None), ('simplify(expand)', lambda: D.simplify(sp.expand), None), ('simplify list', lambda: D.simplify([sp.factor, sp.expand]), None),
                               ('TSimplify', lambda: D.TSimplify(), None), ('consolidate', lambda: Sdop.consolidate_coefs(D), None), ('square', lambda: D.simplify(lambda e: e ** 2), lambda e: e ** 2),
                               ('seq', lambda: D.simplify([lambda e: e + 1, lambda e: e ** 2]), lambda e: (e + 1) ** 2)):
                ok, R = ctx.guard(key + lab, G)
                ctx.step()
                if ok:
                    want = {}
                    for e, q in ((e1, ps[i]), (e2, ps[j])):
                        want[pk(q)] = want.get(pk(q), S.Zero) + (fn(e) if fn else e)
                    got = {}
                    for e, q in R.terms:
                        got[pk(q)] = got.get(pk(q), S.Zero) + e
                    same(ctx, key + lab, alg, got, want)
            ctx.state((key,))
    for t_, ((n1, e1), (n2, e2)) in enumerate(itertools.product(ks.items(), repeat=2)):
        if t_ % sl[1] != sl[0]:
            continue
        A, B = ga.mv(e1 * bl[1] + e2), ga.mv(e2 * bl[-1] + e1 * bl[-2])
        for cmp_ in (False, True):
            D = Dop([A, B], [ps[1], ps[2]], ga=ga, cmpflg=cmp_)
            key = '%s/Dop %s,%s,%s' % (name, n1, n2, cmp_)
            for lab, G in (('simplify', lambda: D.simplify()), ('simplify(expand)', lambda: D.simplify(sp.expand)), ('simplify modes', lambda: D.simplify(modes=[sp.factor, sp.together])),
                           ('TSimplify', lambda: D.TSimplify()), ('consolidate', lambda: D.consolidate_coefs())):
                if lab in ('simplify', 'TSimplify') and (len(n1) + len(n2)) % 4:
                    continue
                ok, R = ctx.guard(key + lab, G)
                ctx.step()
                if ok:
                    ctx.check(R.cmpflg == cmp_ and R.Ga is ga, key + lab, 'cmpflg or algebra changed')
                    got = {}
                    for m, q in R.terms:
                        for s, e in denote(alg, m).items():
                            got[s, pk(q)] = got.get((s, pk(q)), S.Zero) + e
                    want = {}
                    for m, q in ((A, ps[1]), (B, ps[2])):
                        for s, e in denote(alg, m).items():
                            want[s, pk(q)] = want.get((s, pk(q)), S.Zero) + e
                    same(ctx, key + lab, alg, got, want)
            ctx.state((key,))
    # repeated operators: consolidation adds coefficients, and drops those that cancel
    for n1, n2 in itertools.product(ks, repeat=2):
        e1, e2 = ks[n1], ks[n2]
        terms = [(e1, ps[1]), (e2, ps[1]), (-e1, ps[1]), (e2, ps[2]), (S.Zero, ps[3])]
        ok, R = ctx.guard('consolidate %s,%s' % (n1, n2), lambda: Sdop.consolidate_coefs(Sdop(terms)))
        ctx.step()
        if ok:
            qs = [pk(q) for e, q in R.terms]
            ctx.check(len(set(qs)) == len(qs), 'consolidate %s,%s' % (n1, n2), 'repeated operator %s' % (R.terms,))
            same(ctx, 'consolidate %s,%s' % (n1, n2), alg, {pk(q): e for e, q in R.terms}, {pk(ps[1]): e2, pk(ps[2]): e2})
            ok, L = ctx.guard('consolidate list %s,%s' % (n1, n2), lambda: Sdop.consolidate_coefs(terms))
            if ok:
                ctx.check(list(map(str, L)) == list(map(str, R.terms)), 'consolidate list %s,%s' % (n1, n2), 'list and operator differ')
    ctx.trace()


def helpers(ctx, name):
    """linear_expand, collect and Simp.apply on expressions."""
    alg = alg_of(name)
    ga = alg.ga
    syms = list(ga.blades.flat) + ([] if ga.is_ortho else list(ga.bases.flat)[ga.n + 1:])
    ks = list(KINDS.values())
    for mask in itertools.product((0, 1), repeat=len(syms)):
        if sum(mask) > 4:
            continue
        items = [(s, ks[(7 * i + sum(mask)) % len(ks)]) for i, (s, m) in enumerate(zip(syms, mask)) if m]
        for form in (0, 1, 2):
            e = sum((cf * s for s, cf in items), S.Zero)
            if form == 1:
                e = (a + 1) * e
            if form == 2:
                e = e + a * sum((s for s, cf in items), S.Zero)
            key = '%s/%s/form%d' % (name, ''.join(map(str, mask)), form)
            want = {s: cf for s, cf in alg.terms(e).items()}
            ok, r = ctx.guard(key + '/linear_expand', metric.linear_expand, sp.sympify(e))
            ctx.step()
            if ok:
                cf, bs = r
                ctx.check(len(cf) == len(bs) == len(set(bs)) and all(q.is_commutative for q in cf), key + '/linear_expand', lambda: 'bases %s' % (bs,))
                same(ctx, key + '/linear_expand', alg, dict(zip(bs, cf)), want)
                ctx.check(list(metric.linear_expand_terms(sp.sympify(e))) == list(zip(cf, bs)), key + '/terms', 'terms differ')
            for nc in ([], syms[1:2], syms[1:], syms[::-1], list(ga.basis)):
                ok, r = ctx.guard(key + '/collect', metric.collect, sp.sympify(e), nc)
                ctx.step()
                if ok:
                    same(ctx, key + '/collect', alg, alg.terms(r), want)
            for mode in ([sp.expand], [sp.factor, sp.together], sp.expand):
                Simp.profile(mode)
                try:
                    ok, r = ctx.guard(key + '/Simp', Simp.apply, sp.sympify(e))
                    ctx.step()
                    if ok:
                        same(ctx, key + '/Simp', alg, alg.terms(r), want)
                finally:
                    Simp.profile([sp.simplify])
            ctx.state((key, str(e)))
    for bad in (1, 'a', None, [a], (a,)):
        ctx.step()
        ctx.raises('linear_expand(%r)' % (bad,), TypeError, lambda: metric.linear_expand(bad), 'not an expression')
    fs = [lambda e: e + 1, lambda e: e * 2, lambda e: e ** 2]
    for n in range(4):
        for idx in itertools.product(range(3), repeat=n):
            seq = [fs[i] for i in idx]
            w = a
            for h in seq:
                w = h(w)
            for s in (seq, tuple(seq)) + ((seq[0],) if n == 1 else ()):
                ctx.step()
                ok, r = ctx.guard('apply_function_list %s' % (idx,), metric.apply_function_list, s, a)
                if ok:
                    ctx.check(zero(r - w), 'apply_function_list %s' % (idx,), lambda: '%s want %s' % (r, w))
    ctx.trace()


MODES = {
    'simplify': [sp.simplify], 'trigsimp': [sp.trigsimp], 'expand': [sp.expand], 'factor,expand': [sp.factor, sp.expand], 'identity': [lambda e: e],
    'none': [], 'function': sp.trigsimp, 'tuple': (sp.together, sp.cancel),
}


def profiles(ctx, sl):
    """The session's simplification profile never changes a value: algebras, gradients and printed text."""
    from vf.checks.c15 import forked

    def scenario(seq):
        from vf import reader
        out = []
        th, r = symbols('theta r', real=True)
        rp = Symbol('r', positive=True)
        keep = []
        for m in seq:
            Simp.profile(MODES[m])
            if Simp.modes is not MODES[m]:
                out.append('profile not set')
            ga = Ga('e*r|t', g=[1, rp ** 2], coords=(rp, th), norm=True)
            keep.append(ga)
            A = ga.mv(rp * sp.sin(th) * ga.basis[0] + rp ** 2 * sp.cos(th) * ga.basis[1])
            keep.append(A)
            # gradient of the polar field, by hand: div + curl
            w = {S.One: (1 / rp) * (sp.diff(rp * rp * sp.sin(th), rp) + sp.diff(rp ** 2 * sp.cos(th), th)),
                 ga.blades[2][0]: (1 / rp) * (sp.diff(rp * rp ** 2 * sp.cos(th), rp) - sp.diff(rp * sp.sin(th), th))}
            for h in keep:
                if isinstance(h, Mv):
                    G = h.Ga.grad * h
                    t = Alg(h.Ga, h.Ga.g.tolist()).terms(G.obj)
                    for s in set(t) | set(w):
                        if not zero(t.get(s, 0) - w.get(s, 0)):
                            out.append('gradient under %s: coefficient of %s is %s want %s' % (m, s, t.get(s), w.get(s)))
                    for T in (str(h), str(G)):
                        names = {str(q): q for q in (rp, th)}
                        loc = dict(names, e_r=Symbol('e_r', commutative=False), e_t=Symbol('e_t', commutative=False))
                        # text of the multivector: blades as products of the two vectors
                        e = sp.sympify(T.replace('e_r^e_t', 'E_rt'), locals=dict(loc, E_rt=Symbol('E_rt', commutative=False)))
                        src = h if T == str(h) else G
                        back = {}
                        for s, cf in Alg(h.Ga, h.Ga.g.tolist()).terms(src.obj).items():
                            nm = {'1': S.One, 'e_r': loc['e_r'], 'e_t': loc['e_t'], 'e_r^e_t': Symbol('E_rt', commutative=False)}[str(s)]
                            back[nm] = cf
                        if not zero(sp.expand(e - sum((cf * nm for nm, cf in back.items()), S.Zero))):
                            out.append('text under %s: %s is not %s' % (m, T, src.obj))
                    for v in (Simp.applymv(h), h.func(sp.expand), h.simplify()):
                        if not zero(sp.expand(v.obj - h.obj)) and not (v - h).simplify().obj == 0:
                            out.append('value under %s: %s' % (m, v.obj))
        return out
    for t, seq in enumerate(itertools.product(MODES, repeat=2)):
        if t % sl[1] != sl[0]:
            continue
        ok, res = ctx.guard('profiles %s' % (seq,), forked, scenario, seq)
        ctx.step(2)
        ctx.trace()
        ctx.state(seq)
        if ok:
            ctx.check(res == [], 'profiles %s' % (seq,), lambda: '; '.join(res)[:500])
    ctx.sample('profile sequences, slice %s' % (sl,))


def bounds_args(ctx):
    """Other ways to call: keyword and positional forms agree; bad arguments are refused."""
    alg = alg_of('E3')
    A = build(alg, [(alg.ga.blades.flat[1], KINDS['square']), (alg.ga.blades.flat[-1], KINDS['trig1'])])
    ok, R = ctx.guard('collect(deep=False)', lambda: A.collect(deep=False))
    if ok:
        same(ctx, 'collect(deep=False)', alg, denote(alg, R), denote(alg, A))
    ok, R = ctx.guard('collect(deep=True)', lambda: A.collect(deep=True))
    if ok:
        same(ctx, 'collect(deep=True)', alg, denote(alg, R), denote(alg, A))
    for bad in (3, 'expand', None):
        for lab, F in (('func', lambda: A.func(bad)), ('simplify', lambda: A.simplify(bad)), ('simplify list', lambda: A.simplify([sp.expand, bad]))):
            ctx.step()
            ctx.raises('%s(%r)' % (lab, bad), Exception, F, 'not a function')
    for bad in ((), (a,), (a, b, c), (5,)):
        ctx.step()
        ctx.raises('subs%s' % (bad,), Exception, lambda: A.subs(*bad), 'malformed substitution')

    def boom(e):
        raise ZeroDivisionError('boom')
    for lab, F in (('func', lambda: A.func(boom)), ('simplify', lambda: A.simplify(boom))):
        before = A.obj
        ctx.raises('%s raises' % lab, ZeroDivisionError, F, 'error of the function given')
        ctx.check(A.obj == before, lab + ' raises', 'operand changed')
    ctx.state('args')
    ctx.trace()


def jobs(tier):
    js = []

    def add(fn, **kw):
        js.append(dict(fn=fn, kw=kw))
    T = tier == 'thorough'
    parts = 16
    few = [n for n in PRESERVING if n in CHEAP or n in ('simplify()',)] + ['func(square)', 'subs(a,b)', 'subs swap', 'subs({a:2,b:5})', 'diff(x)', 'pdiff(y)', 'simplify([neg,square])']
    for nm, base in (('E2', False), ('O2', False), ('O2', True)):
        for i in range(parts):
            add('kinds_pairs', name=nm, base=base, sl=[i, parts if T else parts * 4], names=None if T else few, coords=(i % 2 == 1))
    for nm, base in (('E1', False), ('E2', False), ('M2', False), ('O2', False), ('O2', True), ('SYM2', False), ('SYM2', True)):
        add('supports', name=nm, base=base)
    for nm, base in (('E3', False), ('PGA2', False), ('O3', False), ('O3', True)):
        n_ = 8
        for i in range(n_):
            add('supports', name=nm, base=base, sl=[i, n_ if T or nm in ('E3', 'O3') and i == -1 else n_ * 3], coords=(i % 2 == 0))
    for nm in ('E2', 'O2'):
        for i in range(11):
            add('compose', name=nm, depth=4 if T else 3, first=i)
    for nm in ('E2', 'O2', 'M2'):
        add('coordinates', name=nm)
        for i in range(4):
            add('operators', name=nm, sl=[i, 4 if T else 12])
        add('helpers', name=nm)
    for i in range(8):
        add('profiles', sl=[i, 8])
    add('bounds_args')
    return js
