"""C11: the algebra of differential operators, against a reference operator calculus (Leibniz rule on term tables)."""
import itertools
import sympy as sp
from galgebra.mv import Mv, Dop
from galgebra.dop import Pdop, Sdop
from galgebra.ga import Ga
from vf import configs
from vf.bridge import Alg, mk
from vf.refga import ExprDom, expr_zero
from vf.refcalc import Calc
from vf.checks.common import OPS, vname
from vf.checks.c10 import SYS, build as build10, close

BOUNDS = ('every operator expression X o Y and (X o Y) o\' Z / X o (Y o\' Z) over a menu of operator, multivector and scalar atoms, both directions, '
          'ops * ^ | < > + - and negation, in flat and flat-curvilinear systems; every atom pair of scalar/partial operators; each result judged term by term and by its action on generic fields')
x, y, r, th = configs.x, configs.y, configs.r, configs.th
BIN = {k: OPS[k] for k in '*^|<>+-'}
p_ = sp.Symbol('p', real=True)


class Lazy(ExprDom):
    """Structural zero test while operators are being composed; results are compared with the full test."""
    is_zero = staticmethod(lambda c: c == 0)


def build(name, norm):
    ga, alg, cal = build10(name, norm)
    alg.dom = alg.ref.dom = cal.ref.dom = Lazy()
    return ga, alg, cal


def differ(ref, A, B):
    return {m: c for m, c in ref.sub(A, B).items() if not expr_zero(c)}


class ROp:
    """Reference operator: {frozenset of (variable, order): coefficient multivector}, acting on the right or the left."""

    def __init__(self, cal, terms, left=False):
        self.cal, self.left = cal, left
        self.t = {}
        for k, c in terms:
            k = frozenset(kv for kv in dict(k).items() if kv[1])
            self.t[k] = cal.ref.add(self.t[k], c) if k in self.t else dict(c)
        self.t = {k: c for k, c in ((k, {m: v for m, v in c.items() if v != 0}) for k, c in self.t.items()) if c}

    def new(self, terms):
        return ROp(self.cal, terms, self.left)

    def part(self, X, k):
        """Partial derivative (multi-index k) of a field or of an operator (product rule)."""
        for s, n in sorted(k, key=str):
            for _ in range(n):
                if isinstance(X, ROp):
                    out = []
                    for a, c in X.t.items():
                        out.append((a, self.cal.d(s, c)))
                        b = dict(a)
                        b[s] = b.get(s, 0) + 1
                        out.append((b.items(), c))
                    X = X.new(out)
                else:
                    X = self.cal.d(s, X)
        return X

    def lift(self, o, A, B):
        """Coefficient products: A or B may be an operator."""
        op = self.cal.ref.op
        if isinstance(A, ROp):
            return A.new([(k, op(o, c, B)) for k, c in A.t.items()])
        if isinstance(B, ROp):
            return B.new([(k, op(o, A, c)) for k, c in B.t.items()])
        return op(o, A, B)


def rmul(o, A, B, cal):
    """A o B where at least one is an ROp (both with the same direction)."""
    D = A if isinstance(A, ROp) else B
    zero = D.new([]) if isinstance(A, ROp) and isinstance(B, ROp) else None

    def acc(parts):
        parts = list(parts)
        if zero is not None or any(isinstance(q, ROp) for q in parts):
            return D.new([(k, c) for q in parts for k, c in q.t.items()])
        return cal.ref.add({}, *parts)
    if isinstance(A, ROp) and not A.left:
        return acc(A.lift(o, c, A.part(B, k)) for k, c in A.t.items())
    if isinstance(B, ROp) and B.left:
        return acc(B.lift(o, B.part(A, k), c) for k, c in B.t.items())
    # the operator does not act on this operand: only its coefficients are multiplied
    return D.lift(o, A, B)


def radd(o, A, B, cal):
    D = A if isinstance(A, ROp) else B
    sgn = 1 if o == '+' else -1

    def t(X, s):
        if isinstance(X, ROp):
            return [(k, cal.ref.scale(s, c)) for k, c in X.t.items()]
        return [((), cal.ref.scale(s, X))]
    return D.new(t(A, 1) + t(B, sgn))


def rop(o, A, B, cal):
    if not isinstance(A, ROp) and not isinstance(B, ROp):
        if o in '+-':
            return cal.ref.add(A, B) if o == '+' else cal.ref.sub(A, B)
        return cal.ref.op(o, A, B)
    return radd(o, A, B, cal) if o in '+-' else rmul(o, A, B, cal)


def terms_of(D, alg):
    """Term table of a real operator; duplicates are reported by the caller."""
    out, dup = {}, False
    for c, pd in D.terms:
        k = frozenset(kv for kv in pd.pdiffs.items() if kv[1])
        v = alg.ref_of(c if isinstance(c, Mv) else sp.sympify(c))
        if k in out:
            dup = True
            out[k] = alg.ref.add(out[k], v)
        else:
            out[k] = v
    return out, dup


def judge(ctx, key, alg, cal, X, W, F, RF):
    """Compare a real result (operator or field) with the reference one, by terms and by action."""
    if not isinstance(W, ROp):
        if ctx.check(isinstance(X, Mv), key, lambda: 'result is %s, not a multivector' % type(X).__name__):
            close(ctx, alg, key, alg.ref_of(X), W)
        return
    if not ctx.check(isinstance(X, Dop), key, lambda: 'result is %s, not a Dop' % type(X).__name__):
        return
    ctx.check(bool(X.cmpflg) == W.left, key, 'direction changed')
    got, dup = terms_of(X, alg)
    ctx.check(not dup, key, lambda: 'a partial derivative occurs in two terms of %r' % (X.terms,))
    for k in set(got) | set(W.t):
        d = differ(alg.ref, got.get(k, {}), W.t.get(k, {}))
        ctx.check(not d, key, lambda: 'coefficient of %s: got %s want %s' % (sorted(k, key=str), alg.ref.show(got.get(k, {})), alg.ref.show(W.t.get(k, {}))))
    ctx.trace()
    act = rmul('*', W, RF, cal) if not W.left else rmul('*', RF, W, cal)
    ok, Y = ctx.guard(key + ' acting', lambda: X * F if not W.left else F * X)
    ctx.step()
    if ok and ctx.check(isinstance(Y, Mv), key, 'action is not a multivector'):
        close(ctx, alg, key + ' acting', alg.ref_of(Y), act)


def menu(name, norm, left):
    """Named atoms: (real object, reference object)."""
    ga, alg, cal = build(name, norm)
    u, v = cal.coords[:2]
    f, g = sp.Function('f')(u, v), sp.Function('g')(u, v)
    e1, e2 = {1: sp.S.One}, {2: sp.S.One}
    D = {}

    def dop(nm, terms):
        D[nm] = (Dop([(alg.mv(c), Pdop(dict(k))) for k, c in terms], ga=ga, cmpflg=left), ROp(cal, [(dict(k).items(), c) for k, c in terms], left))
    D['grad'] = (ga.rgrad if left else ga.grad, ROp(cal, [([(cal.coords[i], 1)], cal.recip[i]) for i in range(cal.n)], left))
    dop('Du', [([(u, 1)], {0: sp.S.One})])
    dop('f e1 Dv', [([(v, 1)], {1: f})])
    dop('uDu+e12', [([(u, 1)], {0: u}), ([], {3: sp.S.One})])
    dop('e2 Duv+(g+e1)Du', [([(u, 1), (v, 1)], e2), ([(u, 1)], {0: g, 1: sp.S.One})])
    dop('e1 Dvv', [([(v, 2)], e1)])
    dop('0', [])
    dop('p e2 Dp', [([(p_, 1)], {2: p_})])
    dop('id', [([], {0: sp.S.One})])
    M = {}
    for nm, R in (('e1', e1), ('f e2+3', {2: f, 0: sp.Integer(3)}), ('g e12', {3: g}), ('0', {}), ('p u', {0: p_ * u})):
        M[nm] = (alg.mv(R), R)
    S = {'2': (2, {0: sp.Integer(2)}), 'f': (f, {0: f}), 'half': (sp.Rational(1, 2), {0: sp.Rational(1, 2)})}
    RF = {0: sp.Function('F0')(u, v), 1: sp.Function('F1')(u, v) * p_ ** 2, 3: sp.Function('F3')(u, v)}
    return ga, alg, cal, D, M, S, alg.mv(RF), RF


def pairs(ctx, name, norm, left, ops):
    """Every X o Y with at least one operator."""
    ga, alg, cal, D, M, S, F, RF = menu(name, norm, left)
    everything = [('D', k, v) for k, v in D.items()] + [('M', k, v) for k, v in M.items()] + [('S', k, v) for k, v in S.items()]
    for (ka, a, (A, rA)), (kb, b, (B, rB)) in itertools.product(everything, repeat=2):
        if 'D' not in (ka, kb):
            continue
        for o in ops:
            if o in '<>' and ka == 'S':
                continue           # python hands `scalar < D` to D > scalar
            key = '%s/norm=%s/%s/(%s)%s(%s)' % (name, norm, 'L' if left else 'R', a, o, b)
            ctx.where = key
            ok, X = ctx.guard(key, BIN[o], A, B)
            ctx.step()
            ctx.state(key)
            if ok:
                judge(ctx, key, alg, cal, X, rop(o, rA, rB, cal), F, RF)
                ctx.outcome(key)
    for k, (A, rA) in D.items():
        key = '%s/norm=%s/%s/%s' % (name, norm, 'L' if left else 'R', k)
        un = {'neg': (lambda: -A, [(q, cal.ref.scale(-1, c)) for q, c in rA.t.items()]),
              '/2': (lambda: A / 2, [(q, cal.ref.scale(sp.Rational(1, 2), c)) for q, c in rA.t.items()]),
              '/f': (lambda: A / cal.coords[0], [(q, cal.ref.scale(1 / cal.coords[0], c)) for q, c in rA.t.items()]),
              'simplify': (A.simplify, None), 'TSimplify': (A.TSimplify, None), 'consolidate': (A.consolidate_coefs, None)}
        for nm, (fn, want) in un.items():
            ok, X = ctx.guard(key + '/' + nm, fn)
            ctx.step()
            if ok:
                judge(ctx, key + '/' + nm, alg, cal, X, rA if want is None else rA.new(want), F, RF)
        ok, cs = ctx.guard(key + '/components', A.components)
        ctx.step()
        if ok:
            tot = rA.new([(q, c) for C in cs for q, c in terms_of(C, alg)[0].items()])
            judge(ctx, key + '/sum of components', alg, cal, sum(cs, Dop([], ga=ga, cmpflg=left)), rA, F, RF)
            for C in cs:
                bl = {m for q, c in terms_of(C, alg)[0].items() for m in c}
                ctx.check(len(bl) <= 1 and C.cmpflg == left, key + '/components', lambda: 'component %s' % C)
        for d, what in ((D['grad'][0], 'an operator'), (M['e1'][0], 'a multivector')):
            ctx.raises(key + '/divide by ' + what, TypeError, lambda: A / d, 'division of an operator by ' + what)
        ctx.check(A.is_scalar() == all(set(c) <= {0} for c in rA.t.values()), key + '/is_scalar', 'is_scalar %s' % A.is_scalar())
        ctx.step(2)
    ctx.sample('%s left=%s: %d atoms' % (name, left, len(everything)))


def triples(ctx, name, norm, left, first):
    """(X o Y) o' Z and X o (Y o' Z) with X fixed; also both groupings of the associative products act alike."""
    ga, alg, cal, D, M, S, F, RF = menu(name, norm, left)
    pool = {k: D[k] for k in ('grad', 'f e1 Dv', 'uDu+e12', 'e1 Dvv')}
    pool.update({'M ' + k: M[k] for k in ('e1', 'f e2+3')})
    A, rA = pool[first]
    ops2 = ['*', '^', '|', '+', '<']
    for (b, (B, rB)), (c, (C, rC)) in itertools.product(pool.items(), repeat=2):
        if not any(isinstance(q, ROp) for q in (rA, rB, rC)):
            continue
        for o1, o2 in itertools.product(ops2, repeat=2):
            key = '%s/norm=%s/%s/%s%s%s%s%s' % (name, norm, 'L' if left else 'R', first, o1, b, o2, c)
            ctx.where = key
            ctx.state(key)
            for nm, f, rf in (('(AB)C', lambda: BIN[o2](BIN[o1](A, B), C), lambda: rop(o2, rop(o1, rA, rB, cal), rC, cal)),
                              ('A(BC)', lambda: BIN[o1](A, BIN[o2](B, C)), lambda: rop(o1, rA, rop(o2, rB, rC, cal), cal))):
                ok, X = ctx.guard(key + nm, f)
                ctx.step(2)
                if ok:
                    judge(ctx, key + nm, alg, cal, X, rf(), F, RF)
                    ctx.outcome(key + nm)
    ctx.sample('%s: %s o Y o Z over %d atoms' % (name, first, len(pool)))


def assoc(ctx, name, norm, left):
    """(D o E) o F = D o (E o F) on the real code for the associative products, and the distributive laws."""
    ga, alg, cal, D, M, S, F, RF = menu(name, norm, left)
    for (a, (A, _)), (b, (B, _)) in itertools.product(D.items(), repeat=2):
        for o in '*^':
            key = '%s/%s/assoc (%s)%s(%s)' % (name, 'L' if left else 'R', a, o, b)
            if left:
                ok, X = ctx.guard(key, lambda: (BIN[o](BIN[o](F, A), B), BIN[o](F, BIN[o](A, B))))
            else:
                ok, X = ctx.guard(key, lambda: (BIN[o](A, BIN[o](B, F)), BIN[o](BIN[o](A, B), F)))
            ctx.step(4)
            ctx.state(key)
            if ok:
                close(ctx, alg, key, alg.ref_of(X[0]), alg.ref_of(X[1]))
        for o in '+-':
            key = '%s/%s/distr (%s)%s(%s)' % (name, 'L' if left else 'R', a, o, b)
            for q in '*^|<>':
                if left:
                    ok, X = ctx.guard(key + q, lambda: (BIN[q](F, BIN[o](A, B)), BIN[o](BIN[q](F, A), BIN[q](F, B))))
                else:
                    ok, X = ctx.guard(key + q, lambda: (BIN[q](BIN[o](A, B), F), BIN[o](BIN[q](A, F), BIN[q](B, F))))
                ctx.step(4)
                if ok:
                    close(ctx, alg, key + q, alg.ref_of(X[0]), alg.ref_of(X[1]))
    ctx.outcome((name, left))
    ctx.sample('%s left=%s' % (name, left))


def equality(ctx, name, norm):
    """Operators built in different ways compare equal exactly when their term tables agree; other kinds are unequal."""
    ga, alg, cal, D, M, S, F, RF = menu(name, norm, False)
    L = menu(name, norm, True)[3]
    u, v = cal.coords[:2]
    pop = []
    for k, (A, rA) in D.items():
        pop += [(k, A, rA), (k + ' reversed', Dop(list(reversed(A.terms)), ga=ga), rA), (k + '+0', A + 0, rA), ('(%s)*id' % k, A * D['id'][0], rA), ('id*(%s)' % k, D['id'][0] * A, rA),
                (k + ' split', Dop([(c / 2, q) for c, q in A.terms] + [(c / 2, q) for c, q in A.terms], ga=ga), rA), ('-(-%s)' % k, -(-A), rA), ('(2%s)/2' % k, (2 * A) / 2, rA),
                (k + ' plus cancelling', Dop(list(A.terms) + [(M['e1'][0], Pdop(v)), (-M['e1'][0], Pdop(v))], ga=ga), rA),
                (k + ' dictionary order', Dop([(c, Pdop(dict(reversed(list(q.pdiffs.items()))))) for c, q in A.terms], ga=ga), rA),
                (k + ' base', Dop([(c.base_rep(), q) for c, q in A.terms], ga=ga), rA),
                (k + ' coefs/pdops', Dop([c for c, _ in A.terms], [q for _, q in A.terms], ga=ga), rA),
                (k + ' + e1 Dv', A + D['f e1 Dv'][0], radd('+', rA, D['f e1 Dv'][1], cal))]
        ex = A.Dop_mv_expand()
        pop.append((k + ' sdop form', Dop([(sd, ga.mv(b)) for sd, b in ex], ga=ga), rA))
    pop.append(('grad via terms', Dop([(e, Pdop(c)) for e, c in zip(ga.mvr(), ga.coords)], ga=ga), D['grad'][1]))
    pop.append(('(u+1)^2 Du', Dop([(ga.mv((u + 1) ** 2), Pdop(u))], ga=ga), ROp(cal, [([(u, 1)], {0: (u + 1) ** 2})])))
    pop.append(('u^2+2u+1 Du', Dop([(ga.mv(u ** 2 + 2 * u + 1), Pdop(u))], ga=ga), ROp(cal, [([(u, 1)], {0: u ** 2 + 2 * u + 1})])))
    for (a, A, rA), (b, B, rB) in itertools.product(pop, repeat=2):
        same = set(rA.t) == set(rB.t) and all(not differ(alg.ref, rA.t[k], rB.t[k]) for k in rA.t)
        key = '%s/norm=%s/%s == %s' % (name, norm, a, b)
        ok, X = ctx.guard(key, lambda: (A == B, A != B))
        ctx.step(2)
        if ok:
            ctx.check(X == (same, not same), key, lambda: '==, != answered %r, tables agree: %s' % (X, same))
        ctx.trace()
    ctx.state((name, norm))
    for k, (A, rA) in D.items():
        for nm, o in (('right', L[k][0]), ('object', object()), ('None', None), ('str', 'x'), ('Sdop', Sdop(u))):
            ok, X = ctx.guard('%s/%s vs %s' % (name, k, nm), lambda: A == o)
            ctx.step()
            if ok and nm != 'right':
                ctx.check(X is False, '%s/%s vs %s' % (name, k, nm), 'equal')
        if k != '0':
            ctx.check((A == L[k][0]) is False, '%s/%s left=right' % (name, k), 'operators of opposite direction compare equal')
    # refusals
    for (a, (A, rA)), (b, (B, rB)) in itertools.product(D.items(), L.items()):
        for o in BIN:
            ctx.raises('%s/mixed (%s)%s(%s)' % (name, a, o, b), ValueError, lambda: BIN[o](A, B), 'operators of opposite direction')
            ctx.raises('%s/mixed (%s)%s(%s) left' % (name, b, o, a), ValueError, lambda: BIN[o](B, A), 'operators of opposite direction')
            ctx.step(2)
    ga2 = menu(name, norm, False)
    for (a, (A, rA)), (b, (B, rB)) in itertools.product(D.items(), ga2[3].items()):
        for o in BIN:
            ctx.raises('%s/two algebras (%s)%s(%s)' % (name, a, o, b), ValueError, lambda: BIN[o](A, B), 'operators of different algebras')
            ctx.step()
        ctx.check(not (A == B), '%s/two algebras %s == %s' % (name, a, b), 'operators of different algebras compare equal')
    for (a, (A, rA)), (b, (B, rB)) in itertools.product(D.items(), ga2[4].items()):
        for o in BIN:
            for args in ((A, B), (B, A)):
                ctx.raises('%s/two algebras %s %s %s' % (name, a, o, b), ValueError, lambda: BIN[o](*args), 'operator and multivector of different algebras')
                ctx.step()
    ctx.outcome((name, norm))
    ctx.sample('%s: %d operators compared pairwise' % (name, len(pop)))


# ------------------------------------------------------------------ scalar operators

def sref(D, vs):
    """Reference table {orders: expression} of a scalar operator, partial operator or scalar."""
    if isinstance(D, Pdop):
        return {tuple(D.pdiffs.get(s, 0) for s in vs): sp.S.One}
    if isinstance(D, Sdop):
        out = {}
        for c, pd in D.terms:
            k = tuple(pd.pdiffs.get(s, 0) for s in vs)
            out[k] = out.get(k, sp.S.Zero) + c
        return out
    return {(0,) * len(vs): sp.sympify(D)}


def scomp(A, B, vs):
    """Leibniz composition of two scalar operator tables."""
    out = {}
    for ka, ca in A.items():
        for kb, cb in B.items():
            for js in itertools.product(*[range(k + 1) for k in ka]):
                w = ca * sp.prod([sp.binomial(k, j) for k, j in zip(ka, js)])
                d = cb
                for s, j in zip(vs, js):
                    d = sp.diff(d, s, j) if j else d
                k = tuple(a - j + b for a, j, b in zip(ka, js, kb))
                out[k] = out.get(k, sp.S.Zero) + w * d
    return out


def sapply(A, e, vs):
    tot = sp.S.Zero
    for k, c in A.items():
        d = e
        for s, j in zip(vs, k):
            d = sp.diff(d, s, j) if j else d
        tot += c * d
    return tot


def satoms():
    f, g = sp.Function('f')(x, y), sp.Function('g')(x, y)
    P = {'D{}': Pdop({}), 'Dx': Pdop(x), 'Dy': Pdop(y), 'Dxxy': Pdop({x: 2, y: 1}), 'Dyx': Pdop({y: 1, x: 1}), 'Dp2': Pdop({p_: 2})}
    S = {'S(x)': Sdop(x), 'f Dx+g': Sdop([(f, Pdop(x)), (g, Pdop({}))]), 'x Dx+y Dy': Sdop([x, y], [Pdop(x), Pdop(y)]), 'S0': Sdop([]), 'pDxy-Dp': Sdop([(p_, Pdop({x: 1, y: 1})), (sp.S.NegativeOne, Pdop(p_))]),
         '3': Sdop([(sp.Integer(3), Pdop({}))]), 'Dxx+Dyy': Sdop([(sp.S.One, Pdop({x: 2})), (sp.S.One, Pdop({y: 2}))]), 'dup': Sdop([(x, Pdop(y)), (sp.S.One, Pdop(y)), (f, Pdop({}))])}
    E = {'0': 0, '2': 2, 'half': sp.Rational(1, 2), 'f': f, 'xy': x * y, 'p': p_}
    return P, S, E


def scalar_ops(ctx, depth, which=None):
    """Every composition of scalar and partial operators to the given depth; sums, differences, action on expressions."""
    P, S, E = satoms()
    vs = (x, y, p_)
    h = sp.Function('h')(x, y, p_)

    def judge_s(key, X, want, kind):
        want = {k: c for k, c in want.items()}
        if not ctx.check(isinstance(X, kind), key, lambda: 'result is a %s' % type(X).__name__):
            return
        got = sref(X, vs)
        for k in set(got) | set(want):
            ctx.check(expr_zero(sp.expand(got.get(k, 0) - want.get(k, 0))), key, lambda: 'coefficient of %s: got %s want %s' % (k, got.get(k, 0), want.get(k, 0)))
        ctx.trace()
        ok, Y = ctx.guard(key + ' acting', lambda: X(h))
        ctx.step()
        if ok:
            ctx.check(expr_zero(sp.expand(Y - sapply(want, h, vs))), key + ' acting', lambda: 'got %s' % Y)
            ctx.trace()
    ops = [('P', k, v) for k, v in P.items()] + [('S', k, v) for k, v in S.items()]
    for ka, a, A in ops:
        if which is not None and a != which:
            continue
        rA = sref(A, vs)
        ctx.state(a)
        for kb, b, B in ops:
            rB = sref(B, vs)
            key = '(%s)*(%s)' % (a, b)
            ctx.state(key)
            for nm, fn in (('*', lambda: A * B), ('call', lambda: A(B))):
                ok, X = ctx.guard(key + nm, fn)
                ctx.step()
                if ok and not (ka == 'P' and kb == 'P'):
                    judge_s(key + nm, X, scomp(rA, rB, vs), Sdop)
                    if nm == '*' and depth > 2:
                        for kc, c, C in ops:
                            ok, Y = ctx.guard('%s*(%s)' % (key, c), lambda: (X * C, A * (B * C)))
                            ctx.step(2)
                            if ok:
                                W = scomp(rA, scomp(rB, sref(C, vs), vs), vs)
                                judge_s('%s*(%s)' % (key, c), Y[0], W, Sdop)
                                judge_s('%s*((%s)*(%s))' % (a, b, c), Y[1], W, Sdop)
                                ok, q = ctx.guard(key + c + '==', lambda: Y[0] == Y[1])
                                ctx.check(not ok or q is True, '(%s)*(%s)*(%s) associative' % (a, b, c), 'the two groupings compare unequal')
                elif ok:
                    judge_s(key + nm, X, scomp(rA, rB, vs), Pdop)
            if ka == kb == 'S':
                for o in '+-':
                    sg = 1 if o == '+' else -1
                    ok, X = ctx.guard('(%s)%s(%s)' % (a, o, b), BIN[o], A, B)
                    ctx.step()
                    if ok:
                        judge_s('(%s)%s(%s)' % (a, o, b), X, {k: rA.get(k, 0) + sg * rB.get(k, 0) for k in set(rA) | set(rB)}, Sdop)
                        ks = [k for k, _ in ((tuple(q.pdiffs.get(s, 0) for s in vs), 1) for _, q in X.terms)]
                        ctx.check(len(ks) == len(set(ks)), '(%s)%s(%s) consolidated' % (a, o, b), 'duplicate derivative in %r' % (X.terms,))
                same = all(expr_zero(sp.expand(rA.get(k, 0) - rB.get(k, 0))) for k in set(rA) | set(rB))
                ctx.check((A == B) is same and (A != B) is (not same), '(%s)==(%s)' % (a, b), 'answered %s' % (A == B))
                ctx.step(2)
        for e, X in E.items():
            rX = sref(X, vs)
            ok, Y = ctx.guard('%s acting on %s' % (a, e), lambda: (A * X, A(X)))
            ctx.step(2)
            if ok:
                for q in Y:
                    ctx.check(expr_zero(sp.expand(q - sapply(rA, sp.sympify(X), vs))), '%s acting on %s' % (a, e), 'got %s' % q)
            ok, Y = ctx.guard('%s*(%s)' % (e, a), lambda: X * A)
            ctx.step()
            if ok:
                judge_s('%s*(%s)' % (e, a), Y, scomp(rX, rA, vs), Sdop)
            if ka == 'S':
                for o in '+-':
                    sg = 1 if o == '+' else -1
                    for nm, fn, want in (('r', lambda: BIN[o](A, X), {k: rA.get(k, 0) + sg * rX.get(k, 0) for k in set(rA) | set(rX)}), ('l', lambda: BIN[o](X, A), {k: rX.get(k, 0) + sg * rA.get(k, 0) for k in set(rA) | set(rX)})):
                        ok, Y = ctx.guard('%s %s %s %s' % (a, o, e, nm), fn)
                        ctx.step()
                        if ok:
                            judge_s('%s %s %s %s' % (a, o, e, nm), Y, want, Sdop)
        if ka == 'S':
            for nm, fn, sg in (('neg', lambda: -A, -1), ('simplify', A.simplify, 1), ('TSimplify', A.TSimplify, 1), ('consolidate', lambda: Sdop.consolidate_coefs(A), 1)):
                ok, Y = ctx.guard('%s %s' % (nm, a), fn)
                ctx.step()
                if ok:
                    judge_s('%s %s' % (nm, a), Y, {k: sg * c for k, c in rA.items()}, Sdop)
        ctx.outcome(a)
    ctx.sample('%d scalar and partial operators, compositions of %d' % (len(ops), depth))


def scalar_on_mv(ctx, name, norm):
    """Scalar and partial operators acting on multivectors and on multivector operators; multivector times scalar operator."""
    ga, alg, cal, D, M, S, F, RF = menu(name, norm, False)
    u, v = cal.coords[:2]
    f = sp.Function('f')(u, v)
    ops = {'Du': Pdop(u), 'Duv': Pdop({u: 1, v: 1}), 'D{}': Pdop({}), 'uDv+f': Sdop([(u, Pdop(v)), (f, Pdop({}))]), 'S0': Sdop([]), 'Dvv-3Dp': Sdop([(sp.S.One, Pdop({v: 2})), (sp.Integer(-3), Pdop(p_))])}

    def rs(A):
        ts = [(1, A)] if isinstance(A, Pdop) else list(A.terms)
        return ROp(cal, [(q.pdiffs.items(), {0: sp.sympify(c)}) for c, q in ts])
    Mx = dict(M, F=(F, RF))
    for a, A in ops.items():
        rA = rs(A)
        for b, (B, rB) in Mx.items():
            key = '%s/norm=%s/%s*(%s)' % (name, norm, a, b)
            ctx.state(key)
            ok, X = ctx.guard(key, lambda: (A * B, A(B)))
            ctx.step(2)
            if ok:
                for q in X:
                    judge(ctx, key, alg, cal, q, rmul('*', rA, rB, cal), F, RF)
            ok, X = ctx.guard('(%s)*%s' % (b, a), lambda: B * A)
            ctx.step()
            if ok and ctx.check(isinstance(X, Sdop), key + ' reversed', 'M*op is a %s' % type(X).__name__):
                ok, Y = ctx.guard('(%s*%s)*F' % (b, a), lambda: X * F)
                if ok:
                    close(ctx, alg, '%s/(%s*%s)*F' % (name, b, a), alg.ref_of(Y), cal.ref.gp(rB, rmul('*', rA, RF, cal)))
        for b, (B, rB) in D.items():
            key = '%s/norm=%s/%s*Dop(%s)' % (name, norm, a, b)
            ctx.state(key)
            ok, X = ctx.guard(key, lambda: A * B)
            ctx.step()
            if ok:
                judge(ctx, key, alg, cal, X, rmul('*', rA, rB, cal), F, RF)
        for o in '^|<>':
            for X in (M['e1'][0], F):
                for args in ((A, X), (X, A)):
                    ctx.raises('%s %s' % (a, o), TypeError, lambda: BIN[o](*args), 'scalar operator with %s' % o)
                    ctx.step()
        ctx.outcome((name, a))
    ctx.sample('%s: %s' % (name, sorted(ops)))


def jobs(tier):
    js = []

    def add(fn, **kw):
        js.append(dict(fn=fn, kw=kw))
    T = tier == 'thorough'
    add('scalar_ops', depth=2)
    P, S, E = satoms()
    for k in list(P) + list(S):
        add('scalar_ops', depth=3, which=k)
    systems = [('flat2', False), ('polar', False), ('polar', True), ('skewc', False)]
    if T:
        systems += [('rind', False), ('rind', True), ('para', True), ('flat3', False), ('cyl', True)]
    for n, nm in systems:
        for left in (False, True):
            for ops in ('*+', '^-', '|', '<>'):
                add('pairs', name=n, norm=nm, left=left, ops=ops)
            if n in ('flat2', 'skewc') or T:
                add('assoc', name=n, norm=nm, left=left)
        add('scalar_on_mv', name=n, norm=nm)
        if not nm:
            add('equality', name=n, norm=nm)
    for n, nm in [('flat2', False)] + ([('polar', True), ('skewc', False), ('polar', False)] if T else []):
        for left in (False, True):
            for k in ('grad', 'f e1 Dv', 'uDu+e12', 'e1 Dvv', 'M e1', 'M f e2+3'):
                add('triples', name=n, norm=nm, left=left, first=k)
    return js
