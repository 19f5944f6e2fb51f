"""Operand shapes and product sweeps shared by several checks."""
import itertools
import sympy as sp
from fractions import Fraction
from galgebra.mv import Mv
from vf.bridge import Alg, mk, with_syms
from vf.refga import popcount, bits, QDom, PolyDom, RefGA
from vf import configs

OPS = {
    '*': lambda A, B: A * B, '^': lambda A, B: A ^ B, '|': lambda A, B: A | B,
    '<': lambda A, B: A < B, '>': lambda A, B: A > B,
    '<<': lambda A, B: A << B, '>>': lambda A, B: A >> B,
    '+': lambda A, B: A + B, '-': lambda A, B: A - B,
    'sp': lambda A, B: A.sp(B),
}


def chunks(xs, n):
    xs = list(xs)
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def mstr(g):
    return ';'.join(','.join(str(e) for e in row) for row in g)


def vname(m):
    return 'e' + ''.join(str(i + 1) for i in bits(m)) if m else '1'


def shapes(alg, full=True):
    """Named reference operands: every structural kind the code can dispatch on."""
    n, one = alg.n, alg.dom.one
    N = 1 << n
    out = {'0': {}, '1': {0: one}, '3s': {0: 3 * one}}
    for m in alg.ref.masks[1:]:
        if popcount(m) == 1 and m not in (1, 1 << (n - 1)):
            continue
        out[vname(m)] = {m: one}
    gens = alg.ref.masks

    def combo(sel, seed):
        return {m: alg.dom.conv(Fraction(((i * seed) % 5) + 1, 1 if i % 2 else 2) * (-1 if (i + seed) % 3 == 0 else 1))
                for i, m in enumerate(sel)}
    out['vec'] = combo([m for m in gens if popcount(m) == 1], 2)
    out['vec2'] = combo([m for m in gens if popcount(m) == 1], 3)
    if n >= 2:
        out['biv'] = combo([m for m in gens if popcount(m) == 2], 3)
        out['even'] = combo([m for m in gens if popcount(m) % 2 == 0], 2)
        out['sv'] = combo([0, 1], 3)
    if n >= 3:
        out['tri'] = combo([m for m in gens if popcount(m) == 3], 2)
        out['odd'] = combo([m for m in gens if popcount(m) % 2 == 1], 3)
    out['full'] = combo(gens, 2)
    if not full:
        keep = ['0', '1', vname(1), 'vec', 'vec2', 'biv', 'even', 'odd', 'full', vname(N - 1)]
        out = {k: out[k] for k in keep if k in out}
    return out


def check_product(ctx, alg, o, A, B, rA, rB, label):
    key = '%s:%s' % (o, label)
    ok, res = ctx.guard(key, OPS[o], A, B)
    ctx.step()
    ctx.trace()
    if not ok:
        return None
    want = alg.ref.op(o, rA, rB)
    got = alg.ref_of(res)
    if got != want and not alg.ref.eq(got, want):
        ctx.fail(key, '%s on operands A=%s, B=%s: got %s want %s' % (label, A.obj if isinstance(A, Mv) else A, B.obj if isinstance(B, Mv) else B, alg.ref.show(got), alg.ref.show(want)))
        return None
    ctx.state((label.split('/')[0], alg.ref.key(got)))
    ctx.outcome(alg.ref.key(got))
    return res


def sweep_blades(ctx, metrics, ops, n, left=None):
    """Every ordered pair of basis blades, every operator, every metric in the chunk."""
    for g in metrics:
        gs = [[configs.S(e) for e in row] for row in g]
        ga = mk(configs.basis(n), g=gs)
        alg = Alg(ga, gs)
        ctx.state(('metric', mstr(g)))
        blades = [(m, ga.mv(alg.mask2blade[m])) for m in alg.ref.masks]
        for ma, A in blades:
            if left and ma not in left:
                continue
            for mb, B in blades:
                for o in ops:
                    check_product(ctx, alg, o, A, B, {ma: alg.dom.one}, {mb: alg.dom.one},
                                  'g=%s/%s %s %s' % (mstr(g), vname(ma), o, vname(mb)))
        ctx.sample('g=%s: %d blade pairs x %s' % (mstr(g), len(blades) ** 2, ''.join(ops)))


def sweep_shapes(ctx, name, ops, kw=None, full=True):
    """Every ordered pair of operand shapes, every operator."""
    ga = configs.algebra(name, **(kw or {}))
    alg = Alg(ga, configs.metric(name))
    sh = [(s, R, alg.mv(R)) for s, R in shapes(alg, full).items()]
    for sa, ra, A in sh:
        for sb, rb, B in sh:
            for o in ops:
                check_product(ctx, alg, o, A, B, ra, rb, '%s/%s %s %s' % (name, sa, o, sb))
    ctx.sample('%s: shapes %s' % (name, [s for s, _, _ in sh]))


def generic(alg, prefix, masks=None):
    """A multivector with one independent symbol per blade, and its reference twin algebra."""
    masks = masks if masks is not None else alg.ref.masks
    return {m: sp.Symbol('%s_%d' % (prefix, m), real=True) for m in masks}


def sweep_generic(ctx, name, ops):
    """Products of two completely generic multivectors: polynomial identity in all coefficients."""
    ga = configs.algebra(name)
    base = Alg(ga, configs.metric(name))
    sa, sb = generic(base, 'p'), generic(base, 'q')
    alg = with_syms(base, list(sa.values()) + list(sb.values()))
    A = ga.mv(sum(s * base.mask2blade[m] for m, s in sa.items()))
    B = ga.mv(sum(s * base.mask2blade[m] for m, s in sb.items()))
    rA = {m: alg.dom.conv(s) for m, s in sa.items()}
    rB = {m: alg.dom.conv(s) for m, s in sb.items()}
    for o in ops:
        check_product(ctx, alg, o, A, B, rA, rB, '%s/generic %s generic' % (name, o))
    ctx.sample('%s: generic x generic, %d symbols' % (name, len(sa) * 2))


def sweep_words(ctx, name, depth, ops, gens=None):
    """Breadth-first search: states are multivectors, transitions multiply the real
    object on the left or right by a generator; every state is compared."""
    ga = configs.algebra(name)
    alg = Alg(ga, configs.metric(name))
    n, one = alg.n, alg.dom.one
    gl = [('e%d' % (i + 1), {1 << i: one}) for i in range(n)]
    gl.append(('1+e1', {0: one, 1: one}))
    if n >= 2:
        gl.append(('e1-2e2', {1: one, 2: -2 * one}))
        gl.append(('e12+e2', {3: one, 2: one}))
    gl = [(s, r, alg.mv(r)) for s, r in gl]
    start = {0: one}
    frontier = [('1', start, alg.mv(start))]
    seen = {alg.ref.key(start)}
    for lev in range(depth):
        nxt = []
        for w, r, M in frontier:
            for s, gr, G in gl:
                for o in ops:
                    for side in 'LR':
                        lab = '%s/%s' % (name, '(%s)%s%s' % (w, o, s) if side == 'R' else '%s%s(%s)' % (s, o, w))
                        if side == 'R':
                            res = check_product(ctx, alg, o, M, G, r, gr, lab)
                        else:
                            res = check_product(ctx, alg, o, G, M, gr, r, lab)
                        if res is None:
                            continue
                        rr = alg.ref.op(o, r, gr) if side == 'R' else alg.ref.op(o, gr, r)
                        k = alg.ref.key(rr)
                        if k not in seen:
                            seen.add(k)
                            nxt.append((lab.split('/')[1], rr, res))
        frontier = nxt
        if not frontier:
            break
    ctx.sample('%s: words to depth %d: %d distinct values, e.g. %s' % (name, depth, len(seen), frontier[-1][0] if frontier else 'closed'))


COEFS = ['2', '-1/2', 'sqrt(2)', 'a', '1/a', 'sin(x)', 'F(x)', 'a+b', '(a+b)**2', 'a*(b-a)', 'I_', '3/2.0', 'exp(-x)', 'Abs(a)']


def coef(s):
    if s == 'I_':
        return sp.sqrt(3) * sp.pi
    if s == '3/2.0':
        return sp.Rational(3, 2)
    return sp.sympify(s, locals=dict(configs.LOCALS, F=sp.Function('F')))


def sweep_coefs(ctx, name, ops, coefs=None):
    """Operand pairs whose coefficients run over every kind of sympy expression."""
    from vf.refga import ExprDom
    ga = configs.algebra(name)
    base = Alg(ga, configs.metric(name))
    alg = Alg(ga, configs.metric(name), ExprDom())
    N = 1 << alg.n
    coefs = coefs or COEFS
    sel1 = [{1: 0}, {1: 0, N - 1: 1}, {0: 1, 1: 0}]
    sel2 = [{N - 1: 0}, {1: 1, 2: 0} if alg.n > 1 else {1: 0}, {0: 0, N - 1: 1}]
    for c1 in coefs:
        for c2 in coefs:
            cc = [coef(c1), coef(c2)]
            for s1 in sel1:
                for s2 in sel2:
                    rA = {m: cc[i] for m, i in s1.items()}
                    rB = {m: cc[1 - i] for m, i in s2.items()}
                    # unexpanded on purpose: the user may hand in any expression
                    A = ga.mv(sp.Add(*[c * base.mask2blade[m] for m, c in rA.items()]))
                    B = ga.mv(sp.Add(*[c * base.mask2blade[m] for m, c in rB.items()]))
                    for o in ops:
                        lab = '%s/[%s,%s] %s %s %s' % (name, c1, c2, sorted(s1), o, sorted(s2))
                        ok, res = ctx.guard('%s:%s' % (o, lab), OPS[o], A, B)
                        ctx.step()
                        ctx.trace()
                        if ok:
                            got, want = alg.ref_of(res), alg.ref.op(o, rA, rB)
                            d = alg.ref.sub(got, want)
                            ctx.check(not d, '%s:%s' % (o, lab), lambda: 'A=%s B=%s got %s want %s' % (A.obj, B.obj, alg.ref.show(got), alg.ref.show(want)))
                            ctx.state((lab,))
                            ctx.outcome(str(sorted(got)))


def sweep_scalars(ctx, name, ops):
    """Operators between a multivector and a plain Python or sympy scalar, on either side."""
    from vf.refga import ExprDom
    ga = configs.algebra(name)
    alg = Alg(ga, configs.metric(name), ExprDom())
    base = Alg(ga, configs.metric(name))
    scal = {'0': 0, '1': 1, '-3': -3, 'S(0)': sp.S(0), 'S(5)': sp.S(5), '1/2': sp.Rational(1, 2), 'a': configs.a, 'a+1': configs.a + 1,
            'sin(x)': sp.sin(configs.x), 'sqrt2': sp.sqrt(2), 'x/a': configs.x / configs.a}
    for sn, s in scal.items():
        rs = {0: sp.sympify(s)} if s != 0 else {}
        for shn, R in shapes(base).items():
            A = base.mv(R)
            rA = {m: alg.dom.conv(base.dom.expr(c)) for m, c in R.items()}
            for o in ops:
                for side in 'RL':
                    if side == 'L' and o in ('<', '>') and isinstance(s, sp.Basic):
                        continue      # sympy expressions own < and > on their left
                    lab = '%s/%s %s %s' % ((name, shn, o, sn) if side == 'R' else (name, sn, o, shn))
                    args = (A, s) if side == 'R' else (s, A)
                    ok, res = ctx.guard('%s:%s' % (o, lab), OPS[o], *args)
                    ctx.step()
                    ctx.trace()
                    if not ok:
                        continue
                    want = alg.ref.op(o, rA, rs) if side == 'R' else alg.ref.op(o, rs, rA)
                    if not isinstance(res, Mv):
                        ctx.fail('%s:%s' % (o, lab), 'result is %s, not a multivector' % type(res).__name__)
                        continue
                    got = alg.ref_of(res)
                    ctx.check(alg.ref.eq(got, want), '%s:%s' % (o, lab), lambda: 'got %s want %s' % (alg.ref.show(got), alg.ref.show(want)))
                    ctx.state((lab, alg.ref.key(got)))
                    ctx.outcome(alg.ref.key(got))


def sweep_powers(ctx, name, emax):
    """Every operand shape to every power up to emax, in both representations."""
    ga = configs.algebra(name)
    alg = Alg(ga, configs.metric(name))
    sh = shapes(alg)
    for g in range(2, alg.n - 1):          # homogeneous but not simple
        ms = [m for m in alg.ref.masks if popcount(m) == g]
        for other in ms[1:]:
            if not (other & ms[0]):
                sh['split%d_%s' % (g, vname(other))] = {ms[0]: alg.dom.one, other: 2 * alg.dom.one}
    for s, R in sh.items():
        forms = [('blade', alg.mv(R))]
        if not ga.is_ortho:
            forms.append(('base', forms[0][1].base_rep()))
        for fn, A in forms:
            want = {0: alg.dom.one}
            for e in range(emax + 1):
                if e:
                    want = alg.ref.op('*', want, R)
                lab = '%s/(%s %s)**%d' % (name, fn, s, e)
                ok, res = ctx.guard(lab, lambda: A ** e)
                ctx.step()
                ctx.trace()
                if ok:
                    got = alg.ref_of(res)
                    ctx.check(isinstance(res, Mv) and alg.ref.eq(got, want), lab, lambda: 'got %s want %s' % (alg.ref.show(got), alg.ref.show(want)))
                    ctx.state((lab, alg.ref.key(got)))
                    ctx.outcome(alg.ref.key(got))
            for bad in (sp.Rational(1, 2), 0.5, sp.Symbol('p'), '2'):
                lab = '%s/%s**%r' % (name, s, bad)
                ctx.raises(lab, (ValueError, TypeError), lambda: A ** bad, 'non-integer power')
                ctx.step()
    ctx.sample('%s: powers 0..%d of %s' % (name, emax, list(sh)))
