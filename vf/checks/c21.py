"""C21: every spelling of an operation gives the same value and refuses the same operands.

The spellings of one operation (operator, method, module function, algebra-level
function or table, `Ga.Mul`/`Mv.Mul` with a mode, deprecated alias, the old
`galgebra.deprecated` interface) are run side by side on every operand of a
bounded set, in both representations, and their outcomes compared."""
import itertools
import warnings
import sympy as sp
from sympy import S, symbols, Symbol, Rational, Matrix
import galgebra
from galgebra import ga as gamod, mv as mvmod, lt as ltmod, dop as dopmod, metric as metmod
from galgebra.ga import Ga
from galgebra.mv import Mv, Dop
from galgebra.dop import Sdop, Pdop
from galgebra.lt import Lt, Mlt
from vf.bridge import Alg
from vf import configs
from vf.checks.common import *   # noqa
from vf.checks.c15 import forked
from vf.checks.c20 import zero

BOUNDS = ('operands: all {0,1,-2}^4 coefficient vectors n=2 and all supports n=3, with scalar, symbolic and unexpanded ones, blade and base form; '
          '26 one-operand and 16 two-operand operations; all pairs of basis blades of every product table; every deprecated alias')

a, b, c = symbols('a b c', real=True)
x, y, z = symbols('x y z', real=True)


# ---------------------------------------------------------------- comparing
def denote(alg, A):
    out = {}
    for s, cf in alg.terms(A.obj if isinstance(A, Mv) else A).items():
        if s in alg.blade2mask:
            add = {alg.blade2mask[s]: S.One}
        elif s in alg.base2mask:
            add = {m: alg.dom.expr(d) for m, d in alg.ref.base_word(alg.base2mask[s]).items()}
        else:
            raise ValueError('unknown basis symbol %s' % s)
        for m, d in add.items():
            out[m] = out.get(m, S.Zero) + cf * d
    return out


def outcome(alg, fn):
    """('value', type, denotation) or ('refused',)."""
    try:
        v = fn()
    except Exception as e:
        return ('refused', '%s: %s' % (type(e).__name__, str(e)[:120]))
    e = v.obj if isinstance(v, Mv) else v
    if isinstance(e, sp.Basic) and e.has(sp.zoo, sp.nan, sp.oo):
        return ('value', 'not finite')
    return ('value', v)


def same(alg, u, v):
    if isinstance(u, (list, tuple)) or isinstance(v, (list, tuple)):
        return isinstance(u, (list, tuple)) and isinstance(v, (list, tuple)) and len(u) == len(v) and all(same(alg, p, q) for p, q in zip(u, v))
    if isinstance(u, dict) or isinstance(v, dict):
        return isinstance(u, dict) and isinstance(v, dict) and set(u) == set(v) and all(same(alg, u[k], v[k]) for k in u)
    if isinstance(u, (Dop, Sdop, Pdop, Lt)) or isinstance(v, (Dop, Sdop, Pdop, Lt)):
        return type(u) is type(v) and (u == v if not isinstance(u, Lt) else u.matrix() == v.matrix())
    if isinstance(u, (bool, str, type(None))) or isinstance(v, (bool, str, type(None))) or isinstance(u, sp.MatrixBase):
        return u == v
    du, dv = denote(alg, u), denote(alg, v)
    return all(zero(du.get(m, S.Zero) - dv.get(m, S.Zero)) for m in set(du) | set(dv))


def show(o):
    return o[1] if o[0] == 'refused' else (o[1].obj if isinstance(o[1], Mv) else o[1])


def agree(ctx, key, alg, spellings, kind=None):
    """All spellings (name -> thunk) of one operation on one operand."""
    names = list(spellings)
    outs = [outcome(alg, spellings[n]) for n in names]
    ctx.step(len(names))
    ctx.trace()
    first = outs[0]
    for n, o in zip(names[1:], outs[1:]):
        if o[0] != first[0]:
            ctx.fail(key, '%s: %s, but %s: %s' % (names[0], show(first), n, show(o)))
        elif o[0] == 'value':
            try:
                eq = same(alg, first[1], o[1])
            except ValueError as e:
                eq = False
            if not eq:
                ctx.fail(key, '%s gives %s, but %s gives %s' % (names[0], show(first), n, show(o)))
    if kind and first[0] == 'value':
        for n, o in zip(names, outs):
            if o[0] != 'value':
                continue
            want = kind.get(n) if isinstance(kind, dict) else kind
            if want and o[1] != 'not finite' and not isinstance(o[1], want):
                ctx.fail(key, '%s returns a %s' % (n, type(o[1]).__name__))
    ctx.outcome((first[0], str(show(first)) if first[0] == 'value' else ''))
    return first


def forms(alg, A):
    out = [('blade', A)]
    if not alg.ga.is_ortho:
        out.append(('base', A.base_rep()))
    return out


def operands(alg, dense=True):
    """Named multivectors of an algebra."""
    ga, n = alg.ga, alg.n
    B = [alg.mask2blade[m] for m in alg.ref.masks]
    out = []
    if n == 2 and dense:
        for cs in itertools.product((0, 1, -2), repeat=4):
            out.append((str(cs), ga.mv(sum((cf * bl for cf, bl in zip(cs, B)), S.Zero))))
    else:
        cf = [2, -1, 3, 1, -2, 5, 1, -3] + [1] * 24
        sel = range(1 << len(B)) if (n <= 3 and dense) else [0, 1, 2, 3, 4, 6, 7, 8, 1 << (len(B) - 1), (1 << len(B)) - 1]
        for s in sel:
            out.append(('support %d' % s, ga.mv(sum((cf[i] * bl for i, bl in enumerate(B) if s >> i & 1), S.Zero))))
    out.append(('symbolic', ga.mv(a * B[0] + (a + b) * B[1] + (x * b) * B[-1])))
    out.append(('unexpanded', ga.mv(sp.Mul(a, B[0] + b * B[1]) + (a + 1) * (B[-1] + B[1]))))
    out.append(('vector', ga.mv('v', 'vector')))
    return out


METHODS = ['even', 'odd', 'rev', 'g_invol', 'ccon', 'dual', 'undual', 'qform', 'norm2', 'norm', 'mag2', 'mag', 'inv', 'shirokov_inverse', 'hitzer_inverse', 'scalar', 'exp']
SLOW = {'mag2', 'mag', 'exp', 'inv', 'shirokov_inverse', 'hitzer_inverse', 'norm', 'norm2', 'qform'}


def one_operand(ctx, key, alg, A, form, heavy=True):
    ga, n = alg.ga, alg.n
    blade = A.blade_rep() if form == 'base' else A
    for m in METHODS:
        if m in SLOW and not heavy:
            continue
        sp_ = {'A.%s()' % m: lambda: getattr(A, m)(), '%s(A)' % m: lambda: getattr(mvmod, m)(A)}
        if m in ('even', 'odd'):
            sp_['ga.even_odd'] = lambda: ga.even_odd(blade.obj, m == 'even')
            sp_['grades'] = lambda: sum((A.grade(r) for r in range(n + 1) if (r % 2 == 0) == (m == 'even')), ga.mv(0))
        elif m == 'rev':
            sp_['ga.reverse'] = lambda: ga.reverse(blade.obj)
        elif m == 'ccon':
            sp_['A.rev().g_invol()'] = lambda: A.rev().g_invol()
        elif m == 'g_invol':
            sp_['even-odd'] = lambda: A.even() - A.odd()
        elif m == 'scalar':
            sp_['ga.scalar_part(A.obj)'] = lambda: ga.scalar_part(blade.obj)
            sp_['ga.scalar_part(A)'] = lambda: ga.scalar_part(blade)
            sp_['grade(0)'] = lambda: A.grade(0)
            sp_['split'] = lambda: ga.split_multivector(blade)[0]
            sp_['split obj'] = lambda: ga.split_multivector(blade.obj)[0]
            sp_['minus rest'] = lambda: blade.obj - ga.remove_scalar_part(blade.obj)
            sp_['blade_coefs'] = lambda: A.blade_coefs()[0]
            sp_['blade_coefs([1])'] = lambda: A.blade_coefs([ga.mv(1)])[0]
        elif m == 'qform':
            sp_["A.sp(A, 'rev')"] = lambda: A.sp(A, 'rev')
            sp_['sp(A.rev(), A)'] = lambda: mvmod.sp(A.rev(), A)
        elif m == 'exp':
            sp_["A.exp('-')"] = lambda: A.exp('-')
            sp_["exp(A, hint='-')"] = lambda: mvmod.exp(A, hint='-')
        elif m in ('norm', 'norm2'):
            for h in '+-0':
                agree(ctx, '%s hint %s: %s' % (m, h, key), alg, {'method': lambda: getattr(A, m)(h), 'hint=': lambda: getattr(A, m)(hint=h),
                                                                'function': lambda: getattr(mvmod, m)(A, h), 'function hint=': lambda: getattr(mvmod, m)(A, hint=h)}, sp.Expr)
            sp_["hint '0'"] = lambda: getattr(A, m)('0')
        agree(ctx, '%s: %s' % (m, key), alg, sp_)
    # grades
    for r in range(-1, n + 2):
        agree(ctx, 'grade %d: %s' % (r, key), alg, {
            'A.grade(r)': lambda: A.grade(r), 'A.get_grade(r)': lambda: A.get_grade(r), 'A.grade(r=)': lambda: A.grade(r=r), 'A[r]': lambda: A[r], 'grade(A, r)': lambda: mvmod.grade(A, r),
            'ga.get_grade': lambda: ga.get_grade(blade.obj, r), 'decomposition': lambda: ga.grade_decomposition(A).get(r, ga.mv(0)),
            'decomposition obj': lambda: ga.grade_decomposition(sp.expand(blade.obj)).get(r, 0)})
    agree(ctx, 'grade default: ' + key, alg, {'A.grade()': lambda: A.grade(), 'grade(A)': lambda: mvmod.grade(A), 'A.grade(0)': lambda: A.grade(0)})
    agree(ctx, 'remove_scalar_part: ' + key, alg, {'obj': lambda: ga.remove_scalar_part(blade.obj), 'mv': lambda: ga.remove_scalar_part(blade), 'split': lambda: ga.split_multivector(blade)[1],
                                                   'A - A.scalar()': lambda: A - A.scalar()})
    agree(ctx, 'components: ' + key, alg, {'A': lambda: A, 'sum(components)': lambda: sum(A.components(), ga.mv(0)),
                                           'coefficients': lambda: sum((cf * bl for cf, bl in zip(A.blade_coefs(), ga.mv_blades.flat)), ga.mv(0)),
                                           'grades': lambda: sum((cf * bl for r in range(n + 1) for cf, bl in zip(A.grade(r).get_coefs(r), ga.mv_blades[r])), ga.mv(0)),
                                           'decomposition': lambda: sum(ga.grade_decomposition(A).values(), ga.mv(0)),
                                           'proj on all': lambda: A.proj(list(ga.mv_blades.flat)), 'copy': lambda: ga.mv(A), 'Mv(obj)': lambda: Mv(A.obj, ga=ga)})
    agree(ctx, 'list: ' + key, alg, {'A.list()': lambda: list(A.list()), 'coefficients of the vector part': lambda: list(A.grade(1).get_coefs(1)), 'blade_coefs': lambda: A.blade_coefs(list(ga.mv())), 'blade_coefs of vectors': lambda: A.blade_coefs(list(ga.mv_blades[1]))})
    agree(ctx, 'grades list: ' + key, alg, {'ga.grades': lambda: [i for i in ga.grades(A.obj) if not (A.obj == 0)], 'nonzero': lambda: [r for r in range(n + 1) if A.grade(r) != 0],
                                            'decomposition': lambda: sorted(r for r, p in ga.grade_decomposition(A).items() if p != 0)})
    agree(ctx, 'is_zero: ' + key, alg, {'A.is_zero()': lambda: bool(A.is_zero()), 'A == 0': lambda: bool(A == 0), 'not A != 0': lambda: not (A != 0)})
    agree(ctx, 'powers: ' + key, alg, {'A**2': lambda: A ** 2, 'A*A': lambda: A * A, 'Mv.Mul': lambda: Mv.Mul(A, A, '*')})
    agree(ctx, 'neg: ' + key, alg, {'-A': lambda: -A, '0-A': lambda: 0 - A, 'A*-1': lambda: A * -1, '-1*A': lambda: -1 * A, 'A/-1': lambda: A / -1, 'rsub': lambda: S.Zero - A})
    if heavy:
        agree(ctx, 'reciprocal: ' + key, alg, {'A.inv()': lambda: A.inv(), '1/A': lambda: 1 / A, 'S.One/A': lambda: S.One / A, 'mv(1)/A': lambda: ga.mv(1) / A})
    if isinstance(A, Mv) and A.is_vector() and not A.is_zero():
        agree(ctx, 'sym: ' + key, alg, {'sym(A)': lambda: ltmod.sym(A), 'A.obj': lambda: blade.obj})


def job_unary(ctx, name, lo, hi, dense=True):
    ga = configs.algebra(name)
    alg = Alg(ga, configs.metric(name))
    ops = operands(alg, dense)
    for i, (s, A) in enumerate(ops[lo:hi]):
        for fn, F in forms(alg, A):
            ctx.state((name, s, fn))
            heavy = alg.n <= 2 or i % 4 == 0
            one_operand(ctx, '%s %s %s' % (name, s, fn), alg, F, fn, heavy)
    ctx.sample('%s: %d operands, %d one-operand operations' % (name, len(ops), len(METHODS) + 9))


# ---------------------------------------------------------------- two operands
def two_operands(ctx, key, alg, A, B, heavy=True):
    ga = alg.ga
    oA, oB = A.blade_rep().obj, B.blade_rep().obj
    level = {'*': 'mul', '^': 'wedge', '|': 'hestenes_dot', '<': 'left_contract', '>': 'right_contract'}
    dunder = {'*': 'mul', '^': 'xor', '|': 'or', '<': 'lt', '>': 'gt'}
    for o, fname in level.items():
        sp_ = {'operator': lambda: OPS[o](A, B), 'Mv.Mul': lambda: Mv.Mul(A, B, o), 'Mv.Mul op=': lambda: Mv.Mul(A, B, op=o), 'ga.Mul': lambda: ga.Mul(oA, oB, o), 'ga.Mul mode=': lambda: ga.Mul(oA, oB, mode=o),
               'ga.' + fname: lambda: getattr(ga, fname)(oA, oB), '__%s__' % dunder[o]: lambda: getattr(A, '__%s__' % dunder[o])(B)}
        if o in '|<>':
            sp_['ga.dot'] = lambda: dotted(ga, o, oA, oB)
        if o == '*':
            sp_['default mode'] = lambda: ga.Mul(oA, oB)
        agree(ctx, '%s: %s' % (o, key), alg, sp_, {'operator': Mv, 'Mv.Mul': Mv, 'ga.Mul': sp.Basic})
    agree(ctx, 'commutator: ' + key, alg, {'Ga.com': lambda: Ga.com(A, B), 'ga.com': lambda: ga.com(A, B), 'A >> B': lambda: A >> B, 'half': lambda: (A * B - B * A) / 2, '-(B >> A)': lambda: -(B >> A)}, Mv)
    agree(ctx, 'anticommutator: ' + key, alg, {'A << B': lambda: A << B, 'half': lambda: (A * B + B * A) / 2, 'B << A': lambda: B << A}, Mv)
    agree(ctx, 'sum: ' + key, alg, {'A + B': lambda: A + B, 'B + A': lambda: B + A, 'A - (-B)': lambda: A - (-B), 'obj': lambda: ga.mv(oA + oB)}, Mv)
    agree(ctx, 'difference: ' + key, alg, {'A - B': lambda: A - B, '-(B - A)': lambda: -(B - A), 'A + -B': lambda: A + -B, 'obj': lambda: ga.mv(oA - oB)}, Mv)
    agree(ctx, 'sp: ' + key, alg, {'A.sp(B)': lambda: A.sp(B), 'sp(A, B)': lambda: mvmod.sp(A, B), 'scalar': lambda: (A * B).scalar(), "sp(A, B, '')": lambda: mvmod.sp(A, B, ''), 'switch=': lambda: mvmod.sp(A, B, switch=''),
                                   'ga.scalar_product': lambda: ga.scalar_product(oA, oB)}, (sp.Expr, int))
    agree(ctx, 'sp rev: ' + key, alg, {"A.sp(B, 'rev')": lambda: A.sp(B, 'rev'), "sp(A, B, 'rev')": lambda: mvmod.sp(A, B, 'rev'), 'scalar': lambda: mvmod.scalar(mvmod.rev(A) * B), 'switch=': lambda: A.sp(B, switch='rev')})
    agree(ctx, 'equality: ' + key, alg, {'A == B': lambda: bool(A == B), 'B == A': lambda: bool(B == A), 'not A != B': lambda: not (A != B), 'is_zero': lambda: bool((A - B).is_zero())})
    if not heavy:
        return
    agree(ctx, 'project: ' + key, alg, {'A.project_in_blade(B)': lambda: A.project_in_blade(B), 'proj(B, A)': lambda: mvmod.proj(B, A)})
    agree(ctx, 'reflect: ' + key, alg, {'A.reflect_in_blade(B)': lambda: A.reflect_in_blade(B), 'refl(B, A)': lambda: mvmod.refl(B, A)})
    agree(ctx, 'rotate: ' + key, alg, {'A.rotate_multivector(B)': lambda: A.rotate_multivector(B), 'rot(B, A)': lambda: mvmod.rot(B, A), "hint '-'": lambda: mvmod.rot(B, A, '-'), 'hint=': lambda: mvmod.rot(B, A, hint='-')})
    agree(ctx, 'quotient: ' + key, alg, {'A / B': lambda: A / B, 'A * B.inv()': lambda: A * B.inv(), 'A * inv(B)': lambda: A * mvmod.inv(B)})
    if alg.n == 3 and A.is_vector() and B.is_vector():
        agree(ctx, 'cross: ' + key, alg, {'cross(A, B)': lambda: mvmod.cross(A, B), '-I*(A^B)': lambda: -ga.I() * (A ^ B), '-cross(B, A)': lambda: -mvmod.cross(B, A)}, Mv)
    elif alg.n != 3 or not (A.is_vector() and B.is_vector()):
        agree(ctx, 'cross: ' + key, alg, {'cross(A, B)': lambda: mvmod.cross(A, B), 'refused': lambda: 1 / 0})


def dotted(ga, o, oA, oB):
    old = ga.dot_mode
    try:
        ga.dot_mode = o
        return ga.dot(oA, oB)
    finally:
        ga.dot_mode = old


def job_binary(ctx, name, part, parts):
    ga = configs.algebra(name)
    alg = Alg(ga, configs.metric(name))
    ops = [(s, alg.mv(R)) for s, R in shapes(alg).items()]
    ops.append(('symbolic', ga.mv(a + (a + b) * alg.mask2blade[1] + x * alg.mask2blade[(1 << alg.n) - 1])))
    k = 0
    for sa, A in ops:
        for sb, B in ops:
            k += 1
            if k % parts != part:
                continue
            for fa, FA in forms(alg, A):
                for fb, FB in forms(alg, B):
                    ctx.state((name, sa, sb, fa, fb))
                    two_operands(ctx, '%s %s %s, %s %s' % (name, sa, fa, sb, fb), alg, FA, FB, heavy=fa == fb and 'symbolic' not in (sa, sb))
    ctx.sample('%s: %d operands, all pairs' % (name, len(ops)))


# ---------------------------------------------------------------- product tables
def warned(ctx, key, fn):
    """Value of a deprecated spelling, which must announce itself to its caller."""
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter('always')
        v = fn()
    ctx.step()
    mine = [w for w in log if issubclass(w.category, DeprecationWarning)]
    ctx.check(mine, 'warning: ' + key, 'no DeprecationWarning')
    ctx.check(any(w.filename == __file__ for w in mine), 'warning: ' + key, lambda: 'the warning is attributed to %s' % [w.filename for w in mine])
    return v


def quiet(ctx, key, fn):
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter('always')
        v = fn()
    mine = [w for w in log if issubclass(w.category, DeprecationWarning) and 'galgebra' in w.filename or w.filename == __file__]
    ctx.check(not mine, 'warning: ' + key, lambda: 'the recommended spelling warns: %s' % mine[0].message)
    return v


def job_tables(ctx, name):
    """Every pair of basis blades: table, of_basis_blades, call, operator and the deprecated names."""
    ga = configs.algebra(name)
    alg = Alg(ga, configs.metric(name))
    level = {'*': 'mul', '^': 'wedge', '|': 'hestenes_dot', '<': 'left_contract', '>': 'right_contract'}
    old = {'*': 'mul_table_dict', '^': 'wedge_table_dict', '|': 'dot_table_dict', '<': 'left_contract_table_dict', '>': 'right_contract_table_dict'}
    tabs = {o: warned(ctx, 'ga.' + t, lambda: getattr(ga, t)) for o, t in old.items()}
    for m1 in alg.ref.masks:
        for m2 in alg.ref.masks:
            b1, b2 = alg.mask2blade[m1], alg.mask2blade[m2]
            for o, fname in level.items():
                f = getattr(ga, fname)
                key = '%s table %s: %s %s' % (o, name, vname(m1), vname(m2))
                sp_ = {'operator': lambda: OPS[o](ga.mv(b1), ga.mv(b2)), 'call': lambda: f(b1, b2), 'of_basis_blades': lambda: f.of_basis_blades(b1, b2), 'table': lambda: f.table_dict[b1, b2],
                       'old table': lambda: tabs[o][b1, b2], 'table again': lambda: f.table_dict[b1, b2]}
                if o == '*' and m1 and m2:
                    sp_['old function'] = lambda: warned(ctx, 'geometric_product_basis_blades', lambda: ga.geometric_product_basis_blades((b1, b2)))
                if o == '^' and m1 and m2:
                    sp_['old function'] = lambda: warned(ctx, 'wedge_product_basis_blades', lambda: ga.wedge_product_basis_blades((b1, b2)))
                if o in '|<>':
                    fn = 'dot_product_basis_blades' if ga.is_ortho else 'non_orthogonal_dot_product_basis_blades'
                    sp_['old function'] = lambda: warned(ctx, fn, lambda: getattr(ga, fn)((b1, b2), o))
                first = agree(ctx, key, alg, sp_)
                ctx.state((name, o, m1, m2))
                if first[0] == 'value':
                    want = alg.ref.op(o, {m1: alg.dom.one}, {m2: alg.dom.one})
                    ctx.check(alg.ref.eq(alg.ref_of(first[1]), want), key, lambda: 'is %s, want %s' % (show(first), alg.ref.show(want)))
            if not ga.is_ortho:
                p1, p2 = [s for s, m in alg.base2mask.items() if m == m1][0], [s for s, m in alg.base2mask.items() if m == m2][0]
                agree(ctx, 'base table %s: %s %s' % (name, p1, p2), alg, {
                    'table': lambda: ga.basic_mul.table_dict[p1 * p2], 'of_basis_bases': lambda: ga.basic_mul.of_basis_bases(p1, p2), 'call': lambda: ga.basic_mul(p1, p2),
                    'blades': lambda: ga.mul(ga.base_to_blade_rep(p1), ga.base_to_blade_rep(p2)),
                    'old': lambda: warned(ctx, 'non_orthogonal_bases_products', lambda: ga.non_orthogonal_bases_products((p1, p2))),
                    'old table': lambda: warned(ctx, 'basic_mul_table_dict', lambda: ga.basic_mul_table_dict)[p1 * p2]} if m1 and m2 else {
                    'call': lambda: ga.basic_mul(p1, p2), 'blades': lambda: ga.mul(ga.base_to_blade_rep(p1), ga.base_to_blade_rep(p2))})
    for bad in ('+', '', '**', '<<', 'x'):
        ctx.raises('Ga.Mul mode %r' % bad, Exception, lambda: ga.Mul(b1, b2, bad), 'unknown mode')
        ctx.raises('Mv.Mul mode %r' % bad, Exception, lambda: Mv.Mul(ga.mv(b1), ga.mv(b2), bad), 'unknown mode')
        ctx.step(2)
    for bad in ('*', '^'):
        ctx.raises('Ga.dot mode %r' % bad, ValueError, lambda: dotted(ga, bad, b1, b2), 'not an inner product')
    ctx.sample('%s: %d blade pairs, 5 products' % (name, len(alg.ref.masks) ** 2))


def job_aliases(ctx, name, coords):
    """Every deprecated attribute of the algebra against the spelling its warning recommends."""
    n = len(configs.METRICS[name])
    kw = {'coords': symbols('x y z t', real=True)[:n]} if coords else {}
    ga = configs.algebra(name, **kw)
    alg = Alg(ga, configs.metric(name))
    P = [
        ('mv_I', lambda: ga.mv_I, lambda: ga.E()), ('mv_x', lambda: ga.mv_x, lambda: ga.mv('XxXx', 'vector')),
        ('blades_lst', lambda: ga.blades_lst, lambda: list(ga.blades.flat[1:])), ('bases_lst', lambda: ga.bases_lst, lambda: list(ga.bases.flat[1:])),
        ('indexes_lst', lambda: ga.indexes_lst, lambda: list(ga.indexes.flat[1:])), ('Pdop_identity', lambda: ga.Pdop_identity, lambda: Pdop({})),
        ('pdop', lambda: ga.pdop(x), lambda: Pdop(x)), ('pdop dict', lambda: ga.pdop({x: 2, y: 1}), lambda: Pdop({x: 2, y: 1})),
        ('sdop', lambda: ga.sdop(x), lambda: Sdop(x)), ('sdop terms', lambda: ga.sdop([(a, Pdop(x)), (b, Pdop({}))]), lambda: Sdop([(a, Pdop(x)), (b, Pdop({}))])),
        ('sdop lists', lambda: ga.sdop([a, b], [Pdop(x), Pdop(y)]), lambda: Sdop([a, b], [Pdop(x), Pdop(y)])),
        ('Pdop(None)', lambda: Pdop(None), lambda: Pdop({})),
        ('indexes_to_bases', lambda: list(ga.indexes_to_bases), lambda: list(ga.indexes_to_bases_dict.items())),
        ('indexes_to_blades', lambda: list(ga.indexes_to_blades), lambda: list(ga.indexes_to_blades_dict.items())),
        ('bases_to_indexes', lambda: list(ga.bases_to_indexes), lambda: [(v, k) for k, v in ga.indexes_to_bases_dict.items()]),
        ('blades_to_indexes', lambda: list(ga.blades_to_indexes), lambda: [(v, k) for k, v in ga.indexes_to_blades_dict.items()]),
        ('bases_to_indexes_dict', lambda: dict(ga.bases_to_indexes_dict), lambda: {v: k for k, v in ga.indexes_to_bases_dict.items()}),
        ('blades_to_indexes_dict', lambda: dict(ga.blades_to_indexes_dict), lambda: {v: k for k, v in ga.indexes_to_blades_dict.items()}),
        ('Mlt.extact_basis_indexes', lambda: Mlt.extact_basis_indexes(ga), lambda: ga.basis_super_scripts),
        ('Mv.setup', lambda: Mv.setup(ga), lambda: (ga.E(), list(ga.mv()), ga.mv('XxXx', 'vector'))),
    ]
    if not ga.is_ortho:
        P += [
            ('basic_mul_table', lambda: list(ga.basic_mul_table), lambda: list(ga.basic_mul.table_dict.items())),
            ('basic_mul_keys', lambda: list(ga.basic_mul_keys), lambda: list(ga.basic_mul.table_dict.keys())),
            ('basic_mul_values', lambda: list(ga.basic_mul_values), lambda: list(ga.basic_mul.table_dict.values())),
            ('basic_mul_table_dict', lambda: dict(ga.basic_mul_table_dict), lambda: dict(ga.basic_mul.table_dict)),
            ('base_expansion', lambda: list(ga.base_expansion), lambda: list(ga.base_expansion_dict.items())),
            ('blade_expansion', lambda: list(ga.blade_expansion), lambda: list(ga.blade_expansion_dict.items())),
        ]
    if coords:
        xs = list(ga.coords)
        L = ga.lt(sp.eye(n) * xs[0])
        P += [
            ('X', lambda: ga.X(), lambda: ga.coord_vec), ('lt_x', lambda: ga.lt_x, lambda: ga.coord_vec), ('lt_coords', lambda: list(ga.lt_coords), lambda: xs),
            ('Pdiffs', lambda: ga.Pdiffs, lambda: {q: Pdop(q) for q in xs}), ('sPds', lambda: ga.sPds, lambda: {q: Sdop(q) for q in xs}),
            ('Lt.setup', lambda: list(Lt.setup(ga)), lambda: [ga.coords, ga.coord_vec]), ('L.coords', lambda: list(L.coords), lambda: xs), ('L.X', lambda: L.X, lambda: ga.coord_vec),
        ]
    raw = {'Mv.setup', 'mv_I', 'mv_x', 'X', 'lt_x', 'L.X'}
    for nm, dep, new in P:
        key = 'alias %s %s' % (nm, name)
        ctx.state((name, nm))
        ctx.trace()
        # Mv.setup is not itself announced: it hands on the warnings of ga.mv_I and ga.mv_x
        og = outcome(alg, dep if nm == 'Mv.setup' else (lambda: warned(ctx, key, dep)))
        ow = outcome(alg, lambda: quiet(ctx, key, new))
        if og[0] != ow[0]:
            ctx.fail(key, 'deprecated spelling: %s, recommended one: %s' % (og[1], ow[1]))
            continue
        if og[0] == 'refused':
            ctx.outcome((nm, 'refused'))
            continue
        got, want = og[1], ow[1]
        if nm in raw:
            ok = same(alg, got, want)
        else:
            ok = got == want and type(got) is type(want) if not isinstance(got, (list, tuple)) else list(got) == list(want)
        ctx.check(ok, key, lambda: 'deprecated spelling gives %s, recommended one %s' % (got, want))
        ctx.outcome((nm, str(got)[:200]))
    for nm, fn in (('derivatives_of_g', lambda: ga.derivatives_of_g()), ('inverse_metric', lambda: ga.inverse_metric())):
        ctx.guard('alias %s %s' % (nm, name), lambda: warned(ctx, nm, fn))
    # the tables are bijections and agree about grades and order
    for what in (('blades',) if ga.is_ortho else ('bases', 'blades')):
        d, flat = getattr(ga, 'indexes_to_%s_dict' % what), getattr(ga, what)
        for idx, s in d.items():
            ctx.step()
            ctx.check(d.inverse[s] == idx, 'inverse %s %s' % (what, name), lambda: '%s -> %s -> %s' % (idx, s, d.inverse[s]))
            grades = ga.bases_to_grades_dict if what == 'bases' else ga.blades_to_grades_dict
            ctx.check(grades[s] == len(idx) and s in flat[len(idx)] and flat[len(idx)].index(s) == ga.indexes[len(idx)].index(idx), 'grades %s %s' % (what, name), lambda: str((idx, s)))
    for r in range(n + 1):
        for s, M, idx in zip(ga.blades[r], ga.mv_blades[r], ga.indexes[r]):
            ctx.check(M.obj == s and len(idx) == r, 'mv_blades %s' % name, lambda: '%s %s' % (M, s))
    ctx.check([M.obj for M in ga.mv()] == list(ga.basis) and tuple(ga.mv()) == tuple(ga.mv_basis) == tuple(ga.mv_blades[1]) and tuple(ga.basis_vectors()) == tuple(ga.basis),
              'basis %s' % name, 'basis spellings differ')
    ctx.sample('%s: %d aliases' % (name, len(P)))


# ---------------------------------------------------------------- derivatives
def job_derivatives(ctx, which):
    if which == 'E3':
        xs = symbols('x y z', real=True)
        ga = Ga('e*1|2|3', g=[1, 1, 1], coords=xs)
        g = None
    elif which == 'O2':
        xs = symbols('x y', real=True)
        ga = Ga('e*1|2', g=[[1, Rational(1, 2)], [Rational(1, 2), 3]], coords=xs)
    elif which == 'polar':
        xs = symbols('r theta', real=True)
        ga = Ga('e*1|2', g=[1, xs[0] ** 2], coords=xs)
    elif which == 'polarnorm':
        xs = symbols('r theta', real=True)
        ga = Ga('e*1|2', g=[1, xs[0] ** 2], coords=xs, norm=True)
    elif which == 'skew':
        xs = symbols('u v', real=True)
        ga = Ga('e*1|2', g=[[1 + xs[1] ** 2, xs[0]], [xs[0], 2]], coords=xs)
    n = len(xs)
    alg = Alg(ga, dom=_dom(ga))
    B = list(ga.blades.flat)
    f = sp.Function('f')(*xs)
    fields = [ga.mv(xs[0] ** 2 * xs[1]), ga.mv(f), ga.mv(B[1]), ga.mv(xs[0] * B[1] + xs[1] * B[2]), ga.mv(xs[1] ** 2 * B[-1]), ga.mv(f * B[2] + xs[0]), ga.mv('F', 'vector', f=True), ga.mv(a * xs[0] * B[1] + b * B[-1]), ga.mv(3), ga.mv(0)]
    for i, A in enumerate(fields):
        for q in list(xs) + [a]:
            key = '%s field %d d/d%s' % (which, i, q)
            ctx.state((which, i, str(q)))
            sp_ = {'A.diff': lambda: A.diff(q), 'A.pdiff': lambda: A.pdiff(q), 'ga.pDiff': lambda: ga.pDiff(A, q), 'ga.pDiff(obj)': lambda: ga.pDiff(A.obj, q), 'Pdop': lambda: Pdop(q)(A), 'Pdop dict': lambda: Pdop({q: 1})(A),
                   'Sdop': lambda: Sdop(q)(A), 'Dop': lambda: ga.dop([(ga.mv(1), Pdop(q))]) * A, 'sympy diff': lambda: sp.diff(A, q), 'Dop lists': lambda: Dop([ga.mv(1)], [Pdop(q)], ga=ga) * A}
            if q in xs:
                sp_['pDiff orders'] = lambda: ga.pDiff(A, [1 if p == q else 0 for p in xs])
                sp_['E_j|grad'] = lambda: (ga.mv(ga.basis[xs.index(q)]) * (ga.e_norm[xs.index(q)] if getattr(ga, 'norm', False) else 1) | ga.grad) * A
            agree(ctx, key, alg, sp_, Mv)
        for q in xs:
            for p in xs:
                agree(ctx, '%s field %d d2/d%s%s' % (which, i, q, p), alg, {
                    'twice': lambda: A.diff(p).diff(q), 'Pdop': lambda: Pdop({p: 2})(A) if p == q else Pdop({p: 1, q: 1})(A), 'orders': lambda: ga.pDiff(A, [(r == p) + (r == q) for r in xs]),
                    'product': lambda: (Pdop(q) * Pdop(p))(A), 'Sdop': lambda: (Sdop(q) * Sdop(p))(A)} if which in ('E3', 'O2') else {
                    'twice': lambda: A.diff(p).diff(q), 'applied': lambda: Pdop(q)(Pdop(p)(A))})
        grad, rgrad = ga.grads()
        for o in '*^|<>':
            for left in (True, False):
                key = '%s field %d %s %s' % (which, i, 'grad' if left else 'rgrad', o)
                G, R = ga.grad, ga.rgrad
                sp_ = {'operator': (lambda: OPS[o](G, A)) if left else (lambda: OPS[o](A, R)), 'grads()': (lambda: OPS[o](grad, A)) if left else (lambda: OPS[o](A, rgrad)),
                       'Dop.Mul': (lambda: Dop.Mul(G, A, o)) if left else (lambda: Dop.Mul(A, R, o)), 'A.Grad': lambda: A.Grad(xs, o, left), 'A.Grad keywords': lambda: A.Grad(list(xs), mode=o, left=left),
                       'sum': lambda: sum((OPS[o](e, A.diff(q)) if left else OPS[o](A.diff(q), e) for e, q in zip(recip(ga), xs)), ga.mv(0)),
                       'make_grad': (lambda: OPS[o](ga.make_grad(ga.mv(ga.coord_vec)), A)) if left else (lambda: OPS[o](A, ga.make_grad(ga.mv(ga.coord_vec), cmpflg=True))),
                       'make_grad list': (lambda: OPS[o](ga.make_grad(list(xs)), A)) if left else (lambda: OPS[o](A, ga.make_grad(list(xs), True)))}
                if which == 'polarnorm':
                    # the basis is not that of the coordinates: gradients of components are something else
                    for k_ in ('A.Grad', 'A.Grad keywords', 'make_grad', 'make_grad list'):
                        del sp_[k_]
                agree(ctx, key, alg, sp_, Mv)
                if o == '*':
                    agree(ctx, key + ' default', alg, {'A.Grad(coords)': lambda: A.Grad([a, b] + list(xs)[2:]), 'explicit': lambda: A.Grad([a, b] + list(xs)[2:], '*', True),
                                                       'sum': lambda: sum((e * A.diff(q) for e, q in zip(recip(ga, False), [a, b] + list(xs)[2:])), ga.mv(0))})
    ctx.sample('%s: %d fields' % (which, len(fields)))


def recip(ga, scaled=True):
    """Reciprocal vectors of the coordinate basis."""
    r = ga.mvr()
    if scaled and ga.norm:
        return [e / s for e, s in zip(r, ga.e_norm)]
    return list(r)


def _dom(ga):
    from vf.refga import ExprDom
    return ExprDom()


# ---------------------------------------------------------------- linear transformations
def job_lt(ctx, name):
    n = len(configs.METRICS[name])
    xs = symbols('x y z', real=True)[:n]
    ga = configs.algebra(name, coords=xs)
    alg = Alg(ga, configs.metric(name))
    ents = (0, 1, -2, a, xs[0])
    mats = [Matrix(n, n, lambda i, j: ents[(i * k1 + j * k2 + k3) % 5]) for k1 in range(3) for k2 in range(3) for k3 in range(5)]
    mats += [sp.eye(n), sp.zeros(n), Matrix(n, n, lambda i, j: i - j), Matrix(n, n, lambda i, j: i + j), Matrix(n, n, lambda i, j: xs[(i + j) % n]), Matrix(n, n, lambda i, j: (i - j) * xs[0] * xs[1])]
    basis = list(ga.mv())
    for k, M in enumerate(mats):
        key = '%s matrix %s' % (name, M.tolist())
        ctx.state((name, str(M)))
        L = ga.lt(M)
        imgs = [sum((M[i, j] * basis[i] for i in range(n)), ga.mv(0)) for j in range(n)]
        Ls = {'matrix': L, 'nested list': ga.lt(M.T.tolist()), 'images': ga.lt(imgs), 'Lt': Lt(M, ga=ga), 'function': ga.lt(lambda v: sum((cf * im for cf, im in zip(v.blade_coefs(basis), imgs)), ga.mv(0))),
              'dict': ga.lt({ga.basis[j]: imgs[j].obj for j in range(n)}), 'copy': ga.lt(L)}
        for s, K in Ls.items():
            ctx.check(K.matrix() == M, 'matrix %s: %s' % (s, key), lambda: 'matrix is %s' % K.matrix().tolist())
            agree(ctx, 'det %s: %s' % (s, key), alg, {'L.det()': lambda: K.det(), 'det(L)': lambda: ltmod.det(K), 'Matrix.det': lambda: M.det()})
        for A in basis + [ga.mv('v', 'vector'), ga.mv('m', 'mv')]:
            agree(ctx, 'apply %s: %s' % (A, key), alg, {'L(A)': lambda: L(A), **{s: (lambda K=K: K(A)) for s, K in Ls.items()}})
            agree(ctx, 'apply obj %s: %s' % (A, key), alg, {'L(A)': lambda: L(A), 'obj=True': lambda: L(A, obj=True)})
        want = 's' if M == M.T else 'a' if M == -M.T else 'g'
        ctx.guard('mode: ' + key, lambda: ctx.check(warned(ctx, 'L.mode', lambda: L.mode) == want, 'mode: ' + key, lambda: 'mode is %s' % L.mode))
        wantf = all(any(e.has(q) for e in M) for q in xs)
        ctx.guard('fct_flg: ' + key, lambda: ctx.check(bool(warned(ctx, 'L.fct_flg', lambda: L.fct_flg)) == wantf, 'fct_flg: ' + key, lambda: 'fct_flg is %s' % L.fct_flg))
        agree(ctx, 'is_singular: ' + key, alg, {'is_singular': lambda: bool(L.is_singular()), 'det == 0': lambda: sp.simplify(M.det()) == 0})
        K = ga.lt(mats[(k * 7 + 3) % len(mats)])
        agree(ctx, 'compose: ' + key, alg, {'L*K': lambda: (L * K).matrix(), 'matrices': lambda: (M * K.matrix()).applyfunc(sp.expand)} if False else {'(L*K)(v)': lambda: (L * K)(basis[0]), 'L(K(v))': lambda: L(K(basis[0]))})
        agree(ctx, 'scale: ' + key, alg, {'a*L': lambda: (a * L)(basis[-1]), 'L*a': lambda: (L * a)(basis[-1]), 'L(a v)': lambda: L(a * basis[-1])})
        agree(ctx, 'combine: ' + key, alg, {'L-K': lambda: (L - K)(basis[-1]), 'values': lambda: L(basis[-1]) - K(basis[-1]), 'L+(-1)K': lambda: (L + (-1) * K)(basis[-1])})
    ctx.sample('%s: %d matrices' % (name, len(mats)))


# ---------------------------------------------------------------- hints
def job_hints(ctx, name):
    """Functions that take the sign of a square as a hint, where the hint decides: symbolic squares."""
    ga = configs.algebra(name)
    alg = Alg(ga, configs.metric(name))
    bl = list(ga.blades.flat)
    t = Symbol('t', real=True)
    ops = [('%s %s' % (cf, q), ga.mv(cf * q)) for q in bl[1:] for cf in (t, S(1), t ** 2 - 1)]
    if alg.n >= 3:
        ops.append(('bivector', ga.mv(t * (bl[4] + bl[5]))))
        ops.append(('bivector symbols', ga.mv(a * bl[4] + b * bl[5])))
    ops.append(('vector symbols', ga.mv(a * bl[1] + b * bl[2])))
    V = ga.mv('v', 'vector')
    for s, A in ops:
        for h in ('+', '-'):
            ctx.state((name, s, h))
            key = '%s %s hint %s' % (name, s, h)
            agree(ctx, 'exp: ' + key, alg, {'A.exp(h)': lambda: A.exp(h), 'exp(A, h)': lambda: mvmod.exp(A, h), 'hint=': lambda: A.exp(hint=h), 'function hint=': lambda: mvmod.exp(A, hint=h)})
            agree(ctx, 'rot: ' + key, alg, {'V.rotate_multivector(A, h)': lambda: V.rotate_multivector(A, h), 'rot(A, V, h)': lambda: mvmod.rot(A, V, h), 'hint=': lambda: mvmod.rot(A, V, hint=h),
                                            'method hint=': lambda: V.rotate_multivector(A, hint=h), 'sandwich': lambda: (-A / 2).exp(h) * V * (A / 2).exp(h)})
        for h in ('+', '-', '0'):
            key = '%s %s hint %s' % (name, s, h)
            for m in ('norm', 'norm2'):
                agree(ctx, '%s: %s' % (m, key), alg, {'method': lambda: getattr(A, m)(h), 'hint=': lambda: getattr(A, m)(hint=h), 'function': lambda: getattr(mvmod, m)(A, h), 'function hint=': lambda: getattr(mvmod, m)(A, hint=h)}, sp.Expr)
    ctx.sample('%s: %d symbolic operands' % (name, len(ops)))


# ---------------------------------------------------------------- refusals and numbers
def job_refusals(ctx):
    ga = Ga('e*1|2|3', g=[1, 1, 1])
    A = ga.mv('v', 'vector')
    one_arg = ['dual', 'undual', 'even', 'odd', 'g_invol', 'grade', 'inv', 'shirokov_inverse', 'hitzer_inverse', 'qform', 'norm2', 'norm', 'mag2', 'mag', 'rev', 'ccon', 'scalar']
    for bad in (3, 0, 2.5, S(3), a, ga.basis[0], 'e_1', None, [A], Matrix([1, 2, 3]), ga.grad if ga.coords else Pdop(x)):
        for fn in one_arg:
            ctx.raises('%s(%s)' % (fn, bad), (ValueError, TypeError), lambda: getattr(mvmod, fn)(bad), 'argument is not a multivector')
            ctx.step()
        for fn in ('proj', 'rot', 'refl'):
            ctx.raises('%s(A, %s)' % (fn, bad), (ValueError, TypeError), lambda: getattr(mvmod, fn)(A, bad), 'argument is not a multivector')
            ctx.step()
        for args in ((bad, A), (A, bad), (bad, bad)):
            ctx.raises('sp(%s)' % (args,), (ValueError, TypeError), lambda: mvmod.sp(*args), 'argument is not a multivector')
            ctx.raises('compare(%s)' % (args,), TypeError, lambda: mvmod.compare(*args), 'argument is not a multivector')
            ctx.step(2)
        ctx.state(('bad', str(bad)))
    for e in (S(0), S(2), a, x ** 2, a + b, S(-1), sp.I, sp.log(a)):
        for h in ('-', '+'):
            ctx.step()
            ctx.check(mvmod.exp(e, h) == sp.exp(e) == mvmod.exp(e), 'exp(%s)' % e, lambda: str(mvmod.exp(e, h)))
    for sw in ('x', 'REV', None, True, 0):
        ctx.raises('sp switch %r' % (sw,), (ValueError, TypeError), lambda: mvmod.sp(A, A, sw), 'unknown switch')
        ctx.raises('A.sp switch %r' % (sw,), (ValueError, TypeError), lambda: A.sp(A, sw), 'unknown switch')
    ctx.raises('mv.com', ImportError, lambda: mvmod.com(A, A), 'removed function')
    ctx.trace()


def job_numbers(ctx):
    """Nga of every coefficient kind and precision is sympy's N of every coefficient; correlation is the statistic."""
    ga = Ga('e*1|2|3', g=[1, 2, -1])
    G2 = Ga('f*1|2', g=[[1, Rational(1, 2)], [Rational(1, 2), 2]])
    ks = [S(1), S(-3), Rational(1, 3), sp.sqrt(2), sp.pi, sp.Float('1.23456789012345', 15), sp.exp(1), sp.sin(1), a, a / 3, sp.sqrt(2) * a + Rational(1, 7), sp.Float('123456.789', 12), S(0), Rational(2, 3) * sp.sin(x)]
    for G in (ga, G2):
        bl = list(G.blades.flat)
        for p in (1, 2, 3, 5, 8, 15, 30):
            for i, k1 in enumerate(ks):
                for k2 in (ks[(i + 1) % len(ks)], ks[(i * 3 + 5) % len(ks)]):
                    for b1, b2 in ((bl[0], bl[1]), (bl[1], bl[-1]), (bl[2], bl[-1])):
                        A = G.mv(k1 * b1 + k2 * b2)
                        R = mvmod.Nga(A, p)
                        ctx.step()
                        ctx.trace()
                        ok = isinstance(R, Mv) and R.Ga is G
                        want = {s: sp.N(cf, p + 10) for s, cf in ((b1, k1), (b2, k2))}
                        got = Alg(G, dom=_dom(G)).terms(R.obj)
                        for s in set(want) | set(got):
                            w, g_ = sp.expand(want.get(s, S.Zero)).as_coefficients_dict(), sp.expand(got.get(s, S.Zero)).as_coefficients_dict()
                            w, g_ = ({k: v for k, v in d.items() if v != 0} for d in (w, g_))
                            if set(w) != set(g_) or any(abs(w[t] - g_[t]) > abs(w[t]) * sp.Float(10, 40) ** (1 - p) for t in w):
                                ok = False
                            if any((isinstance(v, sp.Rational) and not v.is_integer) or (isinstance(v, sp.Float) and v._prec > sp.Float(1, p)._prec + 3) for v in g_.values()):
                                ok = False
                        ctx.check(ok, 'Nga %s %d' % (A, p), lambda: 'gives %s' % (R,))
                        ctx.state((str(G), p, str(A)))
            for e in ks:
                ctx.step()
                ctx.check(mvmod.Nga(e, p) == sp.N(e, p), 'Nga scalar %s %d' % (e, p), lambda: str(mvmod.Nga(e, p)))
        ctx.check(mvmod.Nga(sp.pi) == sp.N(sp.pi, 5) and mvmod.Nga(G.mv(sp.pi * bl[1])) == mvmod.Nga(G.mv(sp.pi * bl[1]), 5) == mvmod.Nga(G.mv(sp.pi * bl[1]), prec=5), 'Nga default', 'default precision is not 5')
    for vals in itertools.product((0, 1, 2, -3), repeat=3):
        for vals2 in ((1, 2, 4), (0, -1, 5), (2, 2, 3)):
            u, v = Matrix(vals), Matrix(vals2)
            if len(set(vals)) == 1:
                continue
            u0, v0 = u.copy(), v.copy()
            r = mvmod.correlation(u, v)
            mu, nu = Rational(sum(vals), 3), Rational(sum(vals2), 3)
            num = sum((p - mu) * (q - nu) for p, q in zip(vals, vals2))
            den = sp.sqrt(sum((p - mu) ** 2 for p in vals) * sum((q - nu) ** 2 for q in vals2))
            ctx.step()
            ctx.check(abs(sp.N(r, 15) - sp.N(num / den, 15)) < 0.005 and u == u0 and v == v0, 'correlation %s %s' % (vals, vals2), lambda: '%s, want %s' % (r, sp.N(num / den, 5)))
            ctx.state(('corr', vals, vals2))
    ctx.trace()


# ---------------------------------------------------------------- the old interface
def _old_interface(send_check):
    """Runs in its own process: importing galgebra.deprecated changes nothing else, MV.setup does."""
    out = []
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter('always')
        from galgebra import deprecated
    out.append(('import warns', any(issubclass(w.category, DeprecationWarning) for w in log), ''))
    from galgebra.deprecated import MV, ReciprocalFrame
    import contextlib
    import io
    warnings.simplefilter('ignore')
    r_, th = symbols('r theta', real=True)
    setups = [
        ('E3', ('e*1|2|3', '[1,1,1]', None), ('e*1|2|3', [1, 1, 1], None)), ('list', ('e*1|2|3', [1, -1, 2], None), ('e*1|2|3', [1, -1, 2], None)),
        ('E3 coords', ('e*x|y|z', '[1,1,1]', (x, y, z)), ('e*x|y|z', [1, 1, 1], (x, y, z))), ('names', ('u v', '[1,-1]', None), ('u v', [1, -1], None)),
        ('string metric', ('e*1|2', '1 1/2, 1/2 3', None), ('e*1|2', '1 1/2, 1/2 3', None)), ('symbolic', ('e*1|2', None, None), ('e*1|2', None, None)),
        ('nested', ('e*1|2', [[1, 2], [2, -1]], (x, y)), ('e*1|2', [[1, 2], [2, -1]], (x, y))), ('negative', ('e*0|1|2|3', '[1,-1,-1,-1]', None), ('e*0|1|2|3', [1, -1, -1, -1], None)),
    ]
    for nm, (bs, met, co), (bs2, g2, co2) in setups:
        res = MV.setup(bs, metric=met, coords=co)
        ga2 = Ga(bs2, g=g2, coords=co2)
        out.append(('setup %s metric' % nm, MV.metric == ga2.g == MV.GA.g, '%s vs %s' % (MV.metric, ga2.g)))
        out.append(('setup %s basis' % nm, [str(q.obj) for q in res[:ga2.n]] == [str(q) for q in ga2.basis] and len(res) == ga2.n + (1 if co else 0), str(res)))
        out.append(('setup %s I' % nm, MV.I == MV.GA.I() and str(MV.I) == str(ga2.I()), str(MV.I)))
        if co:
            out.append(('setup %s grad' % nm, res[-1] == MV.grad == MV.GA.grad and MV.rgrad == MV.GA.rgrad, str(res[-1])))
        kinds = [('A', 'scalar'), ('A', 'vector'), ('A', 'bivector'), ('A', 'grade2'), ('A', 'pseudo'), ('A', 'spinor'), ('A', 'even'), ('A', 'odd'), ('A', 'mv'), ('A', 'grade')]
        for base, kind in kinds:
            fs = (None, False, True) if co else (None, False)
            for fct in fs:
                def make(f_):
                    try:
                        return str(f_().obj)
                    except Exception as e:
                        return 'refused'
                kw = {} if fct is None else {'f': fct}
                o = make(lambda: MV(base, kind) if fct is None else MV(base, kind, fct))
                o2 = make(lambda: MV(base, kind) if fct is None else MV(base, kind, fct=fct))
                w = make(lambda: MV.GA.mv(base, kind, **kw))
                out.append(('MV(%s,%s,%s) in %s' % (base, kind, fct, nm), o == w == o2, '%s vs %s' % (o, w)))
        V = MV('V', 'vector')
        out.append(('MV is Mv %s' % nm, isinstance(V, Mv) and (V * V) == MV.GA.mv('V', 'vector') ** 2, ''))
        W = MV('W', 'mv')
        for fmt in (1, 2, 3):
            for title in (None, 'W'):
                buf = io.StringIO()
                with contextlib.redirect_stdout(buf):
                    ret = W.Fmt(fmt, title)
                out.append(('MV.Fmt(%d,%s) %s' % (fmt, title, nm), ret is None and buf.getvalue() == str(Mv.Fmt(W, fmt, title)) + '\n', buf.getvalue()))
        bas = list(res[:ga2.n])
        for mode in ('norm', 'append'):
            for frame in (bas, bas[::-1], [bas[0] + 2 * bas[1]] + bas[1:]):
                try:
                    o = ReciprocalFrame(frame) if mode == 'norm' else ReciprocalFrame(frame, mode=mode)
                except Exception:
                    o = 'refused'
                try:
                    w = MV.GA.ReciprocalFrame(frame, mode=mode)
                except Exception:
                    w = 'refused'
                out.append(('ReciprocalFrame %s %s' % (nm, mode), o == w, '%s vs %s' % (o, w)))
    # a vector manifold
    E = [r_ * sp.cos(th), r_ * sp.sin(th)]
    MV.setup('e*r|theta', metric=None, coords=(r_, th), curv=(E, None))
    out.append(('setup curv', MV.metric == Matrix([[1, 0], [0, r_ ** 2]]), str(MV.metric)))
    for text, want in (('[1,1]', [1, 1]), ('[-1]', [-1]), ('[1, -1, 0]', [1, -1, 0]), ('1 0,0 1', '1 0,0 1'), ('[12,3]', [12, 3])):
        out.append(('convert_metric %s' % text, MV.convert_metric(text) == want, str(MV.convert_metric(text))))
    warnings.simplefilter('always')
    for nm, fn in (('MV()', lambda: MV('A', 'vector')), ('ReciprocalFrame()', lambda: ReciprocalFrame(bas))):
        with warnings.catch_warnings(record=True) as log:
            warnings.simplefilter('always')
            fn()
        out.append((nm + ' warns', any(issubclass(w.category, DeprecationWarning) and w.filename == __file__ for w in log), str([w.filename for w in log])))
    return out


def job_old(ctx):
    out = forked(_old_interface, None)
    _take(ctx, out)
    ctx.sample('galgebra.deprecated: %d comparisons' % len(out))


def _primer(_):
    import io
    import contextlib
    out = []
    with contextlib.redirect_stdout(io.StringIO()):
        ns = {}
        exec('from galgebra.primer import *', ns)
    import galgebra.printer as pr
    out.append(('dual mode', Ga.dual_mode_value == 'Iinv+', Ga.dual_mode_value))
    for mod, names in ((gamod, ['Ga', 'Sm']), (mvmod, ['Mv', 'Dop', 'dual', 'undual', 'even', 'odd', 'g_invol', 'exp', 'grade', 'inv', 'shirokov_inverse', 'hitzer_inverse', 'qform', 'norm2', 'norm', 'mag2', 'mag', 'proj', 'rot',
                                                       'refl', 'rev', 'ccon', 'scalar', 'sp', 'cross', 'Nga', 'compare', 'correlation']), (ltmod, ['Lt', 'Mlt', 'det', 'sym']), (dopmod, ['Sdop', 'Pdop'])):
        for nm in names:
            out.append(('primer %s' % nm, ns.get(nm) is getattr(mod, nm), '%r' % (ns.get(nm),)))
    ga, e1, e2 = ns['Ga'].build('e*1|2', g=[1, 1])
    out.append(('primer dual', ns['dual'](e1) == e1 * ga.I().inv() == e1.dual(), str(e1.dual())))
    return out


def job_primer(ctx):
    _take(ctx, forked(_primer, None))


def _take(ctx, out):
    ctx.check(out, 'no answer', 'the process gave no answer')
    for key, ok, msg in out:
        ctx.step()
        ctx.trace()
        ctx.state((key,))
        ctx.outcome((key, ok))
        ctx.check(ok, key, msg)


def jobs(tier):
    J = []
    for name in ('E2', 'M2', 'D2', 'O2', 'NULL2', 'Z2'):
        for lo in (0, 42):
            J.append(dict(fn='job_unary', kw=dict(name=name, lo=lo, hi=lo + 42)))
    for name in ('E3', 'M3', 'PGA2', 'O3', 'FULL3'):
        st = 33 if tier == 'quick' else 33
        for lo in range(0, 261, 33):
            if tier == 'quick' and lo // 33 % 2 and name not in ('O3',):
                continue
            J.append(dict(fn='job_unary', kw=dict(name=name, lo=lo, hi=lo + 33)))
    for name in ('STA', 'CGA2'):
        J.append(dict(fn='job_unary', kw=dict(name=name, lo=0, hi=99, dense=False)))
    for name, parts in (('E2', 1), ('O2', 3), ('M3', 3), ('PGA2', 3), ('FULL3', 12), ('STA', 6)) + ((('CGA2', 16), ('UNIT3', 12), ('D3', 3)) if tier != 'quick' else ()):
        for p in range(parts):
            J.append(dict(fn='job_binary', kw=dict(name=name, part=p, parts=parts)))
    for name in ('S1', 'D2', 'O2', 'SYM2', 'D3', 'PGA2', 'FULL3', 'STA') + (('FULL4', 'CGA2', 'D4') if tier != 'quick' else ()):
        J.append(dict(fn='job_tables', kw=dict(name=name)))
    for name in ('E1', 'D2', 'O2', 'SYM2', 'E3', 'FULL3', 'STA', 'FULL4'):
        for co in (False, True):
            J.append(dict(fn='job_aliases', kw=dict(name=name, coords=co)))
    for w in ('E3', 'O2', 'polar', 'polarnorm', 'skew'):
        J.append(dict(fn='job_derivatives', kw=dict(which=w)))
    for name in ('S3', 'M3', 'SYM2', 'STA') + (('UNIT3',) if tier != 'quick' else ()):
        J.append(dict(fn='job_hints', kw=dict(name=name)))
    for name in ('E2', 'O2', 'M3', 'FULL3'):
        J.append(dict(fn='job_lt', kw=dict(name=name)))
    J += [dict(fn='job_refusals', kw={}), dict(fn='job_numbers', kw={}), dict(fn='job_old', kw={}), dict(fn='job_primer', kw={})]
    return J
