"""C19: every construction form builds the algebra or the multivector it names.

The enumerated inputs are descriptions: (names, metric tokens, coordinates) for
algebras and (name or coefficients, kind, functional dependence) for
multivectors.  Each description is written in every supported input form, the
real constructor is run, and the object is compared with the explicit
description; every malformed neighbour of a description has to be refused."""
import itertools
import math
import sympy as sp
from sympy import Rational, Symbol, Function, Matrix, ImmutableMatrix, S, symbols
from galgebra.ga import Ga
from galgebra.mv import Mv
from galgebra.metric import symbols_list
from galgebra.atoms import DotProductSymbol, BasisVectorSymbol
from vf.checks.common import *   # noqa

BOUNDS = ('basis strings in all forms, n<=4; all symmetric token matrices over {0,1,-1/2,#} for n<=2 and patterns for n=3 in every metric form; '
          'all kinds x names/coefficient lists of every length x f forms, n<=4; all Cl(p,q,r) with p+q+r<=4; all neighbours of the tables of malformed descriptions')

x, y, z, t = symbols('x y z t', real=True)
r, th, ph = symbols('r theta phi', real=True)
u, v = symbols('u v', real=True)
XYZ = (x, y, z, t)


# ------------------------------------------------------------ basis names
LETTER = {1: ['a'], 2: ['a', 'b'], 3: ['a', 'b', 'c'], 4: ['a', 'b', 'c', 'd']}
SUBBED = {1: ['u_1'], 2: ['u_1', 'v_2'], 3: ['u_1', 'v_2', 'w_3'], 4: ['u_1', 'v_2', 'w_3', 'p_4']}
LONG = {1: ['alpha_0'], 2: ['alpha_0', 'be_1'], 3: ['alpha_0', 'be_1', 'c_2'], 4: ['alpha_0', 'be_1', 'c_2', 'de_3']}
TWIN = {1: ['a_1'], 2: ['a_1', 'b_1'], 3: ['a_1', 'b_1', 'b_2'], 4: ['a_1', 'b_1', 'b_2', 'a_2']}
PART = {1: ['e_x'], 2: ['e_x', 'ab'], 3: ['ab', 'e_x', 'c'], 4: ['e_x', 'e_y', 'e_z', 'o']}
AMBI = {1: ['e_12'], 2: ['e_1', 'e_11'], 3: ['e_1', 'e_2', 'e_12'], 4: ['e_1', 'e_2', 'e_12', 'e_3']}
SETS = dict(LETTER=LETTER, SUBBED=SUBBED, LONG=LONG, TWIN=TWIN, PART=PART, AMBI=AMBI)


def basis_forms(n):
    """(label, basis string, coords or None, names)"""
    if n == 0:
        yield 'empty', '', None, []
        return
    cs = XYZ[:n]
    for idx in (['1', '2', '3', '4'], ['x', 'y', 'z', 't'], ['0', 'bc', 'D', '77']):
        yield 'star ' + idx[0], 'e*' + '|'.join(idx[:n]) + ('' if n > 1 else '|'), None, ['e_' + i for i in idx[:n]]
    yield 'count', 'e*%d' % n, None, ['e_%d' % i for i in range(n)]
    yield 'count long root', 'gamma*%d' % n, None, ['gamma_%d' % i for i in range(n)]
    for k, s in SETS.items():
        if n > 1:
            yield k + ' spaces', ' '.join(s[n]), None, s[n]
            yield k + ' commas', ','.join(s[n]), None, s[n]
        yield k + ' trailing comma', ','.join(s[n]) + ',', None, s[n]
        yield k + ' coords', ','.join(s[n]) + ',', cs, s[n]
    for root in ('e', 'gamma'):
        for c in (cs, list(cs), symbols('r theta phi psi', real=True)[:n], symbols('x_1 x_2 x_3 x_4', real=True)[:n]):
            yield 'root %s %s' % (root, type(c).__name__), root, c, [root + '_' + str(q) for q in c]
    yield 'star and coords', 'e*' + '|'.join('1234'[:n]) + ('' if n > 1 else '|'), cs, ['e_' + i for i in '1234'[:n]]


def one_index(names):
    # 'e*1|' has an empty second index: the single-index form is 'e*1' = count
    return names


def sup_names(names, coords):
    """Superscript of each basis vector, by the documented rule."""
    if coords is not None:
        return [str(c) for c in coords]
    tails = [s.split('_', 1)[1] if '_' in s else '' for s in names]
    if all(tails) and len(set(tails)) == len(tails):
        return tails
    return [str(i + 1) for i in range(len(names))]


def combos(n):
    return [c for k in range(n + 1) for c in itertools.combinations(range(n), k)]


def blade_sup(names, coords):
    s = sup_names(names, coords)
    n = len(names)
    out = {}
    for k in range(n + 1):
        plain = {c: ''.join(s[i] for i in c) for c in itertools.combinations(range(n), k)}
        if len(set(plain.values())) != len(plain):
            plain = {c: '__'.join(s[i] for i in c) for c in plain}
        out.update(plain)
    return out


def coef_name(root, sup):
    return root + '__' + sup if sup else root


def check_names(ctx, lab, ga, names, coords, wedge=True):
    n = len(names)
    ok = ctx.check(ga.n == n and [str(b) for b in ga.basis] == names, lab + '/basis', lambda: 'basis %s, want %s' % (list(ga.basis), names))
    if not ok:
        return False
    ctx.check(tuple(b.obj for b in ga.mv()) == tuple(ga.basis), lab + '/mv()', 'mv() is not the basis')
    for b in ga.basis:
        ctx.check(not b.is_commutative, lab + '/nc', 'basis vector commutes')
    want = [[c for c in itertools.combinations(range(n), k)] for k in range(n + 1)]
    ctx.check([list(g) for g in ga.indexes] == want, lab + '/indexes', lambda: 'indexes %s' % (ga.indexes,))
    def shown(c):
        if wedge or len(c) == 1:
            return '^'.join(names[i] for i in c)
        return names[0].split('_')[0] + '_' + ''.join(names[i].split('_')[1] for i in c)
    wb = [['1'] if k == 0 else [shown(c) for c in want[k]] for k in range(n + 1)]
    ctx.check([[str(b) for b in g] for g in ga.blades] == wb, lab + '/blades', lambda: 'blades %s want %s' % (ga.blades, wb))
    # each blade is the wedge of its basis vectors, whatever the metric
    for c, b in zip([c for g in want for c in g], ga.blades.flat):
        if len(c) > 1:
            W = ga.mv()[c[0]]
            for i in c[1:]:
                W = W ^ ga.mv()[i]
            ctx.check(W.obj == b, lab + '/wedge', lambda: 'wedge of %s is %s, blade %s' % (c, W, b))
    ctx.check((ga.E().obj == ga.blades.flat[-1]), lab + '/E', lambda: 'E() = %s' % ga.E())
    sup = blade_sup(names, coords)
    A = ga.mv('A', 'mv')
    coef = {q for q in A.obj.free_symbols if q.is_commutative}
    if ctx.check(len(coef) == 2 ** n, 'general multivector of ' + ' '.join(names),
                 lambda: '%d independent coefficients, want %d: %s' % (len(coef), 2 ** n, A.obj)):
        wantA = sum((Symbol(coef_name('A', sup[c]), real=True) * b for c, b in zip(combos(n), ga.blades.flat)), S.Zero)
        ctx.check(sp.expand(A.obj - wantA) == 0, lab + '/general', lambda: 'general multivector %s, want %s' % (A.obj, wantA))
    ctx.step(4)
    return True


def basis_names(ctx, n):
    for lab, s, coords, names in basis_forms(n):
        if s.endswith('|'):
            s = s[:-1]
            if s[2:].isdigit():
                names = ['e_%d' % i for i in range(int(s[2:]))]    # 'e*1' is the count form
                if len(names) != n:
                    continue
            else:
                ctx.raises('%s/n%d' % (lab, n), Exception, lambda: Ga(s, g=[1]), 'a single index that is not a count')
                ctx.step()
                continue
        for gform in ('diag', 'mat', 'default'):
            if gform == 'default' and (n == 0 or n > 2):
                continue
            for wedge in (True, False):
                if not wedge and not (all(q.count('_') == 1 for q in names) and len({q.split('_')[0] for q in names}) == 1):
                    continue        # short names of blades exist for a common root only
                kw = {} if wedge else {'wedge': False}
                if gform != 'default':
                    d = [1, -2, 3, Rational(-1, 2)][:n]
                    kw['g'] = d if gform == 'diag' else sp.diag(*d) if n else Matrix(0, 0, [])
                if coords is not None:
                    kw['coords'] = coords
                key = 'n%d/%s/%s/wedge=%s' % (n, lab, gform, wedge)
                ok, ga = ctx.guard(key, Ga, s, **kw)
                ctx.step()
                ctx.trace()
                if not ok:
                    continue
                ctx.state(key)
                ctx.guard(key, check_names, ctx, key, ga, names, coords, wedge)
                if coords is not None:
                    ctx.check(list(ga.coords) == list(coords), key + '/coords', 'coords %s' % (ga.coords,))
                    cv = sum((c * b for c, b in zip(coords, ga.basis)), S.Zero)
                    ctx.check(sp.expand(ga.coord_vec - cv) == 0, key + '/coord_vec', lambda: str(ga.coord_vec))
    ctx.sample('all basis string forms with n=%d: names, blades, indexes, wedges and coefficient names' % n)


def sym_list(ctx):
    """symbols_list against its documented rules."""
    cases = []
    for root in ('e', 'a', 'gamma'):
        for n in range(0, 5):
            for sub in (True, False):
                p = '_' if sub else '__'
                cases.append((dict(s='%s*%d' % (root, n), sub=sub), [root + p + str(i) for i in range(n)]))
                for idx in (['1', '2', '3', '4'], ['x', 'yy', 'Z', '0']):
                    if n:
                        if n > 1:
                            cases.append((dict(s=root + '*' + '|'.join(idx[:n]), sub=sub), [root + p + i for i in idx[:n]]))
                        cases.append((dict(s=root, indices=idx[:n], sub=sub), [root + p + i for i in idx[:n]]))
                    cases.append((dict(s=root, indices=XYZ[:n], sub=sub), [root + p + str(i) for i in XYZ[:n]]))
                    cases.append((dict(s=root, indices=list(range(n)), sub=sub), [root + p + str(i) for i in range(n)]))
    for k, ss in SETS.items():
        for n, names in ss.items():
            for sub in (True, False):
                want = names if sub else [q.replace('_', '__', 1) for q in names]
                if n > 1:
                    cases.append((dict(s=' '.join(names), sub=sub), want))
                    cases.append((dict(s=','.join(names), sub=sub), want))
                cases.append((dict(s=','.join(names) + ',', sub=sub), want))
    cases.append((dict(s=''), []))
    for kw, want in cases:
        for k2 in (kw, dict(kw, commutative=False)):
            key = 'symbols_list(%s)' % (sorted((a, str(b)) for a, b in k2.items()),)
            ok, res = ctx.guard(key, symbols_list, **k2)
            ctx.step()
            if ok:
                ctx.check([str(q) for q in res] == want, key, lambda: 'got %s want %s' % (res, want))
                ctx.check(not any(q.is_commutative for q in res), key + '/com', 'commuting basis symbols')
                ctx.state((key, str(res)))
    L = symbols_list('a b')
    ctx.check(symbols_list(L) == L, 'symbols_list(list)', 'a list is returned unchanged')
    ctx.sample('symbols_list: %d argument combinations' % len(cases))


# ------------------------------------------------------------ metrics
def tok_value(tok, basis, i, j):
    if tok == '#':
        return DotProductSymbol(basis[min(i, j)], basis[max(i, j)])
    return Rational(tok)


def sym_tokens(n, diag_alphabet, off_alphabet):
    pos = [(i, j) for i in range(n) for j in range(i + 1, n)]
    for d in diag_alphabet:
        for o in itertools.product(off_alphabet, repeat=len(pos)):
            m = [['0'] * n for _ in range(n)]
            for i in range(n):
                m[i][i] = d[i]
            for (i, j), e in zip(pos, o):
                m[i][j] = m[j][i] = e
            yield m


def metric_inputs(m):
    """Every form of g that describes the token matrix m."""
    n = len(m)
    flat = [e for row in m for e in row]
    if n > 1:
        yield 'string', ','.join(' '.join(row) for row in m)
        yield 'string, spaced rows', ', '.join(' '.join(row) for row in m)
    diagonal = all(m[i][j] == '0' for i in range(n) for j in range(n) if i != j)
    if diagonal:
        yield 'diagonal string', ' '.join(m[i][i] for i in range(n))
    if all(e == '#' for e in flat):
        yield 'default', None
    if '#' not in flat:
        q = [[Rational(e) for e in row] for row in m]
        yield 'rows', q
        yield 'rows of ints', [[int(e) if e.q == 1 else e for e in row] for row in q]
        yield 'tuple of rows', tuple(list(r_) for r_ in q)
        yield 'Matrix', Matrix(q)
        yield 'ImmutableMatrix', ImmutableMatrix(q)
        if diagonal:
            yield 'list', [q[i][i] for i in range(n)]
            yield 'tuple', tuple(q[i][i] for i in range(n))


def same_algebra(ctx, lab, ga, ex, products=True):
    """The algebra ga is the explicit algebra ex (same names, so same symbols)."""
    n = ex.n
    ctx.check(ga.g == ex.g, lab + '/g', lambda: 'g = %s, want %s' % (ga.g, ex.g))
    ctx.check(ga.is_ortho == ex.is_ortho, lab + '/is_ortho', 'is_ortho %s want %s' % (ga.is_ortho, ex.is_ortho))
    ctx.check(ga.blades == ex.blades, lab + '/blades', lambda: '%s want %s' % (ga.blades, ex.blades))
    if products:
        B, C = ga.mv(), ex.mv()
        for i in range(n):
            for j in range(n):
                for op in ('*', '|'):
                    a = (B[i] * B[j]) if op == '*' else (B[i] | B[j])
                    b = (C[i] * C[j]) if op == '*' else (C[i] | C[j])
                    ctx.step()
                    ctx.check(sp.expand(a.obj - b.obj) == 0, '%s/e%d%se%d' % (lab, i + 1, op, j + 1), lambda: '%s want %s' % (a.obj, b.obj))
                d = (B[i] | B[j]).obj
                ctx.check(sp.expand(d - ex.g[i, j]) == 0, '%s/dot%d%d' % (lab, i + 1, j + 1), lambda: 'e_i|e_j = %s, g_ij = %s' % (d, ex.g[i, j]))
        ctx.check(sp.expand((ga.E() * ga.E()).obj - (ex.E() * ex.E()).obj) == 0, lab + '/E*E', 'square of the pseudoscalar')
    ctx.check(sp.expand(ga.e_sq - ex.e_sq) == 0, lab + '/e_sq', lambda: 'e_sq %s want %s' % (ga.e_sq, ex.e_sq))


def metric_forms(ctx, n, diags, offs, sl, names=0):
    bases = ['e*' + '|'.join('1234'[:n]) if n > 1 else 'e_1,', ','.join(LETTER[n]) + ',']
    k = 0
    for k, m in enumerate(sym_tokens(n, diags, offs)):
        if k % sl[1] != sl[0]:
            continue
        s = bases[names]
        forms = list(metric_inputs(m))
        syms = symbols_list(s)
        want = Matrix([[tok_value(m[i][j], syms, i, j) for j in range(n)] for i in range(n)])
        key0 = 'n%d/%s' % (n, ';'.join(' '.join(row) for row in m))
        ok, ex = ctx.guard(key0 + '/explicit', Ga, s, g=want)
        if not ok:
            continue
        ctx.check(ex.g == want and ex.g.shape == (n, n), key0 + '/explicit', lambda: '%s' % ex.g)
        ortho = all(want[i, j] == 0 for i in range(n) for j in range(n) if i != j)
        ctx.check(bool(ex.is_ortho) == ortho, key0 + '/explicit ortho', str(ex.is_ortho))
        for lab, g in forms:
            key = key0 + '/' + lab
            ok, ga = ctx.guard(key, Ga, s, g=g) if lab != 'default' or k % 2 else ctx.guard(key, Ga, s)
            ctx.step()
            ctx.trace()
            ctx.state(key)
            if ok:
                ctx.guard(key, same_algebra, ctx, key, ga, ex, products=(lab in ('string', 'diagonal string', 'default') or k % 3 == 0))
                ctx.outcome(str(ga.g))
    ctx.sample('n=%d: every metric form of the token matrices, slice %d/%d' % (n, sl[0], sl[1]))


# ------------------------------------------------------------ multivectors
def MVALG():
    return {
        'n0': ('', [], None),
        'E1': ('e_1,', [1], None),
        'E1c': ('e', [1], (x,)),
        'E2': ('e*1|2', [1, 1], None),
        'E2c': ('e*1|2', [1, 1], (x, y)),
        'E2root': ('e', [1, 1], [u, v]),
        'O2c': ('a b', [[1, Rational(1, 2)], [Rational(1, 2), 3]], (x, y)),
        'SYM2': ('a b', None, None),
        'E3': ('e*1|2|3', [1, 1, 1], None),
        'PGA2c': ('e', [0, 1, 1], (x, y, z)),
        'POL3c': ('e', [1, r ** 2, 1], (r, th, z)),
        'LET3': ('a,b,c', [1, -1, 2], None),
        'STA': ('gamma*0|1|2|3', [1, -1, -1, -1], (t, x, y, z)),
        'D4': ('e*1|2|3|4', [1, -2, 3, 0], None),
    }


def make(name):
    s, g, c = MVALG()[name]
    kw = {}
    if g is not None:
        kw['g'] = g
    if c is not None:
        kw['coords'] = c
    ga = Ga(s, **kw)
    names = [str(b) for b in ga.basis]
    return ga, names, c


def kinds(n):
    """(label, positional arguments, grades it names)"""
    out = [('scalar', ('scalar',), [0]), ('mv', ('mv',), list(range(n + 1))), ('even', ('even',), list(range(0, n + 1, 2))),
           ('spinor', ('spinor',), list(range(0, n + 1, 2))), ('odd', ('odd',), list(range(1, n + 1, 2))), ('pseudo', ('pseudo',), [n])]
    if n >= 1:
        out.append(('vector', ('vector',), [1]))
    if n >= 2:
        out += [('bivector', ('bivector',), [2]), ('grade2', ('grade2',), [2])]
    for k in range(n + 1):
        out += [('grade %d' % k, ('grade', k), [k]), ('int %d' % k, (k,), [k])]
    return out


def named(ctx, name):
    """mv(root, kind, f=...)"""
    ga, names, coords = make(name)
    n = ga.n
    sup = blade_sup(names, coords)
    allc = combos(n)
    fs = [('absent', {}, None), ('False', {'f': False}, None)]
    if coords is not None:
        fs += [('True', {'f': True}, tuple(coords))]
    fs += [('(t,)', {'f': (t,)}, (t,)), ('(x,t)', {'f': (x, t)}, (x, t)), ('[u,v,t]', {'f': [u, v, t]}, (u, v, t))]
    if coords is not None:
        fs += [('first', {'f': tuple(coords)[:1]}, tuple(coords)[:1]), ('reversed', {'f': tuple(coords)[::-1]}, tuple(coords)[::-1])]
    blade = dict(zip(allc, ga.blades.flat))

    def want(root, grades, args):
        e = S.Zero
        for c in allc:
            if len(c) in grades:
                nm = coef_name(root, sup[c])
                q = Symbol(nm, real=True) if args is None else Function(nm, real=True)(*args)
                e += q * blade[c]
        return e

    def compare(key, A, root, grades, args):
        w = want(root, grades, args)
        if not ctx.check(isinstance(A, Mv), key, 'not a multivector: %r' % (A,)):
            return
        ctx.check(sp.expand(A.obj - w) == 0, key, lambda: 'got %s want %s' % (A.obj, w))
        ctx.check(A.Ga is ga, key + '/Ga', 'belongs to another algebra')
        for k in range(n + 1):
            ctx.check(A.grade(k).obj == want(root, [k] if k in grades else [], args) or sp.expand(A.grade(k).obj - want(root, [k] if k in grades else [], args)) == 0,
                      key + '/grade', lambda: 'grade %d is %s' % (k, A.grade(k)))
        ctx.check(A.is_scalar() == (grades in ([0], [])), key + '/is_scalar', str(A.is_scalar()))
        ctx.state((key, str(A.obj)))

    for root in ('A', 'psi', 'a_1', 'B'):
        for kl, pos, grades in kinds(n):
            for fl, kw, args in fs:
                if root != 'A' and fl not in ('absent', 'True', '(x,t)'):
                    continue
                key = '%s/mv(%s,%s,f=%s)' % (name, root, kl, fl)
                for ctor, F in (('ga.mv', lambda: ga.mv(root, *pos, **kw)), ('Mv', lambda: Mv(root, *pos, ga=ga, **kw))):
                    ok, A = ctx.guard(key + ctor, F)
                    ctx.step()
                    ctx.trace()
                    if ok:
                        compare(key + ctor, A, root, grades, args)
    # several names at once
    ks = kinds(n)
    for roots in (['A', 'B'], ['p', 'q_1', 'R'], ['A', 'B', 'C', 'D']):
        for kl, pos, grades in ks:
            for fl, kw, args in fs[:4]:
                key = '%s/mv(%s,%s,f=%s)' % (name, ' '.join(roots), kl, fl)
                ok, L = ctx.guard(key, lambda: ga.mv(' '.join(roots), *pos, **kw))
                ctx.step()
                if ok and ctx.check(isinstance(L, tuple) and len(L) == len(roots), key, lambda: 'got %r' % (L,)):
                    for rt, A in zip(roots, L):
                        compare(key + rt, A, rt, grades, args)
    cats = [k for k in ks if len(k[1]) == 1 and isinstance(k[1][0], str)]
    for k1, k2 in itertools.product(cats, repeat=2):
        for fl, kw, args in (fs[0], fs[2]):
            key = '%s/mv(A B,%s %s,f=%s)' % (name, k1[0], k2[0], fl)
            ok, L = ctx.guard(key, lambda: ga.mv('A B', k1[0] + ' ' + k2[0], **kw))
            ctx.step()
            if ok and ctx.check(isinstance(L, tuple) and len(L) == 2, key, lambda: 'got %r' % (L,)):
                compare(key + 'A', L[0], 'A', k1[2], args)
                compare(key + 'B', L[1], 'B', k2[2], args)
    for k1, k2, k3 in itertools.permutations([k for k in cats if k[0] in ('scalar', 'vector', 'mv', 'odd')], 3):
        key = '%s/mv(A B C,%s %s %s)' % (name, k1[0], k2[0], k3[0])
        ok, L = ctx.guard(key, lambda: ga.mv('A B C', ' '.join([k1[0], k2[0], k3[0]])))
        ctx.step()
        if ok and ctx.check(isinstance(L, tuple) and len(L) == 3, key, lambda: 'got %r' % (L,)):
            for rt, A, k in zip('ABC', L, (k1, k2, k3)):
                compare(key + rt, A, rt, k[2], None)
    ctx.sample('%s: named multivectors of every kind and dependence' % name)


def coeffs(ctx, name):
    """mv(coefficients, kind), every length; values, expressions and copies."""
    ga, names, coords = make(name)
    n = ga.n
    c0 = symbols('c0:8', real=True)
    pools = [list(c0), [3, 0, -1, Rational(1, 2), 2, 5, 7, 1], [x * y, sp.sin(x), S.Zero, c0[0] + c0[1], 1 / (1 + x ** 2), 1, x, y]]
    for kl, pos, grades in kinds(n):
        if len(grades) != 1 or kl in ('scalar', 'int 0', 'mv', 'even', 'spinor', 'odd'):
            continue
        bl = ga.blades[grades[0]]
        for m in range(len(bl) + 1):
            for pi, pool in enumerate(pools):
                for cont in (list, tuple):
                    cs = cont(pool[:m])
                    w = sum((sp.sympify(c) * b for c, b in zip(cs, bl)), S.Zero)
                    key = '%s/mv(%s %s,%s)' % (name, cont.__name__, cs, kl)
                    ok, A = ctx.guard(key, lambda: ga.mv(cs, *pos))
                    ctx.step()
                    ctx.trace()
                    if ok:
                        ctx.check(sp.expand(A.obj - w) == 0, key, lambda: 'got %s want %s' % (A.obj, w))
                        ctx.check((A - ga.mv(w)).is_zero() if hasattr(A, 'is_zero') else A == ga.mv(w), key + '/eq', 'differs from the expression')
                        ctx.state((key, str(A.obj)))
        for extra in (1, 2):
            ctx.step()
            ctx.raises('%s/too many %s+%d' % (name, kl, extra), Exception, lambda: ga.mv([1] * (len(bl) + extra), *pos), 'too many coefficients')
    vals = [0, 3, -2, Rational(3, 4), 0.5, x, x * y + 1, sp.sin(x), sp.sqrt(2), c0[0]]
    for val in vals:
        for lab, F in (('', lambda: ga.mv(val)), ('scalar', lambda: ga.mv(val, 'scalar')), ('0', lambda: ga.mv(val, 0)), ('Mv', lambda: Mv(val, ga=ga))):
            key = '%s/mv(%s,%s)' % (name, val, lab)
            ok, A = ctx.guard(key, F)
            ctx.step()
            if ok:
                ctx.check(isinstance(A, Mv) and A.obj == sp.sympify(val) and A.is_scalar(), key, lambda: 'got %s' % A)
                B = ga.mv(sp.sympify(val))
                for use, fn in (('grade', lambda M: M.grade(0)), ('expand', lambda M: M.expand()), ('simplify', lambda M: M.simplify()), ('coefs', lambda M: M.blade_coefs()), ('get_coefs', lambda M: M.get_coefs(0)), ('subs', lambda M: M.subs(x, 2)),
                                ('hash', hash), ('components', lambda M: M.components()), ('str', str), ('product', lambda M: M * M), ('sum', lambda M: M + 1), ('collect', lambda M: M.collect()), ('mag2', lambda M: M.mag2()),
                                ('even', lambda M: M.even()), ('rev', lambda M: M.rev()), ('norm2', lambda M: M.norm2()), ('is_base', lambda M: M.is_base()), ('func', lambda M: M.func(sp.expand)), ('exp', lambda M: M.exp())):
                    ok, r = ctx.guard('%s.%s' % (key, use), fn, A)
                    ctx.step()
                    if ok:
                        ctx.check(r == fn(B), '%s.%s' % (key, use), lambda: '%s, of the element made of the expression %s' % (r, fn(B)))
                    ctx.state((key, use))
    ok, Z = ctx.guard(name + '/Mv()', lambda: Mv(ga=ga))
    if ok:
        ctx.check(Z.obj == 0 and Z.Ga is ga, name + '/Mv()', 'not zero: %s' % Z)
    # expressions in the blades, and copies
    for mask in itertools.product((0, 1), repeat=len(ga.blades.flat)):
        if sum(mask) > 3:
            continue
        e = sum((c0[i % 8] * (i + 1) * b for i, (m, b) in enumerate(zip(mask, ga.blades.flat)) if m), S.Zero)
        key = '%s/expr %s' % (name, mask)
        ok, A = ctx.guard(key, ga.mv, e)
        ctx.step()
        if ok:
            ctx.check(sp.expand(A.obj - e) == 0, key, lambda: 'got %s' % A)
            gr = sorted({len(c) for c, m in zip(combos(n), mask) if m}) or [0]
            ctx.check(sorted(A.grades) == gr, key + '/grades', lambda: 'grades %s want %s' % (A.grades, gr))
            ok, B = ctx.guard(key + '/copy', ga.mv, A)
            if ok:
                ctx.check(B is not A and B.obj == A.obj and B.Ga is ga and B.is_blade_rep == A.is_blade_rep, key + '/copy', 'copy differs')
            if not ga.is_ortho:
                R = A.base_rep()
                ok, B = ctx.guard(key + '/copy base', ga.mv, R)
                if ok:
                    ctx.check(B.obj == R.obj and sp.expand(B.blade_rep().obj - e) == 0, key + '/copy base', 'copy of the base form differs')
    ctx.sample('%s: coefficient lists of every length, values, expressions, copies' % name)


def tables(ctx, name):
    """The named collections an algebra offers."""
    ga, names, coords = make(name)
    n = ga.n
    ctx.check([m.obj for m in ga.mv_blades.flat] == list(ga.blades.flat), name + '/mv_blades', 'mv_blades')
    ctx.check([m.obj for m in ga.mv_basis] == list(ga.basis), name + '/mv_basis', 'mv_basis')
    ctx.check(list(ga.basis_vectors()) == list(ga.basis), name + '/basis_vectors', 'basis_vectors')
    for c, b in zip(combos(n), ga.blades.flat):
        ctx.check(ga.indexes_to_blades_dict[c] == b and ga.indexes_to_blades_dict.inverse[b] == c, name + '/idx%s' % (c,), 'index dictionary')
        ctx.check(ga.blades_to_grades_dict[b] == len(c), name + '/grade%s' % (c,), 'grade dictionary')
        ctx.step(2)
    if not ga.is_ortho:
        for c, b in zip(combos(n), ga.bases.flat):
            ctx.check(ga.indexes_to_bases_dict[c] == b and ga.indexes_to_bases_dict.inverse[b] == c, name + '/bidx%s' % (c,), 'base index dictionary')
            ctx.check(ga.bases_to_grades_dict[b] == len(c), name + '/bgrade%s' % (c,), 'base grade dictionary')
    digits = [''.join(ch for ch in s if ch.isdigit()) for s in names]
    if n and all(digits):
        for pre in (None, 'e', 'b', ''):
            d = ga.bases_dict() if pre is None else ga.bases_dict(pre)
            w = {('e' if pre is None else pre) + ''.join(digits[i] for i in c): b for c, b in zip(combos(n), ga.blades.flat) if c}
            ctx.step()
            ctx.check({k: getattr(q, 'obj', q) for k, q in d.items()} == w, '%s/bases_dict(%s)' % (name, pre), lambda: '%s want %s' % (d, w))
    if coords is not None:
        g1, g2 = ga.grads()
        ctx.check(g1 is ga.grad and g2 is ga.rgrad, name + '/grads', 'grads()')
    else:
        ctx.raises(name + '/grads', ValueError, ga.grads, 'grads without coordinates')
        ctx.raises(name + '/coord_vec', ValueError, lambda: ga.coord_vec, 'coord_vec without coordinates')
    s, g, c = MVALG()[name]
    kw = dict(g=g) if g is not None else {}
    if c is not None:
        kw['coords'] = c
    B = Ga.build(s, **kw)
    ctx.check(isinstance(B, tuple) and isinstance(B[0], Ga) and len(B) == n + 1 and [b.obj for b in B[1:]] == list(B[0].basis)
              and all(b.Ga is B[0] for b in B[1:]) and B[0].g == ga.g and [str(b) for b in B[0].basis] == names, name + '/build', lambda: str(B))
    ctx.check(B[0] != ga and ga == ga, name + '/identity', 'two constructions are two algebras')
    ctx.state((name, str(ga.blades)))
    ctx.trace()


# ------------------------------------------------------------ coordinates, manifolds, hints
def manifold(ctx, which, norm):
    sin, cos, sinh, cosh = sp.sin, sp.cos, sp.sinh, sp.cosh
    R = symbols('R', positive=True)
    rp = symbols('r', positive=True)
    M = {
        'cart2': ((x, y), [x, y], 'e'),
        'polar': ((rp, th), [rp * cos(th), rp * sin(th)], 'e'),
        'polar named': ((rp, th), [rp * cos(th), rp * sin(th)], 'a b'),
        'sphere': ((th, ph), [R * sin(th) * cos(ph), R * sin(th) * sin(ph), R * cos(th)], 'e'),
        'paraboloid': ((u, v), [u, v, u ** 2 + v ** 2], 'e*u|v'),
        'paraboloid of revolution': ((rp, th), [rp * cos(th), rp * sin(th), rp ** 2], 'e'),
        'curve': ((t,), [cos(t), sin(t), t], 'e'),
        'cylindrical': ((rp, th, z), [rp * cos(th), rp * sin(th), z], 'e*1|2|3'),
        'spherical': ((rp, th, ph), [rp * sin(th) * cos(ph), rp * sin(th) * sin(ph), rp * cos(th)], 'e'),
        'skew': ((u, v), [u + 2 * v, v - u], 'e'),
        'parabolic': ((u, v), [(u ** 2 - v ** 2) / 2, u * v], 'e'),
    }
    coords, X, s = M[which]
    n = len(coords)
    g = Matrix(n, n, lambda i, j: sp.simplify(sum(sp.diff(q, coords[i]) * sp.diff(q, coords[j]) for q in X)))
    diagonal = all(g[i, j] == 0 for i in range(n) for j in range(n) if i != j)
    F = lambda ga: ga.mv('F', 'mv', f=True)   # noqa
    forms = [('X list', dict(X=X, coords=coords)), ('X tuple', dict(X=tuple(X), coords=list(coords))), ('Matrix', dict(g=g, coords=coords)),
             ('rows', dict(g=g.tolist(), coords=list(coords)))]
    if diagonal:
        forms += [('list', dict(g=[g[i, i] for i in range(n)], coords=coords)), ('tuple', dict(g=tuple(g[i, i] for i in range(n)), coords=coords))]
    elif norm:
        for lab, kw in forms:
            ctx.step()
            ctx.raises('%s/%s/norm' % (which, lab), Exception, lambda: Ga(s, norm=True, **kw), 'norm of a basis that is not orthogonal')
        return
    zero = lambda e: sp.simplify(sp.expand(e)) == 0   # noqa
    first = None
    for lab, kw in forms:
        key = '%s/%s/norm=%s' % (which, lab, norm)
        ok, ga = ctx.guard(key, Ga, s, norm=norm, **kw) if norm else ctx.guard(key, Ga, s, **kw)
        ctx.step()
        ctx.trace()
        if not ok:
            continue
        wg = sp.eye(n) if norm else g
        ctx.check(all(zero(ga.g[i, j] - wg[i, j]) for i in range(n) for j in range(n)), key + '/g', lambda: 'g = %s want %s' % (ga.g, wg))
        if norm:
            ctx.check(all(zero(ga.e_norm[i] ** 2 - g[i, i]) for i in range(n)), key + '/e_norm', lambda: 'norms %s' % (ga.e_norm,))
        # the gradient of each coordinate is its reciprocal vector
        B = ga.mv()
        for i in range(n):
            G = ga.grad * ga.mv(coords[i])
            for j in range(n):
                w = S.One if i == j else S.Zero
                got = (G | B[j]).obj * (ga.e_norm[j] if norm else 1)
                ctx.step()
                ctx.check(zero(got - w), '%s/grad x%d.e%d' % (key, i, j), lambda: 'got %s want %s' % (got, w))
        res = (ga.g, [(ga.grad * b).obj for b in B], ga.grad * F(ga))
        if first is None:
            first = res
        else:
            ctx.check(all(zero(p - q) for p, q in zip(res[0], first[0])), key + '/same g', 'differs from the first form')
            ctx.check(all(zero(ga.mv(p - q).simplify().obj) for p, q in zip(res[1], first[1])), key + '/same de', lambda: 'derivatives of the basis %s, first form %s' % (res[1], first[1]))
            D = ga.mv(res[2].obj - first[2].obj).simplify()
            ctx.check(zero(D.obj), key + '/same grad', lambda: 'gradient differs by %s' % D)
        ctx.state((key, str(ga.g), str(res[2].obj)))
    ctx.sample('%s norm=%s: %s' % (which, norm, [f[0] for f in forms]))


def gform(ctx, n):
    """g='g': general symbolic metric functions of the coordinates; gsym; sig and Isq hints."""
    cs = XYZ[:n]
    for s in ('e', ','.join(LETTER[n]) + ','):
        ok, ga = ctx.guard('g/%s' % s, Ga, s, g='g', coords=cs)
        ctx.step()
        if ok:
            for i, j in itertools.product(range(n), repeat=2):
                a, b = cs[min(i, j)], cs[max(i, j)]
                w = Function('g_%s_%s' % (a, b))(*cs)
                wi = Function('g__%s__%s' % (a, b))(*cs)
                ctx.step()
                ctx.check(ga.g[i, j] == w and ga.g_inv[i, j] == wi, 'g/%s/%d%d' % (s, i, j), lambda: 'entry %s %s' % (ga.g[i, j], ga.g_inv[i, j]))
            ctx.state(('g', s, n))
    ga = None
    for sig in ['e', 'm+', 'm-'] + list(range(n + 1)):
        w = {'e': (n, 0), 'm+': (n - 1, 1), 'm-': (1, n - 1)}.get(sig) or (sig, n - sig)
        for isq in '+-':
            if n < 2:
                continue
            key = 'sig=%s Isq=%s n=%d' % (sig, isq, n)
            ok, ga = ctx.guard(key, Ga, 'e*' + '|'.join('1234'[:n]), sig=sig, Isq=isq)
            ctx.step()
            if ok:
                ctx.check(tuple(ga.sig) == w, key, lambda: 'sig %s want %s' % (ga.sig, w))
                sgn = '+' if (n * (n - 1) // 2 + w[1]) % 2 == 0 else '-'
                ctx.check(ga.e_sq_sgn == sgn, key + '/e_sq_sgn', 'sign %s want %s' % (ga.e_sq_sgn, sgn))
                q = sp.simplify((ga.I() * ga.I()).obj)
                ctx.check(q == (1 if isq == '+' else -1), key + '/I', lambda: 'I**2 = %s' % q)
                ctx.state(key)
    for gs in (None, 'g', 'h'):
        for c in (None, cs):
            if n < 2:
                continue
            key = 'gsym=%s coords=%s n=%d' % (gs, c, n)
            kw = {} if c is None else {'coords': c}
            ok, ga = ctx.guard(key, Ga, 'e*' + '|'.join('1234'[:n]), g=[2] * n, gsym=gs, **kw)
            ctx.step()
            if ok:
                ok, dt = ctx.guard(key, lambda: ga.detg)
                if ok and gs is None:
                    ctx.check(dt.doit() == 2 ** n, key, lambda: 'detg %s' % dt)
                elif ok:
                    want = 'det(%s)' % gs
                    ctx.check(str(dt).replace('Determinant', 'det').startswith(want[:-1]), key, lambda: 'detg %s' % dt)
    ctx.sample("n=%d: g='g', sig, Isq and gsym" % n)


def helpers(ctx, n):
    """Cl(p,q,r) of both flavours, from every dual mode; presets."""
    from galgebra.interop import Cl as CL
    from galgebra.interop.kingdon import Cl as KCL
    for p, q, r_ in itertools.product(range(n + 1), repeat=3):
        if p + q + r_ != n:
            continue
        forms = [((p, q, r_), {})]
        if r_ == 0:
            forms.append(((p, q), {}))
            if q == 0:
                forms.append(((p,), {}))
        for fl, F, base, mode in (('galgebra', CL, 1, 'I+'), ('kingdon', KCL, 0, 'Iinv+')):
            for before in Ga.dual_mode_lst if (p, q, r_) == (n, 0, 0) else ('I+', '-Iinv'):
                for args, kw in forms:
                    for root in (None, 'f', 'ga'):
                        for coords in (None, XYZ[:n]):
                            if before != 'I+' and (root or coords):
                                continue
                            k2 = dict(kw)
                            if root:
                                k2['root'] = root
                            if coords:
                                k2['coords'] = coords
                            key = '%s.Cl%s root=%s coords=%s after %s' % (fl, args, root, coords, before)
                            Ga.dual_mode(before)
                            ok, res = ctx.guard(key, F, *args, **k2)
                            ctx.step()
                            ctx.trace()
                            if not ok:
                                continue
                            names = ['%s_%d' % (root or 'e', i + base) for i in range(n)]
                            ctx.check(isinstance(res, tuple) and len(res) == n + 1 and isinstance(res[0], Ga), key, lambda: str(res))
                            ga = res[0]
                            ctx.check(ga.g == sp.diag(*([1] * p + [-1] * q + [0] * r_)), key + '/g', lambda: str(ga.g))
                            ctx.check([str(b) for b in ga.basis] == names and [b.obj for b in res[1:]] == list(ga.basis), key + '/names', lambda: str(res[1:]))
                            ctx.check(all(b.Ga is ga for b in res[1:]), key + '/ga', 'basis of another algebra')
                            ctx.check(Ga.dual_mode_value == mode, key + '/dual mode', 'dual mode %s' % Ga.dual_mode_value)
                            for i, b in enumerate(res[1:]):
                                ctx.check((b * b).obj == ([1] * p + [-1] * q + [0] * r_)[i], key + '/square%d' % i, lambda: str(b * b))
                            if coords:
                                ctx.check(list(ga.coords) == list(coords), key + '/coords', str(ga.coords))
                            ctx.state(key)
    Ga.dual_mode('I+')
    for F in (CL, KCL):
        before = Ga.dual_mode_value
        ctx.raises('Cl(0)', ValueError, lambda: F(0), 'Cl(0)')
        ctx.raises('Cl(0,0,0)', ValueError, lambda: F(0, 0, 0), 'Cl(0,0,0)')
        ctx.check(Ga.dual_mode_value == before, 'Cl(0)/dual mode', 'a refused Cl changed the dual mode')
        for bad in ((-1, n + 1), (n + 1, -1), (n, 0, -1), (-n,), (0, -n)):
            ctx.step()
            ctx.raises('Cl%s' % (bad,), Exception, lambda: F(*bad), 'negative count')
        Ga.dual_mode('I+')
    ctx.sample('Cl(p,q,r), p+q+r=%d, both flavours' % n)


def big(ctx, n):
    """Names in dimensions with two-digit indices."""
    from galgebra.interop import Cl as CL
    from galgebra.interop.kingdon import Cl as KCL
    for fl, F, base in (('galgebra', CL, 1), ('kingdon', KCL, 0)):
        key = '%s.Cl(%d)' % (fl, n)
        ok, res = ctx.guard(key, F, n)
        ctx.step()
        ctx.trace()
        if not ok:
            continue
        ga = res[0]
        names = ['e_%d' % (i + base) for i in range(n)]
        ctx.check([str(b) for b in ga.basis] == names, key, lambda: str(ga.basis))
        sup = blade_sup(names, None)
        for kind, k in (('vector', 1), ('bivector', 2), ('pseudo', n)):
            A = ga.mv('A', kind)
            w = {b: Symbol(coef_name('A', sup[c]), real=True) for c, b in zip(combos(n), ga.blades.flat) if len(c) == k}
            ctx.check(sp.expand(A.obj - sum(c * b for b, c in w.items())) == 0, key + kind, lambda: 'got %s' % A.obj)
            ctx.state((key, kind))
        ctx.check((res[1] ^ res[n]).obj == ga.blades[2][n - 2], key + '/wedge', 'e_1^e_n')


def presets(ctx):
    R, TH, PH, Z = symbols('r theta phi z', real=True)
    U, V = symbols('u v', real=True)
    X, Y = symbols('x y', real=True)
    want = {'o3d': ((X, Y, Z), [1, 1, 1]), 'cyl3d': ((R, TH, Z), [1, R ** 2, 1]), 'sph3d': ((R, TH, PH), [1, R ** 2, R ** 2 * sp.cos(TH) ** 2]),
            'para3d': ((U, V, Z), [U ** 2 + V ** 2, U ** 2 + V ** 2, 1])}
    for nm, (cs, g) in want.items():
        for root in (None, 'e', 'b'):
            key = 'preset(%s,%s)' % (nm, root)
            ok, ga = ctx.guard(key, Ga.preset, nm, **({} if root is None else {'root': root}))
            ctx.step()
            ctx.trace()
            if not ok:
                continue
            ctx.check(list(ga.coords) == list(cs), key + '/coords', str(ga.coords))
            ctx.check([str(b) for b in ga.basis] == ['%s_%s' % (root or 'e', c) for c in cs], key + '/basis', str(ga.basis))
            norm = nm != 'o3d'
            ctx.check(ga.g == sp.eye(3), key + '/g', str(ga.g))
            ex = Ga(root or 'e', g=g, coords=cs, norm=norm)
            a = (ga.grad * ga.mv('F', 'mv', f=True)).obj
            b = (ex.grad * ex.mv('F', 'mv', f=True)).obj
            d = ga.mv(a - b).simplify()
            ctx.check(d.obj == 0, key + '/grad', lambda: 'gradient differs from the explicit construction by %s' % d)
            ctx.state(key)
    for bad in ('', 'O3D', 'foo', 'o3d '):
        ctx.step()
        ctx.raises('preset(%r)' % bad, ValueError, lambda: Ga.preset(bad), 'unknown preset')


# ------------------------------------------------------------ refusals
def refuse_metric(ctx, n):
    s = 'e*' + '|'.join('1234'[:n]) if n > 1 else 'e_1,'

    def bad(key, **kw):
        ctx.step()
        ctx.trace()
        ctx.state(('n%d' % n, key))
        ctx.raises('n%d/%s' % (n, key), Exception, lambda: Ga(s, **kw).g, 'malformed algebra')
    for m in range(0, 6):
        if 0 < m < n:      # the entries of a longer diagonal beyond the basis are not judged
            bad('list of %d' % m, g=[1] * m)
            bad('tuple of %d' % m, g=(1,) * m)
        if m != n and m > 0:
            bad('string of %d' % m, g=' '.join(['1'] * m))
            bad('symbol string of %d' % m, g=' '.join(['#'] * m))
            bad('numbers and symbols string of %d' % m, g=' '.join(['1', '#', '0', '#', '1'][:m]))
        if m == 0:
            bad('empty list', g=[])
            bad('empty string', g='')
        for k in range(1, 6):
            if (m, k) != (n, n) and m > 0:
                rows = [[1 if i == j else 0 for j in range(k)] for i in range(m)]
                bad('rows %dx%d' % (m, k), g=rows)
                bad('Matrix %dx%d' % (m, k), g=Matrix(rows))
                if m > 1:
                    bad('string %dx%d' % (m, k), g=','.join(' '.join(str(e) for e in row) for row in rows))
                    bad('symbol string %dx%d' % (m, k), g=','.join(' '.join('#' for e in row) for row in rows))
    ident = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
    for i, j in itertools.product(range(n), repeat=2):
        if i != j:
            for val in (1, 5, Rational(-1, 2), Symbol('a'), x):
                m = [list(row) for row in ident]
                m[i][j] = val
                bad('asymmetric rows %d%d=%s' % (i, j, val), g=m)
                bad('asymmetric Matrix %d%d=%s' % (i, j, val), g=Matrix(m))
                bad('asymmetric with coordinates %d%d=%s' % (i, j, val), g=m, coords=XYZ[:n])
            mm = [[str(e) for e in row] for row in ident]
            mm[i][j] = '3'
            bad('asymmetric string %d%d' % (i, j), g=','.join(' '.join(row) for row in mm))
            mm[i][j] = '#'
            bad('asymmetric symbol string %d%d' % (i, j), g=','.join(' '.join(row) for row in mm))
            # rows of unequal length
            m = [list(row) for row in ident]
            del m[i][j]
            bad('ragged rows %d%d' % (i, j), g=m)
            bad('ragged string %d%d' % (i, j), g=','.join(' '.join(str(e) for e in row) for row in m))
        for tok in ('x', 'a.b', '1/0', '--1'):
            mm = [[str(e) for e in row] for row in ident]
            mm[i][j] = mm[j][i] = tok
            if n > 1:
                bad('token %s at %d%d' % (tok, i, j), g=','.join(' '.join(row) for row in mm)) if tok != '1/0' else None
    for sig in ('x', '', 'm', '+', n + 1, n + 2, -1, -n, 1.5, None, (1, 1)):
        if n > 1:
            bad('sig %r' % (sig,), sig=sig)
            bad('sig %r string' % (sig,), sig=sig, g=','.join([' '.join(['#'] * n)] * n))
    for kw in ('G', 'metric', 'coord', 'basis', 'simplify', 'I', 'root', 'f'):
        bad('keyword %s' % kw, g=[1] * n, **{kw: 1})
    bad("g='g' without coordinates", g='g')
    bad('X without coordinates', X=[x] * n)
    for m in range(1, 5):
        if m != n:
            bad('%d coordinates for X' % m, X=[x, y, z], coords=XYZ[:m])
            bad('%d coordinates' % m, g=[1] * n, coords=XYZ[:m])
            bad('%d coordinates, function' % m, g=[1 + x ** 2] * n, coords=XYZ[:m])
    ctx.sample('n=%d: malformed metrics, hints, keywords and coordinates' % n)


def refuse_basis(ctx):
    def bad(key, *a, **kw):
        ctx.step()
        ctx.trace()
        ctx.state(key)
        ctx.raises(key, Exception, lambda: Ga(*a, **kw), 'malformed basis')
    for b in (1, None, ['a', 'b'], ('a', 'b'), symbols('a b'), symbols('a'), 2.5, {'a': 1}, b'a b'):
        bad('basis %r' % (b,), b, g=[1, 1])
    for root in ('e', 'a', 'e_1', 'gamma', 'e1'):
        bad('root %s without coordinates' % root, root, g=[1, 1])
        bad('root %s alone' % root, root)
    for n in range(2, 5):
        nm = LETTER[n]
        for i, j in itertools.permutations(range(n), 2):
            k = list(nm)
            k[i] = k[j]
            bad('repeated name %s' % ' '.join(k), ' '.join(k), g=[1] * n)
            bad('repeated name, commas %s' % ','.join(k), ','.join(k), g=[1] * n)
            ix = [str(q) for q in range(n)]
            ix[i] = ix[j]
            bad('repeated index %s' % ix, 'e*' + '|'.join(ix), g=[1] * n)
            cs = list(XYZ[:n])
            cs[i] = cs[j]
            bad('repeated coordinate %s' % cs, 'e', g=[1] * n, coords=cs)
    for b in ('e*x', 'e*1*2', 'e**2', 'e*', 'e*2.5', 'e*1,2'):
        bad('star form %s' % b, b, g=[1, 1])
    for m in Ga.dual_mode_lst:
        ctx.guard('dual mode ' + m, Ga.dual_mode, m)
        for b in ('', 'I', '+', 'i+', 'I*', '+I+', 'inv', ' I+', 'Iinv', '+ I'):
            ctx.step()
            ctx.raises('dual mode %r' % b, ValueError, lambda: Ga.dual_mode(b), 'unknown dual mode')
            ctx.check(Ga.dual_mode_value == m, 'dual mode %r after %s' % (b, m), 'a refused mode changed the mode')
    Ga.dual_mode('I+')
    ctx.sample('malformed basis descriptions and dual modes')


def refuse_mv(ctx, name):
    ga, names, coords = make(name)
    n = ga.n
    bases = dict(Ga=Ga.dual_mode_value)

    def bad(key, F):
        ctx.step()
        ctx.trace()
        ctx.state((name, key))
        ctx.raises('%s/%s' % (name, key), Exception, F, 'malformed multivector')
    for k in (-3, -2, -1, n + 1, n + 2):
        bad('mv(A,%d)' % k, lambda: ga.mv('A', k))
        bad('mv(A,grade,%d)' % k, lambda: ga.mv('A', 'grade', k))
        bad('mv([1],%d)' % k, lambda: ga.mv([1], k))
        bad('mv([],%d)' % k, lambda: ga.mv([], k))
        bad('mv([1],grade,%d)' % k, lambda: ga.mv([1], 'grade', k))
        bad('mv(A B,%d)' % k, lambda: ga.mv('A B', k))
        if coords is not None:
            bad('mv(A,%d,f)' % k, lambda: ga.mv('A', k, f=True))
    for kind in ('', 'Vector', 'vec', 'vectors', 'grade1', 'grade3', 'trivector', 'multivector', 'base', 'blade', 'tensor', '0', '1', '__init__'):
        bad('mv(A,%r)' % kind, lambda: ga.mv('A', kind))
        bad('mv([1],%r)' % kind, lambda: ga.mv([1], kind))
        bad('mv(A B,%r)' % kind, lambda: ga.mv('A B', kind))
        if kind:
            bad('mv(A B,vector %s)' % kind, lambda: ga.mv('A B', 'scalar ' + kind))
            bad('mv(A B,%s vector)' % kind, lambda: ga.mv('A B', kind + ' scalar'))
    for kl, pos, grades in kinds(n):
        for kw in ('F', 'g', 'coord', 'grade', 'commutative', 'real', 'name'):
            if n == 0 and kl == 'odd':
                continue
            bad('mv(A,%s,%s=)' % (kl, kw), lambda: ga.mv('A', *pos, **{kw: True}))
            bad('mv(1,%s=)' % kw, lambda: ga.mv(x, **{kw: True}))
        bad('mv(A,%s,extra)' % kl, lambda: ga.mv('A', *(pos + (1,))))
        if kl in ('mv', 'even', 'spinor', 'odd'):
            bad('mv([1,2],%s)' % kl, lambda: ga.mv([1, 2], *pos))
        elif kl not in ('scalar', 'int 0', 'grade 0'):
            bad('mv([1],%s,f=True)' % kl, lambda: ga.mv([1], *pos, f=True))
            bad('mv([1],%s,f=())' % kl, lambda: ga.mv([1], *pos, f=(x,)))
        if kl not in ('scalar', 'int 0'):
            bad('mv(x,%s)' % kl, lambda: ga.mv(x, *pos))
            bad('mv(3,%s)' % kl, lambda: ga.mv(3, *pos))
        if coords is None and not (n == 0 and kl == 'odd'):
            bad('mv(A,%s,f=True) without coordinates' % kl, lambda: ga.mv('A', *pos, f=True))
    bad('mv(A,grade)', lambda: ga.mv('A', 'grade'))
    bad('mv(A)', lambda: ga.mv('A'))
    bad('mv(A B)', lambda: ga.mv('A B'))
    for k in (1.0, None, sp.Integer(1), (1,), [1], x):
        bad('mv(A,%r)' % (k,), lambda: ga.mv('A', k))
    for a, b in itertools.product(range(2, 5), repeat=2):
        if a != b:
            bad('%d names, %d kinds' % (a, b), lambda: ga.mv(' '.join('ABCD'[:a]), ' '.join(['scalar', 'mv', 'even', 'odd'][:b])))
    bad('1 name, 2 kinds', lambda: ga.mv('A', 'scalar mv'))
    bad('mv(f=)', lambda: Mv(ga=ga, f=True))
    other = Ga('q*7|8', g=[1, 1])
    bad('foreign blade', lambda: ga.mv(other.basis[0]))
    bad('foreign bivector', lambda: ga.mv(other.blades[2][0] + x))
    bad('no algebra', lambda: Mv('A', 'scalar'))
    ctx.check(bases == dict(Ga=Ga.dual_mode_value), name + '/state', 'a refused construction changed the dual mode')
    # the algebra is still usable
    A = ga.mv('A', 'mv')
    ctx.check(sp.expand((A - A).obj) == 0 and sp.expand((A + A).obj - 2 * A.obj) == 0, name + '/usable', 'the algebra broke')


# ------------------------------------------------------------ histories
def histories(ctx, sl):
    """Constructions do not influence one another, nor the objects they were given."""
    def f_diag():
        g = [1, 2]
        c = [x, y]
        ga = Ga('e*1|2', g=g, coords=c)
        g[0] = 77
        c[0] = t
        return ga, [[1, 0], [0, 2]], [x, y], ['e_1', 'e_2']

    def f_rows():
        g = [[1, 3], [3, 2]]
        ga = Ga('e*1|2', g=g)
        g[0][1] = 77
        return ga, [[1, 3], [3, 2]], None, ['e_1', 'e_2']

    def f_matrix():
        g = Matrix([[1, 0], [0, x ** 2]])
        c = [x, y]
        ga = Ga('e*1|2', g=g, coords=c)
        g[1, 1] = 5
        del c[1]
        return ga, [[1, 0], [0, x ** 2]], [x, y], ['e_1', 'e_2']

    def f_norm():
        g = Matrix([[1, 0], [0, x ** 2]])
        ga = Ga('e', g=g, coords=(x, y), norm=True)
        ok = g == Matrix([[1, 0], [0, x ** 2]])
        return ga, [[1, 0], [0, 1 if ok else 0]], [x, y], ['e_x', 'e_y']

    def f_string():
        ga = Ga('e*1|2', g='# 1,1 #')
        e = ga.basis
        return ga, [[DotProductSymbol(e[0], e[0]), 1], [1, DotProductSymbol(e[1], e[1])]], None, ['e_1', 'e_2']

    def f_default():
        ga = Ga('a b')
        e = ga.basis
        return ga, [[DotProductSymbol(e[0], e[0]), DotProductSymbol(e[0], e[1])], [DotProductSymbol(e[0], e[1]), DotProductSymbol(e[1], e[1])]], None, ['a', 'b']

    def f_X():
        X = [x + y, x - y]
        ga = Ga('e', X=X, coords=(x, y))
        X[0] = S.Zero
        return ga, [[2, 0], [0, 2]], [x, y], ['e_x', 'e_y']

    def f_Cl():
        from galgebra.interop import Cl
        ga = Cl(1, 1)[0]
        return ga, [[1, 0], [0, -1]], None, ['e_1', 'e_2']

    def f_KCl():
        from galgebra.interop.kingdon import Cl
        ga = Cl(1, 0, 1)[0]
        return ga, [[1, 0], [0, 0]], None, ['e_0', 'e_1']

    def f_refused():
        try:
            Ga('e*1|2', g=[1, 1, 1])
        except Exception:
            pass
        ga = Ga('e*1|2', g=[5, 6])
        return ga, [[5, 0], [0, 6]], None, ['e_1', 'e_2']

    def f_preset():
        ga = Ga.preset('o3d')
        return ga, [[1, 0, 0], [0, 1, 0], [0, 0, 1]], list(symbols('x y z', real=True)), ['e_x', 'e_y', 'e_z']
    fs = [f_diag, f_rows, f_matrix, f_norm, f_string, f_default, f_X, f_Cl, f_KCl, f_refused, f_preset]
    depth = 3
    for k, seq in enumerate(itertools.product(range(len(fs)), repeat=depth)):
        if k % sl[1] != sl[0]:
            continue
        built = []
        lab = ' '.join(fs[i].__name__[2:] for i in seq)
        for i in seq:
            ok, res = ctx.guard(lab, fs[i])
            ctx.step()
            if not ok:
                break
            built.append(res)
        ctx.trace()
        ctx.state(lab)
        for a, (ga, g, cs, names) in enumerate(built):
            ctx.check(ga.g == Matrix(g), '%s/g%d' % (lab, a), lambda: 'g of algebra %d is %s, want %s' % (a, ga.g, g))
            ctx.check([str(b) for b in ga.basis] == names, '%s/names%d' % (lab, a), lambda: str(ga.basis))
            ctx.check((None if ga.coords is None else list(ga.coords)) == cs, '%s/coords%d' % (lab, a), lambda: str(ga.coords))
            A = ga.mv('A', 'mv')
            sup = blade_sup(names, cs)
            w = sum((Symbol(coef_name('A', sup[c]), real=True) * b for c, b in zip(combos(ga.n), ga.blades.flat)), S.Zero)
            ctx.check(sp.expand(A.obj - w) == 0, '%s/mv%d' % (lab, a), lambda: str(A.obj))
            B = ga.mv()
            ctx.check(sp.expand((B[0] * B[0]).obj - g[0][0]) == 0 and sp.expand((B[0] | B[1]).obj - g[0][1]) == 0, '%s/sq%d' % (lab, a), lambda: str(B[0] * B[0]))
            for b in range(len(built)):
                ctx.check((built[a][0] == built[b][0]) == (a == b), '%s/eq%d%d' % (lab, a, b), 'two constructions compare equal')
    Ga.dual_mode('I+')


def jobs(tier):
    js = []

    def add(fn, **kw):
        js.append(dict(fn=fn, kw=kw))
    T = tier == 'thorough'
    for n in range(5):
        add('basis_names', n=n)
    add('sym_list')
    A = ['0', '1', '-1/2', '#'] + (['7/3', '-2'] if T else [])
    add('metric_forms', n=1, diags=[[a] for a in A], offs=['0'], sl=[0, 1])
    for i in range(4):
        add('metric_forms', n=2, diags=[list(d) for d in itertools.product(A, repeat=2)], offs=A, sl=[i, 4], names=i % 2)
    D3 = [['1', '1', '1'], ['#', '0', '-1/2'], ['1', '#', '#']] if not T else [list(d) for d in itertools.product(['1', '#', '0'], repeat=3)]
    p = 8 if not T else 48
    for i in range(p):
        add('metric_forms', n=3, diags=D3, offs=['0', '#', '1'] if T or i < 0 else ['0', '#', '2/3'], sl=[i, p], names=i % 2)
    if T:
        for i in range(16):
            add('metric_forms', n=4, diags=[['1', '1', '-1', '0'], ['2', '-1', '3', '1/2']], offs=['0', '1'], sl=[i, 16])
    for name in MVALG():
        add('named', name=name)
        add('coeffs', name=name)
        add('tables', name=name)
        add('refuse_mv', name=name)
    for w in ('cart2', 'polar', 'polar named', 'sphere', 'paraboloid', 'paraboloid of revolution', 'curve', 'cylindrical', 'spherical', 'skew', 'parabolic'):
        for nm in (False, True):
            add('manifold', which=w, norm=nm)
    for n in (1, 2, 3) if not T else (1, 2, 3, 4):
        add('gform', n=n)
    for n in range(1, 5 if not T else 6):
        add('helpers', n=n)
    add('big', n=10)
    if T:
        add('big', n=12)
    add('presets')
    for n in range(1, 5):
        add('refuse_metric', n=n)
    add('refuse_basis')
    for i in range(6):
        add('histories', sl=[i, 6])
    return js
