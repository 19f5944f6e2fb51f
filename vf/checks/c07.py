"""C07: norms, exponentials, rotations, reflections, projections, blade and versor tests."""
import itertools
from fractions import Fraction
import sympy as sp
from galgebra.mv import Mv
import galgebra.mv as gmv
from vf import configs
from vf.bridge import Alg, mk, with_syms
from vf.refga import ExprDom, QDom, RefGA, popcount, bits
from vf.checks.common import chunks, mstr, vname, shapes
from vf.checks.c06 import zip_terms

BOUNDS = ('all {-1,0,1} bivectors n<=4, all {0,1} multivectors n=3, all shapes n<=5, x metrics of every signature including degenerate and non-orthogonal ones; '
          'all hints; symbolic operands evaluated exactly at enumerated points')


# ---------------------------------------------------------------- reference answers
def qform(ref, A):
    return ref.gp(ref.rev(A), A).get(0, ref.dom.zero)


def ker_dim(ref, A):
    """dim { v : v ^ A = 0 } by rational elimination."""
    rows = []
    for i in range(ref.n):
        w = ref.wedge({1 << i: Fraction(1)}, A)
        rows.append([w.get(m, Fraction(0)) for m in range(ref.N)])
    r = 0
    for j in range(ref.N):
        p = next((i for i in range(r, len(rows)) if rows[i][j] != 0), None)
        if p is None:
            continue
        rows[r], rows[p] = rows[p], rows[r]
        for i in range(r + 1, len(rows)):
            q = rows[i][j] / rows[r][j]
            if q:
                rows[i] = [x - q * y for x, y in zip(rows[i], rows[r])]
        r += 1
        if r == len(rows):
            break
    return ref.n - r


def is_blade(ref, A):
    gr = ref.grades(A)
    if len(gr) != 1:
        return False
    return gr[0] == 0 or ker_dim(ref, A) == gr[0]


def is_versor(ref, A):
    """Nonzero scalar V~V, and hat(V) x ~V a vector for every x."""
    vv = ref.gp(A, ref.rev(A))
    if set(vv) != {0}:
        return False
    h, r = ref.invol(A), ref.rev(A)
    return all(ref.grades(ref.gp(ref.gp(h, {1 << i: Fraction(1)}), r)) in ([], [1]) for i in range(ref.n)) and ref.n > 0


def exp_ref(ref, A):
    """Power series of a multivector whose square is a rational scalar (exact partial sums, remainder below 1e-39)."""
    sq = ref.gp(A, A)
    s = sq.get(0, Fraction(0))
    C = S = Fraction(0)
    t = Fraction(1)
    k = 0
    while k < 12 or abs(t) > Fraction(1, 10 ** 40):
        C += t
        S += t / (2 * k + 1)
        t = t * s / ((2 * k + 1) * (2 * k + 2))
        k += 1
    return ref.add({0: C}, ref.scale(S, A))


def num(x):
    return sp.N(sp.sympify(x), 30)


def close(got, want):
    """Numeric agreement of a sympy number with a Fraction to 1e-18."""
    g = num(got)
    if not g.is_number or g.has(sp.zoo, sp.nan, sp.oo):
        return False
    d = g - num(sp.Rational(want.numerator, want.denominator))
    return abs(d) < sp.Float('1e-18', 30) * (1 + abs(float(want)))


def close_mv(alg, X, want, sub=None):
    co = {}
    for b, cf in zip_terms(X.obj, alg.ga):
        if sub:
            cf = cf.subs(sub)
        m = alg.blade2mask[b]
        if not close(cf, want.get(m, Fraction(0))):
            return False
    return True


# ---------------------------------------------------------------- jobs
def tests(ctx, g, family, sl=None):
    """Norms, blade/versor tests, exp and the outermorphisms of one operand family."""
    gs = [[configs.S(e) for e in row] for row in g]
    ga = mk(configs.basis(len(g)), g=gs)
    alg = Alg(ga, gs)
    ref = alg.ref
    n = alg.n
    if family == 'biv':
        ms = [m for m in ref.masks if popcount(m) == 2]
        ops = [dict(zip(ms, v)) for v in itertools.product([-1, 0, 1], repeat=len(ms))]
    elif family == 'box':
        ops = [dict(zip(ref.masks, v)) for v in itertools.product([0, 1], repeat=ref.N)]
    elif family == 'box2':
        ops = [dict(zip(ref.masks, v)) for v in itertools.product([-1, 0, 2], repeat=ref.N)]
    elif family == 'tri':
        ms = [m for m in ref.masks if popcount(m) == 3]
        ops = [dict(zip(ms, v)) for v in itertools.product([-1, 0, 1], repeat=len(ms))]
    elif family == 'vec':
        ms = [m for m in ref.masks if popcount(m) == 1]
        ops = [dict(zip(ms, v)) for v in itertools.product([-2, -1, 0, 1], repeat=n)]
    elif family == 'shapes':
        ops = list(shapes(alg).values())
    elif family == 'versors':          # products of up to three vectors of a small box
        ms = [m for m in ref.masks if popcount(m) == 1]
        vs = [ref.clean({m: Fraction(x) for m, x in zip(ms, v)}) for v in itertools.product([0, 1], repeat=n)][1:n + 2] + [ref.clean({ms[0]: Fraction(2), ms[-1]: Fraction(-1)})]
        ops = []
        for k in (2, 3):
            for w in itertools.product([v for v in vs if v], repeat=k):
                P = {0: Fraction(1)}
                for v in w:
                    P = ref.gp(P, v)
                if P not in ops:
                    ops.append(P)
    if sl:
        ops = ops[sl[0]:sl[1]]
    for R in ops:
        R = ref.clean({m: Fraction(x) for m, x in R.items()})
        M = alg.mv(R)
        lab = 'g=%s/%s' % (mstr(g), ref.show(R))
        ctx.where = lab
        ctx.state(lab)
        ctx.trace()
        for q, f in (('is_blade', is_blade), ('is_versor', is_versor)):
            w = f(ref, R)
            for again in (1, 2):
                ok, got = ctx.guard(lab + ':' + q, getattr(M, q))
                ctx.step()
                if ok:
                    ctx.check(bool(got) == w, lab + ':' + q, lambda: '%s is %r, should be %r (call %d)' % (q, got, w, again))
            ctx.outcome((q, w, ref.key(R)))
        # the same questions in the other order, on a new object
        M2 = alg.mv(R)
        ctx.check((bool(M2.is_versor()), bool(M2.is_blade())) == (is_versor(ref, R), is_blade(ref, R)), lab + ':versor then blade', 'answers depend on the order asked')
        q = qform(ref, R)
        m2 = sum((abs(qform(ref, ref.grade(R, k))) for k in range(n + 1)), Fraction(0))
        for nm, f, w in (('qform', lambda: M.qform(), q), ('fn qform', lambda: gmv.qform(M), q),
                         ('norm2', lambda: M.norm2(), abs(q)), ('fn norm2', lambda: gmv.norm2(M), abs(q)),
                         ('norm2 +', lambda: M.norm2('+'), abs(q)), ('norm2 -', lambda: M.norm2('-'), abs(q)),
                         ('norm^2', lambda: M.norm() ** 2, abs(q)), ('abs^2', lambda: abs(M) ** 2, abs(q)), ('fn norm^2', lambda: gmv.norm(M) ** 2, abs(q)),
                         ('mag2', lambda: M.mag2(), m2), ('fn mag2', lambda: gmv.mag2(M), m2), ('mag^2', lambda: M.mag() ** 2, m2), ('fn mag^2', lambda: gmv.mag(M) ** 2, m2)):
            key = '%s:%s' % (lab, nm)
            ok, got = ctx.guard(key, f)
            ctx.step()
            if ok:
                ctx.check(sp.simplify(sp.sympify(got) - sp.Rational(w.numerator, w.denominator)) == 0, key, lambda: 'got %s want %s' % (got, w))
                if '^2' in nm:
                    pass
        for nm, f in (('norm', M.norm), ('mag', M.mag)):
            v = f()
            ctx.check(sp.sympify(v).is_nonnegative is not False, lab + ':' + nm, lambda: '%s = %s is negative' % (nm, v))
        # exponential
        sq = ref.gp(R, R)
        if set(sq) <= {0}:
            w = exp_ref(ref, R)
            for hint in ('-', '+'):
                for nm, f in (('exp', lambda: M.exp(hint)), ('fn exp', lambda: gmv.exp(M, hint))):
                    key = '%s:%s(%s)' % (lab, nm, hint)
                    ok, X = ctx.guard(key, f)
                    ctx.step()
                    if ok:
                        ctx.check(close_mv(alg, X, w), key, lambda: 'exp = %s, series %s' % (X.obj, ref.show({m: float(v) for m, v in w.items()})))
            ctx.outcome(('exp', ref.key(R)))
        else:
            ctx.step()
            ctx.raises(lab + ':exp', ValueError, lambda: M.exp(), 'exp of a multivector with non-scalar square')
    ctx.sample('g=%s: %s, %d operands' % (mstr(g), family, len(ops)))


def maps(ctx, name, deep, part):
    """Reflection in, projection on every blade of a family applied to every shape; rotation by every bivector."""
    ga = configs.algebra(name)
    alg = Alg(ga, configs.metric(name))
    ref, n = alg.ref, alg.n
    one = Fraction(1)
    fam = []
    for m in ref.masks:
        fam.append({m: one})
    vs = [v for v in itertools.product([-1, 0, 2], repeat=n) if any(v)]
    vecs = [ref.clean({1 << i: Fraction(x) for i, x in enumerate(v)}) for v in vs]
    sub = vecs[::max(1, len(vecs) // (10 if deep else 6))]
    fam += sub
    for x, y in itertools.combinations(sub, 2):
        w = ref.wedge(x, y)
        if w and w not in fam:
            fam.append(w)
    if n >= 4:
        fam.append(ref.add({3: one}, {12: one}))       # not a blade
    fam.append(ref.add({0: one}, {1: one}))            # not a blade
    if n >= 2:
        fam.append(ref.add({0: one}, {3: one}))
        fam.append({})
    ops = [(s, R, alg.mv(R)) for s, R in shapes(alg, full=deep or n <= 2).items()]
    fam = fam[part[0]::part[1]]
    for RB in fam:
        B = alg.mv(RB)
        lab0 = '%s/B=%s' % (name, ref.show(RB))
        ctx.state(lab0)
        q = qform(ref, RB)
        blade = is_blade(ref, RB)
        for s, R, A in ops:
            for nm, f in (('refl', lambda: A.reflect_in_blade(B)), ('proj', lambda: A.project_in_blade(B)), ('fn refl', lambda: gmv.refl(B, A)), ('fn proj', lambda: gmv.proj(B, A))):
                key = '%s/%s of %s' % (lab0, nm, s)
                ctx.step()
                if not blade or q == 0:
                    ctx.raises(key, ValueError, f, '%s in/on %s' % (nm, 'a null blade' if blade else 'a non-blade'))
                    continue
                ok, X = ctx.guard(key, f)
                if not ok:
                    continue
                inv = ref.scale(1 / q, ref.rev(RB))
                if nm.endswith('refl'):
                    r = ref.grades(RB)[0]
                    want = {}
                    for k in range(n + 1):
                        t = ref.gp(ref.gp(RB, ref.grade(R, k)), inv)
                        want = ref.add(want, t if (r + 1) * k % 2 == 0 else ref.neg(t))
                else:
                    want = ref.gp(ref.lc(R, RB), inv)
                got = alg.ref_of(X)
                ctx.check(ref.eq(got, want), key, lambda: 'got %s want %s' % (ref.show(got), ref.show(want)))
                ctx.trace()
                ctx.outcome(ref.key(want))
            if blade and q != 0:
                Y = A.reflect_in_blade(B).reflect_in_blade(B)
                ctx.check(ref.eq(alg.ref_of(Y), R), '%s/refl refl %s' % (lab0, s), lambda: 'two reflections give %s' % Y.obj)
                Y = A.project_in_blade(B)
                Z = Y.project_in_blade(B)
                ctx.step(2)
                ctx.check(ref.eq(alg.ref_of(Y), alg.ref_of(Z)), '%s/proj proj %s' % (lab0, s), 'projection is not idempotent')
        # rotation
        sq = ref.gp(RB, RB)
        if ref.grades(RB) == [2] and set(sq) <= {0}:
            h = ref.scale(Fraction(1, 2), RB)
            Rp, Rm = exp_ref(ref, h), exp_ref(ref, ref.neg(h))
            for s, R, A in ops:
                want = ref.gp(ref.gp(Rm, R), Rp)
                for hint in '-+':
                    for nm, f in (('rotate', lambda: A.rotate_multivector(B, hint)), ('fn rot', lambda: gmv.rot(B, A, hint))):
                        if nm == 'fn rot' and (n >= 4 or hint == '+'):
                            continue
                        if not deep and s not in ('vec', 'full', 'e1'):
                            continue
                        key = '%s/%s(%s) of %s' % (lab0, nm, hint, s)
                        ok, X = ctx.guard(key, f)
                        ctx.step()
                        if ok:
                            ctx.check(close_mv(alg, X, want), key, lambda: 'got %s want %s' % (X.obj, ref.show({m: float(v) for m, v in want.items()})))
                ctx.state((lab0, s, 'rot'))
    ctx.sample('%s: %d blades x %d operands' % (name, len(fam), len(ops)))


def points(syms, k=4):
    out = []
    for t in range(k):
        out.append({s: sp.Rational(((5 * i + 7 * t) % 9) - 4 or 5, 1 + (i + t) % 3) for i, s in enumerate(syms)})
    return out


def symbolic(ctx, name, kind):
    """Symbolic coefficients (and metric entries): every result, evaluated at each enumerated point, is the number the reference gives there."""
    ga = configs.algebra(name)
    alg = Alg(ga, configs.metric(name), ExprDom())
    n = alg.n
    sel = {'vector': lambda k: k == 1, 'bivector': lambda k: k == 2, 'blade2': lambda k: k == 2, 'pseudo': lambda k: k == n, 'scalar': lambda k: k == 0,
           'even': lambda k: k % 2 == 0, 'mv': lambda k: True}[kind]
    ms = [m for m in alg.ref.masks if sel(popcount(m))]
    if kind == 'blade2':
        ms = ms[:1]
    syms = {m: sp.Symbol('p_%d' % m, real=True) for m in ms}
    M = ga.mv(sp.Add(*[s * alg.mask2blade[m] for m, s in syms.items()]))
    gsyms = sorted(set().union(*[e.free_symbols for r in alg.g for e in r]), key=str)
    res = {}
    for h in '0+-':
        for nm in ('norm2', 'norm'):
            ok, v = ctx.guard('%s/%s:%s(%s)' % (name, kind, nm, h), getattr(M, nm), h)
            ctx.step()
            if ok:
                res[(nm, h)] = v
    for nm in ('qform', 'mag2', 'mag'):
        ok, v = ctx.guard('%s/%s:%s' % (name, kind, nm), getattr(M, nm))
        ctx.step()
        if ok:
            res[(nm, '0')] = v
    exps = {}
    if kind not in ('even', 'mv'):
        for h in '+-':
            try:
                exps[h] = M.exp(h)
            except ValueError:
                exps[h] = None
    for t, pt in enumerate(points(list(syms.values()) + gsyms)):
        pt = dict(pt)
        for i, s in enumerate(gsyms):
            pt[s] = sp.Integer([2, 3, 5, 7][(i + t) % 4] * (-1 if t == 3 and i == 1 else 1))
        q = RefGA([[e.subs(pt) for e in r] for r in alg.g], QDom())
        R = q.clean({m: Fraction(int(pt[s].p), int(pt[s].q)) for m, s in syms.items()})
        qf = qform(q, R)
        m2 = sum((abs(qform(q, q.grade(R, k))) for k in range(n + 1)), Fraction(0))
        lab = '%s/%s/pt%d' % (name, kind, t)
        ctx.state(lab)
        for (nm, h), v in res.items():
            if h == '+' and qf < 0 or h == '-' and qf > 0:
                continue           # the hint promises something false here
            w = {'qform': qf, 'norm2': abs(qf), 'mag2': m2, 'norm': abs(qf), 'mag': m2}[nm]
            x = sp.sympify(v).subs(pt)
            ctx.step()
            if nm in ('norm', 'mag'):
                ok = close(x ** 2, w) and bool(num(x) >= 0)
            else:
                ok = close(x, w)
            ctx.check(ok, '%s:%s(%s)' % (lab, nm, h), lambda: '%s = %s evaluates to %s, want %s%s' % (nm, v, num(x), 'sqrt of ' if nm in ('norm', 'mag') else '', w))
            ctx.trace()
        sq = q.gp(R, R)
        for h, X in exps.items():
            if X is None:
                ctx.check(len(ms) > 1 and kind == 'bivector' and n > 3, lab + ':exp', 'exp refused')
                continue
            ctx.step()
            w = exp_ref(q, R)
            ctx.check(close_mv(alg, X, w, pt), '%s:exp(%s)' % (lab, h), lambda: 'exp = %s at %s, want %s' % (X.obj, pt, q.show({m: float(v) for m, v in w.items()})))
            ctx.trace()
        ctx.outcome((lab, str(qf), str(m2)))
    ctx.sample('%s: generic %s: %s' % (name, kind, {k: str(v) for k, v in list(res.items())[:2]}))


def misc(ctx):
    """cross product, hints that are refused, sympy arguments of exp."""
    for name in ('E3', 'O3', 'D3', 'M3'):
        ga = configs.algebra(name)
        base = Alg(ga, configs.metric(name))
        u = {m: sp.Symbol('u%d' % m, real=True) for m in (1, 2, 4)}
        v = {m: sp.Symbol('v%d' % m, real=True) for m in (1, 2, 4)}
        alg = with_syms(base, list(u.values()) + list(v.values()))
        U = ga.mv(sp.Add(*[s * alg.mask2blade[m] for m, s in u.items()]))
        V = ga.mv(sp.Add(*[s * alg.mask2blade[m] for m, s in v.items()]))
        ctx.step()
        ctx.state(name)
        if name == 'E3':
            got = alg.ref_of(gmv.cross(U, V))
            want = {}
            for i, j, k in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
                want[1 << k] = alg.dom.conv(u[1 << i] * v[1 << j] - u[1 << j] * v[1 << i])
            ctx.check(alg.ref.eq(got, want), 'cross', lambda: 'got %s' % alg.ref.show(got))
        else:
            got = ga.mv(-ga.I() * (U ^ V))
            ctx.check(sp.simplify((gmv.cross(U, V) - got).expand().obj) == 0, 'cross ' + name, 'cross != -I(u^v)')
        ctx.raises(name + '/cross', ValueError, lambda: gmv.cross(U, U ^ V), 'cross of a bivector')
        ctx.raises(name + '/norm2 hint', ValueError, lambda: configs.algebra('M3').mv('A', 'vector').norm2('x'), 'unknown hint')
    g2 = configs.algebra('E2')
    ctx.raises('cross n=2', ValueError, lambda: gmv.cross(g2.mv('a', 'vector'), g2.mv('b', 'vector')), 'cross in two dimensions')
    x = sp.Symbol('x')
    ctx.check(gmv.exp(x) == sp.exp(x), 'exp(sympy)', '%s' % gmv.exp(x))
    for f in ('norm', 'norm2', 'qform', 'mag', 'mag2'):
        for bad in (2, x):
            ctx.step()
            ctx.raises('%s(%s)' % (f, bad), (TypeError, ValueError), lambda: getattr(gmv, f)(bad), '%s of a non-multivector' % f)
    ctx.trace()


def jobs(tier):
    js = []

    def add(fn, **kw):
        js.append(dict(fn=fn, kw=kw))
    T = tier == 'thorough'
    D = configs.diag
    M = configs.METRICS
    for g in [M[k] for k in ('E1', 'N1', 'Z1', 'E2', 'M2', 'D2', 'Z2', 'O2', 'NULL2', 'SING2')]:
        add('tests', g=g, family='box2')
    for k in ('E3', 'M3', 'PGA2', 'O3', 'MIX3', 'D3'):
        for s in range(0, 256, 64):
            add('tests', g=M[k], family='box', sl=[s, s + 64])
        add('tests', g=M[k], family='biv')
        add('tests', g=M[k], family='vec')
    for k in ('STA', 'E4', 'PGA3', 'CGA2') if not T else ('STA', 'E4', 'PGA3', 'CGA2', 'FULL4', 'D4', 'NULL4'):
        for s in range(0, 729, 92):
            add('tests', g=M[k], family='biv', sl=[s, s + 92] if T else [s, s + 46])
        add('tests', g=M[k], family='tri')
        add('tests', g=M[k], family='shapes')
    for k in ('E2', 'M2', 'E3', 'M3', 'O3', 'PGA2'):
        add('tests', g=M[k], family='versors')
    for k in ('CGAo', 'D5'):
        add('tests', g=M[k], family='shapes')
    for k in ('E2', 'M2', 'O2', 'NULL2', 'E3', 'M3', 'PGA2', 'O3', 'MIX3', 'D3', 'STA') + (('CGA2', 'PGA3', 'D4') if T else ()):
        parts = 1 if len(M[k]) < 3 else 8 if T else 2
        for i in range(parts):
            add('maps', name=k, deep=T, part=[i, parts])
    for k in ('E1', 'N1', 'E2', 'M2', 'N3', 'E3', 'M3', 'PGA2', 'S1', 'S3', 'SYM2', 'O2', 'STA'):
        for kind in ('vector', 'blade2', 'bivector', 'pseudo', 'scalar', 'even'):
            if kind in ('blade2', 'bivector') and len(M[k]) < 2:
                continue
            if kind == 'bivector' and k in ('SYM2',):
                continue
            add('symbolic', name=k, kind=kind)
    add('misc')
    if T:
        for k in ('E3', 'M3', 'O3'):
            for s in range(0, 6561, 400):
                add('tests', g=M[k], family='box2', sl=[s, s + 400])
    return js
