"""C13: linear transformations as outermorphisms of their matrix."""
import itertools
import sympy as sp
from sympy import Matrix, ImmutableMatrix
from galgebra.mv import Mv
from galgebra.ga import Ga
from galgebra import lt as ltm
from galgebra.lt import Lt
from vf import configs
from vf.bridge import Alg, mk
from vf.refga import ExprDom, QDom, PolyDom, expr_zero, popcount, bits
from vf.checks.common import chunks, vname, mstr
from vf.configs import x, y, z, r, th, ph, rp

BOUNDS = ('all 2x2 matrices over {-1,0,1,2} (thorough {-2..2}) in Euclidean, Lorentzian, oblique, null, singular and symbolic metrics, all 3x3 matrices over {0,1} '
          'and permutation/singular families, generic symbolic matrices n<=3; every constructor form; all ordered pairs of a 14-matrix menu under + - * and all '
          'words of length 3; all versors that are products of up to 3 vectors of an integer box; coordinate metrics with and without normalised basis; functions of the coefficients, linear and not, added in every component')


class Model:
    """The outermorphism of a matrix (columns are images), over any sympy coefficients."""

    def __init__(self, alg, M):
        self.alg, self.M, self.n = alg, Matrix(M), alg.n
        self.cols = [{1 << i: self.M[i, j] for i in range(self.n) if self.M[i, j] != 0} for j in range(self.n)]
        self._img = {0: {0: sp.S.One}}

    def img(self, m):
        if m not in self._img:
            hi = m.bit_length() - 1
            self._img[m] = wedge(self.img(m ^ (1 << hi)), self.cols[hi])
        return self._img[m]

    def __call__(self, A):
        out = {}
        for m, c in A.items():
            for k, d in self.img(m).items():
                out[k] = out.get(k, sp.S.Zero) + c * d
        return out


def sign_wedge(a, b):
    if a & b:
        return 0
    s, t = 0, a >> 1
    while t:
        s += popcount(t & b)
        t >>= 1
    return -1 if s & 1 else 1


def wedge(A, B):
    out = {}
    for a, ca in A.items():
        for b, cb in B.items():
            s = sign_wedge(a, b)
            if s:
                out[a | b] = out.get(a | b, sp.S.Zero) + s * ca * cb
    return out


def is0(e):
    e = sp.sympify(e)
    if e.is_Rational:
        return e == 0
    e = sp.expand(e)
    return e == 0 or expr_zero(e)


def same(A, B):
    return all(is0(A.get(k, 0) - B.get(k, 0)) for k in set(A) | set(B))


def meq(A, B):
    return A.shape == B.shape and all(is0(p - q) for p, q in zip(list(A), list(B)))


def getalg(spec):
    if spec in COORD:
        return COORD[spec]()
    kw = {}
    name = spec
    if spec.endswith('+c'):
        name = spec[:-2]
        kw['coords'] = sp.symbols('x y z w', real=True)[:len(configs.METRICS[name])]
    g = configs.metric(name)
    return Alg(mk(configs.basis(len(g)), g=g, **kw), g, ExprDom())


def _coord(basis, g, coords, norm):
    ga = mk(basis, g=g, coords=coords, norm=norm)
    return Alg(ga, ga.g.tolist(), ExprDom())


COORD = {
    'polar': lambda: _coord('e*1|2', [1, rp ** 2], (rp, th), False),
    'polar-n': lambda: _coord('e*1|2', [1, rp ** 2], (rp, th), True),
    'sph': lambda: _coord('e*1|2|3', [1, r ** 2, r ** 2 * sp.sin(th) ** 2], (r, th, ph), False),
    'sph-n': lambda: _coord('e*1|2|3', [1, r ** 2, r ** 2 * sp.sin(th) ** 2], (r, th, ph), True),
    'obl-x': lambda: _coord('e*1|2', [[1 + x ** 2, x * y], [x * y, 1 + y ** 2]], (x, y), False),
}


def gram(alg):
    return Matrix(alg.g) if alg.n else Matrix(0, 0, [])


def coefs(n, prefix='p', masks=None):
    return {m: sp.Symbol(prefix + vname(m), real=True) for m in (range(1 << n) if masks is None else masks)}


def real(alg, A):
    return alg.ga.mv(sum((c * alg.mask2blade[m] for m, c in A.items()), sp.S.Zero))


def check_lt(ctx, alg, L, M, tag, deep=True):
    """Every observation of L against the matrix M."""
    n, mod = alg.n, Model(alg, M)
    ctx.state((tag, mstr(Matrix(M).tolist())))
    key = lambda what: '%s:%s' % (what, tag)
    obs = alg.ga.mv()
    for j in range(n):
        ok, v = ctx.guard(key('vector'), lambda: L(obs[j]))
        if ok:
            ctx.check(isinstance(v, Mv) and same(alg.ref_of(v), mod.cols[j]), key('vector'), lambda: 'L(e%d) = %s, expected column %s of %s' % (j + 1, v, mod.cols[j], M))
        ctx.step()
    ok, mt = ctx.guard(key('matrix'), L.matrix)
    if ok:
        ctx.check(meq(Matrix(mt), Matrix(M)), key('matrix'), lambda: 'matrix() = %s, expected %s' % (mt, M))
    for m in range(1 << n):
        A = {m: sp.S.One}
        ok, v = ctx.guard(key('blade'), lambda: L(real(alg, A)))
        ctx.step()
        if ok:
            ctx.check(same(alg.ref_of(v), mod.img(m)), key('blade'), lambda: 'L(%s) = %s, expected %s; matrix %s' % (vname(m), v, mod.img(m), M))
            ctx.outcome((tag, m, str(v)))
    G = coefs(n)
    ok, v = ctx.guard(key('generic'), lambda: L(real(alg, G)))
    ctx.step()
    if ok:
        ctx.check(same(alg.ref_of(v), mod(G)), key('generic'), lambda: 'L(generic) = %s, expected %s' % (v, mod(G)))
    ok, d = ctx.guard(key('det'), L.det)
    D = Matrix(M).det()
    if ok:
        ctx.check(not isinstance(d, Mv) and is0(d - D), key('det'), lambda: 'det = %s, expected %s for %s' % (d, D, M))
        ctx.check(is0(ltm.det(L) - D), key('det'), 'module-level det')
    ok, t = ctx.guard(key('tr'), L.tr)
    if ok:
        ctx.check(not isinstance(t, Mv) and is0(t - Matrix(M).trace()), key('tr'), lambda: 'tr = %s, expected %s for %s' % (t, Matrix(M).trace(), M))
    ok, s = ctx.guard(key('is_singular'), L.is_singular)
    if ok:
        ctx.check(bool(s) == bool(is0(D)), key('is_singular'), lambda: 'is_singular() = %s but det = %s for %s' % (s, D, M))
    if not deep:
        return
    g = gram(alg)
    if not is0(g.det()):
        ok, ad = ctx.guard(key('adj'), L.adj)
        if ok:
            am = Matrix(ad.matrix())
            ctx.check(meq(g * Matrix(M), (g * am).T), key('adj'), lambda: 'adjoint %s of %s is not metric-adjoint' % (am, M))
            a, b = coefs(n, 'a', [1 << i for i in range(n)]), coefs(n, 'b', [1 << i for i in range(n)])
            ra, rb = real(alg, a), real(alg, b)
            ok, pair = ctx.guard(key('adj'), lambda: ((L(ra) | rb).scalar(), (ra | ad(rb)).scalar()))
            if ok:
                ctx.check(is0(pair[0] - pair[1]), key('adj'), lambda: '<L(a) b> = %s but <a adj(b)> = %s' % pair)
            check_map(ctx, alg, ad, am, key('adj'))
    if is0(D):
        ctx.raises(key('inv-singular'), ValueError, L.inv, 'inverse of a singular transformation')
    else:
        ok, iv = ctx.guard(key('inv'), L.inv)
        if ok:
            im = Matrix(iv.matrix())
            ctx.check(meq(im * Matrix(M), sp.eye(n)), key('inv'), lambda: 'inverse %s of %s' % (im, M))
            ok, both = ctx.guard(key('inv'), lambda: [(L(iv(e)), iv(L(e)), e) for e in obs])
            if ok:
                for p, q, e in both:
                    ctx.check(same(alg.ref_of(p), alg.ref_of(e)) and same(alg.ref_of(q), alg.ref_of(e)), key('inv'), lambda: 'L(inv(e)) = %s, inv(L(e)) = %s' % (p, q))


def check_map(ctx, alg, L, M, key):
    mod = Model(alg, M)
    for m in range(1 << alg.n):
        ok, v = ctx.guard(key, lambda: L(real(alg, {m: sp.S.One})))
        ctx.step()
        if ok:
            ctx.check(isinstance(v, Mv) and same(alg.ref_of(v), mod.img(m)), key, lambda: 'image of %s is %s, expected %s' % (vname(m), v, mod.img(m)))
    ok, mt = ctx.guard(key, L.matrix)
    if ok:
        ctx.check(meq(Matrix(mt), Matrix(M)), key, lambda: 'matrix() = %s, expected %s' % (mt, M))


def matrices(n, entries):
    for vals in itertools.product(entries, repeat=n * n):
        yield Matrix(n, n, vals)


def j_mats(ctx, spec, mats, deep=True):
    alg = getalg(spec)
    for M in mats:
        M = Matrix(M)
        ctx.where = '%s %s' % (spec, M.tolist())
        ok, L = ctx.guard('construct:' + spec, lambda: Lt(M, ga=alg.ga))
        if ok:
            check_lt(ctx, alg, L, M, spec, deep)
    ctx.sample('%s, matrix %s: images of all blades, det, trace, adjoint, inverse' % (spec, M.tolist()))


# ---- constructor forms ---------------------------------------------------

def forms(alg, M):
    ga, n = alg.ga, alg.n
    B, es = ga.basis, ga.mv()
    cols = [[M[i, j] for i in range(n)] for j in range(n)]
    mvs = [sum((cols[j][i] * es[i] for i in range(n)), 0 * es[0]) for j in range(n)]
    objs = [sum((cols[j][i] * B[i] for i in range(n)), sp.S.Zero) for j in range(n)]

    def fn(v):
        c = v.get_coefs(1)
        return sum((c[j] * mvs[j] for j in range(n)), 0 * es[0])

    def nested(v):
        return Lt(M, ga=ga)(v)
    return {
        'matrix': lambda: Lt(M, ga=ga), 'immutable': lambda: ga.lt(ImmutableMatrix(M)),
        'lists': lambda: ga.lt([list(c) for c in cols]),
        'mv-list': lambda: ga.lt(list(mvs)),
        'dict': lambda: ga.lt(dict(zip(B, objs))),
        'dict-reversed': lambda: ga.lt(dict(reversed(list(zip(B, objs))))),
        'dict-mv': lambda: ga.lt(dict(zip(B, mvs))),
        'dict-factored': lambda: ga.lt({b: sp.Mul(sp.Rational(1, 2), 2 * o, evaluate=False) + B[0] - B[0] for b, o in zip(B, objs)}),
        'dict-nonzero': lambda: ga.lt({b: o for b, o in zip(B, objs) if o != 0}),
        'function': lambda: ga.lt(fn),
        'lambda-Lt': lambda: ga.lt(nested),
        'Lt-object': lambda: ga.lt(lambda v: ga.lt(list(mvs))(v)),
        'bound-call': lambda: ga.lt(Lt(M, ga=ga)),
        'matrix-of-dict': lambda: ga.lt(ga.lt(dict(zip(B, objs))).matrix()),
        'dict-of-matrix': lambda: ga.lt(dict(ga.lt(M).lt_dict)),
        'helpers': lambda: ga.lt(ltm.Dictionary_to_Matrix(ltm.Matrix_to_dictionary(M, B), ga)),
    }


def j_forms(ctx, spec, mats):
    alg = getalg(spec)
    for M in mats:
        M = Matrix([[configs.S(e) if isinstance(e, str) else e for e in row] for row in Matrix(M).tolist()])
        for name, f in forms(alg, M).items():
            ctx.where = '%s %s %s' % (spec, name, M.tolist())
            ok, L = ctx.guard('form:%s:%s' % (name, spec), f)
            ctx.state((spec, name, str(M)))
            if ok:
                check_lt(ctx, alg, L, M, 'form:%s:%s' % (name, spec), deep=False)
                for o, s in ((L + L, 2), (L - L, 0), (L * L, None), (3 * L, 3), (L * 3, 3)):
                    check_map(ctx, alg, o, M * M if s is None else s * M, 'form-op:%s:%s' % (name, spec))
    ctx.sample('%s: %s all give the same transformation' % (spec, sorted(forms(alg, M))))


# ---- expressions of transformations --------------------------------------

MENU2 = [[[1, 0], [0, 1]], [[0, 0], [0, 0]], [[0, 1], [1, 0]], [[0, -1], [1, 0]], [[1, 1], [0, 1]], [[1, 0], [2, 1]], [[2, 0], [0, -1]], [[1, 2], [2, 4]],
         [[0, 1], [0, 0]], [[1, 0], [0, 0]], [[3, -1], [1, 2]], [['p', 0], [1, 'q']], [['1/2', 1], [-1, 0]], [['p', 'q'], ['q', 'p']]]
MENU3 = [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 1, 0], [0, 0, 1], [1, 0, 0]], [[1, 1, 0], [0, 1, 1], [0, 0, 1]], [[0, 0, 0], [1, 0, 0], [0, 2, 0]],
         [[1, 2, 3], [2, 4, 6], [0, 1, 1]], [[2, 0, 0], [0, -1, 0], [0, 0, 3]], [['p', 0, 1], [0, 'q', 0], [1, 0, 0]]]


def menu(n):
    return [Matrix(n, n, [sp.Symbol(e, real=True) if e in ('p', 'q') else sp.sympify(e) for row in m for e in row]) for m in {2: MENU2, 3: MENU3}[n]]


def j_pairs(ctx, spec):
    alg = getalg(spec)
    ms = menu(alg.n)
    ls = [Lt(m, ga=alg.ga) for m in ms]
    for (A, LA), (B, LB) in itertools.product(list(zip(ms, ls)), repeat=2):
        ctx.where = '%s %s %s' % (spec, A.tolist(), B.tolist())
        for o, f, M in (('+', lambda: LA + LB, A + B), ('-', lambda: LA - LB, A - B), ('*', lambda: LA * LB, A * B)):
            ctx.state((spec, o, str(A), str(B)))
            ok, L = ctx.guard('pair:%s:%s' % (o, spec), f)
            if ok:
                check_map(ctx, alg, L, M, 'pair:%s:%s' % (o, spec))
                ctx.check(is0(L.det() - M.det()), 'pair-det:%s:%s' % (o, spec), lambda: 'det of %s %s %s' % (A, o, B))
    s = sp.Symbol('s', real=True)
    for A, LA in zip(ms, ls):
        for c in (2, 0, -1, sp.Rational(1, 3), s, sp.sin(s)):
            for o, f in (('c*L', lambda: c * LA), ('L*c', lambda: LA * c)):
                ok, L = ctx.guard('scale:%s:%s' % (o, spec), f)
                if ok:
                    check_map(ctx, alg, L, c * A, 'scale:%s:%s' % (o, spec))
    for i, A in enumerate(ms):      # the operands are as they were
        check_map(ctx, alg, ls[i], A, 'operand-changed:' + spec)
    ctx.sample('%s: all ordered pairs of %d transformations under + - * and scalar multiples' % (spec, len(ms)))


def j_words(ctx, spec, depth, picks):
    """BFS over words: start from one menu entry, apply (op, menu entry) or a unary step."""
    alg = getalg(spec)
    ms = [menu(alg.n)[i] for i in picks]
    ls = [Lt(m, ga=alg.ga) for m in ms]
    g = gram(alg)
    gi = g.inv()
    un = {'adj': (lambda L: L.adj(), lambda M: gi * M.T * g), 'inv': (lambda L: L.inv(), lambda M: M.inv()), 'neg': (lambda L: -1 * L, lambda M: -M),
          'fn': (lambda L: alg.ga.lt(lambda v: L(v)), lambda M: M)}
    seen, frontier = set(), [((i,), L, M) for i, (L, M) in enumerate(zip(ls, ms))]
    for d in range(depth):
        new = []
        for w, L, M in frontier:
            steps = []
            for i, (LB, B) in enumerate(zip(ls, ms)):
                steps += [(w + ('+', i), lambda L=L, LB=LB: L + LB, M + B), (w + ('*', i), lambda L=L, LB=LB: L * LB, M * B),
                          (w + ('-r', i), lambda L=L, LB=LB: LB - L, B - M), (w + ('*r', i), lambda L=L, LB=LB: LB * L, B * M)]
            for o, (f, h) in un.items():
                if o != 'inv' or not is0(M.det()):
                    steps.append((w + (o,), lambda f=f, L=L: f(L), h(M)))
            for nw, f, N in steps:
                ctx.where = '%s %s' % (spec, nw)
                ok, V = ctx.guard('word:' + spec, f)
                if not ok:
                    continue
                N = N.applyfunc(lambda e: sp.cancel(sp.expand(e)))
                check_map(ctx, alg, V, N, 'word:' + spec)
                k = str(N.tolist())
                ctx.state((spec, k))
                if k not in seen:
                    seen.add(k)
                    new.append((nw, V, N))
        frontier = new
        ctx.trace(len(frontier))
    ctx.sample('%s words of length %d over %s' % (spec, depth, list(picks)))


# ---- symbolic, strings ---------------------------------------------------

def j_generic(ctx, spec):
    alg = getalg(spec)
    n = alg.n
    M = Matrix(n, n, lambda i, j: sp.Symbol('m%d%d' % (i, j), real=True))
    check_lt(ctx, alg, Lt(M, ga=alg.ga), M, 'generic:' + spec, deep=n < 4)
    if n == 2:
        N = Matrix(n, n, lambda i, j: sp.Symbol('k%d%d' % (i, j), real=True))
        check_map(ctx, alg, Lt(M, ga=alg.ga) * Lt(N, ga=alg.ga), M * N, 'generic-comp:' + spec)
    if alg.ga.coords:
        c = alg.ga.coords
        M = Matrix(n, n, lambda i, j: c[i] ** (j + 1) + sp.Function('h')(*c) * (i + j))
        check_lt(ctx, alg, Lt(M, ga=alg.ga), M, 'field:' + spec, deep=n < 3)
    ctx.sample('%s generic matrix with %d symbols' % (spec, n * n))


def j_strings(ctx, spec):
    alg = getalg(spec)
    ga, n, g = alg.ga, alg.n, gram(alg)
    cs = ga.coords
    for mode, f in itertools.product('gsa', (False, True)):
        for args in (dict(mode=mode, f=f),) + ((dict(f=f),) if mode == 'g' else ()):
            tag = 'string:%s:%s:%s' % (mode, f, spec)
            ok, L = ctx.guard(tag, lambda: ga.lt('A', **args))
            if not ok:
                continue
            M = Matrix(L.matrix())
            ctx.state((spec, tag))
            check_map(ctx, alg, L, M, tag)
            low = M if mode == 'g' else (g * M).applyfunc(lambda e: sp.cancel(sp.expand(e)))

            def entry(name):
                return sp.Function(name)(*cs) if f else sp.Symbol(name, real=True)
            if mode == 'g':
                want = Matrix(n, n, lambda i, j: entry('{A__%s}_%s' % (cs[i], cs[j])))
            else:
                k, want = 0, sp.zeros(n, n)
                for i in range(n):
                    for j in range(i + (mode == 'a'), n):
                        k += 1
                        want[i, j] = entry('A_%d' % k)
                        want[j, i] = want[i, j] * (-1 if mode == 'a' else 1)
            ctx.check(meq(low, want), tag, lambda: 'entries %s, expected %s' % (low, want))
            a, b = [real(alg, coefs(n, p, [1 << i for i in range(n)])) for p in 'ab']
            if mode != 'g':
                s = 1 if mode == 's' else -1
                d = (L(a) | b).scalar() - s * (a | L(b)).scalar()
                ctx.check(is0(d), tag, lambda: 'not %s: <L(a) b> -+ <a L(b)> = %s' % ('self-adjoint' if s == 1 else 'skew', d))
                if not is0(g.det()):
                    ctx.check(meq(Matrix(L.adj().matrix()), s * M), tag, 'adjoint of a %s transformation' % mode)
            raw = ltm.Symbolic_Matrix('A', coords=list(cs), f=f, mode=mode)
            ctx.check(meq(raw, want), tag, lambda: 'Symbolic_Matrix = %s' % raw)
    ctx.raises('string-mode:' + spec, ValueError, lambda: ga.lt('A', mode='z'), 'unknown mode')
    ctx.raises('matrix-coords:' + spec, ValueError, lambda: ltm.Symbolic_Matrix('A', coords=5), 'coords that are not a list')
    ctx.sample('%s: string transformations in modes g, s, a' % spec)


# ---- versors -------------------------------------------------------------

def j_versors(ctx, spec, box, k):
    alg = getalg(spec)
    ga, n, g = alg.ga, alg.n, gram(alg)
    ref = alg.ref
    vecs = [v for v in itertools.product(box, repeat=n) if any(v)]
    sq = {v: (Matrix([v]) * g * Matrix(v))[0] for v in vecs}
    vecs = [v for v in vecs if not is0(sq[v])]
    dedup = {}
    for w in itertools.product(vecs, repeat=k):
        if k == 3 and sum(map(abs, sum(w, ()))) > 4:
            continue
        A = {0: sp.S.One}
        for v in w:
            A = ref.gp(A, {1 << i: sp.Integer(c) for i, c in enumerate(v) if c})
        A = {m: sp.expand(c) for m, c in A.items()}
        A = {m: c for m, c in A.items() if c != 0}
        dedup.setdefault(str(sorted(A.items())), (w, A))
    for w, A in dedup.values():
        ctx.where = '%s %s' % (spec, w)
        tag = 'versor%d:%s' % (k, spec)
        ok, L = ctx.guard(tag, lambda: ga.lt(real(alg, A)))
        if not ok:
            continue
        ctx.state((spec, str(w)))
        # product of the reflections in the vectors
        M = sp.eye(n)
        for v in w:
            v = Matrix(v)
            M = M * (sp.eye(n) - 2 * v * (v.T * g) / sq[tuple(v)])
        M = M.applyfunc(sp.cancel)
        check_map(ctx, alg, L, M, tag)
        ctx.check(is0(L.det() - (-1) ** k), tag, lambda: 'determinant %s' % L.det())
        if not is0(g.det()):
            ctx.check(meq(L.adj().matrix() * M, sp.eye(n)), tag, 'not orthogonal')
        if k == 1 or n == 2:
            G = coefs(n)
            V = real(alg, A)
            ok, lr = ctx.guard(tag, lambda: (L(real(alg, G)), (V * real(alg, G) * V.inv(), V * real(alg, G).g_invol() * V.inv())))
            if ok:
                p, (even, odd) = lr
                ctx.check(same(alg.ref_of(p), alg.ref_of(odd if k % 2 else even)), tag, lambda: 'L(M) = %s is not the sandwich' % p)
    ctx.sample('%s: %d versors that are products of %d vectors' % (spec, len(dedup), k))


def j_notversor(ctx, spec):
    alg = getalg(spec)
    ga, n = alg.ga, alg.n
    es = ga.mv()
    bad = {'1+e1': 1 + es[0], 'zero': ga.mv(0)}
    if n >= 2:
        bad['1+e1+e12'] = 1 + es[0] + (es[0] ^ es[1])
        bad['e1+e12'] = es[0] + 2 * (es[0] ^ es[1])
    if n >= 3:
        bad['e1+e123'] = es[0] + 2 * (es[0] ^ es[1] ^ es[2])
    if n >= 4:
        bad['e12+e34'] = (es[0] ^ es[1]) + (es[2] ^ es[3]) * 2
    for name, V in bad.items():
        if V.is_versor():
            continue
        ctx.state((spec, name))
        ctx.step()
        ctx.raises('notversor:%s:%s' % (name, spec), ValueError, lambda: ga.lt(V), 'transformation by a multivector that is not a versor')
    ctx.sample('%s: %s are refused' % (spec, sorted(bad)))


# ---- representations, refusals, misc ------------------------------------

def j_reps(ctx, spec, mats):
    """L on arguments in the other representation, in expression form, of every support."""
    alg = getalg(spec)
    ga, n = alg.ga, alg.n
    for M in mats:
        M = Matrix(M)
        mod = Model(alg, M)
        L = Lt(M, ga=ga)
        for sup in range(1, 1 << (1 << n)) if n == 2 else ([1 << m for m in range(1 << n)] + [(1 << (1 << n)) - 1]):
            A = {m: sp.Integer(m * 2 - 3) for m in range(1 << n) if sup >> m & 1}
            V = real(alg, A)
            for name, W in (('base', lambda: V.base_rep()), ('unexpanded', lambda: ga.mv(sp.Mul(2, V.obj / 2, evaluate=False))),
                            ('expr', lambda: V.obj), ('blade', lambda: V.base_rep().blade_rep())):
                ok, Y = ctx.guard('rep:%s:%s' % (name, spec), lambda: L(W()))
                ctx.step()
                ctx.state((spec, name, sup))
                if ok:
                    ctx.check(same(alg.ref_of(Y), mod(A)), 'rep:%s:%s' % (name, spec), lambda: 'L(%s) = %s, expected %s, matrix %s' % (V, Y, mod(A), M))
            ok, Y = ctx.guard('rep:product:' + spec, lambda: L(V * V))
            if ok:
                R = alg.ref_of(V * V)
                ctx.check(same(alg.ref_of(Y), mod(R)), 'rep:product:' + spec, lambda: 'L(%s) = %s, expected %s' % (V * V, Y, mod(R)))
            ctx.check(same(alg.ref_of(L(V, obj=True)), mod(A)), 'rep:obj:' + spec, 'obj=True')
        for s in (0, 5, sp.Rational(1, 2), sp.Symbol('k', real=True)):
            ok, Y = ctx.guard('rep:scalar:' + spec, lambda: L(s))
            if ok:
                ctx.check(isinstance(Y, Mv) and same(alg.ref_of(Y), {0: sp.sympify(s)}), 'rep:scalar:' + spec, lambda: 'L(%s) = %s' % (s, Y))
    ctx.sample('%s: arguments in base and blade form, unexpanded, as expressions' % spec)


def j_refuse(ctx, spec):
    alg = getalg(spec)
    ga, n = alg.ga, alg.n
    es, B = ga.mv(), ga.basis
    other = mk(configs.basis(n), g=configs.metric(spec.replace('+c', '')))
    L, K = ga.lt(sp.eye(n)), other.lt(sp.eye(n))
    bad = {
        'matrix-small': (ValueError, lambda: ga.lt(sp.eye(n - 1))), 'matrix-big': (ValueError, lambda: ga.lt(sp.eye(n + 1))), 'matrix-rect': (ValueError, lambda: ga.lt(sp.zeros(n, n + 1))),
        'square': (ValueError, lambda: ga.lt(lambda v: v * v)), 'shift': (ValueError, lambda: ga.lt(lambda v: v + es[0])),
        'scalar-valued': (ValueError, lambda: ga.lt(lambda v: v | es[0])), 'bivector-valued': (ValueError, lambda: ga.lt(lambda v: v ^ es[0])),
        'mixed-valued': (ValueError, lambda: ga.lt(lambda v: v * es[0])),
        'type': (TypeError, lambda: ga.lt(3.5)), 'none': (TypeError, lambda: ga.lt(None)),
        'other-arg': (ValueError, lambda: L(other.mv()[0])), 'other-add': (ValueError, lambda: L + K), 'other-sub': (ValueError, lambda: L - K), 'other-mul': (ValueError, lambda: L * K),
        'short-mv-list': ((ValueError, IndexError, KeyError), lambda: ga.lt(list(es[:-1]))), 'long-mv-list': ((ValueError, IndexError, KeyError), lambda: ga.lt(list(es) + [es[0]])),
        'short-list': ((ValueError, IndexError, KeyError), lambda: ga.lt([[1] * n] * (n - 1))), 'ragged-list': ((ValueError, IndexError, KeyError), lambda: ga.lt([[1] * n] * (n - 1) + [[1] * (n - 1)])),
        'long-list': ((ValueError, IndexError, KeyError), lambda: ga.lt([[1] * (n + 1)] * n)),
    }
    if n == 2:
        del bad['bivector-valued']
        bad['biv2'] = (ValueError, lambda: ga.lt(lambda v: v ^ es[1]))
    for name, (exc, f) in bad.items():
        ctx.state((spec, name))
        ctx.step()
        ctx.raises('refuse:%s:%s' % (name, spec), exc, f, name)
    ctx.sample('%s: %s are refused' % (spec, sorted(bad)))


def coefficient_functions(n):
    """Functions of the coefficients of a vector: linear ones however written, and ones that are not linear,
    among them the homogeneous of degree one, the additive on a ray only, those that vanish on the basis vectors and those that shift."""
    i, j = 0, n - 1
    lin = {'zero': lambda c: 0, 'c': lambda c: c[i], 'trig': lambda c: c[i] * (sp.sin(2) ** 2 + sp.cos(2) ** 2), 'sum': lambda c: sum(c),
           'cancels': lambda c: (c[i] + 1) ** 2 - c[i] ** 2 - 1}
    if n == 2:
        lin['quotient'] = lambda c: (c[0] ** 2 - c[1] ** 2) / (c[0] - c[1])
    non = {'square': lambda c: c[i] ** 2, 'last-square': lambda c: c[j] ** 2, 'shift': lambda c: c[i] + 1, 'constant': lambda c: 3, 'cube': lambda c: c[j] ** 3 - c[j],
           'square-minus': lambda c: c[i] ** 2 - c[i], 'abs': lambda c: sp.Abs(c[j]), 'sin': lambda c: sp.sin(c[i]), 'sine-period': lambda c: sp.sin(sp.pi * c[i]),
           'norm': lambda c: sp.sqrt(sum(x ** 2 for x in c))}
    if n > 1:
        non.update({'product': lambda c: c[i] * c[j], 'degree-one': lambda c: c[i] ** 3 / sum(x ** 2 for x in c), 'degree-one-vanishing': lambda c: c[i] ** 2 * c[j] / sum(x ** 2 for x in c),
                    'geometric-mean': lambda c: sp.sqrt(sp.Abs(c[i] * c[j])), 'max': lambda c: sp.Max(c[i], c[j]), 'degree-zero': lambda c: c[i] * c[j] / sum(x ** 2 for x in c)})
    return lin, non


def j_functions(ctx, spec, ks=None, full=True):
    """A function is accepted exactly when it is linear: a linear map with every function of the menu added in every component of its value."""
    alg = getalg(spec)
    ga, n = alg.ga, alg.n
    es = ga.mv() if n > 1 else [ga.mv_basis[0]]
    lin, non = coefficient_functions(n)
    maps = [sp.zeros(n, n), sp.eye(n), Matrix(n, n, lambda p, q: (p + 1) * (q - p + 2))]
    for mi, M in enumerate(maps if full else maps[2:]):
        for k in range(n) if ks is None else ks:
            for good, menu in ((True, lin), (False, non)):
                for name, f in menu.items():
                    ctx.where = '%s %s %s %s' % (spec, mi, k, name)

                    def F(v):
                        c = v.get_coefs(1)
                        return sum((sum(M[p, q] * c[q] for q in range(n)) * es[p] for p in range(n)), 0 * es[0]) + f(c) * es[k]
                    ctx.state((spec, mi, k, name))
                    ctx.step()
                    tag = 'function:%s:%s' % (name, spec)
                    if not good:
                        ctx.raises(tag, ValueError, lambda: ga.lt(F), 'transformation by a function that is not linear (%s)' % name)
                        continue
                    ok, L = ctx.guard(tag, lambda: ga.lt(F))
                    if ok:
                        N = Matrix(M)
                        for q in range(n):
                            c = [sp.Integer(p == q) for p in range(n)]
                            N[k, q] += f(c)
                        ctx.check(meq(Matrix(L.matrix()), N), tag, lambda: 'matrix %s, expected %s' % (L.matrix(), N))
    ctx.sample('%s: of the functions of coefficients %s are accepted and %s are refused' % (spec, sorted(lin), sorted(non)))


N2 = ['E2', 'M2', 'O2', 'NULL2', 'SYM2', 'SING2', 'Z2', 'D2']
N3 = ['E3', 'M3', 'O3', 'PGA2', 'NUL3', 'UNIT3', 'FULL3']


def jobs(tier):
    th_ = tier == 'thorough'
    J = [dict(fn='j_refuse', kw=dict(spec='E2'))]
    for s in ['O2', 'M3', 'FULL3', 'STA', 'E2+c']:
        J.append(dict(fn='j_refuse', kw=dict(spec=s)))
    for s in ['E1', 'E2', 'O2', 'NULL2', 'Z2', 'polar-n'] + (['SYM2', 'M2', 'E3', 'FULL3', 'M3', 'PGA2', 'sph-n', 'STA'] if th_ else []):
        J.append(dict(fn='j_functions', kw=dict(spec=s)))
    if not th_:
        J += [dict(fn='j_functions', kw=dict(spec=s, ks=[k], full=False)) for s, k in (('E3', 1), ('FULL3', 0), ('PGA2', 2))]
    m2 = [[[int(e) for e in row] for row in m.tolist()] for m in matrices(2, [-1, 0, 1, 2] if not th_ else [-2, -1, 0, 1, 2])]
    for s in N2:
        for ch in chunks(m2 if s in ('E2', 'O2', 'M2') or th_ else m2[::7], 64):
            J.append(dict(fn='j_mats', kw=dict(spec=s, mats=ch)))
    m3 = [[[int(e) for e in row] for row in m.tolist()] for m in matrices(3, [0, 1])]
    for s in N3:
        sel = m3 if th_ else m3[3::29] if s != 'UNIT3' else m3[3::120]
        for ch in chunks(sel, 16):
            J.append(dict(fn='j_mats', kw=dict(spec=s, mats=ch + [m for m in MENU3[:-1]] if ch is sel[:16] else ch)))
    for s in ['STA', 'PGA3', 'FULL4']:
        J.append(dict(fn='j_mats', kw=dict(spec=s, mats=[[[1, 2, 0, 0], [0, 1, 0, 1], [0, 0, -1, 0], [3, 0, 0, 1]], [[0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [1, 0, 0, 0]],
                                                       [[1, 1, 1, 1], [1, 1, 1, 1], [0, 0, 1, 0], [0, 0, 0, 2]]], deep=th_)))
    for s in list(COORD):
        J.append(dict(fn='j_mats', kw=dict(spec=s, mats=(MENU2[:-3] if s in ('polar', 'polar-n', 'obl-x') else MENU3[:-1]))))
        J.append(dict(fn='j_generic', kw=dict(spec=s)))
    for s in ['E2', 'M2', 'O2', 'Z2', 'SYM2', 'E2+c', 'O2+c', 'E3', 'M3', 'FULL3', 'M3+c', 'FULL3+c', 'PGA2', 'E1', 'STA']:
        J.append(dict(fn='j_generic', kw=dict(spec=s)))
    fm2 = [[[1, 2], [1, -1]], [[0, 0], [1, 0]], [[0, 0], [0, 0]], [['k', 'a'], ['a+1', '0']], [['sin(k)', 0], [0, 'k/(a+1)']]]
    for s in ['E2', 'O2', 'Z2', 'SYM2', 'polar-n', 'NULL2']:
        J.append(dict(fn='j_forms', kw=dict(spec=s, mats=fm2)))
    fm3 = [[[1, 2, 0], [1, -1, 3], [0, 0, 2]], [[0, 0, 'k'], [1, 0, 0], [0, 0, 0]]]
    for s in ['E3', 'FULL3', 'PGA2', 'sph-n']:
        J.append(dict(fn='j_forms', kw=dict(spec=s, mats=fm3)))
    J.append(dict(fn='j_forms', kw=dict(spec='E1', mats=[[[2]], [['k']], [[0]]])))
    for s in ['E2', 'O2', 'M2', 'NULL2', 'E3', 'FULL3'] + (['SYM2', 'M3', 'O3', 'D2'] if th_ else []):
        J.append(dict(fn='j_pairs', kw=dict(spec=s)))
    for s, picks in [('E2', (2, 4, 7)), ('O2', (3, 4, 8)), ('M2', (3, 6, 12)), ('FULL3', (1, 3))]:
        J.append(dict(fn='j_words', kw=dict(spec=s, depth=3 if th_ else 2, picks=picks)))
    for s in ['E2+c', 'O2+c', 'M2+c', 'E3+c', 'FULL3+c', 'polar', 'polar-n', 'sph-n', 'obl-x']:
        J.append(dict(fn='j_strings', kw=dict(spec=s)))
    for s, box in [('E2', (-1, 0, 1, 2)), ('M2', (-1, 0, 1, 2)), ('O2', (-1, 0, 1, 2)), ('NULL2', (-1, 0, 1, 2)), ('Z2', (0, 1, 2)), ('E3', (-1, 0, 1)), ('FULL3', (0, 1)), ('M3', (0, 1, -1))]:
        for k in (1, 2, 3):
            J.append(dict(fn='j_versors', kw=dict(spec=s, box=box, k=k)))
    for s in ['E2', 'O2', 'M3', 'FULL3', 'STA', 'E1']:
        J.append(dict(fn='j_notversor', kw=dict(spec=s)))
    for s, ms in [('O2', m2[5::60]), ('NULL2', m2[7::80]), ('E2', m2[9::80]), ('SING2', m2[5::80]), ('FULL3', m3[200:203]), ('O3', m3[77:79]), ('E3', m3[99:101])]:
        J.append(dict(fn='j_reps', kw=dict(spec=s, mats=ms)))
    return J
