"""C15: no computation changes an existing value or the result of a later one.

Stateless exploration with process snapshots: a small world of live objects is
built, the tree of operation sequences is walked depth first, and the process is
forked at every node so that each sequence runs in exactly the process state its
prefix left behind.  Every observation is compared with that of a fresh world,
and after every step every existing object is compared with what it was.  A node
whose internal state (all attributes, caches, class and module variables) equals
one already expanded is not expanded again.
"""
import copy
import gc
import io
import os
import pickle
import sys
import traceback
import types
import warnings
from contextlib import redirect_stdout
import sympy as sp
from sympy import symbols, Function, Matrix, S, sin, cos
import galgebra
import galgebra.ga as gga
import galgebra.mv as gmv
import galgebra.lt as glt
import galgebra.dop as gdop
import galgebra.metric as gme
import galgebra.printer as gpr
import galgebra.atoms as gat
from galgebra.ga import Ga
from galgebra.mv import Mv, Dop
from galgebra.lt import Lt, Mlt
from galgebra.dop import Pdop, Sdop
from vf.refga import expr_zero

BOUNDS = ('all ordered pairs (thorough: triples, state-matched) of the operation menu on one world of live objects, per algebra kind; '
          'every existing object re-observed after every step; internal-state matching over all reachable attributes, caches, class and module variables')
ASSUMPTIONS = ['sympy itself keeps no state that changes results', 'an attribute the user overwrites by hand is not an operation',
               'set_coef, Mlt.expand and the documented mode switches are in place; they are exercised on copies or restored']

KINDS = {}


def kind(f):
    KINDS[f.__name__] = f
    return f


X3 = symbols('x y z', real=True)
RT = symbols('r theta', real=True)


@kind
def E3():
    return Ga('e*1|2|3', g=[1, 1, 1], coords=X3)


@kind
def O3():
    return Ga('e*1|2|3', g=[[1, 1, 0], [1, 3, 1], [0, 1, 2]], coords=X3)


@kind
def POL():
    return Ga('e', g=[1, RT[0]**2], coords=RT)


@kind
def POLN():
    return Ga('e', g=[1, RT[0]**2], coords=RT, norm=True)


@kind
def GEN2():
    return Ga('e', g=[[1, RT[0]], [RT[0], RT[0]**2 + 4]], coords=RT)


@kind
def SYM2():
    return Ga('e*1|2')


@kind
def PGA2():
    return Ga('e*0|1|2', g=[0, 1, 1], coords=X3)


@kind
def SPH():
    r, th, ph = symbols('r theta phi', real=True)
    big = Ga('e', g=[1, r**2, r**2 * sin(th)**2], coords=(r, th, ph), norm=True)
    u, v = symbols('u v', real=True)
    return big.sm([2, u, v], [u, v])


class World:
    pass


def world(kd):
    """Live objects of one algebra, and everything the user handed in to make them."""
    W = World()
    W.kind = kd
    W.ga = ga = KINDS[kd]()
    e = ga.mv()
    n = ga.n
    X = ga.coords or symbols('p q s', real=True)[:n]
    W.X = X
    k = symbols('k', real=True)
    W.a = 2 * e[0] - e[-1]
    W.b = X[0] * e[0] + e[1]
    W.B = e[0] ^ e[1]
    W.A = 3 + X[0] * e[1] + 2 * (e[0] ^ e[1])
    W.F = ga.mv(X[0] * X[1] + k) + X[1] ** 2 * e[0] + X[0] * W.B
    W.G = ga.mv('G', 'mv')
    W.Bb = (e[0] * e[1] + e[1]).base_rep()
    W.s = ga.mv(k + 1)
    W.z = ga.mv((k + 1)**2 - k**2 - 2 * k - 1) * e[0]
    W.mat = Matrix(n, n, lambda i, j: i + 2 * j + 1 if i != j else 3)
    W.dct = {e[i].obj: (e[i] + e[(i + 1) % n]).obj for i in range(n)}
    W.lst = [[1 if i == j else i for j in range(n)] for i in range(n)]
    W.pd = {X[0]: 1, X[1]: 1}
    W.L = Lt(W.mat, ga=ga)
    W.M = Lt(W.dct, ga=ga)
    W.f = Function('f')(*X)
    W.D = Dop([(e[0], Pdop({X[0]: 1})), (X[0] * e[1], Pdop({}))], ga=ga)
    W.P = Pdop(W.pd)
    W.Sd = Sdop([(X[0], Pdop({X[1]: 1})), (S(2), Pdop({X[0]: 2}))])
    W.coefs = [S(1), X[0]] + [S(0)] * (n - 2)
    W.T = Mlt('T', ga, nargs=2)
    return W


INPUTS = ('mat', 'dct', 'lst', 'pd', 'coefs')
VALUES = ('a', 'b', 'B', 'A', 'F', 'G', 'Bb', 's', 'z', 'L', 'M', 'D', 'P', 'Sd', 'T')


# ---------------------------------------------------------------- canonical results

def canon(v):
    """A picklable description of a result that two computations can be compared by."""
    if isinstance(v, Mv):
        terms = {}
        ga = v.Ga
        b = v.blade_rep()
        blades = {s: i for i, s in enumerate(ga.blades.flat)}
        for t in sp.Add.make_args(sp.expand(b.obj)):
            c, nc = t.args_cnc()
            i = blades[nc[0]] if nc else 0
            terms[i] = terms.get(i, S.Zero) + sp.Mul(*c)
        return ('mv', tuple((i, ('x', terms[i])) for i in sorted(terms)))
    if isinstance(v, Dop):
        return ('dop', bool(v.cmpflg), tuple(sorted(((str(sorted(p.pdiffs.items(), key=str)), canon(c)) for c, p in v.terms), key=lambda t: t[0])))
    if isinstance(v, Sdop):
        return ('sdop', tuple(sorted(((str(sorted(p.pdiffs.items(), key=str)), canon(c)) for c, p in v.terms), key=lambda t: t[0])))
    if isinstance(v, Pdop):
        return ('pdop', str(sorted(v.pdiffs.items(), key=str)))
    if isinstance(v, Lt):
        return ('lt', canon([Mv(v.lt_dict.get(b, S.Zero), ga=v.Ga) for b in v.Ga.basis]))
    if isinstance(v, Mlt):
        val = v.fvalue
        return ('mlt', v.nargs, canon(val))
    if isinstance(v, sp.MatrixBase):
        return ('mat', v.shape, tuple(canon(x) for x in v))
    if isinstance(v, (bool, str, type(None))):
        return v
    if isinstance(v, (int, float, sp.Expr)):
        v = sp.sympify(v)
        if v.is_commutative:
            return ('x', v)
        return ('nc', str(sp.expand(v)))
    if isinstance(v, dict):
        return ('dict', tuple((str(k), canon(v[k])) for k in sorted(v, key=str)))
    if isinstance(v, (list, tuple)):
        return ('seq', tuple(canon(x) for x in v))
    return ('repr', type(v).__name__, str(v))


def same(x, y):
    if x == y:
        return True
    if isinstance(x, tuple) and isinstance(y, tuple) and x and y and x[0] == y[0]:
        if x[0] == 'x':
            return expr_zero(x[1] - y[1])
        if x[0] == 'mv':
            dx, dy = dict(x[1]), dict(y[1])
            return all(same(dx.get(i, ('x', S.Zero)), dy.get(i, ('x', S.Zero))) for i in set(dx) | set(dy))
        if len(x) == len(y):
            return all(same(p, q) for p, q in zip(x, y))
    elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return all(same(p, q) for p, q in zip(x, y))
    return False


def observe(W):
    """Everything a user can see of the existing objects, without computing anything through them."""
    ga = W.ga
    o = {}
    for k in VALUES:
        o['value ' + k] = canon(getattr(W, k))
    for k in ('a', 'b', 'B', 'A', 'F', 'G', 'Bb', 's', 'z'):
        v = getattr(W, k)
        o['expr ' + k] = str(v.obj)
        o['flags ' + k] = (v.is_blade_rep, v.title)
    for k in INPUTS:
        o['input ' + k] = canon(getattr(W, k))
    for k in ('g', 'g_raw', 'coords', 'n', 'is_ortho', 'norm', 'e_norm', 'dslot', 'dot_mode', 'dual_mode_value', 'sing_flg', 'gsym', 'name'):
        if k == 'name':
            continue
        o['algebra ' + k] = canon(getattr(ga, k, 'absent'))
    o['algebra basis'] = str(ga.basis)
    for k in ('e', 'i', 'i_inv'):
        o['algebra ' + k] = canon(getattr(ga, k, 'absent'))
    o['Simp.modes'] = str([getattr(m, '__name__', m) for m in gme.Simp.modes])
    o['Mv.dual modes'] = str(Mv.dual_mode_lst)
    return o


# ---------------------------------------------------------------- internal state

def walker():
    seen = {}
    out = []

    def walk(x, depth=0):
        if isinstance(x, (int, float, str, bytes, bool, type(None), complex)):
            return ('v', x)
        if isinstance(x, sp.Basic):
            return ('s', hash(x))
        if isinstance(x, sp.MatrixBase):
            return ('m', x.shape, tuple(hash(e) for e in x))
        if id(x) in seen:
            return ('ref', seen[id(x)])
        seen[id(x)] = len(seen)
        keep.append(x)
        if isinstance(x, dict):
            r = ('d', type(x).__name__, tuple(sorted((repr(walk(k)), walk(v)) for k, v in list(x.items()))) if depth < 40 else ())
            if hasattr(x, '__dict__'):
                r += (walk(dict(vars(x)), depth + 1),)
            return r
        if isinstance(x, (list, tuple)):
            return ('l', type(x).__name__, tuple(walk(v, depth + 1) for v in x))
        if isinstance(x, (set, frozenset)):
            return ('set', tuple(sorted(repr(walk(v)) for v in x)))
        if isinstance(x, types.FunctionType):
            cells = tuple(walk(c.cell_contents, depth + 1) for c in (x.__closure__ or ()) if _filled(c))
            return ('f', x.__qualname__, walk(x.__defaults__), walk(x.__kwdefaults__), cells,
                    walk({k: v for k, v in x.__dict__.items()}, depth + 1))
        if hasattr(x, 'cache_info'):
            ci = x.cache_info()
            return ('lru', getattr(x, '__qualname__', ''), ci.currsize)
        if isinstance(x, (staticmethod, classmethod)):
            return walk(x.__func__, depth + 1)
        if isinstance(x, property):
            return ('prop', tuple(walk(f, depth + 1) for f in (x.fget, x.fset) if f))
        if isinstance(x, type):
            if not (x.__module__ or '').startswith('galgebra'):
                return ('cls', x.__name__)
            return ('cls', x.__qualname__, tuple((k, walk(v, depth + 1)) for k, v in sorted(vars(x).items()) if not (k.startswith('__') and k.endswith('__')) and not k.startswith('_abc')))
        mod = type(x).__module__ or ''
        if mod.startswith('galgebra') or mod.startswith('vf'):
            d = {}
            if hasattr(x, '__dict__'):
                d.update(vars(x))
            d.pop('name', None)
            for sl in getattr(type(x), '__slots__', ()) or ():
                if hasattr(x, sl):
                    d[sl] = getattr(x, sl)
            return ('o', type(x).__name__, walk(d, depth + 1))
        return ('t', type(x).__name__)
    keep = []

    def _filled(c):
        try:
            c.cell_contents
            return True
        except ValueError:
            return False
    return walk


MODULES = [galgebra, gga, gmv, glt, gdop, gme, gpr, gat]


def internal(W):
    walk = walker()
    parts = [walk(vars(W))]
    for m in [sys.modules[k] for k in sorted(sys.modules) if k.startswith('galgebra')]:
        for k, v in sorted(vars(m).items()):
            if k.startswith('__') or isinstance(v, types.ModuleType):
                continue
            parts.append((k, walk(v)))
    return hash(repr(parts))


# ---------------------------------------------------------------- the operation menu

OPS = {}


def op(name, need=None):
    def deco(f):
        OPS[name] = f
        return f
    return deco


def _menu():
    def add(name, f):
        OPS[name] = f
    for name, f in {
        'A*b': lambda W: W.A * W.b, 'A^b': lambda W: W.A ^ W.b, 'A|b': lambda W: W.A | W.b, 'a<A': lambda W: W.a < W.A, 'A>b': lambda W: W.A > W.b,
        'A<<b': lambda W: W.A << W.b, 'A>>b': lambda W: W.A >> W.b, 'sp': lambda W: W.A.sp(W.F), 'G*a': lambda W: W.G * W.a, 'A*A': lambda W: W.A * W.A,
        'A+Bb': lambda W: W.A + W.Bb, 'Bb-A': lambda W: W.Bb - W.A, 'Bb*A': lambda W: W.Bb * W.A, 'Bb*Bb': lambda W: W.Bb * W.Bb, 'Bb^a': lambda W: W.Bb ^ W.a,
        'scalars': lambda W: [2 * W.A, W.A / 3, W.A + 1, 1 - W.A, W.s * W.A, W.A * W.s, -W.A], 'A**3': lambda W: W.A ** 3,
        'rev': lambda W: [W.A.rev(), W.Bb.rev(), W.A.g_invol(), W.A.ccon()], 'grades': lambda W: [W.A.grade(1), W.A[2], W.Bb.grade(0), W.A.even(), W.A.odd(), W.A.pure_grade()],
        'queries': lambda W: [getattr(getattr(W, k), q)() for k in ('a', 'B', 'A', 'Bb', 's', 'z', 'G') for q in ('is_scalar', 'is_vector', 'is_blade', 'is_base', 'is_zero')],
        'versor': lambda W: [W.a.is_versor(), W.A.is_versor(), W.B.is_versor(), W.Bb.is_versor()],
        'coefs': lambda W: [W.a.get_coefs(1), W.A.blade_coefs(), W.Bb.blade_coefs(), W.B.get_coefs(2), W.a.list()], 'coefs wrong grade': lambda W: W.A.get_coefs(1),
        'components': lambda W: [W.A.components(), W.Bb.components()], 'proj': lambda W: W.A.proj([W.ga.mv_blades[1][1]]), 'scalar': lambda W: [W.A.scalar(), W.Bb.scalar(), W.s.scalar()],
        'dual': lambda W: W.A.dual(), 'undual': lambda W: W.A.undual(), 'dual under +I': lambda W: _dual_mode(W, '+I'), 'dual under Iinv-': lambda W: _dual_mode(W, 'Iinv-'),
        'I': lambda W: [W.ga.I(), W.ga.E(), W.ga.e_sq], 'inv': lambda W: [W.a.inv(), W.B.inv()], 'A/a': lambda W: W.A / W.a, 'shirokov': lambda W: W.a.shirokov_inverse(), 'hitzer': lambda W: W.a.hitzer_inverse(),
        'norms': lambda W: [W.a.norm2(), W.a.qform(), W.B.norm(), abs(W.a)], 'exp': lambda W: W.B.exp(), 'exp +': lambda W: W.B.exp('+'),
        'reflect': lambda W: W.A.reflect_in_blade(W.a), 'project': lambda W: W.A.project_in_blade(W.a), 'rotate': lambda W: W.a.rotate_multivector(W.B),
        'subs': lambda W: W.F.subs({W.X[0]: 2}), 'simplify': lambda W: [W.F.simplify(), W.F.expand(), W.F.trigsimp(), W.F.collect(), W.Bb.simplify()],
        'func': lambda W: W.F.func(lambda c: c + 1), 'eq': lambda W: [W.A == W.A * 1, W.A == W.F, W.z == 0, W.Bb == W.Bb.blade_rep(), W.s == W.s],
        'hash': lambda W: [hash(W.A) == hash(Mv(W.A.obj, ga=W.ga)), hash(W.Bb) == hash(W.Bb.blade_rep()), len({W.A, W.A + 0})],
        'str': lambda W: [str(getattr(W, k)) for k in ('a', 'A', 'F', 'Bb', 's', 'z')], 'latex': lambda W: [gpr.latex(getattr(W, k)) for k in ('a', 'A', 'F', 'Bb')],
        'Fmt': lambda W: [str(W.A.Fmt(3)), str(W.A.Fmt(2, 'A')), gpr.latex(W.A.Fmt(3))],
        'base_rep': lambda W: [str(W.A.base_rep().obj), str(W.F.base_rep().obj)], 'blade_rep': lambda W: [str(W.Bb.blade_rep().obj), str(W.A.blade_rep().obj)],
        'copy set_coef': lambda W: _set_on_copy(W, 'A'), 'copy set_coef base': lambda W: _set_on_copy(W, 'Bb'), 'converted set_coef': _converted_set,
        'diff': lambda W: [W.F.diff(W.X[0]), W.F.diff(W.X[1]), W.B.diff(W.X[0])], 'pDiff list': lambda W: W.ga.pDiff(W.F, [1] * W.ga.n), 'diff const': lambda W: W.a.diff(W.X[0]), 'diff Bb': lambda W: W.Bb.diff(W.X[0]),
        'grad*F': lambda W: W.ga.grad * W.F, 'F*rgrad': lambda W: W.F * W.ga.rgrad, 'grad|F': lambda W: W.ga.grad | W.F, 'grad^F': lambda W: W.ga.grad ^ W.F, 'grad<F': lambda W: W.ga.grad < W.F,
        'grad grad f': lambda W: W.ga.grad * (W.ga.grad * W.f), 'laplacian op': lambda W: (W.ga.grad | W.ga.grad) * W.f, 'grads': lambda W: list(W.ga.grads()),
        'make_grad': lambda W: [W.ga.make_grad(W.G.grade(1)), W.ga.make_grad(W.G.grade(1), cmpflg=True)], 'make_grad 2': lambda W: W.ga.make_grad(W.G.grade(2)),
        'mvr': lambda W: W.ga.mvr(), 'mvr unnormalised': lambda W: W.ga.mvr(norm=False), 'r_basis': lambda W: [W.ga.r_basis_mv, str(W.ga.r_basis_dict)],
        'g_inv': lambda W: [W.ga.g_inv, W.ga.g_adj], 'christoffel': lambda W: [W.ga.Christoffel_symbols(mode=1), W.ga.Christoffel_symbols(mode=2)], 'connect': lambda W: W.ga.connect_flg,
        'frame': lambda W: W.ga.ReciprocalFrame([W.a, W.a + W.ga.mv()[1]]), 'frame append': lambda W: W.ga.ReciprocalFrame([W.a, W.a + W.ga.mv()[1]], mode='append'),
        'decompose': lambda W: [W.ga.grade_decomposition(W.A), W.ga.grades(W.A.obj), str(W.ga.split_multivector(W.A)), W.ga.scalar_part(W.A)],
        'tables': lambda W: [str(W.ga.blades), str(W.ga.indexes), str(W.ga.indexes_to_blades_dict), str(W.ga.blades_to_grades_dict)], 'bases_dict': lambda W: str(W.ga.bases_dict()),
        'basis mv': lambda W: [W.ga.mv(), W.ga.mv_blades], 'construct': lambda W: [W.ga.mv(W.coefs, 'vector'), W.ga.mv('u', 'bivector'), W.ga.mv('u v', 'vector'), W.ga.mv(3), W.ga.mv(W.F), W.ga.mv('w', 'mv', f=True)],
        'ga level': lambda W: [str(W.ga.wedge(W.A.obj, W.b.obj)), str(W.ga.hestenes_dot(W.A.obj, W.b.obj)), str(W.ga.left_contract(W.a.obj, W.A.obj)), str(W.ga.right_contract(W.A.obj, W.a.obj)), str(W.ga.scalar_product(W.A.obj, W.A.obj))],
        'dot under <': lambda W: _dot_mode(W, '<'), 'dot': lambda W: str(W.ga.dot(W.a.obj, W.A.obj)), 'er_blade': lambda W: str(W.ga.er_blade(W.ga.basis[0], W.ga.blades[2][0])),
        'L(a)': lambda W: [W.L(W.a), W.M(W.b)], 'L(A)': lambda W: [W.L(W.A), W.M(W.F), W.L(W.Bb)], 'L ops': lambda W: [W.L + W.M, W.L - W.M, W.L * W.M, 2 * W.L, W.L * 3],
        'L det': lambda W: [W.L.det(), W.M.det()], 'L tr': lambda W: [W.L.tr(), W.M.tr()], 'L adj': lambda W: W.L.adj(), 'L inv': lambda W: W.L.inv(), 'L matrix': lambda W: [W.L.matrix(), W.M.matrix()],
        'matrix overwritten': _overwrite_matrix, 'L str': lambda W: [str(W.L), gpr.latex(W.L)], 'Lt new': lambda W: [Lt(W.lst, ga=W.ga), Lt(W.dct, ga=W.ga), Lt(W.mat, ga=W.ga), Lt(lambda x: 2 * x, ga=W.ga)],
        'Lt versor': lambda W: Lt(W.a, ga=W.ga), 'Lt name': lambda W: [W.ga.lt('K'), W.ga.lt('K', mode='s')], 'inputs overwritten': _overwrite_inputs,
        'T(a,b)': lambda W: [W.T(W.a, W.b), W.T(W.b, W.a)], 'T ops': lambda W: [W.T + W.T, W.T * W.T, 3 * W.T if hasattr(W.T, '__rmul__') else 0], 'T contract': lambda W: W.T.contract(1, 2), 'T pdiff': lambda W: W.T.pdiff(1),
        'T dd': lambda W: W.T.dd(), 'T cderiv': lambda W: W.T.cderiv(), 'T str': lambda W: [str(W.T), gpr.latex(W.T)], 'T comps': lambda W: W.T.comps(),
        'Mlt new': lambda W: [Mlt(lambda a, b, c: (a | b).scalar() * (b | c).scalar(), W.ga), Mlt(W.a, W.ga), Mlt(W.L, W.ga), Mlt('U', W.ga, nargs=3)],
        'D(F)': lambda W: [W.D * W.F, W.D ^ W.F, W.F * W.D], 'D ops': lambda W: [W.D + W.ga.grad, W.D * W.D, 2 * W.D, -W.D, W.D ^ W.ga.grad], 'D components': lambda W: W.D.components(), 'D simplify': lambda W: [W.D.simplify(), W.D.consolidate_coefs(), W.D.TSimplify()],
        'D str': lambda W: [str(W.D), gpr.latex(W.D), str(W.ga.grad)], 'P': lambda W: [W.P(W.f), W.P * W.P, W.P * W.F, str(W.P)], 'Sd': lambda W: [W.Sd(W.f), W.Sd + W.Sd, W.Sd * W.Sd, str(W.Sd), W.Sd * W.P],
        'second algebra': _second_algebra, 'submanifold': _submanifold, 'copy of algebra': lambda W: _second_algebra(W, KINDS[W.kind]()), 'mixing': _mixing,
        'build': lambda W: _build(W), 'functions': lambda W: [gmv.rot(W.B, W.a), gmv.proj(W.a, W.b), gmv.even(W.A), gmv.odd(W.A), gmv.rev(W.A), gmv.grade(W.A, 1), gmv.inv(W.a), gmv.scalar(W.A), gmv.dual(W.A)],
        'versor prod': lambda W: [W.a * W.b * W.a, (W.a ^ W.b) * W.a], 'in place +=': _augmented, 'user names': lambda W: [W.ga.mv('a', 'vector'), W.ga.mv('XOX', 'vector') * W.a, W.ga.mv('b', 'vector') | W.ga.mv('a', 'vector')],
    }.items():
        add(name, f)


def _dual_mode(W, m):
    old = W.ga.dual_mode_value
    Ga.dual_mode(m)
    try:
        return [W.A.dual(), W.A.undual()]
    finally:
        Ga.dual_mode(old)


def _dot_mode(W, m):
    old = W.ga.dot_mode
    W.ga.dot_mode = m
    try:
        return str(W.ga.dot(W.a.obj, W.A.obj))
    finally:
        W.ga.dot_mode = old


def _set_on_copy(W, k):
    if W.ga.is_ortho and k == 'Bb':
        return 'an orthogonal algebra has no separate base representation'
    c = copy.copy(getattr(W, k))
    d = Mv(getattr(W, k), ga=W.ga)
    c.set_coef(1, 0, S(7))
    d.set_coef(2, 0, W.X[0])
    return [c, d, c.is_vector(), d.pure_grade(), str(c.base_rep()), str(d.blade_rep())]


def _converted_set(W):
    """A representation change before an in-place change must not be remembered after it."""
    c = copy.copy(W.B if W.ga.is_ortho else W.Bb)
    out = [c.blade_rep(), c.base_rep(), c.is_blade(), c.is_versor(), c.pure_grade(), hash(c) is not None]
    c.set_coef(1, 0, S(5))
    f = Mv(c.obj, ga=W.ga)
    f.is_blade_rep = c.is_blade_rep
    must(same(canon(c.blade_rep()), canon(f.blade_rep())), 'after set_coef, %s still has the blade representation %s' % (c.obj, c.blade_rep().obj))
    return out + [c.blade_rep(), c.base_rep(), c.is_blade(), c.pure_grade(), c == f, hash(c) == hash(f), f]


def _overwrite(m):
    try:
        m[0, 0] = 99
    except TypeError:
        pass         # it is immutable


def _overwrite_matrix(W):
    out = []
    for k in ('L', 'M'):
        L = getattr(W, k)
        for _ in range(3):
            m = L.matrix()
            out.append(canon(m))
            _overwrite(m)
    c = W.L.adj()
    m = c.matrix()
    m = c.matrix()
    _overwrite(m)
    must(out == [out[0]] * 3 + [out[3]] * 3, 'overwriting the matrix that matrix() gave changes what it gives next: %s' % (out,))
    return [c.matrix(), c.det(), c(W.a)]


def _overwrite_inputs(W):
    """What the user hands in may be changed by the user afterwards."""
    n = W.ga.n
    mat, dct, lst, pd, co = Matrix(W.mat), dict(W.dct), [list(r) for r in W.lst], dict(W.pd), list(W.coefs)
    objs = [Lt(mat, ga=W.ga), Lt(dct, ga=W.ga), Lt(lst, ga=W.ga), Pdop(pd), W.ga.mv(co, 'vector')]
    terms = [(W.a, Pdop({W.X[0]: 1}))]
    objs.append(Dop(terms, ga=W.ga))
    sterms = [(W.X[0], Pdop({W.X[0]: 1}))]
    objs.append(Sdop(sterms))
    g = Matrix(n, n, lambda i, j: (W.X[0] ** 2 if i == n - 1 else 1) if i == j else 0)
    cs = list(W.X)
    gm = str(g)
    h = Ga('h', g=g, coords=cs, norm=True)
    g0 = str(g)
    first = [canon(o) for o in objs] + [str(h.g), str(h.g_raw), str(h.coords), g0]
    mat[0, 0] = 55
    dct[W.ga.basis[0]] = S.Zero
    lst[0][0] = 55
    pd[W.X[0]] = 5
    co[0] = S(55)
    terms.append((W.b, Pdop({})))
    sterms.append((S(1), Pdop({})))
    g[0, 0] = 55
    cs[0] = sp.Symbol('other')
    second = [canon(o) for o in objs] + [str(h.g), str(h.g_raw), str(h.coords), g0]
    names = ['Lt(Matrix)', 'Lt(dict)', 'Lt(list)', 'Pdop(dict)', 'ga.mv(list)', 'Dop(list)', 'Sdop(list)', 'Ga(g=Matrix).g', 'Ga(g=Matrix).g_raw', 'Ga(coords=list).coords', '']
    for x, y, nm in zip(first, second, names):
        must(same(x, y), '%s changes when the user changes what they made it from: %s, then %s' % (nm, x, y))
    must(g0 == gm, 'Ga(g=Matrix, norm=True) changes the matrix handed in from %s to %s' % (gm, g0))
    return first


def _second_algebra(W, g2=None):
    """A look-alike algebra is created and used; the first one must not notice."""
    n = W.ga.n
    if g2 is None:
        g2 = Ga('e*' + '|'.join(str(b).split('_', 1)[1] for b in W.ga.basis), g=[[2 if i == j else 1 for j in range(n)] for i in range(n)], coords=W.ga.coords)
    e = g2.mv()
    out = [e[0] * e[1], (e[0] ^ e[1]).inv(), e[1] | e[0], e[0].dual(), g2.mvr(), str(e[0] * e[1])]
    if g2.coords is not None:
        out += [g2.grad * (g2.coords[0] * e[1])]
    T = Mlt('V', g2, nargs=2)
    out += [T(e[0], e[1]), Lt(Matrix(n, n, lambda i, j: i + j), ga=g2)(e[0])]
    return out


def _submanifold(W):
    if W.ga.coords is None or W.ga.n < 2:
        return 'none'
    t = symbols('tau', real=True)
    sm = W.ga.sm([t, t ** 2] + [0] * (W.ga.n - 2), [t])
    return [sm.g, sm.grad * (t * sm.mv()[0]), str(sm.basis)]


def _mixing(W):
    other = KINDS[W.kind]()
    out = []
    for f in (lambda: W.a * other.mv()[0], lambda: W.a + other.mv()[0], lambda: W.L(other.mv()[0]), lambda: W.a ^ other.mv()[1], lambda: W.a == other.mv()[0]):
        try:
            out.append(str(f()))
        except Exception as e:
            out.append(type(e).__name__)
    return out


def _build(W):
    g, *e = Ga.build('b*1|2', g=[1, -1])
    return [e[0] * e[1], e[1] * e[1]]


def _augmented(W):
    c, d = W.A, W.Bb
    keep = (W.A, W.Bb)
    c += W.b
    d *= W.a
    f = W.F
    f -= W.A
    f ^= W.a
    must(keep[0] is W.A and keep[1] is W.Bb and c is not W.A and d is not W.Bb, 'an augmented assignment works in place')
    return [c, d, f]


_menu()


class Broken(Exception):
    pass


def must(cond, msg):
    if not cond:
        raise Broken(msg)


def run(W, name):
    """One operation on the world: its canonical outcome (an error counts as one)."""
    buf = io.StringIO()
    with warnings.catch_warnings(), redirect_stdout(buf):
        warnings.simplefilter('ignore')
        try:
            r = ('ok', canon(OPS[name](W)))
        except Broken as e:
            r = ('broken', str(e))
        except Exception as e:
            r = ('error', type(e).__name__)
    return r


# ---------------------------------------------------------------- exploration

class Pickler(pickle.Pickler):
    """sympy's undefined functions are classes made at run time: send name and assumptions."""

    def reducer_override(self, o):
        if isinstance(o, sp.core.function.UndefinedFunction):
            return (_function, (o.__name__, tuple(sorted(o._kwargs.items()))))
        return NotImplemented


def _function(name, kw):
    return Function(name, **dict(kw))


def dumps(v):
    b = io.BytesIO()
    Pickler(b, protocol=4).dump(v)
    return b.getvalue()


def forked(f, *args):
    """Run f in a copy of this process; its result comes back, its effects do not."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                data = dumps(('ok', f(*args)))
            except Exception:
                data = pickle.dumps(('err', traceback.format_exc(limit=-4)))
            with os.fdopen(w, 'wb') as fh:
                fh.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    st, val = pickle.loads(data)
    if st == 'err':
        raise RuntimeError(val)
    return val


def text(v):
    return str(v)[:500]


def explore(W, base, menus, prefix, expanded, deep=False):
    """All continuations of the current process state; returns (fails, counts, outcomes)."""
    fails, trans, traces, states, outs = [], 0, 0, [], []

    ofirst = observe(W)

    def child(names):
        before, bad, rs = ofirst, [], []
        for name in names:
            r = run(W, name)
            rs.append(text(r))
            if not same(r, base[name]):
                bad.append((name, 'result', 'gives %s, on a fresh world %s' % (text(r), text(base[name]))))
            after = observe(W)
            for k in after:
                if after[k] != before[k] and not same(after[k], before[k]):
                    bad.append((name, k, 'was %s, is now %s' % (text(before[k]), text(after[k]))))
            before = after
            if bad:
                break
        st = internal(W) if len(menus) > 1 or deep else None
        sub = None
        if len(menus) > 1 and st not in expanded and not bad:
            sub = explore(W, base, menus[1:], prefix + list(names), expanded | {st}, deep)
        return bad, st, sub, rs

    for names in menus[0]:
        bad, st, sub, rs = forked(child, names)
        trans += len(rs)
        states.append(st)
        outs += rs
        for name, what, msg in bad:
            fails.append((' ; '.join(prefix + list(names[:names.index(name) + 1])) + ' : ' + what, msg))
        if sub:
            fails += sub[0]
            trans += sub[1]
            traces += sub[2]
            states += sub[3]
            outs += sub[4]
            expanded.add(st)
        else:
            traces += 1
        if len(fails) > 8:
            break
    return fails, trans, traces, states, outs


def pairs(ctx, kd, first, then=None, depth=2, deep=False, batch=1):
    W = world(kd)
    gc.collect()
    gc.freeze()
    gc.disable()
    fresh = internal(W)
    then = list(then or OPS)
    base = {name: forked(run, W, name) for name in dict.fromkeys(list(first) + then)}
    again = forked(lambda: {name: run(world(kd), name) for name in first})
    for name in first:
        if base[name][0] == 'broken':
            ctx.fail('%s/%s' % (kd, name), base[name][1])
        ctx.check(same(again[name], base[name]), '%s/%s/second world' % (kd, name), lambda: 'a second world in the same process gives %s, the first %s' % (text(again[name]), text(base[name])))
    menus = [[[x] for x in first]] + [[then[i:i + batch] for i in range(0, len(then), batch)]] * (depth - 1)
    fails, trans, traces, states, outs = explore(W, base, menus, [], {fresh}, deep)
    ctx.step(trans)
    ctx.trace(traces)
    for s in states:
        if s is not None:
            ctx.state((kd, s))
    for o in outs:
        ctx.outcome((kd, o))
    for k, m in fails:
        ctx.fail(kd + '/' + k, m)
    ctx.sample('%s: first %s, then %d operations, %d at a time; e.g. %s -> %s' % (kd, list(first), len(then), batch, first[0], text(base[first[0]])[:150]))


# second operations for the kinds that are not explored in full at the quick tier: one
# or two users of every table, cache and attribute
PROBES = ['A*b', 'A|b', 'A>b', 'sp', 'Bb*A', 'Bb-A', 'rev', 'grades', 'queries', 'coefs', 'dual', 'undual', 'I', 'inv', 'reflect', 'simplify', 'eq', 'str',
          'base_rep', 'blade_rep', 'copy set_coef', 'diff', 'grad*F', 'F*rgrad', 'grad|F', 'mvr', 'connect', 'frame', 'decompose', 'tables',
          'construct', 'ga level', 'L(A)', 'L det', 'L adj', 'L matrix', 'T(a,b)', 'T contract', 'T comps', 'T cderiv', 'D components', 'P', 'Sd']


def jobs(tier):
    js = [dict(fn='pairs', kw=dict(kd='PGA2', first=['dual', 'base_rep'], then=['A*b', 'eq', 'grades'], depth=2, deep=True))]
    names = list(OPS)
    if tier == 'quick':
        for kd in KINDS:
            for i in range(0, len(names), 18):
                js.append(dict(fn='pairs', kw=dict(kd=kd, first=names[i:i + 18], then=PROBES, depth=2, batch=8)))
        return js
    for kd in KINDS:
        for i in range(0, len(names), 5):
            js.append(dict(fn='pairs', kw=dict(kd=kd, first=names[i:i + 5], depth=2, deep=True)))
    for kd in ('GEN2', 'POLN'):
        for i in range(0, len(names)):
            js.append(dict(fn='pairs', kw=dict(kd=kd, first=names[i:i + 1], then=PROBES, depth=3, deep=True)))
    return js
