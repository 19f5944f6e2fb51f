"""The enumerated algebras ("configurations") the checks run over."""
import itertools
import sympy as sp
from vf.bridge import mk


def S(x):
    return sp.sympify(x, locals=LOCALS)


# real coordinates used everywhere
x, y, z, t, u, v, w = sp.symbols('x y z t u v w', real=True)
r, th, ph = sp.symbols('r theta phi', real=True)
rp = sp.Symbol('r', positive=True)
a, b, c, d, f, k = sp.symbols('a b c d f k', real=True)
LOCALS = dict(x=x, y=y, z=z, t=t, u=u, v=v, w=w, r=r, th=th, ph=ph, a=a, b=b, c=c, d=d, f=f, k=k)


def basis(n, root='e'):
    return root + '*' + '|'.join(str(i + 1) for i in range(n))


def diag(*xs):
    return [[(xs[i] if i == j else 0) for j in range(len(xs))] for i in range(len(xs))]


def sym_matrices(n, entries):
    """All symmetric n x n matrices with entries from the list."""
    pos = [(i, j) for i in range(n) for j in range(i, n)]
    for vals in itertools.product(entries, repeat=len(pos)):
        m = [[0] * n for _ in range(n)]
        for (i, j), val in zip(pos, vals):
            m[i][j] = m[j][i] = val
        yield m


# named metrics without coordinates; entries are strings or ints
METRICS = {
    'E1': diag(1), 'N1': diag(-1), 'Z1': diag(0), 'S1': diag('a'),
    'E2': diag(1, 1), 'M2': diag(1, -1), 'D2': diag(2, -3), 'Z2': diag(0, 1),
    'E3': diag(1, 1, 1), 'M3': diag(-1, 1, 1), 'N3': diag(-1, -1, -1), 'D3': diag(2, 3, -5), 'PGA2': diag(0, 1, 1), 'S3': diag('a', 'b', 'c'),
    'STA': diag(1, -1, -1, -1), 'E4': diag(1, 1, 1, 1), 'D4': diag(1, -2, 3, 0), 'PGA3': diag(0, 1, 1, 1), 'S4': diag('a', 'b', 'c', 'd'),
    'CGAo': diag(1, 1, 1, 1, -1), 'E5': diag(1, 1, 1, 1, 1), 'D5': diag(2, -1, 3, -5, 1),
    'D6': diag(1, -1, 2, 1, -3, 0), 'E7': diag(1, 1, 1, -1, 1, 1, -1),
    # not orthogonal
    'O2': [[1, '1/2'], ['1/2', 3]],
    'NULL2': [[0, 1], [1, 0]],
    'SING2': [[1, 1], [1, 1]],
    'SYM2': [['a', 'b'], ['b', 'c']],
    'O3': [[1, '1/2', 0], ['1/2', 3, 2], [0, 2, -1]],
    'FULL3': [[2, 1, -1], [1, 3, 2], [-1, 2, 5]],
    'MIX3': [[1, 0, 0], [0, 0, 1], [0, 1, 0]],
    'CGA1': [[1, 0, 0], [0, 0, -1], [0, -1, 0]],
    'UNIT3': [[1, 'a', 'b'], ['a', 1, 'c'], ['b', 'c', 1]],
    'NUL3': [[0, 1, 1], [1, 0, 1], [1, 1, 0]],
    'FULL4': [[1, 1, 0, 2], [1, -2, 1, 0], [0, 1, 3, 1], [2, 0, 1, 0]],
    'CGA2': [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, -1], [0, 0, -1, 0]],
    'NULL4': [[0, 1, 0, 0], [1, 0, 0, 0], [0, 0, 0, 2], [0, 0, 2, 0]],
    'TAIL4': [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, '1/2'], [0, 0, '1/2', 1]],
    'CGA3': [[1, 0, 0, 0, 0], [0, 1, 0, 0, 0], [0, 0, 1, 0, 0], [0, 0, 0, 0, -1], [0, 0, 0, -1, 0]],
}


def metric(name):
    return [[S(e) for e in row] for row in METRICS[name]]


def algebra(name, **kw):
    g = metric(name)
    return mk(basis(len(g)), g=g, **kw)
