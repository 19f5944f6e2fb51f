"""C17: printed forms denote the value printed.

Values are built from enumerated {basis element: coefficient} tables, printed
in every mode and line format, and read back by independent readers."""
import importlib
import itertools
import re
import sympy as sp
from galgebra.ga import Ga
from galgebra.mv import Mv, Dop
from galgebra.dop import Sdop, Pdop
from galgebra.lt import Mlt
from galgebra import printer as P
from vf.reader import StrReader, TexReader, Unreadable, num, vec, Val, equal, layout, add_d, same

sympy_latex = importlib.import_module('sympy.printing.latex')      # sympy.printing.latex is also a function
x, y, z, th = sp.symbols('x y z theta')
a1, al, Axy, xy = sp.symbols('a_1 alpha A__xy xy')
f = sp.Function('f')(x, y, z)
G1 = sp.Function('G__x')(x, y, z)
SYMS = {'x': x, 'y': y, 'z': z, 'theta': th, 'a_1': a1, 'alpha': al, 'A__xy': Axy, 'xy': xy}
TEXS = {'x': x, 'y': y, 'z': z, r'\theta ': th, 'a_{1}': a1, r'\alpha ': al, 'A^{xy}': Axy, 'xy': xy}
R = sp.Rational
KINDS = {str(k): k for k in map(sp.sympify, [
    1, -1, 2, -3, R(1, 2), -R(2, 3), x, -x, 2 * x, x + y, -x - y, x - y, 1 - x, x * y, x / y, -1 / x, 1 / (x * y), x**2, -x**3, (x + 1) / (x - y), x / (y + 1)**2,
    sp.sqrt(2), -sp.sqrt(2) / 2, sp.sqrt(x), 1 / sp.sqrt(x), sp.sqrt(x + y), x**R(3, 2), x**R(1, 3), x**R(-1, 3), x**y, sp.sin(th), -sp.sin(th)**2, sp.cos(th) * sp.sin(x), 1 / sp.cos(th), sp.exp(x), sp.exp(-x), sp.log(x),
    f, -f, f**2, 1 / f, x * f, f * G1, f + G1, f.diff(x), -f.diff(x), f.diff(x, 2), f.diff(x, y), -x * f.diff(x), f * f.diff(z), f.diff(x)**2, f.diff(x) - G1.diff(y), G1.diff(x, x, z), G1**2,
    a1, a1**2, 1 / a1, a1 * x, al, -al * x, al**2 + 1, Axy, Axy**2, xy, x * y * xy, sp.pi, -sp.pi / 2, sp.Abs(x), 0.5, -1.5 * x, 2**x, x * (y + z) + 1])}
BASICS = ['1', '-1', '2', '-2/3', 'x', '-x', 'x + y', '-x - y', 'f(x, y, z)', '-Derivative(f(x, y, z), x)', '-1/x', 'sqrt(2)']
BASICS = [k for k in BASICS if k in KINDS]
BASICS += [k for k in KINDS if k in ('-Derivative(f, x)', 'f', '-D{x}f')]


class World:
    def __init__(self, name):
        self.name = name
        self.prod = False
        if name == 'E3':
            self.ga = Ga('e*x|y|z', g=[1, 1, 1], coords=(x, y, z))
            self.names, self.tex = ['e_x', 'e_y', 'e_z'], [r'\boldsymbol{e}_{x}', r'\boldsymbol{e}_{y}', r'\boldsymbol{e}_{z}']
        elif name == 'NW3':
            self.ga = Ga('e*1|2|3', g=[1, -1, 1], wedge=False)
            self.names, self.tex = ['e_1', 'e_2', 'e_3'], [r'\boldsymbol{e}_{1}', r'\boldsymbol{e}_{2}', r'\boldsymbol{e}_{3}']
        elif name == 'G2':
            self.ga = Ga('gamma*t|s', g=[1, -1])
            self.names, self.tex = ['gamma_t', 'gamma_s'], [r'\boldsymbol{\gamma }_{t}', r'\boldsymbol{\gamma }_{s}']
        elif name == 'O3':
            self.ga = Ga('u v w', g='2 1 0,1 3 1,0 1 -1')
            self.names, self.tex = list('uvw'), [r'\boldsymbol{%s}' % c for c in 'uvw']
        elif name == 'GEN2':
            self.ga = Ga('u v')
            self.names, self.tex = list('uv'), [r'\boldsymbol{%s}' % c for c in 'uv']
        elif name == 'E4':
            self.ga = Ga('e*1|2|3|4', g=[1, 1, 1, -1])
            self.names, self.tex = ['e_%d' % i for i in range(1, 5)], [r'\boldsymbol{e}_{%d}' % i for i in range(1, 5)]
        self.n = self.ga.n
        self.masks = [m for k in range(self.n + 1) for m in itertools.combinations(range(self.n), k)]
        self.blade = dict(zip(self.ga.indexes.flat, self.ga.blades.flat))
        self.basis = {n: (n,) for n in self.names}
        self.atoms = {t: vec(n) for t, n in zip(self.tex, self.names)}
        if name == 'NW3':
            for m in self.masks:
                if len(m) > 1:
                    self.basis['e_' + ''.join(str(i + 1) for i in m)] = tuple(self.names[i] for i in m)
                    self.atoms[r'\boldsymbol{e}_{%s}' % ''.join(str(i + 1) for i in m)] = vec(*[self.names[i] for i in m])
        self.atoms.update({t: num(v) for t, v in TEXS.items()})
        self.coefs = dict(SYMS)
        if name == 'GEN2':
            for i in range(2):
                for j in range(i, 2):
                    t = '(%s.%s)' % (self.names[i], self.names[j])
                    self.coefs[t] = self.ga.g[i, j]
                    self.atoms[r'\left (%s\cdot %s\right ) ' % (self.tex[i], self.tex[j])] = num(self.ga.g[i, j])

    def key(self, m):
        return ((), ('^', tuple(self.names[i] for i in m)) if m else ())

    def mv(self, table):
        """(real multivector, value) with the coefficients of the table {index tuple: coefficient}."""
        e = sp.S.Zero
        t = {}
        for m, c in table.items():
            e += c * self.blade[m]
            t[self.key(m)] = sp.sympify(c)
        return self.ga.mv(e), Val(t)

    def str_reader(self, prod=False, args=False):
        return StrReader(self.coefs, self.basis, {'f': f, 'G__x': G1}, prod, args)

    def tex_reader(self, prod=False, omit=False):
        return TexReader(self.atoms, {'f': f, 'G^{x}': G1}, prod, omit)


_worlds = {}


def world(name):
    if name not in _worlds:
        _worlds[name] = World(name)
    return _worlds[name]


OMIT = dict(omit_function_args=True, omit_partial_derivative_fraction=True)


def color(A):
    t = P.GaPrinter(dict(basis_vector_color='blue', function_color='red', derivative_color='bright cyan')).doprint(A)
    if t.count('\033[0m') != len(re.findall(r'\033\[[01];\d+m', t)):
        raise Unreadable('colours are not switched off: %r' % t)
    return re.sub(r'\033\[[0-9;]*m', '', t)


def under_flag(A):
    P.GaLatexPrinter.latex_flg = True
    try:
        return A.__ga_print_str__()
    finally:
        P.GaLatexPrinter.latex_flg = False


def notebook(A):
    """(title or None, value) as a notebook shows A."""
    t = A._repr_latex_()
    m = re.fullmatch(r'\$\\displaystyle (?:([^=$]*) = )?([^=$]*)\$', t.replace('\n', ' '))
    if not m:
        raise Unreadable('not the display of a value: %r' % t)
    return m.group(1), m.group(2).replace(r'\mathbf', r'\boldsymbol')


# mode: (text of A, reader kind, function arguments are written)
MODES = {
    'str': (str, 'str', False),
    'repr': (repr, 'str', False),
    'print': (lambda A: A.__ga_print_str__(), 'str', False),
    'color': (color, 'str', False),
    'sstr': (sp.sstr, 'str', True),
    'latex': (P.latex, 'tex', True),
    'latex omit': (lambda A: P.latex(A, **OMIT), 'tex', False),
    'latex omit args': (lambda A: P.latex(A, omit_function_args=True), 'tex', False),
    'latex omit frac': (lambda A: P.latex(A, omit_partial_derivative_fraction=True), 'tex', True),
    'sympy latex': (lambda A: sp.latex(A).replace(r'\mathbf', r'\boldsymbol'), 'tex', True),
    'latex print': (under_flag, 'tex', True),
    'pretty': (lambda A: sp.pretty(A, wrap_line=False), 'str', False),
    'notebook': (lambda A: notebook(A)[1], 'tex', True),
}
FEW = ['str', 'latex', 'latex omit']


def reader(w, kind, args, prod=False):
    return w.str_reader(prod, args) if kind == 'str' else w.tex_reader(prod, not args)


def read(ctx, key, w, text, kind, args, want, prod=False):
    """Reads the text; returns the reader when the text denotes the value."""
    rd = reader(w, kind, args, prod)
    try:
        v = rd.read(text)
    except (Unreadable, KeyError) as e:
        ctx.fail(key, 'text %r is not a printed value: %s' % (text, e))
        return None
    if not equal(v, want):
        ctx.fail(key, 'text %r denotes %s, printed was %s' % (text, v.t, want.t))
        return None
    return rd


def once(ctx, key, rd, want, text, scalar_too=False):
    """Every basis element of the value in exactly one term."""
    seen = {}
    for ks in rd.top:
        if len({b for _, b in ks}) > 1:
            ctx.fail(key, '%r has a term with several basis elements' % text)
        for _, b in {(0, k[1]) for k in ks}:
            seen[b] = seen.get(b, 0) + 1
    bad = [b for b, k in seen.items() if b and k > 1]
    zero = [k for k, c in want.t.items() if c == 0 and k[1] in seen and k[1]]
    ctx.check(not bad and not zero, key, lambda: '%r has elements in more than one term: %s, or vanishing ones: %s' % (text, bad, zero))


def nonzero(v):
    return {k[1]: c for k, c in v.t.items() if c != 0}


def show(ctx, w, label, A, want, modes, formats, prod=False, texts=None):
    nz = nonzero(want)
    grades = sorted({len(b[1]) if b else 0 for b in nz})
    for mode in modes:
        fn, kind, args = MODES[mode]
        key = '%s/%s: %s' % (w.name, mode, label)
        ok, t = ctx.guard(key, fn, A)
        ctx.step()
        ctx.trace()
        if not ok:
            continue
        rd = read(ctx, key, w, t, kind, args, want, prod)
        if rd is None:
            continue
        once(ctx, key, rd, want, t)
        ctx.outcome((mode, t))
        ctx.state((w.name, mode, label))
        if texts is not None:
            other = texts.setdefault((mode, t), want)
            if other is not want:
                ctx.check(equal(other, want), key, lambda: 'the same text %r for another value %s' % (t, other.t))
    for fmt, title in formats:
        for tag, fn, kind, args in (('str', lambda B: P.GaPrinter().doprint(B), 'str', False), ('str()', str, 'str', True), ('latex', P.latex, 'tex', True), ('latex omit', lambda B: P.latex(B, **OMIT), 'tex', False)):
            if tag == 'str()' and fmt == 1 and title is None:
                continue
            key = '%s/%s Fmt(%s,%s): %s' % (w.name, tag, fmt, title, label)
            ok, t = ctx.guard(key, lambda: fn(A.Fmt(fmt, title)))
            ctx.step()
            ctx.trace()
            if not ok:
                continue
            if title is not None:
                if not t.startswith(title + ' = '):
                    ctx.fail(key, 'no title in %r' % t)
                    continue
                t = t[len(title) + 3:]
            if kind == 'str':
                lines, env = t.split('\n'), True
            else:
                lines, env = layout(t)
            parts = len(grades) if fmt == 2 else len(nz) if fmt == 3 else 1
            parts = max(parts, 1)
            if not ctx.check(len(lines) == parts and (kind == 'str' or env == (parts > 1)), key, lambda: '%r has %d lines, not %d' % (t, len(lines), parts)):
                continue
            rd = read(ctx, key, w, ' '.join(lines), kind, args, want, prod)
            if rd is None:
                continue
            once(ctx, key, rd, want, t)
            if fmt in (2, 3) and parts > 1:
                # every line on its own has one grade, or one element
                got = []
                for ln in lines:
                    r1 = reader(w, kind, args, prod)
                    try:
                        v = r1.read(ln)
                    except (Unreadable, KeyError) as e:
                        ctx.fail(key, 'line %r is not readable: %s' % (ln, e))
                        break
                    els = set(nonzero(v))
                    got.append(sorted({len(b[1]) if b else 0 for b in els}) if fmt == 2 else sorted(els))
                else:
                    ctx.check(all(len(g) == 1 for g in got) and got == ([[g] for g in grades] if fmt == 2 else got), key, lambda: 'lines of %r hold %s' % (t, got))
            ctx.outcome((tag, fmt, t))
            ctx.state((w.name, tag, fmt, label))


FORMATS = [(1, None), (2, None), (3, None), (1, 'A'), (2, 'A'), (3, r'A_{1}')]


def lab(w, table):
    return ' + '.join('(%s)%s' % (c, ''.join(w.names[i] for i in m)) for m, c in table.items()) or '0'


def single(ctx, name, part):
    """Every kind of coefficient on every element, alone and beside a unit scalar, in every mode and format."""
    w = world(name)
    texts = {}
    for k, c in list(KINDS.items())[part[0]::part[1]]:
        for m in (w.masks if name in ('G2', 'GEN2') else [(), (0,), (w.n - 1,), (0, 1), tuple(range(w.n))]):
            for table in ({m: c}, {m: c, (0,): sp.S.One} if m != (0,) else {m: c, (): -x}):
                A, want = w.mv(table)
                one = len(table) == 1
                show(ctx, w, lab(w, table), A, want, list(MODES) if one else FEW, FORMATS if not one else FORMATS[:3], texts=texts)
    ctx.sample('%s: %s is printed %r and %r' % (name, lab(w, table), str(A), P.latex(A)))


def supports(ctx, name, part, rot):
    """Every set of elements, the coefficients rotating through the kinds."""
    w = world(name)
    texts = {}
    ks = BASICS
    ALL = list(KINDS)
    n = len(w.masks)
    for s in range(1 << n):
        if s % part[1] != part[0]:
            continue
        sel = [m for i, m in enumerate(w.masks) if s >> i & 1]
        for r in range(rot):
            pool = ks if r % 2 == 0 else ALL
            table = {m: KINDS[pool[(i * (3 if r % 2 else 1) + r * 5 + s) % len(pool)]] for i, m in enumerate(sel)}
            A, want = w.mv(table)
            show(ctx, w, lab(w, table), A, want, ['str', 'latex omit' if s % 2 else 'latex'], [(2, None), (3, 'A')] if r == 0 else [], texts=texts)
    ctx.sample('%s: %d supports, e.g. %s' % (name, 1 << n, str(A)))


def pairs(ctx, name, part):
    """Every pair of kinds on two elements."""
    w = world(name)
    ms = [(), (0,), (0, 1)]
    todo = [(p, k1, k2) for p in itertools.combinations(ms, 2) for k1 in KINDS for k2 in BASICS]
    texts = {}
    for p, k1, k2 in todo[part[0]::part[1]]:
        for u, v in ((k1, k2), (k2, k1)):
            table = {p[0]: KINDS[u], p[1]: KINDS[v]}
            A, want = w.mv(table)
            show(ctx, w, lab(w, table), A, want, FEW, [], texts=texts)
    ctx.sample('%s: %s' % (name, str(A)))


def merged(ctx, name):
    """Values written with several terms per element, with hidden zeros and with common factors print one term each."""
    w = world(name)
    e = [w.ga.mv(w.blade[m]) for m in w.masks]
    forms = []
    for m, n in itertools.permutations(range(len(w.masks)), 2):
        for c, d in itertools.product([sp.S.One, x, x + y, -x], repeat=2):
            forms.append((c * (e[m] + d * e[n]), {m: c, n: c * d}))
            forms.append((c * e[m] + d * e[n] + c * e[n] - d * e[m], {m: c - d, n: d + c}))
        forms.append((((x + y)**2 - x**2 - 2 * x * y - y**2) * e[m] + e[n], {m: 0, n: 1}))
        forms.append(((sp.sin(th)**2 + sp.cos(th)**2) * e[m] - e[n] * (sp.sin(th)**2 + sp.cos(th)**2 - 1), {m: 1, n: 0}))
        forms.append(((x**2 - 1) / (x - 1) * e[m] + 2 * e[n] * x / x, {m: x + 1, n: 2}))
    texts = {}
    for k, (A, t) in enumerate(forms):
        want = Val({w.key(w.masks[m]): sp.expand(c) for m, c in t.items()})
        show(ctx, w, 'form %d' % k, A, want, FEW, [(3, None)] if k % 7 == 0 else [], texts=texts)
    ctx.sample('%s: %s' % (name, str(A)))


def bases(ctx, name, part):
    """Base (geometric product) representation: every support of basis products."""
    w = world(name)
    items = list(zip(w.ga.indexes.flat, w.ga.bases.flat))
    texts = {}
    n = len(items)
    for s in range(1, 1 << n):
        if s % part[1] != part[0]:
            continue
        sel = [it for i, it in enumerate(items) if s >> i & 1]
        if len(sel) > 4 and s % 3:
            continue
        e, t = sp.S.Zero, {}
        for i, (m, b) in enumerate(sel):
            c = KINDS[BASICS[(i + s) % len(BASICS)]]
            e += c * b
            t[((), ('*' if len(m) > 1 else '^', tuple(w.names[j] for j in m)) if m else ())] = c
        A = Mv(e, ga=w.ga)
        if any(len(m) > 1 for m, _ in sel):
            A.is_blade_rep = False
        show(ctx, w, 'bases %s' % s, A, Val(t), FEW, [(2, None), (3, None)] if s % 5 == 0 else [], prod=True, texts=texts)
        # and the representation the code itself makes denotes the same products
        B = w.ga.mv(sum(c * w.blade[m] for (m, _), c in zip(sel, t.values()))).base_rep()
        ok, txt = ctx.guard('%s: base_rep %s' % (w.name, s), str, B)
        if ok:
            try:
                v = w.str_reader(True).read(txt)
            except (Unreadable, KeyError) as ex:
                ctx.fail('%s: base_rep %s' % (w.name, s), '%r: %s' % (txt, ex))
                continue
            tot = w.ga.mv(0)
            for (_, b), c in v.t.items():
                M = w.ga.mv(c)
                for q in (b[1] if b else ()):
                    M = M * w.ga.mv(w.ga.basis[w.names.index(q)])
                tot = tot + M
            ref = w.ga.mv(sum(c * w.blade[m] for (m, _), c in zip(sel, t.values())))
            ctx.check(sp.simplify(sp.expand(tot.obj - ref.obj)) == 0, '%s: base_rep %s' % (w.name, s), lambda: '%r denotes %s, not %s' % (txt, tot, ref))
            ctx.step()
    ctx.sample('%s: %s' % (name, str(A)))


# ---- operators

def pval(spec):
    return Val({(add_d((), tuple((str(q), k) for q, k in spec.items())), ()): sp.S.One})


PD = [{}, {x: 1}, {y: 1}, {x: 2}, {x: 1, y: 1}, {y: 2, z: 1}]
OPMODES = ['str', 'repr', 'print', 'sstr', 'latex', 'latex omit', 'sympy latex']
DK = ['1', '-1', '2', '-2/3', 'x', '-x', 'x + y', '-x - y', '-1/x', '1/(x*y)', 'x/y', 'x - y', 'sqrt(2)', '-x**3']


def opshow(ctx, w, label, D, want, few=False):
    for mode in (FEW if few else OPMODES):
        fn, kind, args = MODES[mode]
        args = args or mode == 'str'            # the string of an operator is that of sympy, with arguments
        key = '%s/%s: %s' % (w.name, mode, label)
        ok, t = ctx.guard(key, fn, D)
        ctx.step()
        ctx.trace()
        if ok and read(ctx, key, w, t, kind, args, want) is not None:
            ctx.outcome((mode, t))
            ctx.state((mode, label))


def cval(c):
    return Val({((), ()): sp.sympify(c)})


def sdops(ctx, part):
    w = world('E3')
    for sp_ in PD:
        opshow(ctx, w, 'Pdop %s' % sp_, Pdop(sp_), pval(sp_))
    todo = []
    for p in PD:
        for k, c in KINDS.items():
            todo.append([(c, p)])
    for p, q in itertools.permutations(PD, 2):
        for k1, k2 in itertools.product(DK, repeat=2):
            todo.append([(KINDS[k1], p), (KINDS[k2], q)])
    for ps in itertools.combinations(PD, 3):
        for i, k in enumerate(DK):
            todo.append([(KINDS[DK[(i * (j + 1) + j) % len(DK)]], p) for j, p in enumerate(ps)])
    for i, terms in enumerate(todo[part[0]::part[1]]):
        S = Sdop([(c, Pdop(p)) for c, p in terms])
        want = num(0)
        for c, p in terms:
            want = want.add(cval(c).mul(pval(p)))
        opshow(ctx, w, 'Sdop %s' % (terms,), S, want, few=len(terms) > 1)
    opshow(ctx, w, 'Sdop []', Sdop([]), num(0))
    ctx.sample('%s is printed %r, %r' % (terms, str(S), P.latex(S)))


def dops(ctx, cmpflg, part):
    """Operators with one term of every kind, and with two and three terms."""
    w = world('E3')
    ms = [(), (0,), (1,), (0, 1), (0, 1, 2)]
    todo = []
    for m in ms:
        for p in PD:
            for k in KINDS:
                todo.append([(m, KINDS[k], p)])
    for (m1, p1), (m2, p2) in itertools.combinations(list(itertools.product(ms, PD[:4])), 2):
        for i, k1 in enumerate(DK):
            todo.append([(m1, KINDS[k1], p1), (m2, KINDS[DK[(i + len(todo)) % len(DK)]], p2)])
    for tr in itertools.combinations(list(itertools.product(ms[:4], PD[:3])), 3):
        todo.append([(m, KINDS[DK[(len(todo) + 3 * j) % len(DK)]], p) for j, (m, p) in enumerate(tr)])
    for terms in todo[part[0]::part[1]]:
        want = num(0)
        for m, c, p in terms:
            want = want.add(cval(c).mul(Val({w.key(m): sp.S.One})).mul(pval(p)))
        label = 'Dop cmpflg=%s %s' % (cmpflg, terms)
        ok, D = ctx.guard(label, lambda: Dop([(w.ga.mv(c * w.blade[m]), Pdop(p)) for m, c, p in terms], ga=w.ga, cmpflg=cmpflg))
        if not ok:
            continue
        opshow(ctx, w, label, D, want, few=len(terms) > 1)
        if len(terms) == 1:
            for fmt in (1, 2, 3):
                key = '%s Fmt %s' % (label, fmt)
                ok, t = ctx.guard(key, lambda: P.latex(D.Fmt(fmt, 'D')))
                if ok and ctx.check(t.startswith('D = '), key, t):
                    read(ctx, key, w, t[4:], 'tex', True, want)
                ctx.step()
        # the operator printed is unchanged by printing
        ok, t2 = ctx.guard(label, str, D)
        if ok:
            read(ctx, label + ' again', w, t2, 'str', True, want)
    ctx.sample('%s is printed %r and %r' % (label, str(D), P.latex(D)))


def lts(ctx, name):
    """Transformations by matrix, dictionary and versor: every basis vector with its image."""
    w = world(name)
    e = w.ga.mv()
    n = w.n
    cells = [sp.S.Zero, sp.S.One, -x, x + y, R(1, 2)]
    maps = []
    for i in range(25):
        maps.append([[cells[(i * (r + 1) + c * (i // 5 + 1) + r * c) % 5] for c in range(n)] for r in range(n)])
    maps += [[[0] * n for _ in range(n)], [[int(r == c) for c in range(n)] for r in range(n)]]

    def check(label, L, img):
        for mode in ('str', 'repr', 'print', 'latex', 'latex omit'):
            fn, kind, args = MODES[mode]
            args = args or mode == 'str'
            key = '%s/%s: %s' % (w.name, mode, label)
            ok, t = ctx.guard(key, fn, L)
            ctx.step()
            ctx.trace()
            if not ok:
                continue
            if kind == 'str':
                lines = [re.match(r'^Lt\((.*?)\) = (.*)$', ln) for ln in t.split('\n')]
                pairs = [m and (m.group(1), m.group(2)) for m in lines]
                lhs = w.names
            else:
                m = re.match(r'^\\left\\\{ \\begin\{aligned\} (.*) \\end\{aligned\} \\right\\\}$', t)
                pairs = [tuple(q.split(r' &\mapsto ')) for q in m.group(1).split(r' \\ ')] if m else [None]
                lhs = w.tex
            if not ctx.check(None not in pairs and [q[0] for q in pairs] == list(lhs), key, lambda: '%r is not a table of images' % t):
                continue
            for i, q in enumerate(pairs):
                read(ctx, key, w, q[1], kind, args, img[i])
            ctx.outcome((mode, t))
            ctx.state((name, mode, label))
    for k, M in enumerate(maps):
        img = [Val({w.key((r,)): sp.sympify(M[r][c]) for r in range(n)}) for c in range(n)]
        check('matrix %d' % k, w.ga.lt(sp.Matrix(M)), img)
        check('lists %d' % k, w.ga.lt([[M[r][c] for r in range(n)] for c in range(n)]), img)
        check('vectors %d' % k, w.ga.lt([sum((M[r][c] * e[r] for r in range(n)), 0 * e[0]) for c in range(n)]), img)
    V = [e[0], e[-1], 2 * e[0] - e[1], e[0] * e[1], 2 + e[0] * e[1], e[0] * e[1] * e[-1]]
    for k, v in enumerate(V):
        q = sp.simplify((v * v.rev()).obj)
        if q == 0:
            continue
        sgn = -1 if k in (0, 1, 2, 5) else 1
        img = []
        for b in e:
            im = (sgn * v * b * v.rev()) / q
            img.append(Val({w.key((r,)): c for r, c in enumerate(im.get_coefs(1))}))
        check('versor %d' % k, w.ga.lt(v), img)
    ctx.sample('%s: %r' % (name, str(w.ga.lt(sp.Matrix(maps[7])))))


def mlts(ctx, name):
    """Tensors of one to three slots: sums of products of slot coefficients, lines of any length."""
    w = world(name)
    e = w.ga.mv()
    n = w.n
    cs = [sp.S.One, -sp.S.One, x, -x - y, R(2, 3), sp.S.Zero]
    idx = [q.split('_')[1] for q in w.names] if '_' in w.names[0] else [str(i + 1) for i in range(n)]

    def slot(i, c):
        return sp.Symbol('a_%d__%s' % (i + 1, idx[c]), real=True)
    atoms = dict(w.atoms)
    coefs = dict(w.coefs)
    for i in range(3):
        for c in range(n):
            atoms['a^{%s}_{%d}' % (idx[c], i + 1)] = num(slot(i, c))
            coefs['a_%d__%s' % (i + 1, idx[c])] = slot(i, c)
    tensors = []
    for nargs in (1, 2, 3):
        cells = list(itertools.product(range(n), repeat=nargs))
        for cnt in range(0, min(5, len(cells)) + 1):
            for st in range(0, len(cells), 2 if nargs < 3 else 5):
                for r in range(2):
                    tab = {}
                    for k in range(cnt):
                        tab[cells[(st + k * (2 * r + 1)) % len(cells)]] = cs[(st + k + 3 * r) % len(cs)]
                    tensors.append((nargs, tab, None))
        tensors.append((nargs, {c: x for c in cells}, None))
        for k in range(min(4, len(cells))):
            tensors.append((nargs, {cells[0]: sp.S.One, cells[-1 - k]: -x}, k % n))
    for nargs, tab, vdir in tensors:
        def fct(*vs):
            tot = None
            for cell, c in tab.items():
                t = w.ga.mv(c)
                for v, j in zip(vs, cell):
                    t = t * v.get_coefs(1)[j]
                tot = t if tot is None else tot + t
            if tot is None:
                tot = w.ga.mv(0)
            return tot if vdir is None else tot * e[vdir]
        label = '%d slots %s%s' % (nargs, {c: str(v) for c, v in tab.items()}, '' if vdir is None else ' e%d' % vdir)
        ok, T = ctx.guard('%s: %s' % (name, label), lambda: Mlt([None, lambda p: fct(p), lambda p, q: fct(p, q), lambda p, q, r: fct(p, q, r)][nargs], w.ga, nargs=nargs, fct=True))
        if not ok:
            continue
        want = {}
        key = w.key(() if vdir is None else (vdir,))
        tot = sp.S.Zero
        for cell, c in tab.items():
            tot += c * sp.Mul(*[slot(i, j) for i, j in enumerate(cell)])
        want = Val({key: sp.expand(tot)})
        live = [c for c in tab.values() if c != 0]
        for mode, fn, kind in (('str', str, 'str'), ('repr', repr, 'str'), ('latex', P.latex, 'tex'), ('latex omit', lambda A: P.latex(A, **OMIT), 'tex'), ('Fmt1', lambda A: P.latex(A.Fmt(1)), 'tex'), ('Fmt2', lambda A: P.latex(A.Fmt(2)), 'tex'),
                               ('Fmt3T', lambda A: P.latex(A.Fmt(3, 'T')), 'tex'), ('sFmt2T', lambda A: P.GaPrinter().doprint(A.Fmt(2, 'T')), 'str')):
            k = '%s/%s: %s' % (name, mode, label)
            ok, t = ctx.guard(k, fn, T)
            ctx.step()
            ctx.trace()
            if not ok:
                continue
            if mode.endswith('T'):
                if not ctx.check(t.startswith('T = '), k, lambda: 'no title: %r' % t):
                    continue
                t = t[4:]
            if kind == 'str':
                rd = StrReader(coefs, w.basis)
            else:
                rd = TexReader(atoms)
                lines, env = layout(t)
                lines = [ln for ln in lines if ln.strip()]
                if nargs > 1 and live:
                    per = {'Fmt1': 1, 'Fmt2': 2, 'Fmt3T': 3}.get(mode, 1)
                    ctx.check(len(lines) == -(-len(live) // per), k, lambda: '%r has %d lines' % (t, len(lines)))
                t = ' '.join(lines)
            try:
                v = rd.read(t)
            except (Unreadable, KeyError) as ex:
                ctx.fail(k, '%r is not a printed value: %s' % (t, ex))
                continue
            ctx.check(equal(v, want), k, lambda: '%r denotes %s, printed was %s' % (t, v.t, want.t))
            ctx.state((name, mode, label))
            ctx.outcome((mode, t))
    ctx.sample('%s: %r' % (name, P.latex(T)))


def containers(ctx):
    """Lists, tuples, dictionaries and matrices print their members' texts, members once each and in order."""
    w = world('E3')
    mem = [w.ga.mv(KINDS[k] * w.blade[m]) + (w.ga.mv(1) if i % 2 else 0) for i, (k, m) in enumerate(zip(['1', '-x', 'x + y', '2', '-1/x'], w.masks[1:]))]
    for n in range(1, 5):
        for cell in itertools.permutations(mem[:n], n):
            for cont, ld, rd in ((list, '[', ']'), (tuple, '(', ')')):
                key = '%s %s' % (cont.__name__, cell)
                for fmt in (0, 1):
                    ok, t = ctx.guard(key + ' Fmt', lambda: P.Fmt(cont(cell), fmt))
                    ctx.step()
                    ctx.trace()
                    if not ok:
                        continue
                    body = t.replace(r'\begin{array}{c}', '').replace(r'\begin{array}{%s}' % ('c' * n), '').replace(r'\end{array}', '').replace('&', '').replace(r'\\', '').replace(r'\left.', '').replace(r'\right.', '')
                    toks = re.sub(r'\s+', ' ', body).strip()
                    m = re.match(r'^\\left ?%s(.*)\\right ?%s$' % (re.escape(ld), re.escape(rd)), toks)
                    if not ctx.check(m is not None, key + ' Fmt %d' % fmt, lambda: '%r is not a bracketed list' % t):
                        continue
                    parts = [q for q in m.group(1).split(',')]
                    if not ctx.check(len(parts) == n, key + ' Fmt %d' % fmt, lambda: '%r has %d members' % (t, len(parts))):
                        continue
                    for q, A in zip(parts, cell):
                        read(ctx, key + ' Fmt %d' % fmt, w, q, 'tex', True, val_of(w, A))
                    ctx.check(t.count(r'\begin{array}') == t.count(r'\end{array}') and len(re.findall(r'\\left(?![a-z])', t)) == len(re.findall(r'\\right(?![a-z])', t)), key + ' Fmt %d' % fmt, lambda: 'unbalanced %r' % t)
                    ctx.outcome(t)
                ok, t = ctx.guard(key + ' ostr', lambda: P.ostr(cont(cell)))
                ctx.step()
                if ok:
                    inner = t[1:-1].rstrip(',') if cont is tuple else t[1:-1]
                    if ctx.check(t[0] == ld and t[-1] == rd, key, lambda: 'ostr %r' % t):
                        for q, A in zip(inner.split(', '), cell):
                            read(ctx, key + ' ostr', w, q, 'str', False, val_of(w, A))
            d = {'k%d' % i: A for i, A in enumerate(cell)}
            for dm in (False, True):
                ok, t = ctx.guard('dict ostr', lambda: P.ostr(d, dict_mode=dm))
                ctx.step()
                if ok:
                    items = t.split('\n') if dm else t[1:-1].split(', ')
                    sep = ' -> ' if dm else ': '
                    if ctx.check(len(items) == n and all(sep in q for q in items), 'dict ostr %s' % (cell,), lambda: repr(t)):
                        for q, (kk, A) in zip(items, d.items()):
                            ctx.check(q.split(sep)[0] == kk, 'dict ostr', t)
                            read(ctx, 'dict ostr %s' % (cell,), w, q.split(sep)[1], 'str', False, val_of(w, A))
            ds = {sp.Symbol('k%d' % i): A for i, A in enumerate(cell)}
            for fmt in (0, 1):
                ok, t = ctx.guard('dict Fmt %s' % (cell,), lambda: P.Fmt(ds, fmt))
                ctx.step()
                if ok:
                    ctx.check(all(t.count(' k_{%d} : ' % i) + t.count(' k_{%d} :' % i) >= 1 for i in range(n)) and all(P.latex(A).strip() in t for A in cell), 'dict Fmt %d %s' % (fmt, cell), lambda: 'members are missing in %r' % t)
            ctx.state(str(cell))
    ctx.sample('Fmt of a list: %r' % P.Fmt(mem[:2], 1))


def val_of(w, A):
    t = {}
    inv = {b: m for m, b in w.blade.items()}
    for q in sp.Add.make_args(sp.expand(A.obj)):
        c, nc = q.args_cnc(split_1=False) if not q.is_commutative else ([q], [])
        k = w.key(inv[nc[0]] if nc else ())
        t[k] = t.get(k, 0) + sp.Mul(*c)
    return Val(t)


SETTINGS = [dict(fold_frac_powers=True), dict(fold_func_brackets=True), dict(mul_symbol='dot'), dict(mul_symbol='times'), dict(root_notation=False), dict(itex=True),
            dict(long_frac_ratio=2), dict(fold_frac_powers=True, omit_function_args=True), dict(fold_func_brackets=True, **OMIT), dict(mat_str='pmatrix'), dict(symbol_names={x: 'x'}), dict(mode='plain'), {}]
MORE = [x**R(-3, 2), (x + y)**R(3, 2), (x + y)**R(1, 3), (x + y)**R(-1, 2), a1**R(3, 2), Axy**R(3, 2), Axy**R(1, 2), f**R(3, 2), f**R(-3, 2), sp.sqrt(f), 1 / sp.sqrt(f), f**R(1, 3), sp.sin(th)**R(1, 2), sp.sin(th)**R(3, 2),
        1 / sp.sin(th)**2, sp.sin(th)**R(-3, 2), x / sp.sin(th)**3, 1 / f**2, (x * y)**R(1, 3), sp.sqrt(x * y), sp.sqrt(sp.sqrt(x) + 1), 1 / (1 + 1 / x), (1 / x + 1 / y)**2, x**(y + 1), x**(-y), (x + y)**y, x**(x**y),
        sp.sin(x)**y, sp.exp(x**2), sp.exp(-x / 2), sp.sin(x + y), sp.sin(2 * x), sp.sin(sp.cos(x)), sp.log(x)**2, sp.sin(x)**-1 * sp.cos(x), al**R(2, 3), 1 / al, (-x)**y, (-2)**x, sp.Rational(1, 2)**x, f**y, G1**R(1, 2), G1**-2, G1**-1]


def settings(ctx, part):
    """Every kind of coefficient and every way of writing a power under every setting of the LaTeX printer."""
    w = world('E3')
    kinds = dict(KINDS, **{str(k): k for k in map(sp.sympify, MORE)})
    for k, c in list(kinds.items())[part[0]::part[1]]:
        for table in ({(0,): c}, {(): c, (0, 1): sp.S(3)}, {(2,): -c, (0, 2): c}):
            A, want = w.mv(table)
            for st in SETTINGS:
                key = 'E3/latex(%s): %s' % (', '.join('%s=%s' % p for p in st.items()), lab(w, table))
                ok, t = ctx.guard(key, P.latex, A, **st)
                ctx.step()
                ctx.trace()
                if ok:
                    rd = read(ctx, key, w, t, 'tex', not st.get('omit_function_args'), want)
                    if rd is not None:
                        once(ctx, key, rd, want, t)
                        ctx.outcome(t)
                ctx.state((key,))
            for tag in ('str', 'sstr', 'latex omit'):
                show(ctx, w, lab(w, table), A, want, [tag], [])
    ctx.sample('%s' % P.latex(A))


def dotsyms(ctx):
    """Coefficients made of the symbolic entries of the metric."""
    w = world('GEN2')
    (g00, g01), (_, g11) = w.ga.g.tolist()
    cs = [g00, -g01, 2 * g11, g01**2, 1 / g00, g01 / g11, g00 * g11 - g01**2, g00 + g11, x * g01, x**2 * g00 - y, sp.sqrt(g00), sp.sqrt(g00 * g11), (g00 * g11 - g01**2) / g00, -g01**2 * x, 1 / (g00 * g11 - g01**2)]
    texts = {}
    for c in cs:
        for d in [sp.S.Zero, sp.S.One, x] + cs[:7]:
            for table in ({(0,): c, (0, 1): d}, {(): d, (1,): c}):
                A, want = w.mv(table)
                show(ctx, w, lab(w, table), A, want, list(MODES) if d == 0 else FEW, FORMATS[:3] if d == 0 else [], texts=texts)
    e = [w.ga.mv(w.blade[m]) for m in w.masks]
    for a, b in itertools.product(e, repeat=2):
        for p in (a * b, a | b, a < b, a > b, a ^ b):
            ctx.step()
            tb = dict(zip(w.masks, p.blade_coefs()))
            show(ctx, w, 'product %s, %s: %s' % (a, b, p), p, Val({w.key(m): c for m, c in tb.items()}), list(MODES), [])
    ctx.sample('%s' % P.latex(A))


def functions(ctx, part):
    """LaTeX of functions: an undefined function of any name, even one the printer has a method for, is its name and (unless omitted)
    its arguments; the arguments of a function that sympy defines are never omitted."""
    sq = lambda t: t.replace(' ', '')
    special = set(sympy_latex.accepted_latex_functions) | {'asin', 'acos', 'atan', 'acot', 'acosh', 'asinh', 'atanh'}
    methods = sorted({m[len('_print_'):] for c in (P.GaLatexPrinter, sympy_latex.LatexPrinter) for m in dir(c) if m.startswith('_print_')})
    names = [n for n in methods + ['f', 'g_1', 'F__x', 'F_x__y', 'theta', 'kappa', 'rho_0', 'u', 'E', 'I', 'pi', 'e'] if n and n[0] != '_']
    for n in names[part[0]::part[1]]:
        for args in ((x,), (x, y), (y, x, th)):
            u = sp.Function(n)(*args)
            h = sq(P.latex(sp.Symbol(n)))
            a = r'{\left(' + ','.join(sq(P.latex(v)) for v in args) + r'\right)}'
            for omit in (False, True):
                for e in (u, u**2, 1 / u, u.diff(x), u.diff(x, x)):
                    lab = 'function/%s/%d/%s/%s' % (n, len(args), omit, 'u u^2 1/u du d2u'.split()[[u, u**2, 1 / u, u.diff(x), u.diff(x, x)].index(e)])
                    ctx.where = lab
                    ctx.state(lab)
                    ctx.step()
                    ctx.trace()
                    ok, t = ctx.guard(lab, P.latex, e, omit_function_args=omit, omit_partial_derivative_fraction=True)
                    if not ok:
                        continue
                    ctx.outcome(t)
                    b = h + ('' if omit and n not in special else a)
                    if n in special:
                        ctx.check(a in sq(t), lab, lambda: '%r lacks the arguments %s' % (t, a))
                        continue
                    want = {0: [b], 1: ['{' + b + '}^{2}', b + '^{2}', h + '^{2}' + b[len(h):]], 2: [r'\frac{1}{' + b + '}'],
                            3: [r'\partial_{x}' + b], 4: [r'\partial^{2}_{x}' + b]}[[u, u**2, 1 / u, u.diff(x), u.diff(x, x)].index(e)]
                    ctx.check(sq(t) in want, lab, lambda: '%r, should be %r up to blanks' % (t, want[0]))
    if part[0]:
        return
    for e in [sp.asin(x), sp.acos(x), sp.atan(x), sp.acot(x), sp.acosh(x), sp.asinh(x), sp.atanh(x), sp.acoth(x), sp.asec(x), sp.atan2(x, y), sp.sign(x), sp.Abs(x), sp.re(x), sp.im(x), sp.arg(x),
              sp.sinh(x), sp.sec(x), sp.csch(x), sp.log(x), sp.exp(x), sp.gamma(x), sp.beta(x, y), sp.zeta(x), sp.besselj(x, y), sp.erf(x), sp.Heaviside(x), sp.DiracDelta(x),
              sp.floor(x), sp.ceiling(x), sp.conjugate(x), sp.factorial(x), sp.Max(x, y), sp.Min(x, y), sp.sinc(x), sp.LambertW(x)]:
        for inv in ('abbreviated', 'full', 'power'):
            for pw in (1, 2):
                lab = 'function/%s/%s/%d' % (e.func.__name__, inv, pw)
                ctx.state(lab)
                ctx.step(2)
                ctx.trace()
                ts = [P.latex(e**pw, omit_function_args=o, inv_trig_style=inv) for o in (False, True)]
                ctx.outcome(ts[0])
                ctx.check(ts[0] == ts[1] and all(v.name in ts[0] for v in e.free_symbols), lab, lambda: 'with omit_function_args %r, without %r' % (ts[1], ts[0]))
    ctx.sample('%d function names' % len(names))


PENDING = [D(sp.Derivative(e, *v)) for e in (f + G1, x * f, f**2, f * G1, sp.sin(x * y), -f, 1 / f, f**2 * G1, sp.sqrt(f), f + x, sp.exp(f), f.diff(y)**2, f.diff(y) + G1) for v in ((x,), (x, y), ((y, 2),)) for D in (lambda d: d, lambda d: -d, lambda d: d**2, lambda d: 1 / d, lambda d: x * d, lambda d: d + f, lambda d: d * f, lambda d: f - d)]


def expressions(ctx):
    """The text of a bare expression, with derivatives that are not carried out among them."""
    w = world('E3')
    for c in list(KINDS.values()) + [sp.sympify(m) for m in MORE] + PENDING:
        for tag, fn, kind, args in (('str', P.GaPrinter().doprint, 'str', False), ('repr', repr, 'str', False), ('color', color, 'str', False), ('latex', P.latex, 'tex', True), ('latex omit', lambda e: P.latex(e, **OMIT), 'tex', False),
                                    ('latex omit frac', lambda e: P.latex(e, omit_partial_derivative_fraction=True), 'tex', True), ('latex omit args', lambda e: P.latex(e, omit_function_args=True), 'tex', False)):
            if tag == 'color' and isinstance(c, sp.Float):
                continue
            key = 'expression/%s: %s' % (tag, sp.srepr(c))
            ctx.step()
            ctx.trace()
            ok, t = ctx.guard(key, fn, c)
            if ok and read(ctx, key, w, t, kind, args, num(c)) is not None:
                ctx.outcome(t)
            ctx.state(key)
    ctx.sample('%s: %s' % (c, t))


def displays(ctx, name):
    """What a notebook shows of a named element, and of everything computed from it, is `name = value` or the value, and a name shown is that of the value."""
    w = world(name)
    ga = w.ga
    mk = [(k, kw) for k in ('scalar', 'vector', 'bivector', 'mv', 'even', 'odd', 'spinor', 'pseudo') for kw in ({}, {'f': True})] + [(('grade', k), kw) for k in range(ga.n + 1) for kw in ({}, {'f': True})]
    mk = [(k, kw) for k, kw in mk if not (kw and ga.coords is None)]
    one = {'self': lambda A: A, 'copy': lambda A: ga.mv(A), '+A': lambda A: +A if hasattr(A, '__pos__') else A, '-A': lambda A: -A, 'rev': lambda A: A.rev(), '~': lambda A: ~A, 'odd': lambda A: A.odd(), 'even': lambda A: A.even(),
           'grade 1': lambda A: A.grade(1), 'get_grade 2': lambda A: A.get_grade(2), 'dual of double': lambda A: 2 * A, 'half': lambda A: A / 2, 'A+1': lambda A: A + 1, '1-A': lambda A: 1 - A, 'A+0': lambda A: A + 0, '1A': lambda A: 1 * A, 'scalar': lambda A: ga.mv(A.scalar()),
           'simplify': lambda A: A.simplify(), 'expand': lambda A: A.expand(), 'subs': lambda A: A.subs(x, 2), 'collect': lambda A: A.collect(), 'trigsimp': lambda A: A.trigsimp(), 'blade rep': lambda A: A.blade_rep(), 'A-A': lambda A: A - A,
           'xor': lambda A: A ^ ga.mv(w.blade[(0,)]), 'doit': lambda A: A.subs(y, x).doit() if hasattr(A, 'doit') else A}
    two = {'A+B': lambda A, B: A + B, 'A-B': lambda A, B: A - B}
    made = []
    for nm in ('A', 'B__k', 'alpha', 'v_1'):
        for k, kw in mk:
            key = '%s/notebook of %s %s%s' % (name, k, nm, ' field' if kw else '')
            ok, A = ctx.guard(key, lambda: ga.mv(nm, *(k if isinstance(k, tuple) else (k,)), **kw))
            if ok:
                made.append((key, nm, A, A.obj))
    derived = [('%s: %s' % (key, o), nm, A, ob, lambda fn=fn, A=A: fn(A)) for key, nm, A, ob in made for o, fn in one.items()]
    derived += [('%s: %s with %s' % (key, o, key2), nm, A, ob, lambda fn=fn, A=A, B=B: fn(A, B)) for key, nm, A, ob in made[:len(mk)] for key2, _, B, _ in made[len(mk)::7] for o, fn in two.items()]
    for key, nm, A, ob, fn in derived:
        ctx.where = key
        ctx.step()
        ctx.trace()
        ok, B = ctx.guard(key, fn)
        if not ok or not ctx.check(isinstance(B, Mv), key, lambda: 'not an element: %r' % (B,)):
            continue
        ok, p = ctx.guard(key, notebook, B)
        if not ok:
            continue
        title, text = p
        own = {sp.latex(s): num(s) for s in B.obj.atoms(sp.Symbol) if s.is_commutative}
        atoms = dict({k: c for k, c in w.atoms.items() if k in w.tex or 'cdot' in k or k in ('x', 'y', 'z')}, **own)
        funcs = {sp.latex(sp.Symbol(u.func.__name__)): u for u in B.obj.atoms(sp.core.function.AppliedUndef)}
        rd = TexReader({k: c for k, c in atoms.items() if k.strip() not in funcs}, funcs, False, False)
        want = val_of(w, B)
        try:
            v = rd.read(text)
        except (Unreadable, KeyError) as e:
            ctx.fail(key, 'text %r is not a printed value: %s' % (text, e))
            continue
        ctx.check(equal(v, want), key, lambda: '%r denotes %s, shown was %s' % (text, v.t, want.t))
        once(ctx, key, rd, want, text)
        if title is not None:
            ctx.check(title == nm or title == sp.latex(sp.Symbol(nm)), key, lambda: 'shown under the name %r, the element was called %r' % (title, nm))
            ctx.check(equal(want, val_of(w, ga.mv(ob))), key, lambda: 'shown as %r = %r, which is not the value of %r' % (title, text, nm))
        elif fn.__defaults__ and B is A:
            ctx.fail(key, 'the name of the element is not shown: %r' % text)
        ctx.state(key)
        ctx.outcome((title, text))
    ctx.sample('%s: %r' % (key, p))


def jobs(tier):
    quick = tier == 'quick'
    js = [dict(fn='containers', kw={})]
    js += [dict(fn='functions', kw=dict(part=[i, 8])) for i in range(8)]
    js += [dict(fn='settings', kw=dict(part=[i, 6])) for i in range(6)]
    js.append(dict(fn='dotsyms', kw={}))
    js.append(dict(fn='expressions', kw={}))
    js += [dict(fn='displays', kw=dict(name=nm)) for nm in ('E3', 'O3', 'GEN2')]
    for nm in ('E3', 'O3', 'NW3'):
        js.append(dict(fn='lts', kw=dict(name=nm)))
    for nm in ('E3', 'O3', 'G2'):
        js.append(dict(fn='mlts', kw=dict(name=nm)))
    for nm in ('G2', 'GEN2') if quick else ('G2', 'GEN2', 'E3', 'NW3'):
        js.append(dict(fn='merged', kw=dict(name=nm)))
    js.append(dict(fn='bases', kw=dict(name='GEN2', part=[0, 1])))
    for p in range(4):
        js.append(dict(fn='bases', kw=dict(name='O3', part=[p, 4])))
    for nm, k in (('E3', 6), ('NW3', 4), ('G2', 4), ('GEN2', 4)):
        for p in range(k):
            js.append(dict(fn='single', kw=dict(name=nm, part=[p, k])))
    for nm, k in (('E3', 8), ('NW3', 4), ('G2', 1), ('O3', 4)):
        for p in range(k):
            js.append(dict(fn='supports', kw=dict(name=nm, part=[p, k], rot=2 if quick else 12)))
    for p in range(8):
        js.append(dict(fn='sdops', kw=dict(part=[p, 8 if not quick else 16])))
    for c in (False, True):
        for p in range(8):
            js.append(dict(fn='dops', kw=dict(cmpflg=c, part=[p, 8 if not quick else 32])))
    for p in range(8):
        js.append(dict(fn='pairs', kw=dict(name='E3', part=[p, 8 if not quick else 16])))
    if not quick:
        for p in range(16):
            js.append(dict(fn='supports', kw=dict(name='E4', part=[p * 61, 1021], rot=2)))
        for nm in ('NW3', 'O3'):
            for p in range(8):
                js.append(dict(fn='pairs', kw=dict(name=nm, part=[p, 8])))
    return js
