"""C18: print modes are a clean state machine.

Explicit-state exploration of the real module state: a model of the print modes
(written from the documentation) and the real process advance together through
every sequence of mode-changing and printing calls up to a depth.  The process
is forked at every node, so each sequence runs in exactly the state its prefix
left behind.  At every node the texts of all probe objects, the captured and the
terminal output, standard output itself, the display hook and the names given
to new objects are compared with the model.
"""
import builtins
import gc
import io
import itertools
import os
import shutil
import sys
import tempfile
import warnings
import sympy as sp
from sympy import Function, Derivative, Symbol, symbols, asin, Matrix, sin
from galgebra import printer as P
from galgebra.printer import GaPrinter, GaLatexPrinter, latex
from galgebra.ga import Ga
from galgebra.lt import Mlt
from galgebra.dop import Pdop
from vf.checks.c15 import forked

BOUNDS = ('all sequences of the menu of mode-changing, formatting and printing calls to depth 2 over the full menu and depth 3 over the mode changes '
          '(thorough: 3 and 4); 5 probe objects x 12 LaTeX, 24 plain settings x 3 multivector formats; all sequences of <=3 captured lines of 17 kinds')
ASSUMPTIONS = ['no external program is run: documents are written with pdfprog=None', 'not in an interactive IPython session',
               'nesting Format inside the notebook form of LatexFormat, and tex() without a session, are unspecified and not explored']

x, y = symbols('x y', real=True)
REAL_PRINT, REAL_HOOK = builtins.print, sys.displayhook


def probes():
    ga = Ga('e_x e_y', g=[1, 1], coords=(x, y))
    ex, ey = ga.mv()
    f = Function('f')(x, y)
    A = ga.mv(2) + f * ex + Derivative(f, x) * ey + 3 * (ex ^ ey)
    return ga, dict(f=f, d2=Derivative(f, x, 2, y), asin=asin(x), A=A, grad=ga.grad, mat=Matrix([[1, f]]))


# -- the texts, written out by hand from the documentation (blanks removed)
ANSI = {'red': '\033[0;31m', 'blue': '\033[0;34m', 'cyan': '\033[0;36m', 'green': '\033[0;32m', 'bright green': '\033[1;32m', None: ''}


def gold_plain(name, base, fct, der, fmt):
    def c(col, t):
        return t if col is None else ANSI[col] + t + '\033[0m'
    f, ex, ey = c(fct, 'f'), c(base, 'e_x'), c(base, 'e_y')
    exy = ex + '^' + ey
    if name == 'f':
        return f
    if name == 'd2':
        return c(der, 'D{x}^2{y}' + f)
    if name == 'asin':
        return 'asin(x)'
    if name == 'mat':
        return 'Matrix([[1,' + f + ']])'
    if name == 'A':
        t = ['2', '+' + f + '*' + ex, '+' + c(der, 'D{x}' + f) + '*' + ey, '+3*' + exy]
        return lines(t, fmt, '\n')
    if name == 'grad':
        return ex + '*D{x}+' + ey + '*D{y}'


def lines(t, fmt, sep):
    return {1: ''.join(t), 2: sep.join([t[0], t[1] + t[2], t[3]]), 3: sep.join(t)}[fmt]


def gold_latex(name, omit, part, inv, fmt):
    f = 'f' if omit else r'f{\left(x,y\right)}'
    d1 = (r'\partial_{x}' if part else r'\frac{\partial}{\partialx}') + f
    if name == 'f':
        return f
    if name == 'd2':
        return (r'\partial^{2}_{x}\partial_{y}' if part else r'\frac{\partial^{3}}{\partial^{2}x\partialy}') + f
    if name == 'asin':
        return {'full': r'\arcsin{\left(x\right)}', 'power': r'\sin^{-1}{\left(x\right)}'}.get(inv)
    if name == 'mat':
        return r'\left[\begin{array}{cc}1&' + f + r'\end{array}\right]'
    if name == 'A':
        e = [r'\boldsymbol{e}_{x}', r'\boldsymbol{e}_{y}']
        t = ['2', '+' + f + e[0], '+' + d1 + e[1], '+3' + e[0] + r'\wedge' + e[1]]
        if fmt == 1:
            return lines(t, 1, '')
        return r'\begin{aligned}[t]&' + lines(t, fmt, r'\\&') + r'\end{aligned}'
    if name == 'grad':
        return r'\boldsymbol{e}_{x}\frac{\partial}{\partialx}+\boldsymbol{e}_{y}\frac{\partial}{\partialy}'


def squeeze(t):
    return t.replace(' ', '')


def squeeze_mat(name, t):
    t = squeeze(t)
    return t.replace('\n', '') if name == 'mat' else t


COLORS = [None, 'blue', 'green']
PLAIN = [(b, f, d, k) for b in COLORS for f in (None, 'red', 'green') for d in (None, 'cyan', 'green') for k in (1, 2, 3)]
LATEX = [(o, p, i, k) for o in (False, True) for p in (False, True) for i in ('abbreviated', 'full', 'power') for k in (1, 2, 3)]


def table(ctx=None):
    """Text of every probe under every setting, given explicitly in a pristine process; compared with the hand-written one."""
    ga, obs = probes()
    t = {}
    for n, o in obs.items():
        for s in PLAIN:
            v = GaPrinter(dict(basis_vector_color=s[0], function_color=s[1], derivative_color=s[2], galgebra_mv_fmt=s[3])).doprint(o)
            t['p', n] = t.get(('p', n), {})
            t['p', n][s] = v
            if ctx:
                ctx.step()
                ctx.trace()
                ctx.state((n, s))
                ctx.outcome(v)
                want = gold_plain(n, *s)
                ctx.check(squeeze_mat(n, v) == want, 'text/plain %s %s' % (n, s), lambda: '%r, should be %r up to blanks' % (v, want))
        for s in LATEX:
            v = latex(o, omit_function_args=s[0], omit_partial_derivative_fraction=s[1], inv_trig_style=s[2], galgebra_mv_fmt=s[3])
            t['l', n] = t.get(('l', n), {})
            t['l', n][s] = v
            if ctx:
                ctx.step()
                ctx.trace()
                ctx.state((n, s))
                ctx.outcome(v)
                want = gold_latex(n, *s)
                if want is not None:
                    ctx.check(squeeze(v) == want, 'text/latex %s %s' % (n, s), lambda: '%r, should be %r up to blanks' % (v, want))
        t['s', n] = {k: str(o) if n != 'A' else GaPrinter(dict(galgebra_mv_fmt=k)).doprint(o) for k in (1, 2, 3)}
    T = Mlt('T', ga, nargs=2)
    for k in (1, 2):
        t['T', k] = latex(T, galgebra_mlt_lcnt=k)
        if ctx:
            cs = [r'%sT_{%s%s}a^{%s}_{1}a^{%s}_{2}' % ('' if i == 0 else '+', p, q, p, q) for i, (p, q) in enumerate(itertools.product('xy', repeat=2))]
            want = r'\begin{aligned}&' + r'\\&'.join(''.join(cs[i:i + k]) for i in range(0, 4, k)) + r'\end{aligned}'
            ctx.check(squeeze(t['T', k]).rstrip('\\') == want or squeeze(t['T', k]).replace(r'\\\end', r'\end') == want, 'text/tensor %d' % k, lambda: '%r, should be %r up to blanks' % (t['T', k], want))
    t['names'] = names(ga)
    t['dict'] = GaPrinter().doprint({x: obs['f']})
    return t


def texts(ctx):
    table(ctx)
    ctx.sample('%d probes x (%d plain + %d LaTeX settings)' % (6, len(PLAIN), len(LATEX)))


def names(ga):
    """Names given to new objects; these go through str() of symbols and must not depend on the print mode."""
    out = [sorted(s.name for s in ga.mv('B', 'mv').obj.free_symbols), sorted(str(s.func.__name__) for s in ga.mv('F', 'vector', f=True).obj.atoms(Function)),
           sorted(s.name for s in ga.lt('L').matrix().free_symbols), sorted(s.name for s in Mlt('T', ga, nargs=2).fvalue.free_symbols)]
    g1 = Ga('u v', coords=symbols('u v', real=True))
    out += [[s.name for s in g1.basis], [s.name for s in g1.blades.flat[1:] if hasattr(s, 'name')], [s.name for s in g1.r_symbols],
            [sp.srepr(e) for e in g1.g], [str(e) for e in g1.g]]
    return out


# -- the model
INIT = dict(lat=False, ipy=False, cap=None, term='', pend='', omit=False, part=False, inv='abbreviated', fmt=1, col=(None, None, None), gl=False, gs='', off=False)


class World:
    def __init__(self):
        self.ga, self.obs = probes()
        self.T = Mlt('T', self.ga, nargs=2)
        self.term = io.StringIO()
        sys.stdout = self.term
        self.dir = None


def lset(m, **k):
    return (k.get('omit', m['omit']), k.get('part', m['part']), k.get('inv', m['inv']), k.get('fmt', m['fmt']))


def pset(m, **k):
    return m['col'] + (k.get('fmt', m['fmt']),)


def text(tb, m, n, **k):
    return tb['l', n][lset(m, **k)] if m['lat'] else tb['p', n][pset(m, **k)]


def out(m, s):
    if m['cap'] is not None:
        m['cap'] += s
    else:
        m['term'] += s


OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


def fmt_op(name, call, omit=True, part=True, inv='full'):
    def f(W, m, tb, do):
        if m['lat'] and m['ipy']:
            return False
        if do:
            call()
        m.update(omit=omit, part=part, inv=inv)
        if not m['lat']:
            m.update(lat=True, cap='')
    OPS[name] = f


fmt_op('Format', lambda: P.Format())
fmt_op('Format_args', lambda: P.Format(Fmode=False), omit=False)
fmt_op('Format_frac_power', lambda: P.Format(Dmode=False, inverse='power'), part=False, inv='power')
fmt_op('LatexFormat', lambda: P.LatexFormat(Fmode=True, Dmode=False), part=False, inv=None)
_lf = OPS.pop('LatexFormat')


@op
def LatexFormat(W, m, tb, do):
    inv = m['inv']
    r = _lf(W, m, tb, do)
    m['inv'] = inv
    return r


@op
def LatexFormat_notebook(W, m, tb, do):
    if m['lat'] and not m['ipy']:
        return False
    if do:
        P.LatexFormat(Fmode=False, Dmode=True, ipy=True)
    m.update(lat=True, ipy=True, omit=False, part=True)


@op
def redirect(W, m, tb, do):
    if m['ipy']:
        return False
    if do:
        GaLatexPrinter.redirect()
    if not m['lat']:
        m.update(lat=True, cap='')


def leave(m):
    if m['lat']:
        m['pend'] += m['cap'] or ''
        m.update(lat=False, ipy=False, cap=None)


@op
def restore(W, m, tb, do):
    if do:
        GaLatexPrinter.restore()
    leave(m)


def document(m, how):
    leave(m)
    doc = DOC[how] + GaLatexPrinter.preamble + process(m['pend']) + GaLatexPrinter.postscript
    m['pend'] = ''
    return doc


def can_tex(m):
    return not m['ipy'] and (m['lat'] or m['pend'])


@op
def tex(W, m, tb, do):
    if not can_tex(m):
        return False
    got = P.tex() if do else None
    want = document(m, 'default')
    if do and got != want:
        return 'tex() = %r, should be %r' % (got, want)


@op
def xpdf(W, m, tb, do):
    if not can_tex(m):
        return False
    got = None
    if do:
        fn = os.path.join(W.dir, 'a.tex')
        P.xpdf(filename=fn, paper='letter', pdfprog=None)
        got = open(fn).read()
        os.remove(fn)
    want = document(m, 'letter')
    if do and got != want:
        return 'xpdf wrote %r, should be %r' % (got, want)


def color_op(name, call, col):
    def f(W, m, tb, do):
        if do:
            call()
        m['col'] = col
    OPS[name] = f


color_op('enhance', lambda: P.enhance_print(), ('blue', 'red', 'cyan'))
color_op('enhance_off', lambda: P.Eprint(deriv=None, fct=None, base=None), (None, None, None))
color_op('enhance_one', lambda: P.Eprint(base=None, fct='green', deriv=None), (None, 'green', None))


def gfmt_op(k):
    def f(W, m, tb, do):
        if do:
            P.Fmt(k)
        m['fmt'] = k
    OPS['Fmt_%d' % k] = f


for _k in (1, 2, 3):
    gfmt_op(_k)


def show(W, m, do, s, f):
    if do:
        f()
    out(m, s)


@op
def print_A(W, m, tb, do):
    show(W, m, do, text(tb, m, 'A') + '\n', lambda: print(W.obs['A']))


@op
def print_eq(W, m, tb, do):
    show(W, m, do, 'f*g = ' + text(tb, m, 'f') + '\n', lambda: print('f*g =', W.obs['f']))


@op
def print_str(W, m, tb, do):
    show(W, m, do, '#plain text\n', lambda: print('#plain text'))


@op
def print_A_Fmt2(W, m, tb, do):
    show(W, m, do, text(tb, m, 'A', fmt=2) + '\n', lambda: print(W.obs['A'].Fmt(2)))


@op
def print_A_Fmt3_title(W, m, tb, do):
    show(W, m, do, 'A = ' + text(tb, m, 'A', fmt=3) + '\n', lambda: print(W.obs['A'].Fmt(3, 'A')))


@op
def print_grad_Fmt2(W, m, tb, do):
    show(W, m, do, text(tb, m, 'grad', fmt=2) + '\n', lambda: print(W.obs['grad'].Fmt(2)))


@op
def print_latex(W, m, tb, do):
    s = tb['l', 'A'][(True, True, 'power', 2)] + '\n'
    show(W, m, do, s, lambda: P.print_latex(W.obs['A'], omit_function_args=True, omit_partial_derivative_fraction=True, inv_trig_style='power', galgebra_mv_fmt=2))


@op
def oprint_dict(W, m, tb, do):
    s = 'd = x -> ' + tb['p', 'f'][pset(m)] + '\n'
    show(W, m, do, s, lambda: P.oprint('d', {x: W.obs['f']}, dict_mode=True))


@op
def tensor_Fmt(W, m, tb, do):
    """Formatting one tensor two components per line; nothing is printed to standard output."""
    if do:
        b = io.StringIO()
        print(W.T.Fmt(2), file=b)
        latex(W.T.Fmt(4))


@op
def call_settings(W, m, tb, do):
    if do:
        latex(W.obs['d2'], omit_function_args=not m['omit'], omit_partial_derivative_fraction=not m['part'])
        GaPrinter(dict(function_color='green', basis_vector_color='green', dict_mode=True, galgebra_mv_fmt=3)).doprint(W.obs['A'])


@op
def failing_print(W, m, tb, do):
    """An object whose printing raises."""
    if do:
        class Bad(P.GaPrintable):
            def _latex(self, printer):
                raise ArithmeticError
            _sympystr = _latex
        try:
            print(W.obs['f'], P._FmtResult(P._WithSettings(Bad(), dict(galgebra_mv_fmt=3)), 'B'))
        except ArithmeticError:
            return
        return 'the exception of a printed object is lost'


def gpm():
    from galgebra import gprinter as G
    return G


@op
def gFormat(W, m, tb, do):
    if do:
        gpm().gFormat()
    m.update(omit=True, part=True, inv='full', gl=True)


def gp(m, w, s):
    if m['gl']:
        m['gs'] += r'\begin{equation*} ' + w + r'\end{equation*} ' + '\n'
    else:
        out(m, s + '\n')


@op
def gprint(W, m, tb, do):
    if do:
        gpm().gprint('50% of A =', W.obs['A'])
    gp(m, '50% of A = ' + tb['l', 'A'][lset(m)] + ' ', '50% of A = ' + strA(tb, m) + ' ')


def strA(tb, m):
    return tb['p', 'A'][pset(m)]


@op
def gxpdf(W, m, tb, do):
    if not m['gl']:
        return False
    got = None
    if do:
        G = gpm()
        fn = os.path.join(W.dir, 'g.tex')
        G.gxpdf(filename=fn, pdfprog=None)
        got = open(fn).read()
        os.remove(fn)
        want = GDOC + G.LaTeX.latex_preamble + m['gs'] + r'\end{document}'
    m['gs'] = ''
    if do and got != want:
        return 'gxpdf wrote %r, should be %r' % (got, want)


@op
def program_off(W, m, tb, do):
    if do:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            P.Get_Program(True)
    m['off'] = True


@op
def program_on(W, m, tb, do):
    if do:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            P.Get_Program(False)
    m['off'] = False


@op
def print_function(W, m, tb, do):
    if do:
        listing()
    if not m['off']:
        if m['lat']:
            out(m, r'##\begin{lstlisting}[language=Python,showspaces=false,showstringspaces=false,backgroundcolor=\color{gray},frame=single]' + '\n'
                + LISTING + '\n##\\end{lstlisting}\n#Code Output:\n')
        else:
            out(m, '\n' + 80 * '*' + '\n' + LISTING + '\nCode output:\n\n')


def listing():
    a = b = 1  # ^ * |
    P.Print_Function()


LISTING = 'def listing():\n    a = b = 1  # ^ * |\n    P.Print_Function()\n'

DOC = {'letter': '\n\\documentclass[10pt,fleqn]{report}\n',
       'default': '\n\\documentclass[10pt,fleqn]{report}\n\\usepackage[vcentering]{geometry}\n\\geometry{papersize={14in,11in},total={13in,10in}}\n'}
GDOC = '\n\\documentclass[10pt,fleqn]{book}\n\\usepackage[vcentering]{geometry}\n\\geometry{papersize={14in,11in},total={13in,10in}}\n'


# -- what tex() makes of the captured lines, from its documentation
def translate(s):
    """* ^ | > < << >> grad rgrad to LaTeX."""
    o, i = '', 0
    word = lambda c: c.isalnum() or c == '_'
    while i < len(s):
        for w, r in (('rgrad', r'\bar{\boldsymbol{\nabla}} '), ('grad', r'\boldsymbol{\nabla} ')):
            if s.startswith(w, i) and not (i and word(s[i - 1])) and not (i + len(w) < len(s) and word(s[i + len(w)])):
                o += r
                i += len(w)
                break
        else:
            if s.startswith('>>', i) or s.startswith('<<', i):
                o += r' \times ' if s[i] == '>' else r' \bar{\times} '
                i += 2
                continue
            c = s[i]
            i += 1
            if c == '^' and s[i:i + 1] == '{':
                o += c
            else:
                o += {'|': r'\cdot ', '^': r'\W ', '*': ' ', '<': r'\rfloor ', '>': r'\lfloor '}.get(c, c)
    return o


def process(captured):
    o, code = '', False
    for ln in captured.split('\n'):
        if ln.startswith('##'):
            code = not code
            ln = ln[2:]
        elif ln and not code:
            if ln.startswith('#') and not ln.startswith('#%'):
                ln = ln[1:]
            else:
                if ln.startswith('%'):
                    ln = ln[1:]
                elif ln.startswith('#%'):
                    ln = ln[2:]
                elif '=' in ln:
                    a, _, b = ln.rpartition('=')
                    ln = translate(a) + '=' + b
                if r'\begin{align*}' in ln:
                    a, _, b = ln.partition(r'\begin{align*}')
                    ln = r'\begin{align*} ' + (a + b).lstrip()
                else:
                    ln = r'\begin{equation*} ' + ln.strip() + r' \end{equation*}'
        o += ln + '\n'
    return o.replace('\n\n', '\n')


LINES = ['', 'A*B^C = x^2*y', r'x^{2} = x^{2}*y', '%A*B = x', '#%A*B = x', '#A*B = x', '##A*B = x', '##', 'grad|A = B*C = d', 'rgrad^A >> B << C <D> E = 1', 'no equality * ^',
         r'A*B = \begin{align*} a & b \\ c & d \end{align*} ', r'%A*B = \begin{align*} a*b \end{align*}', 'gradient*grad_x = 0', '  A|B  =  c  ', '= 1', '#']


def captured(ctx, n, first=None):
    """Every sequence of captured lines of each kind through tex()."""
    sys.stdout = io.StringIO()
    term = sys.stdout
    for seq in itertools.product(range(len(LINES)), repeat=n):
        if first is not None and seq[0] != first:
            continue
        lab = 'lines/' + '.'.join(map(str, seq))
        ctx.state(seq)
        ctx.step()
        ctx.trace()
        P.Format()
        for i in seq:
            print(LINES[i])
        got = P.tex(paper='letter')
        want = DOC['letter'] + GaLatexPrinter.preamble + process('\n'.join(LINES[i] for i in seq) + '\n') + GaLatexPrinter.postscript
        ctx.outcome(got)
        ctx.check(got == want, lab, lambda: 'tex() of %r gives\n%s\nshould be\n%s' % ([LINES[i] for i in seq], got[len(DOC['letter']) + len(GaLatexPrinter.preamble):], want[len(DOC['letter']) + len(GaLatexPrinter.preamble):]))
        ctx.check(sys.stdout is term, lab + '/stdout', 'standard output is not restored')
    ctx.sample('all %d-line sequences of %s' % (n, LINES))


def replaced(ctx, depth):
    """Histories in which the program itself puts something in place of standard output, and takes it back, around the capture."""
    ops = ('Format', 'restore', 'tex', 'swap', 'unswap', 'print')
    old = sys.stdout
    for k in range(1, depth + 1):
        for seq in itertools.product(ops, repeat=k):
            # model: where text goes, what each place holds, what the program and the capture will put back
            now, mine, back, on, over = 'term', None, None, False, False
            hold = {'term': '', 'mine': '', 'cap': '', 'tex': ''}
            term, own = io.StringIO(), io.StringIO()
            sys.stdout, put_back = term, None
            GaLatexPrinter.latex_flg, GaLatexPrinter.latex_str = False, ''
            lab = 'stdout/' + '>'.join(seq)
            try:
                for i, op in enumerate(seq):
                    if op == 'Format':
                        if not on:
                            on, back, now = True, now, 'cap'
                        P.Format()
                    elif op in ('restore', 'tex'):
                        if on:
                            on = False
                            hold['tex'] += hold.pop('cap')
                            hold['cap'] = ''
                            over = over or mine == 'cap'
                            if now == 'cap':
                                now = back
                        if op == 'restore':
                            GaLatexPrinter.restore()
                        else:
                            t = P.tex(paper='letter')[len(DOC['letter']) + len(GaLatexPrinter.preamble):-len(GaLatexPrinter.postscript)]
                            ctx.check(t == process(hold['tex']), lab, lambda: 'step %d: tex() holds %r, should be %r' % (i, t, process(hold['tex'])))
                            hold['tex'] = ''
                    elif op == 'swap':
                        if mine is not None:
                            break
                        mine, now = now, 'mine'
                        put_back, sys.stdout = sys.stdout, own
                    elif op == 'unswap':
                        if mine is None or over:       # the program would put back a capture that is over
                            break
                        now, mine = mine, None
                        sys.stdout, put_back = put_back, None
                    else:
                        line = 'a = b_%d' % i
                        hold[now] += line + '\n'
                        print(line)
                    ctx.step()
                    ctx.state((now, mine, back, on, seq[:i + 1]))
                    ctx.check(term.getvalue() == hold['term'] and own.getvalue() == hold['mine'], lab, lambda: 'step %d: the terminal shows %r, the output of the program %r, should be %r and %r' % (i, term.getvalue(), own.getvalue(), hold['term'], hold['mine']))
                    ctx.check((sys.stdout is term) == (now == 'term') and (sys.stdout is own) == (now == 'mine'), lab, lambda: 'step %d: standard output should be %s' % (i, now))
                else:
                    ctx.trace()
                    ctx.outcome((tuple(sorted(hold.items())), now, on))
            finally:
                GaLatexPrinter.restore()
                sys.stdout = old
    ctx.sample('all histories of %d of %s' % (depth, ops))


def gprints(ctx, n):
    """Every sequence of pieces of a gprint: strings as they are, values by their form with a blank on both sides, a double backslash begins a new equation."""
    G = gpm()
    ga = Ga('e*1|2', g=[1, 1])
    A = ga.mv('A', 'vector')
    pieces = ['A = ', '50% of 20%', '%%', '%s', '%d%', '', r'\\', r' p \\ q% \\ r% %', int, A, 3, x / 2]
    old = sys.stdout
    for seq in itertools.product(range(len(pieces)), repeat=n):
        for tex in (False, True):
            ps = [pieces[i] for i in seq]
            if not tex and any(isinstance(p, str) and r'\\' in p for p in ps):
                continue
            lab = 'gprint/%s/%s' % ('latex' if tex else 'text', '.'.join(map(str, seq)))
            want = ''
            for i, p in enumerate(ps):
                if isinstance(p, str):
                    want += p.replace(r'\\', '\\end{equation*}\n\\begin{equation*} ') if i else p
                elif isinstance(p, type):
                    want += (r' \text{%s} ' if tex else '%s') % (p,)
                else:
                    want += ' ' + (latex(p) if tex else str(p)) + ' '
            want = (r'\begin{equation*} ' + want + r'\end{equation*} ' if tex else want) + '\n'
            G.LaTeX.latex_flg, G.LaTeX.latex_str = tex, ''
            sys.stdout = io.StringIO()
            try:
                ok, _ = ctx.guard(lab, G.gprint, *ps)
                got = G.LaTeX.latex_str if tex else sys.stdout.getvalue()
                rest = sys.stdout.getvalue() if tex else G.LaTeX.latex_str
            finally:
                sys.stdout = old
                G.LaTeX.latex_flg, G.LaTeX.latex_str = False, ''
            ctx.step()
            ctx.trace()
            ctx.state(lab)
            ctx.outcome(want)
            if ok:
                ctx.check(got == want and rest == '', lab, lambda: 'gprint of %s gives %r, should be %r' % (ps, got, want))
    ctx.sample('gprint of all sequences of %d of %s' % (n, pieces))


# -- the exploration
def observe(W, m, tb, full):
    """Differences between the process and the model."""
    bad = []

    def eq(what, got, want):
        if got != want:
            bad.append('%s is %r, should be %r' % (what, got, want))

    if m['cap'] is None:
        if sys.stdout is not W.term:
            bad.append('standard output is %r, not the terminal' % (sys.stdout,))
    else:
        if sys.stdout is W.term:
            bad.append('standard output is not redirected')
            return bad
        eq('the captured output', sys.stdout.getvalue(), m['cap'])
    eq('the terminal output', W.term.getvalue(), m['term'])
    if builtins.print is not REAL_PRINT or sys.displayhook is not REAL_HOOK:
        bad.append('print or the display hook was replaced')
    b = io.StringIO()
    for n, o in W.obs.items():
        b.seek(0)
        b.truncate()
        print(o, file=b)
        eq('print(%s)' % n, b.getvalue(), text(tb, m, n) + '\n')
        eq('repr(%s)' % n, repr(o), tb['p', n][pset(m)])
        eq('latex(%s)' % n, latex(o), tb['l', n][lset(m)])
        if n != 'mat':     # sympy writes a matrix with the repr of its entries
            eq('str(%s)' % n, str(o), tb['p', n][pset(m)] if n == 'A' else tb['s', n][m['fmt']])
    for k in (1, 2, 3):
        b.seek(0)
        b.truncate()
        print(W.obs['A'].Fmt(k), W.obs['grad'].Fmt(k, 'G'), file=b)
        eq('print(A.Fmt(%d), grad.Fmt)' % k, b.getvalue(), text(tb, m, 'A', fmt=k) + ' G = ' + text(tb, m, 'grad', fmt=k) + '\n')
    A, T = W.obs['A'], W.T
    for k in (1, 2, 3):
        eq('latex((A.Fmt(%d), A, T.Fmt(2), T))' % k, squeeze(latex((A.Fmt(k), A, T.Fmt(2), T))), squeeze(
            r'\left(%s,\%s,\%s,\%s\right)' % (tb['l', 'A'][lset(m, fmt=k)], tb['l', 'A'][lset(m)], tb['T', 2], tb['T', 1])))
        eq('text of (A.Fmt(%d), A)' % k, GaPrinter().doprint((A.Fmt(k), A)), '(%s, %s)' % (tb['p', 'A'][pset(m, fmt=k)], tb['p', 'A'][pset(m)]))
    eq('the text of a dictionary', GaPrinter().doprint({x: W.obs['f']}), '{x: ' + tb['p', 'f'][pset(m)] + '}')
    if full:
        eq('the names in new objects', names(W.ga), tb['names'])
    return bad


def walk(W, m, tb, menu, depth, prefix, skip):
    """(failures, nodes, outcomes) below this node; every child runs in a fork."""
    fails, nodes, outs = [], 0, set()
    for name in menu[0]:
        m2 = dict(m)
        if OPS[name](W, m2, tb, False) is False:
            continue

        def child():
            seq = prefix + [name]
            mm = dict(m)
            try:
                r = OPS[name](W, mm, tb, True)
                bad = [r] if r else observe(W, mm, tb, depth == 1)
            except Exception as e:
                import traceback
                tbk = traceback.extract_tb(e.__traceback__)[-1]
                return [(seq, 'raised %s: %s at %s:%d' % (type(e).__name__, e, os.path.basename(tbk.filename), tbk.lineno))], 1, []
            if bad:
                return [(seq, '; '.join(bad[:4]))], 1, []
            o = [repr(sorted(mm.items()))]
            if depth > 1:
                f, n, oo = walk(W, mm, tb, menu[1:] or menu, depth - 1, seq, skip)
                return f, n + 1, o + list(oo)
            return [], 1, o

        f, n, o = forked(child)
        nodes += n
        outs.update(o)
        fails += f
        if len(fails) >= 4:
            break
    return fails, nodes, outs


CORE = ['Format', 'Format_args', 'Format_frac_power', 'LatexFormat', 'LatexFormat_notebook', 'redirect', 'restore', 'tex', 'xpdf', 'enhance', 'enhance_off', 'Fmt_2', 'print_A',
        'gFormat', 'gprint', 'gxpdf', 'failing_print', 'print_A_Fmt2']


def modes(ctx, first, menus, depth):
    """All sequences starting with `first` (a list of operations)."""
    tb = forked(table)
    table()         # fills sympy's caches
    W = World()
    W.dir = tempfile.mkdtemp(prefix='vf18')
    try:
        m = dict(INIT)
        bad = observe(W, m, tb, True)
        if not ctx.check(not bad, 'seq/(none)', lambda: '; '.join(bad[:4])):
            return
        gc.collect()
        gc.freeze()
        for name in first[:-1]:
            if OPS[name](W, m, tb, True) is False:
                return
        menu = [[first[-1]]] + [sorted(OPS) if k == 'all' else CORE for k in menus]
        fails, nodes, outs = walk(W, m, tb, menu, depth, list(first[:-1]), None)
    finally:
        sys.stdout = W.term
        shutil.rmtree(W.dir)
    ctx.step(nodes)
    ctx.trace(nodes)
    for o in outs:
        ctx.state(o)
        ctx.outcome(o)
    for seq, msg in fails:
        ctx.fail('seq/' + '>'.join(seq), msg)
    ctx.sample('%s then %s: %d sequences' % ('>'.join(first), menus, nodes))


def jobs(tier):
    js = [dict(fn='texts', kw={})]
    js += [dict(fn='captured', kw=dict(n=n)) for n in (1, 2)]
    js += [dict(fn='captured', kw=dict(n=3, first=i)) for i in range(len(LINES))]
    thorough = tier != 'quick'
    js += [dict(fn='gprints', kw=dict(n=k)) for k in (1, 2, 3)]
    js.append(dict(fn='replaced', kw=dict(depth=7 if thorough else 6)))
    for a in sorted(OPS):
        js.append(dict(fn='modes', kw=dict(first=[a], menus=['all'], depth=2)))
        if thorough:
            js.append(dict(fn='modes', kw=dict(first=[a], menus=['all', 'all'], depth=3)))
    for a in CORE:
        js.append(dict(fn='modes', kw=dict(first=[a], menus=['core', 'core'], depth=3)))
        if thorough:
            for b in CORE:
                js.append(dict(fn='modes', kw=dict(first=[a, b], menus=['core', 'core'], depth=3)))
    return js
