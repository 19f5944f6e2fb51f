"""Independent readers of printed multivectors and operators.

A printed text is read back into {(derivatives, basis element): coefficient};
nothing of the printers is used, and everything not understood is refused."""
import re
import sympy as sp


class Unreadable(Exception):
    pass


class Val:
    """Linear combination: keys (dkey, bkey), dkey a sorted tuple of (coordinate, order), bkey ('^'|'*', names) or ()."""

    def __init__(self, t):
        self.t = t

    def add(self, o, s=1):
        t = dict(self.t)
        for k, c in o.t.items():
            t[k] = t.get(k, sp.S.Zero) + s * c
        return Val(t)

    def scalar(self):
        if set(self.t) <= {((), ())}:
            return self.t.get(((), ()), sp.S.Zero)
        raise Unreadable('a scalar is needed')

    def mul(self, o, prod=False):
        t = {}
        for (d1, b1), c1 in self.t.items():
            for (d2, b2), c2 in o.t.items():
                if d1 and not (c2 == 1 and not d2):
                    if not d2 and not c2.free_symbols and not c2.atoms(sp.Function):
                        pass            # a constant behind the derivative
                    else:
                        raise Unreadable('something stands behind a derivative')
                if b1 and b2:
                    if not prod or (b1[0] == '^' and len(b1[1]) > 1) or (b2[0] == '^' and len(b2[1]) > 1):
                        raise Unreadable('product of basis elements %s %s' % (b1, b2))
                    b = ('*', b1[1] + b2[1])
                else:
                    b = b1 or b2
                k = (add_d(d1, d2), b)
                t[k] = t.get(k, sp.S.Zero) + c1 * c2
        return Val(t)


def add_d(d1, d2):
    m = {}
    for n, k in d1 + d2:
        m[n] = m.get(n, 0) + k
    return tuple(sorted(m.items()))


def num(c):
    return Val({((), ()): sp.sympify(c)})


def vec(*names, op='^'):
    return Val({((), (op, tuple(names))): sp.S.One})


def der(**ks):
    return Val({(tuple(sorted(ks.items())), ()): sp.S.One})


def same(c1, c2):
    d = sp.expand((sp.nsimplify(c1, rational=True) - sp.nsimplify(c2, rational=True)).doit())
    return d == 0 or sp.simplify(d) == 0


def equal(v, w):
    for k in set(v.t) | set(w.t):
        if not same(v.t.get(k, sp.S.Zero), w.t.get(k, sp.S.Zero)):
            return False
    return True


FUNCS = {n: getattr(sp, n) for n in 'sin cos tan sinh cosh exp log sqrt asin acos atan Abs sec cot csc'.split()}


class _Base:
    """terms: (sign, key set) of every top level term, to see that each element is printed once."""
    prod = False

    def read(self, text):
        self.toks = self.lex(text)
        self.i = 0
        self.top = []
        self.depth = 0
        v = self.expr()
        if self.i != len(self.toks):
            raise Unreadable('text goes on: %s' % (self.toks[self.i:],))
        return v

    def peek(self, k=0):
        return self.toks[self.i + k] if self.i + k < len(self.toks) else None

    def take(self, want=None):
        t = self.peek()
        if t is None or want is not None and t != want:
            raise Unreadable('%s expected, not %s' % (want, t))
        self.i += 1
        return t

    def expr(self):
        self.depth += 1
        v = None
        s = 1
        if self.peek() in ('+', '-'):
            s = -1 if self.take() == '-' else 1
        while True:
            w = self.term()
            if self.depth == 1:
                self.top.append(set(w.t))
            v = num(0).add(w, s) if v is None else v.add(w, s)
            if self.peek() in ('+', '-'):
                s = -1 if self.take() == '-' else 1
            else:
                break
        self.depth -= 1
        return v


class StrReader(_Base):
    TOK = re.compile(r'\s+|(\*\*|D(?:\{[^{}]*\}(?:\^\d+)?)+|\d+\.\d+(?:e[+-]?\d+)?|\d+|\{\w+\}_\w+|[A-Za-z_]\w*|[-+*/^(),.])')

    def __init__(self, coefs, basis, funcs=None, prod=False, args=False):
        """coefs: name -> scalar; basis: name -> tuple of vector names; funcs: name -> applied function."""
        self.coefs, self.basis, self.funcs, self.prod, self.args = coefs, basis, funcs or {}, prod, args

    def lex(self, text):
        out, p = [], 0
        while p < len(text):
            m = self.TOK.match(text, p)
            if not m:
                raise Unreadable('%r in %r' % (text[p:p + 5], text))
            if m.group(1):
                # a derivative that touches what follows is applied to it
                out.append(m.group(1))
                if m.group(1).startswith('D{') and m.end() < len(text) and re.match(r'[A-Za-z_(]', text[m.end()]):
                    out[-1] = 'apply:' + out[-1]
            p = m.end()
        return out

    def term(self):
        v = self.factor()
        while self.peek() in ('*', '/'):
            if self.take() == '*':
                v = v.mul(self.factor(), self.prod)
            else:
                v = v.mul(num(1 / self.factor().scalar()))
        return v

    def factor(self):
        if self.peek() == '-':
            self.take()
            return num(-1).mul(self.factor())
        v = self.atom()
        if self.peek() == '**':
            self.take()
            return num(v.scalar() ** self.factor().scalar())
        return v

    def dspec(self, tok):
        return [(n, int(k or 1)) for n, k in re.findall(r'\{([^{}]*)\}(?:\^(\d+))?', tok)]

    def atom(self):
        t = self.take()
        if t == '(':
            # a dot product symbol (a.b)
            if self.peek(1) == '.':
                a, _, b = self.take(), self.take(), self.take()
                self.take(')')
                return num(self.coefs['(%s.%s)' % (a, b)])
            v = self.expr()
            self.take(')')
            return v
        if re.match(r'\d', t):
            return num(sp.Rational(t) if t.isdigit() else sp.Float(t))
        if t.startswith('D{') or t.startswith('apply:'):
            spec = self.dspec(t)
            if t.startswith('apply:'):
                f = self.atom().scalar()
                for n, k in spec:
                    f = f.diff(self.coefs[n], k)
                return num(f)
            if spec == [('', 1)]:
                return num(1)
            return Val({(add_d((), tuple(spec)), ()): sp.S.One})
        if t in self.basis:
            names = list(self.basis[t])
            while self.peek() == '^':
                self.take()
                names += self.basis[self.take()]
            return vec(*names)
        if t == 'Derivative':
            self.take('(')
            f = self.expr().scalar()
            while self.peek() == ',':
                self.take()
                if self.peek() == '(':
                    self.take()
                    x = self.expr().scalar()
                    self.take(',')
                    k = int(self.expr().scalar())
                    self.take(')')
                else:
                    x, k = self.expr().scalar(), 1
                f = f.diff(x, k)
            self.take(')')
            return num(f)
        if t in FUNCS:
            self.take('(')
            v = self.expr().scalar()
            self.take(')')
            return num(FUNCS[t](v))
        if t in self.funcs:
            if self.args:
                f = self.funcs[t]
                self.take('(')
                for i, a in enumerate(f.args):
                    if i:
                        self.take(',')
                    if self.expr().scalar() != a:
                        raise Unreadable('arguments of %s' % t)
                self.take(')')
            return num(self.funcs[t])
        if t in self.coefs:
            return num(self.coefs[t])
        if t in ('pi', 'I', 'E'):
            return num(getattr(sp, t))
        raise Unreadable('unknown name %s' % t)


class TexReader(_Base):
    TOK = re.compile(r'\\[A-Za-z]+|\\.|\d+(?:\.\d+)?|[A-Za-z]+|[^\s]')
    TEXF = {r'\sin': sp.sin, r'\cos': sp.cos, r'\tan': sp.tan, r'\sinh': sp.sinh, r'\cosh': sp.cosh, r'\log': sp.log, r'\exp': sp.exp}

    def __init__(self, atoms, funcs=None, prod=False, omit=False):
        """atoms: text -> Val; funcs: text -> applied function."""
        self.atoms = sorted([(self.lex(k), v) for k, v in atoms.items()], key=lambda p: -len(p[0]))
        self.funcs = sorted([(self.lex(k), v) for k, v in (funcs or {}).items()], key=lambda p: -len(p[0]))
        self.coords = {k: v.scalar() for k, v in atoms.items() if set(v.t) == {((), ())}}
        self.prod, self.omit = prod, omit

    def lex(self, text):
        out, side = [], None
        for t in self.TOK.findall(text):
            if t in (r'\left', r'\right', r'\displaystyle'):
                side = t
                continue
            out.append({r'\left': 'LBAR', r'\right': 'RBAR'}.get(side, t) if t == '|' else t)
            side = None
        return out

    def group(self):
        self.take('{')
        d, self.depth = self.depth, 5
        v = self.expr()
        self.depth = d
        self.take('}')
        return v

    def match(self, table):
        for toks, v in table:
            if self.toks[self.i:self.i + len(toks)] == toks:
                self.i += len(toks)
                if '^' in toks and self.peek() == '^':
                    raise Unreadable('double superscript')
                return v
        return None

    def term(self):
        v = self.factor()
        while self.peek() is not None and self.peek() not in ('+', '-', ')', '}', ']', ',', 'RBAR'):
            v = v.mul(self.factor(), self.prod)
        return v

    def exponent(self):
        """A group, where a fraction may be written with a stroke."""
        if self.peek(2) == '/' or self.peek(3) == '/':
            self.take('{')
            sign = -1 if self.peek() == '-' else 1
            if sign < 0:
                self.take()
            p = int(self.take())
            self.take('/')
            q = int(self.take())
            self.take('}')
            return sp.Rational(sign * p, q)
        return self.group().scalar()

    def power(self, v):
        if self.peek() == '^':
            self.take()
            v = num(v.scalar() ** (self.exponent() if self.peek() == '{' else sp.Integer(self.take())))
            if self.peek() == '^':
                raise Unreadable('double superscript')
        return v

    def coord(self):
        """One coordinate in a derivative."""
        best = None
        for k, v in self.coords.items():
            toks = self.lex(k)
            if self.toks[self.i:self.i + len(toks)] == toks and (best is None or len(toks) > len(best[0])):
                best = (toks, k)
        if best is None:
            raise Unreadable('not a coordinate: %s' % (self.toks[self.i:self.i + 4],))
        self.i += len(best[0])
        return best[1]

    def order(self):
        if self.peek() == '^':
            self.take()
            return int(self.group().scalar())
        return 1

    def operand(self):
        """What a derivative is applied to: a function, or an expression in brackets or braces or of one name."""
        f = self.function()
        if f is None and (self.peek() in ('(', '{', 'e', r'\frac', r'\sqrt') or self.peek() in self.TEXF):
            j = self.i
            v = self.factor()
            if set(v.t) <= {((), ())} and v.scalar().free_symbols:
                return v.scalar()
            self.i = j
        return f

    def derivative(self, spec):
        """Applied to a function that follows, else an operator."""
        j = self.i
        f = self.operand()
        if f is not None:
            for n, k in spec:
                f = f.diff(self.coords[n], k)
            if self.peek() == '^':
                raise Unreadable('ambiguous power of a derivative')
            return num(f)
        self.i = j
        return Val({(add_d((), tuple((n.strip().lstrip('\\'), k) for n, k in spec)), ()): sp.S.One})

    def function(self):
        f = self.match(self.funcs)
        if f is None:
            # a name with a superscript in parentheses
            if self.peek() != '(':
                return None
            j = self.i
            self.take()
            f = self.match(self.funcs)
            if f is None or self.peek() != ')':
                self.i = j
                return None
            self.take()
        p = 1
        if not self.omit:
            if self.peek() == '^':
                self.take()
                p = self.exponent()
            brace = self.peek() == '{'
            if brace:
                self.take()
            self.take('(')
            d, self.depth = self.depth, 5
            for i, a in enumerate(f.args):
                if i:
                    self.take(',')
                if self.expr().scalar() != a:
                    raise Unreadable('arguments')
            self.depth = d
            self.take(')')
            if brace:
                self.take('}')
        return f ** p

    def factor(self):
        if self.peek() in (r'\cdot', r'\times'):
            self.take()
        v = self.match(self.atoms)
        if v is not None:
            if any(b for _, b in v.t):
                names = list(next(iter(v.t))[1][1])
                more = False
                while self.peek() == r'\wedge':
                    self.take()
                    w = self.match(self.atoms)
                    if w is None:
                        raise Unreadable('wedge')
                    names += next(iter(w.t))[1][1]
                    more = True
                return vec(*names) if more else v
            return self.power(v)
        run = self.peek()
        if run is not None and run.isalpha() and len(run) > 1:
            # letters that touch are separate names unless they are one
            for k in range(len(run) - 1, 0, -1):
                self.toks[self.i:self.i + 1] = [run[:k], run[k:]]
                v = self.match(self.atoms)
                if v is not None:
                    return self.power(v)
                self.toks[self.i:self.i + 2] = [run]
        f = self.function()
        if f is not None:
            return self.power(num(f))
        t = self.take()
        if re.match(r'\d', t):
            return self.power(num(sp.Rational(t) if t.isdigit() else sp.Float(t)))
        if t == r'\frac':
            if self.peek(1) in (r'\partial', 'd') and self.peek(0) == '{':
                self.take()
                sym = self.take()
                total = self.order()
                self.take('}')
                self.take('{')
                spec = []
                while self.peek() != '}':
                    t = self.take()
                    if sym == 'd' and t != 'd' and t.startswith('d'):       # \frac{d}{dx}
                        self.toks[self.i - 1:self.i] = ['d', t[1:]]
                        t = 'd'
                    if t != sym:
                        raise Unreadable('derivative')
                    k = self.order()
                    n = self.coord()
                    k2 = self.order()
                    if k > 1 and k2 > 1:
                        raise Unreadable('order given twice')
                    spec.append((n, max(k, k2)))
                self.take('}')
                if sum(k for _, k in spec) != total:
                    raise Unreadable('orders of the derivative do not add up')
                return self.derivative(spec)
            a = self.group()
            b = self.group()
            return self.power(a.mul(num(1 / b.scalar())))
        if t == r'\partial':
            k = self.order()
            self.take('_')
            self.take('{')
            n = self.coord()
            self.take('}')
            spec = [(n, k)]
            while self.peek() == r'\partial':
                self.take()
                k = self.order()
                self.take('_')
                self.take('{')
                spec.append((self.coord(), k))
                self.take('}')
            return self.derivative(spec)
        if t == r'\root':                     # \root{3}{x}
            k = int(self.group().scalar())
            return self.power(num(self.group().scalar() ** sp.Rational(1, k)))
        if t == r'\sqrt':
            k = 2
            if self.peek() == '[':
                self.take()
                k = int(self.take())
                self.take(']')
            return self.power(num(self.group().scalar() ** sp.Rational(1, k)))
        if t in self.TEXF:
            p = 1
            if self.peek() == '^':
                self.take()
                p = self.group().scalar()
            v = self.group().scalar() if self.peek() == '{' else self.paren().scalar()
            return self.power(num(self.TEXF[t](v) ** p))
        if t == 'e' and self.peek() == '^':
            self.take()
            return num(sp.exp(self.group().scalar()))
        if t == '(':
            self.i -= 1
            return self.bracketed()
        if t == '{':
            self.i -= 1
            return self.power(self.group())
        if t == 'LBAR':
            d, self.depth = self.depth, 5
            v = self.group() if self.peek() == '{' else self.expr()
            self.depth = d
            self.take('RBAR')
            return self.power(num(sp.Abs(v.scalar())))
        if t == r'\pi':
            return self.power(num(sp.pi))
        if t == 'i':
            return self.power(num(sp.I))
        raise Unreadable('unknown: %s' % t)

    def paren(self):
        self.take('(')
        d, self.depth = self.depth, 5
        v = self.expr()
        self.depth = d
        self.take(')')
        return v

    def bracketed(self):
        v = self.paren()
        return self.power(v) if self.peek() == '^' else v


def layout(text):
    """Lines of a LaTeX text: the content of an aligned environment, or the whole."""
    m = re.match(r'^\s*\\begin\{aligned\}(?:\[t\])?(.*)\\end\{aligned\}\s*$', text, re.S)
    if not m:
        return [text], False
    return [ln.replace('&', ' ') for ln in re.split(r'\\\\', m.group(1))], True
