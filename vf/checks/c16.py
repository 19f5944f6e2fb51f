"""C16: GAeval parenthesises as the declared precedence says.

Every token string up to a length, every bracketing, every sign pattern, under every
declaration, is evaluated by the real GAeval over recording operands; the recorded
tree is compared with the one a reference precedence parser builds.  All strings over
a small alphabet are classified as well: malformed ones must be refused.
"""
import io
import itertools
from contextlib import redirect_stdout
import sympy as sp
from galgebra import printer
from galgebra.printer import GAeval, def_prec
from vf import configs
from vf.bridge import Alg

BOUNDS = ('all strings of <= 5 operators from {<,>,|,^,*,+,-,/} (thorough: 6 from the declared ones), all bracketings of <= 4 operands, all sign prefixes, '
          'operand forms (calls, attributes, subscripts, numbers, brackets), all 15 declarations plus the refused ones; all strings of length <= 6 over {a,|,^,*,-,(,)} classified; all declaration histories of length 3')
ASSUMPTIONS = ["a comparison chain left to Python (undeclared <, >) and '**', '//' next to '*' are outside the checked grammar",
               "'/' belongs to the level of '*' when '*' is declared, every other undeclared operator binds as in Python outside the declared ones"]

GROUPS = ['<>|', '^', '*']
DECLS = [','.join(p) for k in (1, 2, 3) for p in itertools.permutations(GROUPS, k)]
PYLEVELS = ['*/', '+-', '^', '|', '<>']


# ---------------------------------------------------------------- recording operands

class Rec:
    """An operand that records the tree it is used in; signs are pulled out front."""
    __slots__ = ('s', 't')

    def __init__(self, t, s=1):
        self.t, self.s = t, s

    def __eq__(self, o):
        return isinstance(o, Rec) and (self.s, self.t) == (o.s, o.t)

    def __hash__(self):
        return hash((self.s, self.t))

    def __repr__(self):
        return ('-' if self.s < 0 else '') + show(self.t)

    def __neg__(self):
        return Rec(self.t, -self.s)

    def __pos__(self):
        return self

    def __call__(self, *a):
        return Rec(('call', self.t, tuple((x.s, x.t) if isinstance(x, Rec) else x for x in a)), self.s)

    __iter__ = None      # no unpacking: "a(*a)" is refused

    def __getitem__(self, i):
        return Rec(('item', self.t, (i.s, i.t) if isinstance(i, Rec) else i), self.s)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Rec(('attr', self.t, n), self.s)


def rec(x):
    return x if isinstance(x, Rec) else Rec(('num', x if x >= 0 else -x), 1 if x >= 0 else -1)


def bi(op, a, b):
    a, b = rec(a), rec(b)
    if op in '+-':
        s = -b.s if op == '-' else b.s
        return Rec(('+', a.t, s * a.s, b.t), a.s)
    return Rec((op, a.t, b.t), a.s * b.s)


for _n, _o in dict(lt='<', gt='>', xor='^', mul='*', add='+', sub='-', truediv='/').items():
    setattr(Rec, '__%s__' % _n, lambda a, b, o=_o: bi(o, a, b))
    setattr(Rec, '__r%s__' % _n, lambda a, b, o=_o: bi(o, b, a))
setattr(Rec, '__or__', lambda a, b: bi('|', a, b))
setattr(Rec, '__ror__', lambda a, b: bi('|', b, a))


def show(t):
    if t[0] == '+':
        return '(%s%s%s)' % (show(t[1]), '+' if t[2] > 0 else '-', show(t[3]))
    if t[0] in ('call', 'item', 'attr'):
        return '%s.%s%s' % (show(t[1]), t[0], t[2:])
    if len(t) == 3:
        return '(%s%s%s)' % (show(t[1]), t[0], show(t[2]))
    return str(t[-1])


# ---------------------------------------------------------------- reference

def levels(decl):
    """Operator sets from the tightest to the loosest."""
    lv = []
    for g in decl.split(','):
        lv.append(set(g) | ({'/'} if g == '*' else set()))
    done = set().union(*lv)
    for g in PYLEVELS:
        rest = set(g) - done
        if rest:
            lv.append(rest)
    return lv


def fold(items, decl):
    """items: value op value op value ..., returns the value (None: outside the grammar)."""
    vals, ops = list(items[0::2]), list(items[1::2])
    declared = set(''.join(decl.split(',')))
    for lv in levels(decl):
        if '<' in lv and '<' not in declared and sum(o in lv for o in ops) > 1:
            return None
        i = 0
        while i < len(ops):
            if ops[i] in lv:
                vals[i] = bi(ops[i], vals[i], vals[i + 1])
                del vals[i + 1], ops[i]
            else:
                i += 1
    return vals[0]


NAMES = 'abcdefg'
ENV = {n: Rec(('v', n)) for n in NAMES}
ENV['ab'] = Rec(('v', 'ab'))


def evaluate(s):
    try:
        with redirect_stdout(io.StringIO()):
            return True, GAeval(s)
    except Exception as e:
        return False, e


def compare(ctx, s, want, key):
    ok, r = evaluate(s)
    ctx.step()
    ctx.trace()
    if not ok:
        ctx.fail(key, '%r raised %s: %s' % (s, type(r).__name__, r))
    elif rec(r) != rec(want):
        ctx.fail(key, '%r was evaluated as %s, declared is %s' % (s, r, want))


# ---------------------------------------------------------------- jobs

def chains(ctx, decl, lens, alphabet, first=None):
    """Every operator string of the given lengths, without brackets."""
    def_prec(ENV, decl)
    n = 0
    for k in lens:
        for ops in itertools.product(alphabet, repeat=k):
            if first and ops[0] not in first:
                continue
            items = [ENV['a']]
            for i, o in enumerate(ops):
                items += [o, ENV[NAMES[i + 1]]]
            want = fold(items, decl)
            if want is None:
                continue
            s = NAMES[0] + ''.join(o + NAMES[i + 1] for i, o in enumerate(ops))
            compare(ctx, s, want, '%s: %s' % (decl, s))
            ctx.state((decl, s))
            if n % 97 == 0:
                ctx.outcome((decl, repr(want)))
            n += 1
    ctx.sample('%s: %s parenthesised as %s' % (decl, s, want))


def trees(n, inner=False):
    """All ways to bracket n operands: sequences of operands 'x' and bracketed sequences.
    Brackets around a bracket add nothing but are tried once, at the outermost level."""
    def parts(k):
        if k == 1:
            return ['x', ('(', ['x'])]
        return [('(', q) for q in trees(k, True)]

    def seqs(m):
        if m == 0:
            return [[]]
        return [[p] + rest for k in range(1, m + 1) if not (inner and k == n and k > 1) for p in parts(k) for rest in seqs(m - k)]
    return [q for q in seqs(n) if not (inner and len(q) == 1 and n > 1)]


def brackets(ctx, decl, n, alphabet, part):
    """Every way to bracket n operands (single operands too) x every operator string."""
    def_prec(ENV, decl)
    shapes = trees(n)[part[0]::part[1]]
    for sh in shapes:
        for ops in itertools.product(alphabet, repeat=n - 1):
            names, oi = iter(NAMES), iter(ops)

            def build(q):
                txt, items = '', []
                for i, p in enumerate(q):
                    if i:
                        o = next(oi)
                        txt += o
                        items.append(o)
                    if p == 'x':
                        v = next(names)
                        txt += v
                        items.append(ENV[v])
                    else:
                        t, w = build(p[1])
                        txt += '(' + t + ')'
                        items.append(w)
                if any(x is None for x in items):
                    return txt, None
                return txt, fold(items, decl)
            s, want = build(sh)
            if want is None:
                continue
            compare(ctx, s, want, '%s: %s' % (decl, s))
            ctx.state((decl, s))
        ctx.outcome((decl, s, repr(want)))
    ctx.sample('%s: %d bracketings of %d operands, e.g. %s is %s' % (decl, len(shapes), n, s, want))


FORMS = {
    'a': lambda: ENV['a'], '-a': lambda: -ENV['a'], '+a': lambda: ENV['a'], '--a': lambda: ENV['a'], '(a)': lambda: ENV['a'], '((a))': lambda: ENV['a'], '-(a)': lambda: -ENV['a'],
    '(-a)': lambda: -ENV['a'], 'f(a)': lambda: ENV['f'](ENV['a']), 'f(a,b)': lambda: ENV['f'](ENV['a'], ENV['b']), 'a.rev()': lambda: ENV['a'].rev(), 'a.g': lambda: ENV['a'].g,
    'a[1]': lambda: ENV['a'][1], 'f(a|b)': lambda: ENV['f'](bi('|', ENV['a'], ENV['b'])), '(a|b)': lambda: bi('|', ENV['a'], ENV['b']), '(a^b)': lambda: bi('^', ENV['a'], ENV['b']),
    '(a^b).rev()': lambda: bi('^', ENV['a'], ENV['b']).rev(), 'f(a).g(b)': lambda: ENV['f'](ENV['a']).g(ENV['b']), '2': lambda: 2, '2.5': lambda: 2.5, '-3': lambda: -3, 'ab': lambda: ENV['ab'],
    '(a+b)': lambda: bi('+', ENV['a'], ENV['b']), '-(a|b)': lambda: -bi('|', ENV['a'], ENV['b']), 'f(a)(b)': lambda: ENV['f'](ENV['a'])(ENV['b']),
}


def nested(decl):
    """Operand forms whose inside needs the declared precedence itself."""
    def f(*items):
        return fold([ENV[x] if x in ENV else x for x in items], decl)
    out = {}
    for o1, o2 in itertools.product('|^*+<', repeat=2):
        v = f('a', o1, 'b', o2, 'c')
        if v is None:
            continue
        t = 'a%sb%sc' % (o1, o2)
        out['(%s)' % t] = v
        out['f(%s)' % t] = ENV['f'](v)
        out['(%s|d)' % t] = f('a', o1, 'b', o2, 'c', '|', 'd')
    return {k: v for k, v in out.items() if v is not None}


def forms(ctx, decl, alphabet, part):
    """Every ordered triple of operand forms around two operators, with every kind of spacing."""
    def_prec(ENV, decl)
    plain = {k: v() for k, v in FORMS.items()}
    nest = nested(decl)
    pool = [(a, b, c) for a in plain for b in plain for c in ('a', '-a', '(a|b)', 'f(a)', 'a.rev()', '2')]
    pool += [(a, b, c) for a in list(nest) for b in ('d', '-d', '(d|e)') for c in ('e', '(d^e)')] + [(b, a, c) for a in list(nest) for b in ('d', '-d', '(d|e)') for c in ('e', '(d^e)')]
    extra = {'d': ENV['d'], '-d': -ENV['d'], 'e': ENV['e'], '(d|e)': bi('|', ENV['d'], ENV['e']), '(d^e)': bi('^', ENV['d'], ENV['e'])}
    val = dict(plain, **nest)
    val.update(extra)
    for i, (a, b, c) in enumerate(pool[part[0]::part[1]]):
        if all(isinstance(val[q], (int, float)) for q in (a, b)) or all(isinstance(val[q], (int, float)) for q in (b, c)):
            continue             # Python would compute with the numbers itself
        for o1, o2 in itertools.product(alphabet, repeat=2):
            want = fold([val[a], o1, val[b], o2, val[c]], decl)
            if want is None:
                continue
            s = a + o1 + b + o2 + c
            compare(ctx, s, want, '%s: %s' % (decl, s))
            ctx.state((decl, s))
        sp_ = ' %s %s %s %s %s ' % (a, o1, b, o2, c)
        if want is not None:
            compare(ctx, sp_, want, '%s: %r' % (decl, sp_))
            ctx.outcome((decl, a, b, c, repr(want)))
    ctx.sample('%s: operand forms %s' % (decl, sorted(FORMS)))


# ---- all strings

def parse(s, decl):
    """Reference grammar over {a, |, ^, *, -, (, ), b} ; returns the value or raises SyntaxError."""
    pos = 0

    def peek():
        return s[pos] if pos < len(s) else ''

    def expr():
        nonlocal pos
        items = [operand()]
        while peek() and peek() in '|^*-':
            items.append(s[pos])
            pos += 1
            items.append(operand())
        return fold(items, decl)

    def operand():
        nonlocal pos
        if peek() == '-':
            pos += 1
            return -operand()
        if peek() == 'a':
            pos += 1
            v = ENV['a']
            if peek() == 'a':
                raise SyntaxError
        elif peek() == '(':
            pos += 1
            v = expr()
            if peek() != ')':
                raise SyntaxError
            pos += 1
            if peek() == 'a':
                raise SyntaxError
        else:
            raise SyntaxError
        while peek() == '(':
            pos += 1
            if peek() == ')':
                arg = ()
            else:
                arg = (expr(),)
            if peek() != ')':
                raise SyntaxError
            pos += 1
            v = v(*arg)
            if peek() == 'a':
                raise SyntaxError
        return v
    v = expr()
    if pos != len(s):
        raise SyntaxError
    return v


def strings(ctx, decl, length, first):
    """Every string of the alphabet: well formed ones have the declared value, others are refused."""
    def_prec(ENV, decl)
    bad = good = 0
    for tail in itertools.product('a|^*-()', repeat=length - 1):
        s = first + ''.join(tail)
        if '**' in s:
            continue
        try:
            want = parse(s, decl)
        except SyntaxError:
            want = None
        if want is None:
            ok, r = evaluate(s)
            ctx.step()
            bad += 1
            if ok and '()' not in s:
                ctx.fail('%s: %s' % (decl, s), '%r is malformed but was evaluated as %r' % (s, r))
        else:
            good += 1
            compare(ctx, s, want, '%s: %s' % (decl, s))
            ctx.state((decl, s))
            ctx.outcome((decl, repr(want)))
    ctx.trace(bad)
    ctx.sample('%s: strings %s... of length %d: %d well formed, %d refused' % (decl, first, length, good, bad))


def malformed(ctx):
    """Refused declarations keep the old one in force; refused expressions."""
    import warnings
    warnings.simplefilter('ignore')      # Python warns about some of the strings it refuses
    good = '<>|,^,*'
    baddecl = [''.join(p) for k in range(0, 5) for p in itertools.product('<|^*,+x', repeat=k)]
    baddecl = [d for d in baddecl if d not in DECLS and not (set(d.split(',')) <= set(GROUPS))]
    other = {'a': Rec(('v', 'other'))}
    for d in baddecl:
        def_prec(ENV, good)
        ctx.raises('def_prec(%r)' % d, ValueError, lambda: def_prec(other, d), 'def_prec(%r)' % d)
        ctx.step()
        ctx.state(('decl', d))
    compare(ctx, 'a*b^c', bi('*', ENV['a'], bi('^', ENV['b'], ENV['c'])), 'after refused declarations')
    def_prec(ENV, good)
    texts = ['', ' ', 'a b', 'a|b c', 'a b|c', 'a ab', '2 3', 'a 2', '(a', 'a)', '(a|b', 'a|b)', '((a)', ')(', 'a||b', 'a^^b', 'a|^b', 'a^', '|a', 'a|', '(a|)b', 'a(|b)', 'a|(b^)', 'nosuch', 'a|nosuch',
             'a?b', 'a$b', '(a|b]', 'a,,b', 'f(a,,b)', 'f(,a)', 'a;b', 'a=b', 'if', 'a b(c)', '(a) b', '(a)(b', 'a)(b', 'a|b)|(c', '(a|b))|((c', 'a (b) c', 'a !b', "a|'", 'a|"', '[a', 'a]', 'f(a']
    for s in texts:
        ok, r = evaluate(s)
        ctx.step()
        ctx.trace()
        ctx.state(('text', s))
        ctx.check(not ok, 'malformed %r' % s, lambda: 'was evaluated as %r' % (r,))
        ctx.outcome(type(r).__name__)
    ctx.sample('%d refused declarations, %d refused expressions' % (len(baddecl), len(texts)))


def histories(ctx, depth):
    """The last accepted declaration and the live names are in force: all histories of declarations."""
    ds = ['<>|,^,*', '*,^,<>|', '^,<>|,*', '<>|', 'bad']
    exprs = ['a|b^c*d', 'a*b^c|d', 'a^b|c']
    for hist in itertools.product(range(len(ds)), repeat=depth):
        envs = [{n: Rec(('v', n + str(k))) for n in NAMES} for k in range(2)]
        cur = None
        for i, h in enumerate(hist):
            env = envs[i % 2]
            try:
                def_prec(env, ds[h])
                cur = (env, ds[h])
            except ValueError:
                ctx.check(ds[h] == 'bad', 'history/refused', lambda: '%s refused' % ds[h])
            if cur is None:
                continue
            for s in exprs:
                want = fold([cur[0][x] if x in NAMES else x for x in s], cur[1])
                if want is not None:
                    compare(ctx, s, want, 'history %s: %s' % ([ds[k] for k in hist[:i + 1]], s))
            cur[0]['a'] = Rec(('v', 'new%d' % i))       # names are looked up when evaluated
            ctx.state((hist[:i + 1],))
    ctx.sample('all %d histories of %d declarations' % (len(ds) ** depth, depth))


def printed(ctx):
    """With pstr both strings are printed, and the second one is a fully bracketed equivalent."""
    for decl in DECLS:
        def_prec(ENV, decl)
        for ops in itertools.product('|^*+<', repeat=3):
            s = 'a' + ''.join(o + n for o, n in zip(ops, 'bcd'))
            want = fold([ENV[x] if x in ENV else x for x in s], decl)
            if want is None:
                continue
            buf = io.StringIO()
            with redirect_stdout(buf):
                r = GAeval(s, True)
            lines = buf.getvalue().split('\n')
            ctx.step()
            ctx.state((decl, s))
            ctx.check(len(lines) == 3 and lines[0] == s and lines[2] == '', '%s: pstr %s' % (decl, s), lambda: 'printed %r' % buf.getvalue())
            ctx.check(rec(eval(lines[1], dict(ENV))) == rec(want) == rec(r), '%s: pstr value %s' % (decl, s), lambda: '%r does not denote %s' % (lines[1], want))
            ctx.outcome(lines[1])
    ctx.sample('%s printed as %s' % (s, lines[1]))


def values(ctx, name):
    """Anchoring to multivectors: the number GAeval returns is the bracketed expression's."""
    ga = configs.algebra(name)
    alg = Alg(ga, configs.metric(name))
    e = ga.mv()
    n = ga.n
    env = {'a': 2 * e[0] - e[-1], 'b': e[0] + 3 * e[1], 'c': (e[0] ^ e[1]) + 2, 'd': e[-1] + (e[0] ^ e[1]), 'f': lambda m: m.rev() * 2}
    fn = {'*': lambda x, y: x * y, '^': lambda x, y: x ^ y, '|': lambda x, y: x | y, '<': lambda x, y: x < y, '>': lambda x, y: x > y, '+': lambda x, y: x + y, '-': lambda x, y: x - y}

    def run(t):
        if t[0] == 'v':
            return env[t[1]]
        if t[0] == '+':
            return run(t[1]) + t[2] * run(t[3])
        return fn[t[0]](run(t[1]), run(t[2]))
    for decl in DECLS:
        def_prec(env, decl)
        for ops in itertools.product('|^*<>+', repeat=3):
            s = 'a' + ''.join(o + m for o, m in zip(ops, 'bcd'))
            want = fold([ENV[x] if x in ENV else x for x in s], decl)
            if want is None:
                continue
            ok, r = ctx.guard('%s/%s: %s' % (name, decl, s), lambda: GAeval(s))
            ctx.step()
            ctx.trace()
            if ok:
                w = run(want.t)
                ctx.check(sp.expand(r.obj - w.obj) == 0, '%s/%s: %s' % (name, decl, s), lambda: 'gives %s, %s is %s' % (r, want, w))
                ctx.state((name, decl, s))
                ctx.outcome(str(r.obj))
    ctx.sample('%s: %s = %s' % (name, s, r))


def jobs(tier):
    quick = tier == 'quick'
    js = [dict(fn='histories', kw=dict(depth=3 if quick else 4)), dict(fn='malformed', kw={}), dict(fn='printed', kw={})]
    for nm in ('E3', 'O3') if quick else ('E3', 'O3', 'STA', 'PGA2'):
        js.append(dict(fn='values', kw=dict(name=nm)))
    for decl in DECLS:
        js.append(dict(fn='chains', kw=dict(decl=decl, lens=[1, 2, 3, 4], alphabet='<>|^*+-/')))
        js.append(dict(fn='chains', kw=dict(decl=decl, lens=[5], alphabet='<|^*+-')))
        js.append(dict(fn='brackets', kw=dict(decl=decl, n=3, alphabet='<>|^*+-/', part=[0, 1])))
        js.append(dict(fn='brackets', kw=dict(decl=decl, n=4, alphabet='<|^*-', part=[0, 1])))
        js.append(dict(fn='forms', kw=dict(decl=decl, alphabet='|^*-' if quick else '<>|^*+-', part=[0, 1])))
        for k in range(1, 6 if quick else 8):
            for first in 'a(-' if k < 6 else 'a|^*-()':
                js.append(dict(fn='strings', kw=dict(decl=decl, length=k, first=first)))
        if not quick:
            for f in '<|^*+-':
                js.append(dict(fn='chains', kw=dict(decl=decl, lens=[6], alphabet='<|^*+-', first=f)))
            for p in range(4):
                js.append(dict(fn='brackets', kw=dict(decl=decl, n=5, alphabet='|^*', part=[p, 4])))
    if quick:
        for first in 'a(-':
            js.append(dict(fn='strings', kw=dict(decl='<>|,^,*', length=6, first=first)))
            js.append(dict(fn='strings', kw=dict(decl='*,^,<>|', length=6, first=first)))
    return js
