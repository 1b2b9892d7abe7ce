"""Workload generators."""
import random, string
from ref import FUNCS, INFIX, PREFIX, POSTFIX, CONSTS

VARS = ['x', 'y', 'z', 'a', 'b', 'c', 'foo', 'n', 'k', 't', 'Q', 'under_score', 'X', 'ee', 'pie', 'sinx', 'mo', 'D', 'parameter_p', 'parameter_q', 'sum_of_all_terms']
FN1 = [f for f, a in FUNCS.items() if a == 1]
FN2 = ['root', 'log', 'gcd', 'lcm']
FNN = [f for f, a in FUNCS.items() if a is None]
CONST = list(CONSTS)


def long_text(r):
    """Well-formed text with many operands: long argument lists, sums, or both"""
    n = r.choice((12, 21, 25, 33, 40, 65, 130, 260, 300)) if r.random() < 0.85 else r.randint(10, 80)
    items = [r.choice(['x', 'y', '1', '2', 'foo', 'sin(x)', '-x', '(x+y)', 'x!', 'max(1, x)', '3y', 'pi', 'sum()', '2^x']) for _ in range(n)]
    k = r.random()
    if k < 0.5:
        s = '%s(%s)' % (r.choice(FNN), ','.join(items))
    elif k < 0.75:
        s = ''.join(i + r.choice((' + ', '-', '*', ' / ', '^', ' ')) for i in items[:-1]) + items[-1]
    else:
        m = n // 2
        s = '%s(%s, %s)' % (r.choice(FNN), '+'.join(items[:m]), ', '.join(items[m:]))
    return s if r.random() < 0.6 else r.choice(['2*%s', 'sin(%s)', '%s!', '1 - %s', 'sum(1, %s, 2)', '(%s)', '%s + foo(x)']).replace('%s', s)


def literal(r, wild=False):
    k = r.random()
    if k < 0.45:
        return str(r.randint(0, 12))
    if k < 0.6:
        return str(r.randint(0, 1000))
    if k < 0.8:
        return '%d.%d' % (r.randint(0, 20), r.randint(0, 999))
    if k < 0.85:
        return '.%d' % r.randint(0, 99)
    if k < 0.88:
        return '%d.' % r.randint(0, 99)
    if k < 0.91:
        return '0' * r.randint(1, 3) + str(r.randint(0, 99))
    if k < 0.94:
        return r.choice(['0', '1', '2', '10', '100', '0.1', '0.5', '0.25', '1.5'])
    if k < 0.97:
        return str(r.randint(0, 10 ** r.randint(5, 25)))
    if wild:
        return r.choice(['inf', 'nan', 'Infinity', 'INF', 'NaN', '1' + '0' * 308, '1' + '0' * 309, '0.' + '0' * 320 + '1',
                         '2147483647', '2147483648', '9007199254740993', '4294967296', '18446744073709551616', '170', '171'])
    return '0.' + '0' * r.randint(1, 12) + str(r.randint(1, 99))


class ExprGen:
    """Random well-formed expression text."""

    def __init__(self, rng, vars=(), infix=None, prefix=('-', '+', '$'), postfix=('!', '%'), fn1=None, fn2=None, fnn=None,
                 consts=None, userfuncs=(), p_var=0.5, wild=False, braces=True, spaces=0.3, glue=0.2, redundant=0.15,
                 max_args=4, hist=0.0, deriv=0.0, lit=None):
        self.r = rng
        self.vars = list(vars)
        self.infix = list(INFIX) if infix is None else list(infix)
        self.prefix = list(prefix)
        self.postfix = list(postfix)
        self.fn1 = FN1 if fn1 is None else list(fn1)
        self.fn2 = FN2 if fn2 is None else list(fn2)
        self.fnn = FNN if fnn is None else list(fnn)
        self.consts = CONST if consts is None else list(consts)
        self.user = list(userfuncs)  # (name, arity)
        self.p_var, self.wild, self.braces, self.spaces, self.glue = p_var, wild, braces, spaces, glue
        self.redundant, self.max_args, self.hist, self.deriv = redundant, max_args, hist, deriv
        self.lit = lit or (lambda r: literal(r, wild))

    def sp(self):
        return ' ' * self.r.choice((1, 1, 2, 3)) if self.r.random() < self.spaces else ''

    def par(self, s):
        r = self.r
        o = r.choice('({') if self.braces else '('
        c = r.choice(')}') if self.braces and r.random() < 0.2 else {'(': ')', '{': '}'}[o]
        return o + self.sp() + s + self.sp() + c

    def leaf(self):
        r = self.r
        k = r.random()
        if self.vars and k < self.p_var:
            return r.choice(self.vars)
        if self.hist and r.random() < self.hist:
            return r.choice(['ans', 'ans', '@%d' % r.randint(0, 4), '@(%d)' % r.randint(0, 3)])
        if self.consts and r.random() < 0.12:
            return r.choice(self.consts)
        return self.lit(r)

    def call(self, name, args):
        return name + self.sp() + self.par((self.sp() + ',' + self.sp()).join(args))

    def expr(self, size):
        """Expression text with about size leaves; text is spliced without regard to precedence, any result is well-formed"""
        r = self.r
        if size <= 1:
            s = self.leaf()
            if r.random() < 0.1:
                s = self.unary(s)
            return s
        k = r.random()
        if self.user and k < 0.18:
            n, a = r.choice(self.user)
            if a == 0:
                return n
            return self.call(n, [self.expr(max(1, (size - 1) // a)) for _ in range(a)])
        if k < 0.28 and self.fn1:
            return self.call(r.choice(self.fn1), [self.expr(size - 1)])
        if k < 0.33 and self.fn2:
            h = max(1, size // 2)
            return self.call(r.choice(self.fn2), [self.expr(h), self.expr(max(1, size - h))])
        if k < 0.40 and self.fnn:
            n = r.randint(0, self.max_args)
            return self.call(r.choice(self.fnn), [self.expr(max(1, size // max(1, n))) for _ in range(n)])
        if self.deriv and r.random() < self.deriv and self.vars:
            return self.call('deriv', [self.expr(size - 1), r.choice(self.vars)])
        if k < 0.48:
            return self.unary(self.expr(size - 1))
        if k < 0.48 + self.redundant:
            return self.par(self.expr(size))
        h = r.randint(1, size - 1)
        a, b = self.expr(h), self.expr(size - h)
        if r.random() < 0.4:
            a = self.par(a)
        if r.random() < 0.4:
            b = self.par(b)
        if r.random() < self.glue:
            return self.juxtapose(a, b)
        op = r.choice(self.infix)
        if op[0].isalpha():
            return a + ' ' * r.randint(1, 2) + op + ' ' * r.randint(1, 2) + b
        return a + self.sp() + op + self.sp() + b

    def juxtapose(self, a, b):
        if b[0] in '+-' or a[-1] in '$@+-*/^':
            b = self.par(b)
        ca = a[-1]
        cb = b[0]
        letters = string.ascii_letters + '_[]'
        digits = string.digits + '.'
        if (ca in letters and cb in letters) or (ca in digits and cb in digits) or self.r.random() < 0.2:
            return a + ' ' + b
        if ca in letters and b[0] in '({':
            return a + ' ' + b if False else a + b
        return a + b

    def unary(self, s):
        r = self.r
        k = r.random()
        if (k < 0.6 and self.prefix) or not self.postfix:
            if not self.prefix:
                return s
            p = r.choice(self.prefix)
            return p + self.sp() + (self.par(s) if r.random() < 0.4 else s)
        return (self.par(s) if r.random() < 0.4 else s) + self.sp() + r.choice(self.postfix)


def mutate(r, s):
    """Random small damage at character or token level"""
    s = list(s)
    for _ in range(r.choice((1, 1, 1, 2, 3))):
        k = r.randint(0, 5)
        p = r.randint(0, len(s))
        if k == 0 and s:
            del s[min(p, len(s) - 1)]
        elif k == 1:
            s.insert(p, r.choice("()(){},,+-*/^!%'$@. 0123xyCefi"))
        elif k == 2 and len(s) > 1:
            i, j = r.randrange(len(s)), r.randrange(len(s))
            s[i], s[j] = s[j], s[i]
        elif k == 3:
            s[p:p] = list(r.choice(['sum(', 'sin', 'max()', ' mod ', ' C ', '()', '(,)', ',', 'ans', '@', 'f(', ')(', '^-', '1..2', "''",
                                    'deriv(', 'root(', '!!', '%%', '$', '{', '}', '[x]', '[', '~', '"', '\t', 'inf', ' ', '&', ':', '|', '<', '>', '\\', '?', 'pi()', 'pi(', '..', '.']))
        elif k == 4 and s:
            i = r.randrange(len(s))
            j = min(len(s), i + r.randint(1, 6))
            del s[i:j]
        elif k == 5 and s:
            i = r.randrange(len(s))
            j = min(len(s), i + r.randint(1, 6))
            s[p:p] = s[i:j]
    return ''.join(s)


TOKENS = ['1', '2', '3.5', '0', 'x', 'y', 'foo', '(', ')', '{', '}', ',', '+', '-', '*', '/', '^', '!', '%', "'", '$', '@', 'C', 'mod',
          'sin', 'max', 'sum', 'root', 'log', 'gcd', 'pi', 'e', 'ans', ' ', 'inf', '.', '1.2.3', '#', '&', 'deriv', 'rand', 'f', '[x]']


def token_soup(r, n):
    return ''.join(t + (' ' if r.random() < 0.5 else '') for t in (r.choice(TOKENS) for _ in range(n)))


NAMES = ['f', 'g', 'h', 'ff', 'fg', 'F', 'func', 'fun', 'p', 'pp', 'u_v', 'A', 'B', 'k', 'w', 'sinn', 'ma', 'maxx', 'ln_', 'pii', 'E', 'hh']
