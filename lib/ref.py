"""Independent reference for the expression language: tokens, grammar, values, sessions.
Written from the documentation (README) and the property texts, not from the program's algorithms:
precedence climbing instead of a shunting-yard, substitution instead of rewriting."""
import ctypes, math, random

INF = float('inf')
NAN = float('nan')

# infix: name -> (precedence, associativity), prefix/postfix: name -> precedence, function: name -> arity (None = any)
INFIX = {'+': (2, 'L'), '-': (2, 'L'), '*': (4, 'L'), '/': (3, 'L'), '^': (5, 'R'), 'C': (1, 'L'), 'mod': (1, 'L')}
PREFIX = {'$': 0, '@': 8, '+': 7, '-': 7}
POSTFIX = {"'": 7, '!': 6, '%': 6}
FUNCS = {'deriv': 2, 'exp': 1, 'root': 2, 'sqrt': 1, 'log': 2, 'ln': 1, 'ld': 1, 'lg': 1, 'sin': 1, 'cos': 1, 'tan': 1,
         'asin': 1, 'acos': 1, 'atan': 1, 'sinh': 1, 'cosh': 1, 'tanh': 1, 'asinh': 1, 'acosh': 1, 'atanh': 1,
         'max': None, 'min': None, 'abs': 1, 'ceil': 1, 'floor': 1, 'round': 1, 'trunc': 1, 'frac': 1, 'sgn': 1,
         'sum': None, 'prod': None, 'avg': None, 'gcd': 2, 'lcm': 2, 'rand': 2, 'fib': 1, 'gamma': 1, 'var': None,
         'pi': 0, 'e': 0, 'phi': 0, 'clight': 0, 'csound': 0, 'ans': 0}
CONSTS = {'pi': 3.14159265359, 'e': 2.71828182846, 'phi': 1.61803398874, 'clight': 299792458.0, 'csound': 343.2}
SYMBOLS = ['$', '@', "'", '+', '-', '*', '/', '^', '!', '%']
LETTERS = set('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_[]')
DIGITS = set('0123456789.')
OPEN, CLOSE = ('(', '{'), (')', '}')


class Reject(Exception):
    """Input is not in the language. token: index of token at which that becomes certain"""

    def __init__(self, kind, token):
        Exception.__init__(self, kind)
        self.kind = kind
        self.token = token


class Fail(Exception):
    """Evaluation not possible"""

    def __init__(self, kind, node=None):
        Exception.__init__(self, kind)
        self.kind = kind
        self.node = node


# ------------------------------------------------------------------ tokens
def cls(c):
    return 'L' if c in LETTERS else 'D' if c in DIGITS else 'O'


def tokenize(s, symbols=SYMBOLS):
    toks, i = [], 0
    while i < len(s):
        k = cls(s[i])
        j = i + 1
        if k == 'O':
            cands = [y for y in symbols if s.startswith(y, i)]
            if cands:
                j = i + max(map(len, cands))
        else:
            while j < len(s) and cls(s[j]) == k:
                j += 1
        toks.append(s[i:j])
        i = j
    return toks


def number(tok):
    """Value of a number literal or None"""
    if all(c in DIGITS for c in tok):
        if tok.count('.') > 1 or tok == '.':
            return None
        return float(tok)
    t = tok.lower()
    if t in ('inf', 'infinity'):
        return INF
    if t == 'nan':
        return NAN
    return None


# ------------------------------------------------------------------ trees: ('n', value) | ('v', name) | ('o', op, children)
# op: 'i+' infix, 'p-' prefix, 'q!' postfix, 'fsin' function. A fourth/third extra element holds the token index.
class Node:
    __slots__ = ('k', 'x', 'c', 't')

    def __init__(self, k, x, c=(), t=0):
        self.k, self.x, self.c, self.t = k, x, tuple(c), t

    def key(self):
        return (self.k, repr(self.x + 0.0) if self.k == 'n' else self.x, tuple(c.key() for c in self.c))

    def __eq__(self, o):
        return isinstance(o, Node) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return sexpr(self)

    def vars(self, acc=None):
        """Distinct variable names in order of first occurrence"""
        acc = [] if acc is None else acc
        if self.k == 'v' and self.x not in acc:
            acc.append(self.x)
        for c in self.c:
            c.vars(acc)
        return acc

    def size(self):
        return 1 + sum(c.size() for c in self.c)

    def depth(self):
        return 1 + max([c.depth() for c in self.c], default=0)

    def ops(self, acc=None):
        acc = set() if acc is None else acc
        if self.k == 'o':
            acc.add(self.x)
        for c in self.c:
            c.ops(acc)
        return acc

    def nodes(self):
        yield self
        for c in self.c:
            yield from c.nodes()


def N(v, t=0):
    return Node('n', float(v), (), t)


def V(n, t=0):
    return Node('v', n, (), t)


def O(op, *c, t=0):
    return Node('o', op, c, t)


def sexpr(n):
    if n.k == 'n':
        return '%.17g' % n.x
    if n.k == 'v':
        return n.x
    return '(' + ' '.join([n.x] + [sexpr(c) for c in n.c]) + ')'


class Parser:
    def __init__(self, toks, funcs, infix=None, prefix=None, postfix=None, glue=True):
        self.all = toks
        self.idx = [i for i, t in enumerate(toks) if not t.startswith(' ')]
        self.toks = [toks[i] for i in self.idx]
        self.p = 0
        self.funcs = funcs
        self.infix = INFIX if infix is None else infix
        self.prefix = PREFIX if prefix is None else prefix
        self.postfix = POSTFIX if postfix is None else postfix
        self.glue = glue

    def pos(self, p=None):
        p = self.p if p is None else p
        return self.idx[p] if p < len(self.idx) else len(self.all)

    def peek(self):
        return self.toks[self.p] if self.p < len(self.toks) else None

    def parse(self):
        n = self.expr(-1, 'top', 0)
        t = self.peek()
        if t in CLOSE:
            raise Reject('closing', self.pos())
        if t == ',':
            raise Reject('delimiter', self.pos())
        if t is not None:
            raise Reject('expected infix', self.pos())
        return n

    # binds: precedence of operator whose right operand this is; an operator q is taken if it binds tighter
    def takes(self, prec, assoc, binds):
        return prec > binds or (prec == binds and assoc == 'R')

    def expr(self, binds, where, depth):
        left = self.operand(where, depth)
        while True:
            t = self.peek()
            if t is None or t in CLOSE or t == ',':
                return left
            if t in self.infix:
                prec, assoc = self.infix[t]
                if not self.takes(prec, assoc, binds):
                    return left
                at = self.pos()
                self.p += 1
                right = self.expr(prec, 'operand', depth)
                left = Node('o', 'i' + t, (left, right), at)
            elif t in self.postfix:
                if not self.takes(self.postfix[t], 'L', binds):
                    return left
                left = Node('o', 'q' + t, (left,), self.pos())
                self.p += 1
            else:
                if not self.glue:
                    raise Reject('expected infix', self.pos())
                prec, assoc = self.infix['*']
                if not self.takes(prec, assoc, binds):
                    return left
                at = self.pos()
                right = self.expr(prec, 'operand', depth)
                left = Node('o', 'i*', (left, right), at)

    def operand(self, where, depth):
        t = self.peek()
        at = self.pos()
        if t is None:
            raise Reject('end', at)
        if t in OPEN:
            self.p += 1
            n = self.expr(-1, 'paren', depth + 1)
            t = self.peek()
            if t is None:
                raise Reject('open', self.pos())
            if t == ',':
                raise Reject('delimiter', self.pos())
            self.p += 1
            return n
        if t in CLOSE:
            raise Reject('closing', at)
        if t == ',':
            raise Reject('delimiter', at)
        if t in self.funcs:
            arity = self.funcs[t]
            self.p += 1
            if arity == 0:
                return Node('o', 'f' + t, (), at)
            if self.peek() not in OPEN:
                raise Reject('param list', self.pos())
            self.p += 1
            args = []
            if self.peek() in CLOSE:
                self.p += 1
            else:
                while True:
                    args.append(self.expr(-1, 'args', depth + 1))
                    u = self.peek()
                    if u is None:
                        raise Reject('open', self.pos())
                    self.p += 1
                    if u in CLOSE:
                        break
            if arity is not None and len(args) != arity:
                raise Reject('arity', at)
            return Node('o', 'f' + t, args, at)
        if t in self.prefix:
            self.p += 1
            n = self.expr(self.prefix[t], 'operand', depth)
            return Node('o', 'p' + t, (n,), at)
        v = number(t)
        if v is not None:
            self.p += 1
            return Node('n', v, (), at)
        if t in self.infix or t in self.postfix:
            raise Reject('infix', at)
        if t[0] not in LETTERS:
            raise Reject('character', at)
        self.p += 1
        return Node('v', t, (), at)


def parse(s, funcs=FUNCS, **kw):
    return Parser(tokenize(s), funcs, **kw).parse()


# ------------------------------------------------------------------ values
libm = ctypes.CDLL('libm.so.6')
for _f in 'exp log log2 log10 sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh ceil floor round trunc tgamma sqrt'.split():
    getattr(libm, _f).restype = ctypes.c_double
    getattr(libm, _f).argtypes = [ctypes.c_double]
for _f in 'pow fmod'.split():
    getattr(libm, _f).restype = ctypes.c_double
    getattr(libm, _f).argtypes = [ctypes.c_double, ctypes.c_double]
cpow, cfmod = libm.pow, libm.fmod


def cdiv(a, b):
    if b == 0:
        if a == 0 or a != a:
            return NAN
        return math.copysign(INF, a) * math.copysign(1, b)
    return a / b


def igcd(a, b):
    a, b = abs(libm.trunc(a)), abs(libm.trunc(b))
    if a != a or b != b or a == INF or b == INF:
        return None  # undetermined
    return float(math.gcd(int(a), int(b)))


def binom(n, k):
    n, k = abs(libm.trunc(n)), abs(libm.trunc(k))
    if n != n or k != k or n == INF or k == INF:
        return None
    if k > n:
        return 0.0
    if n > 1e15 and min(k, n - k) > 400:
        return INF
    k = min(k, n - k)
    if k > 5000:
        return INF
    r = math.comb(int(n), int(k))
    try:
        return float(r)
    except OverflowError:
        return INF


def fact(x):
    if x != x:
        return None
    if x == -INF:
        return None
    t = libm.trunc(x)
    if t > 170:
        return INF
    return float(math.factorial(int(t))) if t > 1 else 1.0


def fib(x):
    if x != x:
        return NAN
    t = libm.trunc(x)
    if abs(t) > 1500:
        if t < 0 and cfmod(t, 2) == 0:
            return -INF
        return INF if not (abs(t) == INF and t < 0) else None
    n = int(abs(t))
    a, b_ = 0, 1
    for _ in range(n):
        a, b_ = b_, a + b_
    try:
        r = float(a)
    except OverflowError:
        r = INF
    return -r if t < 0 and int(t) % 2 == 0 else r


class Unknown(Exception):
    """The documentation does not determine the result"""


FUN1 = {'exp': 'exp', 'ln': 'log', 'ld': 'log2', 'lg': 'log10', 'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'asin': 'asin',
        'acos': 'acos', 'atan': 'atan', 'sinh': 'sinh', 'cosh': 'cosh', 'tanh': 'tanh', 'asinh': 'asinh',
        'acosh': 'acosh', 'atanh': 'atanh', 'ceil': 'ceil', 'floor': 'floor', 'round': 'round', 'trunc': 'trunc',
        'gamma': 'tgamma'}


def apply_op(op, a, hist=None):
    """Value of operator applied to values. hist: results, oldest first"""
    k, name = op[0], op[1:]
    if k == 'p':
        if name in ('$', '+'):
            return a[0]
        if name == '-':
            return -a[0]
        if name == '@':
            if hist is None:
                raise Unknown()
            if a[0] != a[0] or a[0] <= -1 or a[0] >= 2 ** 31:
                raise Fail('history')
            i = int(a[0])
            if i >= len(hist):
                raise Fail('history')
            if hist[-1 - i] is None:
                raise Unknown()
            return hist[-1 - i]
    if k == 'q':
        if name == '!':
            r = fact(a[0])
            if r is None:
                raise Unknown()
            return r
        if name == '%':
            return a[0] / 100
        if name == "'":
            raise Fail('deriv')
    if k == 'i':
        x, y = a
        if name == '+':
            return x + y
        if name == '-':
            return x - y
        if name == '*':
            return x * y
        if name == '/':
            if y == 0:
                raise Fail('zero')
            return cdiv(x, y)
        if name == '^':
            if x == 0 and y <= 0:
                raise Fail('zero')
            if x < 0 and y != libm.trunc(y):
                raise Fail('complex')
            return cpow(x, y)
        if name == 'C':
            r = binom(x, y)
            if r is None:
                raise Unknown()
            return r
        if name == 'mod':
            return cfmod(x, y)
    if k == 'f':
        if name in FUN1:
            return getattr(libm, FUN1[name])(a[0])
        if name in CONSTS:
            return CONSTS[name]
        if name == 'root':
            if not a[0] >= 0:
                raise Fail('complex')
            return cpow(a[0], cdiv(1.0, a[1]))
        if name == 'sqrt':
            if not a[0] >= 0:
                raise Fail('complex')
            return libm.sqrt(a[0])
        if name == 'log':
            return cdiv(libm.log(a[0]), libm.log(a[1]))
        if name == 'abs':
            return abs(a[0])
        if name == 'frac':
            return a[0] - libm.floor(a[0])
        if name == 'sgn':
            if a[0] != a[0]:
                raise Unknown()
            return float((a[0] > 0) - (a[0] < 0))
        if name in ('max', 'min'):
            if any(x != x for x in a):
                raise Unknown()
            return (max(a) if name == 'max' else min(a)) if a else (-INF if name == 'max' else INF)
        if name == 'sum':
            r = 0.0
            for x in a:
                r += x
            return r
        if name == 'prod':
            r = 1.0
            for x in a:
                r *= x
            return r
        if name == 'avg':
            if not a:
                return 0.0
            r = 0.0
            for x in a:
                r += x
            return r / len(a)
        if name == 'var':
            if not a:
                return NAN
            u = 0.0
            for x in a:
                u += x
            u /= len(a)
            r = 0.0
            for x in a:
                r += cpow(x - u, 2.0)
            return r / len(a)
        if name == 'gcd':
            r = igcd(*a)
            if r is None:
                raise Unknown()
            return r
        if name == 'lcm':
            r = igcd(*a)
            if r is None:
                raise Unknown()
            x, y = abs(libm.trunc(a[0])), abs(libm.trunc(a[1]))
            if r == 0:
                return NAN
            return x * y / r
        if name == 'fib':
            r = fib(a[0])
            if r is None:
                raise Unknown()
            return r
        if name == 'ans':
            if hist is None:
                raise Unknown()
            if not hist:
                raise Fail('history')
            if hist[-1] is None:
                raise Unknown()
            return hist[-1]
        if name == 'rand':
            raise Unknown()
        if name == 'deriv':
            raise Fail('deriv')
    raise Unknown()


ARITH = {'i+', 'i-', 'i*', 'i/', 'p-', 'p+'}  # their result is exact where it is a short binary fraction
EXACT = {'fgcd', 'flcm', 'imod', 'iC', 'q!', 'ffib', 'fsin', 'fcos', 'ftan'}


def evaluate(n, env=None, hist=None, jitter=None):
    """jitter: function perturbing non-integral intermediate values, to find out how well-conditioned the value is"""
    if n.k == 'n':
        v = n.x
    elif n.k == 'v':
        if env is None or n.x not in env:
            raise Fail('variable', n)
        v = env[n.x]
    else:
        a = [evaluate(c, env, hist, jitter) for c in n.c]
        if jitter is not None and n.x in EXACT and any(abs(v) > 4503599627370496.0 and c.k != 'n' for v, c in zip(a, n.c)):
            raise Unknown()  # depends on the last digits of an inexact number
        try:
            v = apply_op(n.x, a, hist)
        except Fail as f:
            if f.node is None:
                f.node = n
            raise
    if jitter is not None and v == v and abs(v) != INF and (v != math.floor(v) or abs(v) > 4503599627370496.0) and \
            not ((n.k == 'n' or n.x in ARITH) and abs(v) < 1 << 30 and v * 1024 == math.floor(v * 1024)):
        v = jitter(v)
    return v


def close(a, b, tol=1e-9, absolute=1e-300):
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    if abs(a) == INF or abs(b) == INF:
        return False
    return abs(a - b) <= tol * max(abs(a), abs(b)) + absolute


UNSTABLE = ('unstable',)


def stable_eval(n, env=None, hist=None, rel=1e-13, rounds=7, tol=1e-9, seed=0):
    """('val', v) | ('fail', kind) | ('unknown',) | ('unstable',)"""
    rng = random.Random(seed)

    def one(jit):
        try:
            return ('val', evaluate(n, env, hist, jit))
        except Fail as f:
            return ('fail', f.kind)
        except Unknown:
            return ('unknown',)
        except OverflowError:
            return ('unknown',)
    base = one(None)
    for _ in range(rounds):
        r = one(lambda v: v * (1 + rel * rng.uniform(-3, 3)))
        if r[0] != base[0]:
            return UNSTABLE
        if r[0] == 'val' and not close(r[1], base[1], tol):
            return UNSTABLE
        if r[0] == 'fail' and r[1] != base[1]:
            return UNSTABLE
    return base


# ------------------------------------------------------------------ substitution, folding
def subst(n, m):
    if n.k == 'v':
        return m.get(n.x, n)
    if n.k == 'o':
        return Node('o', n.x, [subst(c, m) for c in n.c], n.t)
    return n


def expand(n, defs):
    """Replaces calls of user-defined functions; defs: name -> (params, body without calls)"""
    if n.k != 'o':
        return n
    c = [expand(x, defs) for x in n.c]
    if n.x[0] == 'f' and n.x[1:] in defs:
        params, body = defs[n.x[1:]]
        return subst(body, dict(zip(params, c)))
    return Node('o', n.x, c, n.t)


def fold_constants(n, hist=None):
    """Every maximal subtree without variables becomes its value"""
    if not n.vars():
        return Node('n', evaluate(n, None, hist), (), n.t)
    if n.k == 'o':
        return Node('o', n.x, [fold_constants(c, hist) for c in n.c], n.t)
    return n


def norm_neg(n):
    """negated literals as literals, for structural comparison"""
    if n.k == 'o':
        c = [norm_neg(x) for x in n.c]
        if n.x == 'p-' and c[0].k == 'n':
            return Node('n', -c[0].x)
        return Node('o', n.x, c, n.t)
    return n


def same(a, b, tol=1e-9):
    """Structural equality, constants up to tol"""
    if a.k != b.k:
        return False
    if a.k == 'n':
        return close(a.x, b.x, tol)
    if a.x != b.x or len(a.c) != len(b.c):
        return False
    return all(same(x, y, tol) for x, y in zip(a.c, b.c))


# ------------------------------------------------------------------ fully parenthesised / minimal printing of reference trees
def show(n, rng=None):
    """Text of a tree with explicit brackets everywhere they could matter"""
    if n.k == 'n':
        if n.x != n.x:
            return 'nan'
        if n.x == INF:
            return 'inf'
        if n.x < 0 or (n.x == 0 and math.copysign(1, n.x) < 0):
            return '(-%s)' % numtext(-n.x)
        return numtext(n.x)
    if n.k == 'v':
        return n.x
    k, name = n.x[0], n.x[1:]
    if k == 'f':
        if not n.c and FUNCS.get(name, 1) == 0:
            return name
        return name + '(' + ', '.join(show(c) for c in n.c) + ')'
    a = ['(' + show(c) + ')' if c.k == 'o' and not (c.x[0] == 'f') else show(c) for c in n.c]
    if k == 'p':
        return name + a[0]
    if k == 'q':
        return a[0] + name
    return a[0] + ' ' + name + ' ' + a[1]


def numtext(v):
    """Literal text denoting exactly v (no exponent notation in the language)"""
    if v != v or v in (INF, -INF):
        return repr(v)
    if v == math.floor(v) and abs(v) < 1e17:
        return '%d' % v
    r = repr(v)
    if 'e' in r or 'E' in r:
        from decimal import Decimal
        return format(Decimal(v), 'f')
    return r
