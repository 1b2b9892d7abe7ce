"""Reference semantics of patterns and rewrite rules by brute force, and generators for them."""
import math, random
import ref
from ref import Node, N, V, O

PROP_INFIX = dict(ref.INFIX, **{'==': (1, 'L'), '!=': (1, 'L'), '>': (1, 'L'), '<': (1, 'L'), '>=': (1, 'L'), '<=': (1, 'L'), '||': (0, 'L')})
TYPES = {'n': 2.0, 'v': 3.0, 'o': 4.0}
PROP_CONST = {'CONST': 2.0, 'VAR': 3.0, 'OP': 4.0, 'TRUE': 1.0, 'FALSE': 0.0}
VARIADIC = ['sum', 'prod', 'max', 'min', 'avg']


def is_list(n):
    return n.k == 'v' and n.x[0] == '['


# ------------------------------------------------------------------ matching
def match_run(p, run, env):
    """All extensions of env (name -> tuple of trees) under which pattern p stands for the run of trees"""
    if p.k == 'v':
        if p.x in env:
            if env[p.x] == run:
                yield env
        elif is_list(p) or len(run) == 1:
            yield dict(env, **{p.x: run})
    elif len(run) == 1:
        t = run[0]
        if p.k == 'n':
            if t.k == 'n' and t.x == p.x:
                yield env
        elif t.k == 'o' and t.x == p.x:
            yield from match_children(p.c, t.c, env)


def match_children(ps, ts, env):
    if not ps:
        if not ts:
            yield env
        return
    lens = range(len(ts) + 1) if is_list(ps[0]) else (1,) if ts else ()
    for k in lens:
        for e in match_run(ps[0], tuple(ts[:k]), env):
            yield from match_children(ps[1:], ts[k:], e)


class Undetermined(Exception):
    """The documentation does not determine whether a condition holds (infinite or undefined numbers)"""


def holds(cond, env):
    """Truth of a condition; one that can not be evaluated does not hold"""
    t = instantiate(cond, env)
    try:
        return prop_eval(reduce_equal(reduce_types(t))) != 0
    except ref.Fail:
        return False
    except (ref.Unknown, OverflowError):
        raise Undetermined()


def reduce_types(t):
    if t.k != 'o':
        return t
    c = [reduce_types(x) for x in t.c]
    if t.x == 'ftype':
        return N(TYPES[c[0].k])
    return Node('o', t.x, c)


def reduce_equal(t):
    """Comparisons of terms, innermost first"""
    if t.k != 'o':
        return t
    c = [reduce_equal(x) for x in t.c]
    if t.x == 'fequal':
        return N(float(c[0] == c[1]))
    return Node('o', t.x, c)


def prop_eval(t):
    if t.k == 'n':
        return t.x
    if t.k == 'v':
        raise ref.Fail('variable')
    if t.x[1:] in PROP_CONST and t.x[0] == 'f':
        return PROP_CONST[t.x[1:]]
    a = [prop_eval(x) for x in t.c]
    if t.x in ('i==', 'i!=', 'i<', 'i>', 'i<=', 'i>='):
        if abs(a[0] - a[1]) <= 1e-12 * max(abs(a[0]), abs(a[1])) and any(n.k == 'n' and n.x * 1024 != math.floor(n.x * 1024) for n in t.nodes()) and any(c.k == 'o' for c in t.c):
            raise Undetermined()  # depends on rounding
        return float({'==': a[0] == a[1], '!=': a[0] != a[1], '<': a[0] < a[1], '>': a[0] > a[1], '<=': a[0] <= a[1], '>=': a[0] >= a[1]}[t.x[1:]])
    if t.x == 'i||':
        return float(a[0] != 0 or a[1] != 0)
    if t.x == 'p!':
        return float(a[0] == 0)
    v = ref.apply_op(t.x, a)
    if v != v or abs(v) > 1e12:
        raise Undetermined()
    return v


def instantiate(t, env):
    """Tree with plain variables replaced and list variables spliced"""
    if t.k == 'v':
        if t.x in env:
            run = env[t.x]
            if len(run) != 1:
                raise ValueError('list at root')
            return run[0]
        return t
    if t.k == 'n':
        return t
    c = []
    for x in t.c:
        if x.k == 'v' and x.x in env:
            c.extend(env[x.x])
        else:
            c.append(instantiate(x, env))
    return Node('o', t.x, c)


def matchings(pattern, conds, tree):
    return [e for e in match_run(pattern, (tree,), {}) if all(holds(c, e) for c in conds)]


def positions(tree):
    """(preorder index, subtree)"""
    return list(enumerate(tree.nodes()))


def replace_at(tree, index, by):
    """tree with the subtree at the preorder index replaced"""
    def go(n, i):
        if i == index:
            return by, i + n.size()
        if n.k != 'o':
            return n, i + 1
        c, i2 = [], i + 1
        for x in n.c:
            y, i2 = go(x, i2)
            c.append(y)
        return Node('o', n.x, c, n.t), i2
    return go(tree, 0)[0]


class Rule:
    def __init__(self, left, right, conds=()):
        self.left, self.right, self.conds = left, right, list(conds)

    def text(self):
        w = ' WHERE ' + ' ; '.join(map(show, self.conds)) if self.conds else ''
        return show(self.left) + ' -> ' + show(self.right) + w

    def successors(self, tree):
        """Possible results of one application, None if it does not apply"""
        for i, s in positions(tree):
            ms = matchings(self.left, self.conds, s)
            if ms:
                return [replace_at(tree, i, instantiate(self.right, m)) for m in ms]
        return None


def show(n):
    """Text of pattern, right-hand side or condition, fully bracketed"""
    if n.k == 'o' and n.x[0] == 'f':
        if not n.c and (n.x[1:] in PROP_CONST or ref.FUNCS.get(n.x[1:], 1) == 0):
            return n.x[1:]
        return n.x[1:] + '(' + ','.join(map(show, n.c)) + ')'
    if n.k != 'o':
        return ref.show(n)
    a = ['(' + show(c) + ')' if c.k == 'o' and c.x[0] != 'f' else show(c) for c in n.c]
    if n.x[0] == 'p':
        return n.x[1:] + a[0]
    if n.x[0] == 'q':
        return a[0] + n.x[1:]
    return a[0] + ' ' + n.x[1:] + ' ' + a[1]


# ------------------------------------------------------------------ generators
SHORT = ('a', 'b', 'cx', 'd')
LONG = ('variable_a', 'variable_', 'variable_ab', 'variable')


class Gen:
    def __init__(self, r, leaves=('x', 'y', 'u'), consts=(0, 1, 2, 3)):
        self.r, self.leaves, self.consts = r, leaves, consts

    def leaf(self):
        r = self.r
        if r.random() < 0.5:
            return N(r.choice(self.consts))
        # now and then a variable named like one of the pattern
        return V(r.choice(self.leaves if r.random() < 0.85 else getattr(self, 'plain', None) or self.leaves))

    def tree(self, size):
        """Small trees over few symbols, so that repetitions are frequent"""
        r = self.r
        if size <= 1 or r.random() < 0.1:
            return self.leaf()
        k = r.random()
        if k < 0.5:
            n = r.choice((0, 1, 1, 2, 2, 3, 3, 4, 5))
            return Node('o', 'f' + r.choice(VARIADIC[:3]), [self.tree((size - 1) // max(1, n)) for _ in range(n)])
        if k < 0.8:
            h = r.randint(1, size - 1)
            return Node('o', 'i' + r.choice('+-*^'), [self.tree(h), self.tree(size - h)])
        return Node('o', r.choice(['p-', 'p+', 'fsin', 'fcos', 'q!']), [self.tree(size - 1)])

    def pattern(self, size, lists=2, plain=SHORT):
        """Pattern over few variables (so that they repeat); lists: how many list variables may still be introduced"""
        r = self.r
        self.lists = ['[l%s]' % chr(97 + i) for i in range(r.randint(0, lists))]
        if plain is SHORT and r.random() < 0.1:
            plain = LONG
        self.plain = list(plain[:r.randint(1, len(plain))])
        self.budget = 5
        return self.pat(size)

    def pat(self, size):
        r = self.r
        if size <= 1 or r.random() < 0.12:
            return V(r.choice(self.plain)) if r.random() < 0.75 else N(r.choice(self.consts))
        k = r.random()
        if k < 0.6:
            n = r.choice((0, 1, 2, 2, 3, 3, 4, 5))
            c = []
            for _ in range(n):
                if self.lists and self.budget > 0 and r.random() < 0.5:
                    self.budget -= 1
                    c.append(V(r.choice(self.lists)))
                else:
                    c.append(self.pat((size - 1) // max(1, n)))
            return Node('o', 'f' + r.choice(VARIADIC[:3]), c)
        if k < 0.85:
            h = r.randint(1, size - 1)
            return Node('o', 'i' + r.choice('+-*^'), [self.pat(h), self.pat(size - h)])
        return Node('o', r.choice(['p-', 'p+', 'fsin', 'fcos', 'q!']), [self.pat(size - 1)])

    def env(self, p, share=0.5):
        """Random meaning of the variables of a pattern, often with equal parts"""
        r = self.r
        pool = [self.tree(r.choice((1, 1, 1, 2, 3))) for _ in range(3)]
        pick = lambda: r.choice(pool) if r.random() < share else self.tree(r.choice((1, 1, 2, 3)))
        return {v: tuple(pick() for _ in range(r.choice((0, 0, 1, 1, 2, 3)))) if v[0] == '[' else (pick(),) for v in p.vars()}

    def near(self, p):
        """A tree that is likely to match, or nearly so"""
        r = self.r
        env = self.env(p)
        try:
            t = instantiate(p, env)
        except ValueError:
            t = self.tree(3)
        k = r.random()
        for _ in range(0 if k < 0.5 else 1 if k < 0.85 else 2):
            t = self.damage(t)
        return t

    def damage(self, t):
        r = self.r
        i, s = r.choice(positions(t))
        k = r.randint(0, 4)
        if s.k == 'n' and k < 3:
            # almost the same number
            v = s.x
            return replace_at(t, i, N(r.choice((math.nextafter(v, math.inf), math.nextafter(v, -math.inf), v * (1 + 1e-12), v * (1 + 1e-9) + 1e-11, v + 1e-7, v * (1 - 1e-6), -v or 1.0))))
        if s.k == 'o' and s.x in ('fsum', 'fprod', 'fmax') and k < 3:
            c = list(s.c)
            if k == 0 and c:
                del c[r.randrange(len(c))]
            elif k == 1:
                c.insert(r.randint(0, len(c)), r.choice(c) if c and r.random() < 0.6 else self.leaf())
            else:
                r.shuffle(c)
            return replace_at(t, i, Node('o', s.x, c))
        if s.k == 'o' and k == 3 and s.x[0] == 'i':
            return replace_at(t, i, Node('o', s.x, (s.c[1], s.c[0])))
        return replace_at(t, i, self.leaf() if r.random() < 0.6 else self.tree(2))

    def embed(self, t, size=4):
        """The tree somewhere inside another one"""
        if self.r.random() < 0.15:
            # below an operator with many operands
            n = self.r.choice((5, 8, 9, 12, 17, 20, 24))
            c = [self.leaf() for _ in range(n)]
            c[self.r.choice((-1, -1, self.r.randrange(n)))] = t
            return Node('o', 'f' + self.r.choice(VARIADIC[:3]), c)
        if self.r.random() < 0.1:
            # far below the root
            for _ in range(self.r.choice((6, 12, 20))):
                t = Node('o', *self.r.choice([('p-', [t]), ('fsin', [t]), ('i+', [t, self.leaf()]), ('i-', [self.leaf(), t]), ('fmax', [t])]))
            return t
        c = self.tree(size)
        return replace_at(c, self.r.choice(positions(c))[0], t)

    def cond(self, vs, depth=1):
        r = self.r
        plain = [v for v in vs if v[0] != '[']
        lists = [v for v in vs if v[0] == '[']

        def num():
            k = r.random()
            if k < 0.4 and plain:
                return V(r.choice(plain))
            if k < 0.5 and lists:
                return Node('o', r.choice(['fsum', 'fprod', 'fmax']), [V(r.choice(lists))] + ([N(1)] if r.random() < 0.3 else []))
            if k < 0.6 and plain:
                return Node('o', r.choice(['i+', 'i*', 'imod']), [V(r.choice(plain)), N(r.randint(1, 3))])
            if k < 0.7:
                return Node('o', 'p-', [N(r.randint(0, 3))])
            return N(r.choice((0, 1, 2, 3, 0.5)))
        if r.random() < 0.04:
            return num()
        k = r.random()
        if k < 0.3 and plain:
            return Node('o', r.choice(['i==', 'i!=']), [Node('o', 'ftype', [V(r.choice(plain))]), Node('o', r.choice(['fCONST', 'fVAR', 'fOP']), ())])
        if k < 0.5 and plain:
            a, b = V(r.choice(plain)), V(r.choice(plain))
            if r.random() < 0.3:
                b = Node('o', 'p-', [b])
            t = Node('o', 'fequal', [a, b])
            if r.random() < 0.2:
                c = r.choice((N(1), N(0), V(r.choice(plain)), Node('o', 'fequal', [V(r.choice(plain)), b])))
                t = Node('o', 'fequal', r.choice(([t, c], [c, t])))
            return t
        if k < 0.8 or depth == 0:
            return Node('o', r.choice(['i==', 'i!=', 'i<', 'i>', 'i<=', 'i>=']), [num(), num()])
        if k < 0.88:
            # any number but 0 counts as true
            return Node('o', 'i||', [num() if r.random() < 0.3 else self.cond(vs, depth - 1) for _ in range(2)])
        if k < 0.95:
            return Node('o', 'p!', [num() if r.random() < 0.3 else self.cond(vs, depth - 1)])
        return Node('o', r.choice(['fTRUE', 'fFALSE']), ())

    def conds(self, p):
        r = self.r
        return [self.cond(p.vars()) for _ in range(r.choice((0, 0, 0, 1, 1, 2, 3)))]

    def right(self, vs, size):
        """Right-hand side over the given variables (lists only within operators of any arity)"""
        r = self.r
        plain = [v for v in vs if v[0] != '[']
        lists = [v for v in vs if v[0] == '[']
        if size <= 1 or r.random() < 0.15:
            return V(r.choice(plain)) if plain and r.random() < 0.8 else self.leaf2()
        k = r.random()
        if k < 0.6:
            n = r.choice((0, 1, 2, 2, 3, 4))
            return Node('o', 'f' + r.choice(VARIADIC[:3]), [V(r.choice(lists)) if lists and r.random() < 0.5 else self.right(vs, (size - 1) // max(1, n)) for _ in range(n)])
        if k < 0.85:
            h = r.randint(1, size - 1)
            return Node('o', 'i' + r.choice('+-*^'), [self.right(vs, h), self.right(vs, size - h)])
        return Node('o', r.choice(['p-', 'p+', 'fsin', 'fcos', 'q!']), [self.right(vs, size - 1)])

    def leaf2(self):
        return N(self.r.choice(self.consts))
