"""Typed generator of symbolic expressions, and numeric comparison of a printed expression with its input."""
import math, random
import ref
from ref import Node, N, V, O

INF = float('inf')


class Typed:
    """pos(): value positive for every positive assignment by construction; real(): any value"""

    def __init__(self, rng, vars, trig=('sin', 'cos', 'tan', 'atan'), other=('abs', 'exp', 'ln', 'sqrt', 'root'), nary=('max', 'min', 'sum', 'prod', 'avg'),
                 misc=(), consts=('pi', 'e'), ints=0.8, big=False):
        self.r, self.vars = rng, vars
        self.trig, self.other, self.nary, self.misc, self.consts, self.ints, self.big = trig, other, nary, misc, consts, ints, big

    def lit(self, zero=True):
        r = self.r
        if r.random() < self.ints:
            return N(r.randint(0 if zero else 1, 5))
        return N(r.choice((0.5, 0.25, 1.5, 2.5, 0.1, 10, 7, 12, 0.75)))

    def pos(self, n):
        r = self.r
        if n <= 1:
            k = r.random()
            if k < 0.7 and self.vars:
                return V(r.choice(self.vars))
            if k < 0.76 and self.consts:
                return O('f' + r.choice(self.consts))
            return self.lit(False)
        k = r.random()
        h = r.randint(1, n - 1)
        if k < 0.22:
            return O('i+', self.pos(h), self.pos(n - h))
        if k < 0.44:
            return O('i*', self.pos(h), self.pos(n - h))
        if k < 0.58:
            return O('i/', self.pos(h), self.pos(n - h))
        if k < 0.76:
            return O('i^', self.pos(max(1, n - 1 if r.random() < 0.7 else h)), self.exponent(1 if r.random() < 0.75 else n - h))
        if k < 0.82 and 'sqrt' in self.other:
            return O('fsqrt', self.pos(n - 1))
        if k < 0.86 and 'exp' in self.other:
            return O('fexp', self.real(n - 1))
        if k < 0.88 and 'root' in self.other:
            return O('froot', self.pos(n - 1), N(r.randint(1, 4)))
        if k < 0.9:
            return O('q%', self.pos(n - 1))
        if k < 0.94 and self.nary:
            m = r.randint(1, 3)
            return O('f' + r.choice(self.nary), *[self.pos(max(1, n // m)) for _ in range(m)])
        if k < 0.96:
            return O(r.choice(('p+', 'p$')), self.pos(n - 1))
        return O('i*', self.pos(h), self.pos(n - h))

    def exponent(self, n):
        r = self.r
        k = r.random()
        if n <= 1 or k < 0.6:
            c = r.choice((N(2), N(2), N(3), N(0), N(1), N(0.5), O('p-', N(1)), O('p-', N(2)), O('p-', N(0.5)), O('i/', N(1), N(r.randint(2, 4))), self.pos(1), O('p-', self.pos(1))))
            return c
        return self.real(n)

    def real(self, n):
        r = self.r
        if n <= 1:
            k = r.random()
            if k < 0.68 and self.vars:
                return V(r.choice(self.vars))
            if k < 0.72 and self.consts:
                return O('f' + r.choice(self.consts))
            if k < 0.78:
                return O('p-', self.lit())
            return self.lit()
        k = r.random()
        h = r.randint(1, n - 1)
        if k < 0.17:
            return O('i+', self.real(h), self.real(n - h))
        if k < 0.34:
            return O('i-', self.real(h), self.real(n - h))
        if k < 0.52:
            return O('i*', self.real(h), self.real(n - h))
        if k < 0.60:
            return O('i/', self.real(h), self.real(n - h))
        if k < 0.67:
            return O('i^', self.real(n - 1), r.choice((N(2), N(3), N(0), N(1), O('p-', N(1)), O('p-', N(2)))))
        if k < 0.74:
            return O('p-', self.real(n - 1))
        if k < 0.80 and self.trig:
            return O('f' + r.choice(self.trig), self.real(n - 1))
        if k < 0.83 and 'ln' in self.other:
            return O('fln', self.pos(n - 1))
        if k < 0.85 and self.misc:
            return O('f' + r.choice(self.misc), self.real(n - 1))
        if k < 0.89 and self.nary:
            m = r.randint(1, 4)
            return O('f' + r.choice(self.nary), *[self.real(max(1, n // m)) for _ in range(m)])
        if k < 0.91 and 'log' in self.other:
            return O('flog', self.pos(n - 1), r.choice((O('fe'), N(2), N(10))))
        return self.pos(n)


def related(r, g, n):
    """Combinations of few subterms, as cancelling and collecting rules expect them"""
    terms = [g.real(r.randint(1, max(1, n // 3))) for _ in range(r.randint(1, 2))] + [V(v) for v in g.vars[:2]]
    pt = [g.pos(r.randint(1, max(1, n // 3)))] + [V(v) for v in g.vars[:2]]

    def term():
        k = r.random()
        t = r.choice(terms)
        if k < 0.25:
            return t
        if k < 0.4:
            return O('i*', N(r.randint(0, 4)), t)
        if k < 0.45:
            return O('i*', t, N(r.randint(0, 4)))
        if k < 0.55:
            return O('i*', t, r.choice(terms))
        if k < 0.63:
            return O('p-', t)
        if k < 0.78:
            return O('i^', r.choice(pt), g.exponent(1))
        if k < 0.83:
            return O('i^', t, N(2))
        if k < 0.87:
            return O('i/', t, r.choice(pt))
        if k < 0.92 and g.trig:
            f = r.choice(('sin', 'cos'))
            return O('i^', O('f' + f, t), N(2))
        if k < 0.95:
            return N(r.randint(0, 3))
        return O('i+', r.choice(terms), r.choice(terms))

    def comb(d):
        if d == 0 or r.random() < 0.2:
            return term()
        op = r.choice(('i+', 'i+', 'i-', 'i*', 'i*', 'i/'))
        b = comb(d - 1) if op != 'i/' else r.choice(pt)
        return O(op, comb(d - 1), b)
    return comb(r.randint(1, 3))


def points(rng, vars, k=6):
    res = []
    for i in range(k):
        lo, hi = ((0.3, 2.5), (0.6, 1.7), (1.1, 4.0), (0.05, 0.9), (2, 9))[i % 5]
        res.append({v: rng.uniform(lo, hi) for v in vars})
    return res


def jittered_values(t, env, rng, rel=2e-9, rounds=6):
    """Values of a printed expression whose non-integer literals may be off by their last printed digit"""
    res = []
    for i in range(rounds):
        def lit(n):
            if n.k == 'n' and i and n.x == n.x and abs(n.x) != INF and (n.x != math.floor(n.x) or abs(n.x) >= 1e9):
                return Node('n', n.x * (1 + rel * rng.uniform(-1, 1)))
            if n.k == 'o':
                return Node('o', n.x, [lit(c) for c in n.c])
            return n
        t2 = lit(t)
        jit = None if not i else lambda v: v * (1 + 1e-13 * rng.uniform(-3, 3))
        try:
            res.append(ref.evaluate(t2, env, [], jit))
        except ref.Fail as f:
            res.append('fail ' + f.kind)
        except (ref.Unknown, OverflowError):
            res.append('unknown')
    return res


def compare(t_in, t_out, env, rng, rel=1e-7):
    """'same' | 'different' | 'undefined' (input has no stable value at this point) | 'unclear' (output ill-conditioned there)"""
    want = ref.stable_eval(t_in, env, [], rounds=5, tol=1e-6, seed=rng.random())
    if want[0] == 'val' and extreme(t_in, env):
        return 'undefined', want, None
    if want[0] != 'val' or want[1] != want[1] or abs(want[1]) > 1e200 or (want[1] and abs(want[1]) < 1e-200):
        return 'undefined', want, None
    got = jittered_values(t_out, env, rng)
    if any(isinstance(g, str) or g != g or abs(g) == INF for g in got):
        if all(isinstance(g, str) and g.startswith('fail') or not isinstance(g, str) and g != g or not isinstance(g, str) and abs(g) == INF for g in got):
            return 'different', want, got[0]
        return 'unclear', want, got[0]
    lo, hi = min(got), max(got)
    scale = max(abs(want[1]), abs(lo), abs(hi))
    slack = 20 * (hi - lo) + rel * scale + 1e-7 * magnitude(t_out, env) * 1e-3 + 1e-12
    if hi - lo > 1e-3 * scale:
        return 'unclear', want, got[0]
    if lo - slack <= want[1] <= hi + slack:
        return 'same', want, got[0]
    return 'different', want, got[0]


def extreme(t, env):
    """Some intermediate value over- or underflows, or nearly so"""
    for n in t.nodes():
        if n.k == 'o':
            try:
                v = abs(ref.evaluate(n, env, []))
            except (ref.Fail, ref.Unknown, OverflowError):
                return True
            if not v < 1e60 or (v < 1e-60 and (v != 0 or n.x in ('i^', 'fexp', 'i/'))):
                return True
    return False


def magnitude(t, env):
    """Largest intermediate value: bounds the rounding error by cancellation"""
    m = 0.0
    for n in t.nodes():
        if n.k != 'o' or n.x in ('i+', 'i-', 'fsum', 'p-'):
            try:
                v = abs(ref.evaluate(n, env, []))
                if v == v and v != INF:
                    m = max(m, v)
            except (ref.Fail, ref.Unknown, OverflowError):
                pass
    return m


def loaded_rules(sets):
    """Rules of the given sets of the rule file under test (none when it is not readable: other checks report that)"""
    import rulefile, vf
    try:
        with open(vf.REPO + '/simplification.ruleset', 'rb') as f:
            all_sets = rulefile.read(f.read())
    except (OSError, rulefile.Undetermined):
        return []
    return [x for i in sets for x in all_sets[i]] if all_sets else []


def instance(r, g, rule):
    """An expression the left-hand side of the rule stands for, sums and products partly written with infix operators"""
    consts = {v for c in rule.conds for v in c.vars() if ref.show(c).replace(' ', '').startswith('type(%s)==CONST' % v)}
    env = {}
    wrt = {n.c[1].x for n in rule.left.nodes() if n.x == 'fderiv' and n.c[1].k == 'v'}
    for v in rule.left.vars():
        if v in wrt:
            env[v] = [V(r.choice(g.vars))]
        elif v[0] == '[':
            env[v] = [g.real(1) if r.random() < 0.5 else g.pos(r.randint(1, 2)) for _ in range(r.choice((0, 0, 0, 1, 1, 2)))]
        elif v in consts or v[0] == 'c' and len(v) > 1:
            env[v] = [N(r.choice((1, 2, 3, 4, 5, 0.5, 2.5)))]
        else:
            k = r.random()
            env[v] = [V(r.choice(g.vars)) if k < 0.4 else g.pos(r.randint(1, 3)) if k < 0.75 else N(r.randint(1, 4)) if k < 0.88 else g.real(2)]
    for c in rule.conds:
        if c.k == 'o' and c.x == 'i||' and r.random() < 0.9:
            c = r.choice(c.c)
        if c.k == 'o' and c.x == 'fequal' and c.c[0].k == 'v' and c.c[0].x in env:
            try:
                env[c.c[0].x] = [build(c.c[1], env)]
            except KeyError:
                pass
        if 'imod' in c.ops() and r.random() < 0.8:
            for v in c.vars():
                env[v] = [N(r.choice((2, 4, 2, 6, 3)))]
    t = infix(r, build(rule.left, env))
    k = r.random()
    if k < 0.15:
        t = O(r.choice(('i+', 'i*', 'i-')), t, g.pos(r.randint(1, 2)))
    elif k < 0.3:
        t = O(r.choice(('i+', 'i*', 'i-')), g.pos(r.randint(1, 2)), t)
    elif k < 0.4:
        t = O(r.choice(('p-', 'fsin', 'fatan')), t)
    return t


def build(t, env):
    if t.k == 'v':
        return env[t.x][0]
    if t.k == 'n':
        return t
    c = []
    for x in t.c:
        if x.k == 'v' and x.x[0] == '[':
            c.extend(env[x.x])
        else:
            c.append(build(x, env))
    return Node('o', t.x, c)


def infix(r, t):
    if t.k != 'o':
        return t
    c = [infix(r, x) for x in t.c]
    if t.x in ('fsum', 'fprod'):
        if r.random() < 0.25:
            r.shuffle(c)
        if r.random() < 0.6:
            if not c:
                return N(0 if t.x == 'fsum' else 1)
            a = c[0]
            for b in c[1:]:
                if t.x == 'fsum' and b.k == 'o' and b.x == 'p-' and r.random() < 0.5:
                    a = O('i-', a, b.c[0])
                else:
                    a = O('i+' if t.x == 'fsum' else 'i*', a, b)
            return a
    return Node('o', t.x, c)
