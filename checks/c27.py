"""C27: tree operations obey the laws of terms and substitution."""
import struct
import api, gen, ref, vf
import rewrite as rw
from api import s, u32, tree
from ref import N, V, Node

# operators whose value is exact or well-conditioned, some of them failing
OPS2 = ['i+', 'i-', 'i*', 'i/', 'i^']
OPS1 = ['p-', 'p+', 'p$', 'q%', 'fsqrt', 'fabs', 'ffloor', 'fsin']
OPSN = ['fsum', 'fprod', 'fmax', 'fmin']
OPS0 = ['fpi', 'fe']
LONG = ['variable', 'variables', 'variabl', 'variable_' + 'a' * 30, 'variable_' + 'a' * 29 + 'b', 'variable_' + 'a' * 31]


def rand_tree(r, size, vs=('x', 'y', 'z', 'xx', 'X', '_')):
    tok = r.randint(0, 60)
    if size <= 1:
        k = r.random()
        if k < 0.45 and vs:
            return V(r.choice(vs), tok)
        if k < 0.55:
            return Node('o', r.choice(OPS0 + OPSN), (), tok)
        return N(r.choice((0, 1, 2, 3, 0.5, -1, -2.5, 1e300, 10, 4711, 0.1, 16777217, 2 ** 53 - 1, 1e-300)), tok)
    k = r.random()
    if k < 0.5:
        h = r.randint(1, size - 1)
        return Node('o', r.choice(OPS2), [rand_tree(r, h, vs), rand_tree(r, size - h, vs)], tok)
    if k < 0.75:
        return Node('o', r.choice(OPS1), [rand_tree(r, size - 1, vs)], tok)
    n = r.choice((0, 1, 2, 3, 3, 5, 9, 9, 10, 14, 23, 40)) if r.random() < 0.3 else r.choice((0, 1, 2, 3, 3, 5, 9))
    return Node('o', r.choice(OPSN), [rand_tree(r, max(1, (size - 1) // max(1, n)), vs) for _ in range(n)], tok)


def tokens(t):
    return [x.t for x in t.nodes()]


def exact(a, b):
    return a == b and tokens(a) == tokens(b)


def change(r, t):
    """A tree that differs from t in exactly one place"""
    i, x = r.choice(rw.positions(t))
    for _ in range(20):
        k = r.randint(0, 5)
        y = None
        if x.k == 'n':
            y = N(x.x + r.choice((1, -1, 0.5, 1e-7, 1e-10)) if abs(x.x) < 1e6 and r.random() < 0.5 else x.x * (1 + r.choice((1e-6, 1e-9, 1e-12, 3e-16))) if x.x else 1e-300) if k else V('x')
        elif x.k == 'v':
            y = V(r.choice((x.x + 'x', x.x[:-1] or 'q', x.x.swapcase()))) if k else N(0)
        elif x.x in OPSN:
            c = list(x.c)
            if k == 0 and c:
                del c[r.randrange(len(c))]
            elif k == 1:
                c.append(c[-1] if c else N(1))
            elif k == 2:
                r.shuffle(c)
            if k < 3:
                y = Node('o', x.x, c)
            else:
                y = Node('o', r.choice(OPSN), c)
        elif x.x in OPS2:
            y = Node('o', x.x, (x.c[1], x.c[0])) if k < 3 else Node('o', r.choice(OPS2), x.c)
        elif x.x in OPS1:
            y = x.c[0] if k < 3 else Node('o', r.choice(OPS1), x.c)
        else:
            y = Node('o', r.choice(OPS0), ())
        if y is not None and y != x:
            return rw.replace_at(t, i, y)
    return None


class Tester:
    def __init__(self, ck):
        self.ck, self.todo = ck, []

    def ask(self, op, payload, what, judge):
        self.todo.append((op, payload, what, judge))

    def finish(self):
        for (op, _, what, judge), rd in zip(self.todo, api.run([(o, p) for o, p, _, _ in self.todo], per=800)):
            self.ck.case(what, what)
            self.ck.count({'C': 'copies', 'Q': 'equality', 'R': 'substitutions', 'L': 'variable_listings', 'D': 'reductions', 'F': 'searches', 'B': 'splices'}[op])
            if isinstance(rd, api.Crash):
                self.ck.violation('%s: %s' % (what, rd.what), what)
                continue
            msg = judge(rd)
            if msg is None and not rd.end:
                msg = 'answer longer than expected'
            if msg:
                self.ck.violation('%s: %s' % (what, msg), what)


def reduce(t):
    """(tree with every reducible part reduced, kind of first failure)"""
    if t.k != 'o':
        return t, None
    c, err = [], None
    for x in t.c:
        y, e = reduce(x)
        c.append(y)
        err = err or e
    if all(x.k == 'n' for x in c):
        try:
            return N(ref.apply_op(t.x, [x.x for x in c]), t.t), None
        except ref.Fail as f:
            return Node('o', t.x, c, t.t), f.kind
    return Node('o', t.x, c, t.t), err


def first_error(t, i=0):
    """(kind, preorder index) of the first node at which left-to-right evaluation stops, or None"""
    if t.k == 'v':
        return 'variable', i
    j = i + 1
    for c in t.c:
        e = first_error(c, j)
        if e:
            return e
        j += c.size()
    if t.k == 'o':
        try:
            ref.evaluate(t)
        except ref.Fail as f:
            return f.kind, i
    return None


def run():
    ck = vf.Check('C27', rule='copy, equality, substitution, variable listing, reduction, search and splicing on random trees compared with term algebra; distinct (operation, operands)', min_cases=8000)
    r = ck.rng
    T = Tester(ck)
    for _ in range(ck.n(3000, 30000)):
        t = rand_tree(r, r.choice((1, 2, 4, 8, 15, 30)))

        def judge(rd, t=t):
            if (rd.u8(), rd.u8(), rd.u8()) != (1, 1, 1):
                return 'copy is not equal'
            got = rd.tree()
            return None if exact(got, t) else 'copy is %s with tokens %r' % (ref.sexpr(got), tokens(got))
        T.ask('C', tree(t), 'copy of %s' % ref.sexpr(t), judge)
    for _ in range(ck.n(6000, 60000)):
        a = rand_tree(r, r.choice((1, 2, 4, 8, 15)), r.choice((('x', 'y', 'z', 'xx', 'X', '_'), ('x',), LONG)))
        k = r.random()
        b = change(r, a) if k < 0.6 else a if k < 0.8 else rand_tree(r, r.choice((1, 2, 3)))
        if k < 0.8 and b is not None and r.random() < 0.5:
            # source positions do not matter
            def retok(n):
                return Node(n.k, n.x, [retok(c) for c in n.c], r.randint(0, 99))
            b = retok(b)
        if b is None:
            continue
        if r.random() < 0.3:
            a, b = b, a

        def judge(rd, a=a, b=b):
            got = rd.u8(), rd.u8(), rd.u8()
            w = int(a == b)
            return None if got == (w, w, 1) else 'a=b: %d, b=a: %d, a=a: %d' % got
        T.ask('Q', tree(a) + tree(b), 'comparison of %s and %s' % (ref.sexpr(a), ref.sexpr(b)), judge)
    for _ in range(ck.n(4000, 40000)):
        names = r.choice((['x', 'y', 'z', 'xx', 'X', '_'], LONG, ['x', 'y'], ['x']))
        t, by = rand_tree(r, r.choice((1, 3, 8, 20, 20, 80)), names), rand_tree(r, r.choice((1, 1, 2, 5)))
        name = r.choice(names + ['sin', 'q'])

        def judge(rd, t=t, by=by, name=name):
            want = sum(1 for x in t.nodes() if x.k == 'v' and x.x == name)
            n, got, one, by2 = rd.u32(), rd.tree(), rd.u8(), rd.tree()
            if n != want:
                return '%d replacements are reported, there are %d' % (n, want)
            if not exact(got, ref.subst(t, {name: by})):
                return 'gives %s' % ref.sexpr(got)
            return None if exact(by, by2) else 'replacement has been changed'
        T.ask('R', tree(t) + tree(by) + s(name), 'replacing %s by %s in %s' % (name, ref.sexpr(by), ref.sexpr(t)), judge)
    for _ in range(ck.n(4000, 40000)):
        names = r.choice((['x', 'y', 'z', 'xx', 'X', '_'], ['v' + chr(97 + i) for i in range(26)], ['x'], LONG))
        t = rand_tree(r, r.choice((1, 3, 8, 20, 40)), names)
        cap = r.choice((0, 1, 2, 3, 5, 10, 64))
        ask = r.sample(names, min(3, len(names))) + ['qq']

        def judge(rd, t=t, cap=cap, ask=ask):
            want = t.vars()
            occ = [x.x for x in t.nodes() if x.k == 'v']
            if rd.u32() != len(occ):
                return 'wrong number of variable nodes'
            suff, n = rd.u8(), rd.u32()
            if suff != (len(want) <= cap):
                return 'buffer of %d for %d variables is reported as %s' % (cap, len(want), 'sufficient' if suff else 'insufficient')
            if suff:
                got = [rd.s() for _ in range(n)]
                if got != want:
                    return 'variables %r listed instead of %r' % (got, want)
            for a in ask:
                k, k2 = rd.u32(), rd.u32()
                where = [(rd.u8(), rd.u32()) for _ in range(k)]
                w = [i for i, x in rw.positions(t) if x.k == 'v' and x.x == a]
                if k2 != len(w) or where != [(1, i) for i in w]:
                    return 'occurrences of %s: %r (counted %d) instead of %r' % (a, where, k2, w)
            return None if exact(rd.tree(), t) else 'tree has been changed'
        T.ask('L', tree(t) + u32(cap) + u32(len(ask)) + b''.join(map(s, ask)), 'variables (%d) of %s' % (cap, ref.sexpr(t)), judge)
    for _ in range(ck.n(6000, 60000)):
        t = rand_tree(r, r.choice((1, 2, 4, 8, 15)), r.choice(((), (), ('x',), ('x', 'y'))))
        try:
            red, kind = reduce(t)
            fe = first_error(t)
            stable = [ref.stable_eval(x) for _, x in rw.positions(t) if not x.vars()]
        except (ref.Unknown, OverflowError):
            continue
        if any(x[0] in ('unstable', 'unknown') or x[0] == 'val' and x[1] != x[1] for x in stable):
            continue

        def judge(rd, t=t, red=red, kind=kind, fe=fe):
            e, v = rd.u32(), rd.f64()
            if (e != 0) != (fe is not None):
                return 'evaluation reports %d, must be %r' % (e, fe)
            if e:
                at = (rd.u8(), rd.u32())
                if at != (1, fe[1]):
                    return 'failing node is reported as %r, must be %r' % (at, fe)
            elif not ref.close(v, ref.evaluate(t), 1e-9):
                return 'evaluates to %r' % v
            e2, got = rd.u32(), rd.tree()
            if (e2 != 0) != (kind is not None):
                return 'reduction reports %d, first failure is %r' % (e2, kind)
            if not ref.same(got, red):
                return 'reduced to %s, must be %s' % (ref.sexpr(got), ref.sexpr(red))
            return None if tokens(got) == tokens(red) else 'source positions lost: %r instead of %r' % (tokens(got), tokens(red))
        T.ask('D', tree(t), 'reduction of %s' % ref.sexpr(t), judge)
    for _ in range(ck.n(2000, 20000)):
        t = rand_tree(r, r.choice((1, 3, 8, 20)))
        op = r.choice(OPS0 + OPS1 + OPS2 + OPSN)
        w = [i for i, x in rw.positions(t) if x.k == 'o' and x.x == op]

        def judge(rd, w=w):
            if rd.u8():
                got = rd.u8(), rd.u32()
                return None if w and got == (1, w[0]) else 'found at %r, must be %r' % (got, w[:1])
            return 'not found' if w else None
        T.ask('F', tree(t) + op[0].encode() + s(op[1:]), 'search for %s in %s' % (op, ref.sexpr(t)), judge)
    for _ in range(ck.n(3000, 30000)):
        n = r.choice((1, 1, 2, 3, 6))
        t = Node('o', r.choice(OPSN), [rand_tree(r, r.choice((1, 2, 4))) for _ in range(n)], r.randint(0, 60))
        i = r.choice((0, n - 1, r.randrange(n)))
        lst = [rand_tree(r, r.choice((1, 2, 4))) for _ in range(r.choice((0, 0, 1, 1, 2, 3, 7)))]

        def judge(rd, t=t, i=i, lst=lst):
            got, one = rd.tree(), rd.u8()
            back = [rd.tree() for _ in lst]
            if not exact(got, Node('o', t.x, t.c[:i] + tuple(lst) + t.c[i + 1:], t.t)):
                return 'gives %s' % ref.sexpr(got)
            return None if all(map(exact, back, lst)) else 'spliced trees have been changed'
        T.ask('B', tree(t) + u32(i) + u32(len(lst)) + b''.join(map(tree, lst)), 'splicing %d trees at %d of %s' % (len(lst), i, ref.sexpr(t)), judge)
    T.finish()
    ck.finish()
