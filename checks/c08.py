"""C08: a call of a user-defined function equals substituting its arguments; meanings are fixed at definition time."""
import algebra, c11, gen, ref, sess, vf
from common import *
from model import Model

NAMES = ['f', 'g', 'h', 'ff', 'fg', 'x', 'y', 'z', 'a', 'b', 'w', 'sinn', 'maxx', 'pp', 'u_v', 'k']
PARAMS = ['x', 'y', 'z', 'a', 'b', 'c', 'n', 't', 'u', 'q', 'foo', 'xx', 'f', 'g', 'w', 'k']


class NoExpansion(Exception):
    pass


def toks(s):
    return [t for t in ref.tokenize(s) if not t.startswith(' ')]


def expand(tokens, macros):
    """Textual expansion of all calls. macros: name -> (params, tokens of the expanded body)"""
    out, i = [], 0
    while i < len(tokens):
        t = tokens[i]
        if t not in macros:
            out.append(t)
            i += 1
            continue
        params, body = macros[t]
        i += 1
        args = []
        if i < len(tokens) and tokens[i] in '({' and (params or tokens[i + 1:i + 2] in (['('], ['{'], [')'], ['}'])):
            depth, cur, j = 1, [], i + 1
            while j < len(tokens):
                c = tokens[j]
                if c in ('(', '{'):
                    depth += 1
                elif c in (')', '}'):
                    depth -= 1
                    if depth == 0:
                        break
                if c == ',' and depth == 1:
                    args.append(cur)
                    cur = []
                else:
                    cur.append(c)
                j += 1
            if depth:
                raise NoExpansion
            if cur or args:
                args.append(cur)
            i = j + 1
        if len(args) != len(params) or (not params and i < len(tokens) and tokens[i] in ('(', '{')):
            raise NoExpansion
        args = [expand(a, macros) for a in args]
        out.append('(')
        for c in body:
            if c in params:
                out += ['('] + args[params.index(c)] + [')']
            else:
                out.append(c)
        out.append(')')
    return out


class Writer:
    """Writes a session and the same session with calls expanded by hand"""

    def __init__(self, r, rules, kw=None):
        self.r, self.macros, self.kw = r, {}, kw or {}
        self.a, self.b, self.probe = [], [], []

    def both(self, l):
        self.a.append(l)
        self.b.append(l)
        self.probe.append(False)

    def gen(self, vars):
        return gen.ExprGen(self.r, vars=[v for v in vars if v not in self.macros], userfuncs=[(n, len(p)) for n, (p, _) in self.macros.items()] * 2, spaces=0.2, **self.kw)

    def define(self):
        r = self.r
        free = [n for n in NAMES if n not in self.macros]
        if not free:
            return self.clear()
        name = r.choice(free)
        n = r.choice((0, 1, 1, 2, 2, 2, 3, 4, 10 if r.random() < 0.2 else 2))
        ps = [p for p in PARAMS if p != name and p not in self.macros]
        r.shuffle(ps)
        ps = ps[:n]
        size = r.randint(1, 7)
        body = self.gen(ps).expr(size) if r.random() < 0.9 else r.choice(ps or ['3'])
        head = name if not ps else '%s(%s)' % (name, ', '.join(ps))
        try:
            ex = expand(toks(body), self.macros)
        except NoExpansion:
            return
        if len(ex) > 400:
            return
        self.both('%s = %s' % (head, body))
        self.macros[name] = (ps, ex)

    def clear(self):
        if not self.macros or self.r.random() < 0.1:
            self.both('clear')
            self.macros = {}
        else:
            n = self.r.choice(list(self.macros))
            self.both('clear ' + n)
            del self.macros[n]

    def use(self):
        r = self.r
        vs = r.sample(PARAMS, r.randint(0, 4)) if r.random() < 0.6 else []
        e = self.gen(vs).expr(r.randint(1, 6))
        if self.macros and r.random() < 0.5:
            n = r.choice(list(self.macros))
            ps = self.macros[n][0]
            args = list(ps)
            r.shuffle(args)  # arguments that mention (other) parameters
            args = [a if a not in self.macros and r.random() < 0.6 else self.gen(ps).expr(2) for a in args]
            e = n if not ps else '%s(%s)' % (n, ', '.join(args))
            if r.random() < 0.3:
                e = '%s(%s)' % (n, ', '.join([e] * len(ps))) if ps else e + ' * ' + e
        try:
            x = expand(toks(e), self.macros)
        except NoExpansion:
            return
        if len(x) > 3000:
            return
        self.a.append(e)
        self.b.append(' '.join(x))
        self.probe.append(True)

    def session(self, n):
        for _ in range(n):
            k = self.r.random()
            (self.define if k < 0.35 else self.clear if k < 0.45 else self.use)()


def twins(ck):
    r = ck.rng
    pairs = []
    for _ in range(ck.n(1500, 15000)):
        w = Writer(r, False, {} if r.random() < 0.5 else dict(sess.TAME_FN))
        w.session(r.randint(4, 30))
        if any(w.probe):
            pairs.append(w)
    res = vf.run_sessions([vf.Session(x, variant=vf.NORULES, meta=w) for w in pairs for x in (w.a, w.b)])
    for i in range(0, len(res), 2):
        a, b = res[i], res[i + 1]
        w = a.session.meta
        for j, p in enumerate(w.probe):
            x, y = a.step(j), b.step(j)
            if x is None or (j == len(a.recs) - 1 and not a.clean):
                ck.violation('line %d %r: %s' % (j, w.a[j], a.describe()), 'crash:' + '\n'.join(w.a[:j + 1]), a.session)
                break
            if y is None or (j == len(b.recs) - 1 and not b.clean):
                break
            if not p:
                if x != y:
                    ck.violation('line %d %r answered %r, and %r when earlier calls were expanded' % (j, w.a[j], x, y), 'twin:' + '\n'.join(w.a[:j + 1]), a.session)
                    break
                if x[1]:
                    break  # a definition was refused; names mean something else from here on
                continue
            ck.case((w.a[j], w.b[j]), '%s  ==  %s' % (w.a[j], w.b[j]) if len(w.b[j]) < 100 else None)
            ck.count('calls_expanded')
            if agree(x, y):
                continue
            ck.violation('after %r: %r answered %r, its expansion %r answered %r' % ([l for l, q in zip(w.a[:j], w.probe) if not q], w.a[j], x, w.b[j], y), 'twin:' + '\n'.join(w.a[:j + 1]), a.session)
            break


def agree(x, y):
    if x == y:
        return True
    # Which of several failing operators is reported, and in how many digits constants were folded, may differ
    if x[1] and y[1]:
        return not x[0] and not y[0]
    if x[1] or y[1]:
        return False
    t, u = parse_output(x[0]), parse_output(y[0])
    return t is not None and u is not None and ref.same(ref.norm_neg(t), ref.norm_neg(u), 1e-9)


def modelled(ck):
    """Sessions with and without rules against the reference model (values)"""
    r = ck.rng
    ses = []
    for _ in range(ck.n(700, 7000)):
        rules = r.random() < 0.6
        g = sess.SessGen(r, tame=rules, names=sess.NAMES[:10], hist=0.1)
        ses.append(vf.Session([g.command(define=0.4, clears=0.1, bad=0.05, tables=0.0) for _ in range(r.randint(4, 30))], variant=vf.RULES if rules else vf.NORULES))
    for res in vf.run_sessions(ses):
        s = res.session
        m = Model(s.variant == vf.RULES)
        for i, line in enumerate(s.lines):
            if res.step(i) is None or (i == len(res.recs) - 1 and not res.clean):
                ck.violation('line %d %r: %s' % (i, line, res.describe()), 'crash:' + '\n'.join(s.lines[:i + 1]), s)
                break
            used = any(n in line for n in m.defs)
            e, msg = m.step(line, outcome(res, i))
            if used and e.kind in ('val', 'tree', 'error'):
                ck.case((line, repr(e)))
                ck.count('model_answers_' + e.kind)
            if msg:
                ck.violation('line %d %r with %r: %s' % (i, line, list(m.defs), msg), 'model:' + '\n'.join(s.lines[:i + 1]), s)
                break


def simplified(ck):
    """With rules: the printed result of a call has the value of the substituted body"""
    r = ck.rng
    ses = []
    for _ in range(ck.n(700, 8000)):
        lines, trees, defs = [], [], {}
        for name in r.sample(['f', 'g', 'h', 'k'], r.randint(1, 3)):
            ps = r.sample(['x', 'y', 'z', 'a', 'b'], r.randint(1, 3))
            body = algebra.Typed(r, ps, nary=(), trig=('sin', 'cos')).pos(r.randint(1, 4))
            if defs and r.random() < 0.5:
                n, (p, _) = r.choice(list(defs.items()))
                body = ref.O(r.choice(('i+', 'i*')), body, ref.O('f' + n, *[ref.V(r.choice(ps)) for _ in p]))
            lines.append('%s(%s) = %s' % (name, ', '.join(ps), ref.show(body)))
            trees.append(None)
            defs[name] = (ps, ref.expand(body, defs))
        for _ in range(3):
            n, (p, _) = r.choice(list(defs.items()))
            g = algebra.Typed(r, ['x', 'y', 'a'], nary=(), trig=('sin', 'cos'))
            t = ref.O('f' + n, *[g.pos(r.randint(1, 2)) for _ in p])
            if r.random() < 0.4:
                t = ref.O(r.choice(('i+', 'i*', 'i-')), g.pos(2), t)
            lines.append(ref.show(t))
            trees.append(ref.expand(t, defs))
        ses.append(vf.Session(lines, meta=trees))
    for res in vf.run_sessions(ses):
        for i, t in enumerate(res.session.meta):
            line = res.session.lines[i]
            if res.step(i) is None or (i == len(res.recs) - 1 and not res.clean):
                ck.violation('line %d %r: %s' % (i, line, res.describe()), 'crash:' + '\n'.join(res.session.lines[:i + 1]), res.session)
                break
            got = outcome(res, i)
            if t is None:
                if got[0] == 'err':
                    break  # constant parts that can not be evaluated
                continue
            if t.vars() and t.size() < 60:
                c11.judge(ck, line, t, got, res.session)
                ck.count('simplified_calls')


def counted(ck):
    """Expressions with hundreds of calls, next to each other, inside each other, and behind chains of definitions"""
    r = ck.rng
    ses = []
    for j in range(ck.n(60, 400)):
        k, m = r.randint(0, 3), r.choice((1, 1, 1, 2, 3))
        lines, want = ['f(x) = %s' % r.choice(('x + %d' % k, '%d + x' % k, 'x - (-%d)' % k))], [None]
        n = r.choice((30, 90, 101, 130, 257, 300, 600 if ck.thorough else 300, 1300 if ck.thorough else 350))
        kind = r.choice(('sum', 'sum', 'nested', 'chain', 'args', 'constant', 'vars'))
        if j < 6:
            # beyond a thousand expansions of one line
            n, kind = (1030, 1100, 2100, 1500, 1290, 4200 if ck.thorough else 1050)[j], ('sum', 'constant', 'constant', 'vars', 'args', 'constant')[j]
        if kind == 'sum':
            a = [r.randint(0, 9) for _ in range(n)]
            lines.append('sum(%s)' % ', '.join('f(%d)' % x for x in a) if r.random() < 0.5 else ' + '.join('f(%d)' % x for x in a))
            want.append(float(sum(a) + n * k))
        elif kind == 'nested':
            n = min(n, 300)
            lines.append('f(' * n + str(m) + ')' * n)
            want.append(float(m + n * k))
        elif kind == 'chain':
            d = r.randint(3, 8)
            prev = 'f'
            for i in range(d):
                name = 'g' + 'abcdefghij'[i]
                lines.append('%s(x) = %s(x) + %s(%s)' % (name, prev, prev, r.choice(('x', 'x + 0'))))
                want.append(None)
                prev = name
            lines.append('%s(%d)' % (prev, m))
            want.append(float((m + k) * 2 ** d))
        elif kind == 'args':
            ps = ['q' + c for c in 'abcdefghij']
            lines.append('g(%s) = %s' % (', '.join(ps), ' + '.join('%d * %s' % (i + 1, q) for i, q in enumerate(ps))))
            want.append(None)
            rows = max(1, n // 11)
            tot, parts = 0, []
            for _ in range(rows):
                a = [r.randint(0, 9) for _ in ps]
                tot += sum((i + 1) * (x + k) for i, x in enumerate(a))
                parts.append('g(%s)' % ', '.join('f(%d)' % x for x in a))
            lines.append('sum(%s)' % ', '.join(parts))
            want.append(float(tot))
        elif kind == 'constant':
            lines.append('cc = %d' % m)
            want.append(None)
            lines.append(' + '.join(['cc'] * n))
            want.append(float(m * n))
        else:
            # no call is left in a symbolic result
            lines.append('sum(%s)' % ', '.join('f(%s)' % r.choice('abuv') for _ in range(n)))
            want.append('free')
        lines.append('f(1)')
        want.append(float(1 + k))
        ses.append(vf.Session(lines, variant=vf.NORULES, meta=(kind, n, want)))
    for res in vf.run_sessions(ses):
        s = res.session
        kind, n, want = s.meta
        for i, w in enumerate(want):
            st = res.step(i)
            if st is None or (i == len(want) - 1 and not res.clean):
                ck.violation('%s of %d calls: line %d: %s' % (kind, n, i, res.describe()), 'many:' + '\n'.join(s.lines), s)
                break
            if w is None:
                bad = st[0] or st[1]
            elif w == 'free':
                t = parse_output(st[0])
                bad = t is None or t.k != 'o' or len(t.c) != n or not set(t.vars()) <= set('abuv') or any(c.k != 'o' or c.x not in ('i+', 'i-') for c in t.c)
            else:
                bad = st[1] or not value_matches(st[0], w)
                ck.count('many_calls_in_one_expression')
            if bad:
                ck.violation('%s of %d calls: %.200r answers %.200r, must be %r' % (kind, n, s.lines[i], st, w), 'many:' + '\n'.join(s.lines), s)
                break
        ck.case((kind, tuple(s.lines)))


def run():
    ck = vf.Check('C08', rule='definitions with clashing parameter, argument and function names; each call compared with its textual expansion in a twin session, with the reference '
                  'model, and (rules loaded) numerically; distinct calls', min_cases=2000)
    twins(ck)
    modelled(ck)
    simplified(ck)
    counted(ck)
    ck.finish()
