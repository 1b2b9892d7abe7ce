"""C26: every command is answered with bounded work (basic blocks executed by the program, counted by compiler instrumentation)."""
import itertools
import algebra, gen, ref, sess, vf
from common import *

HUGE = ['0', '1', '-1', '0.5', '-0.5', '2', '170', '1000', '1475', '-1475', '1000001', '-999999', '10^9', '-10^9', '2^31', '2^32', '2^53', '2^53-1', '-(2^63)', '2^64', '10^15', '999999999999998',
        '1000000000000000', '10^18+1', '10^100', '-10^100', '1.7*10^308', '10^-300', '-10^-300', 'inf', '-inf', 'nan', '987654321987', '0.999999999', '123456789.5', '4503599627370497', '3*10^15', '6*10^15', '10^16', '10^17', '5*10^8']
NUMERIC = 60_000   # basic blocks for one application of an operator
STATE = 400_000


def numeric(ck):
    r = ck.rng
    out = []
    for f in gen.FN1:
        out += ['%s(%s)' % (f, a) for a in HUGE]
    for q in '!%':
        out += ['(%s)%s' % (a, q) for a in HUGE]
    out += ['@(%s)' % a for a in HUGE]
    pairs = list(itertools.product(HUGE, HUGE))
    for op in ref.INFIX:
        out += ['(%s) %s (%s)' % (a, op, b) for a, b in (pairs if ck.thorough or op in ('C', 'mod') else r.sample(pairs, 300))]
    for f in gen.FN2 + ['rand']:
        out += ['%s(%s, %s)' % (f, a, b) for a, b in (pairs if ck.thorough or f in ('gcd', 'lcm', 'rand') else r.sample(pairs, 300))]
    for f in gen.FNN:
        out += ['%s(%s)' % (f, ','.join(r.choice(HUGE) for _ in range(r.randint(0, 8)))) for _ in range(40)]
    # operands close to each other
    for _ in range(ck.n(500, 5000)):
        n = 10 ** r.randint(3, 18) + r.randint(0, 1000)
        d = r.randint(0, 60)
        out.append(r.choice(['%d C %d', 'gcd(%d, %d)', 'lcm(%d, %d)', '%d mod %d', 'rand(%d, %d)', '%d C (0-%d)', '(%d-%d)!', 'fib(%d-%d)', 'gamma(%d-%d)', 'root(%d, %d)', '%d^-%d', '(0-%d)^%d']) % (n, n - d if r.random() < 0.7 else d))
    return out


def texts(ck):
    """Long lines of many shapes"""
    r = ck.rng
    out = []
    for n in ([60, 300, 1200, 4000] + ([10000, 30000] if ck.thorough else [])):
        m = min(n, 1500)
        x = [
            '(' * m + '1' + ')' * m, '(' * m + '1' + ')' * (m - 1), '(' * m, ')' * n, '+'.join(str(i) for i in range(n)), '-'.join(['x'] * n), '-' * m + '1', '-' * m,
            '+-' * m + 'x', '1' + '!' * m, 'x' + '%' * m, '^'.join(['1'] * m), '*'.join(['a'] * m), '/'.join(['7'] * n), 'sin(' * m + 'x' + ')' * m, 'max(' * m + '1,2' + ')' * m,
            'sum(' + ','.join(str(i) for i in range(n)) + ')', 'prod(' + ','.join(['y'] * n) + ')', 'a' * n, '1' * n, '1' * n + '.' + '1' * n, '.' * n, ' ' * n, ' ' * n + '1', '1' + ' ' * n + '+',
            '1 ' * n, 'x ' * n, 'x(' * m + 'x' + ')' * m, '$' * m + '1', '1+$' * m + '1', '@' * m + '1', ',' * n, 'sin ' * n, '(1+' * m + '1' + ')' * m, '2^(' * m + '1' + ')' * m,
            '(x)' * m, '()' * n, '{' * m + 'x' + '}' * m, '{(' * (m // 2) + 'x' + ')}' * (m // 2), 'x mod ' * m + 'x', 'x C ' * m + 'x', 'sum(' * m, 'sum()' * m, "x" + "'" * 3 + '+1' * n,
            'clear ' + 'a' * n, 'load ' + 'a' * min(n, 3000), 'f = ' + '(' * m, 'f = ' * m, '=' * n, 'a' * n + ' = 3', 'f(' + ','.join('p' + 'q' * i for i in range(min(n, 60))) + ') = 1',
            'f(' + ','.join(['x'] * n) + ') = 1', 'table ' + '1+' * n + '1;1;2;1', 'table x;1;2;1' + ';' * n, 'table ' + ' fold ' * m, '#' * n, 'help ' * m, 'abs(-' * m + '1' + ')' * m,
            'rand(' * m, '[' * n, '~' * n, 'pi' * n, 'ans' * n, 'e' * n, '1.' * n, '-1-' * n + '1', '((1)+' * m + '1' + ')' * m, '1,' * n, 'gcd(4,' * m + '6' + ')' * m, 'log(' * m + '5' + ',3)' * m,
        ]
        out += x
        for _ in range(ck.n(6, 30)):
            out.append(gen.token_soup(r, min(n, 2000)))
            g = gen.ExprGen(r, vars=['x'] if r.random() < 0.5 else ())
            out.append(g.expr(min(n // 3, 600)))
            out.append(gen.mutate(r, g.expr(min(n // 3, 600))).replace('\n', ''))
    return [t for t in out if 'table ' not in t[:6] or t.count(';') != 3 or True]


def text_bound(n):
    return 30_000 + 1500 * n + 8 * n * n


def many_state(r, n):
    """Sessions in which definitions and results accumulate"""
    name = lambda i: 'f' + ''.join(chr(97 + int(d)) for d in str(i))
    k = r.randint(0, 4)
    if k == 0:
        ls = ['%s(x) = x + %d' % (name(i), i) for i in range(n)]
    elif k == 1:
        ls = ['%s(x) = %s + 1' % (name(i), '%s(x)' % name(i - 1) if i and i % 20 else 'x') for i in range(n)]
    elif k == 2:
        ls = ['%s = %d' % (name(i), i) for i in range(n)]
    elif k == 3:
        ls = ['%d' % i for i in range(n)]
    else:
        ls = ['%s(x,y) = max(x, %d y)' % (name(i), i) for i in range(n)]
    tail = ['ans', '@%d' % (n // 2), '@100000', 'x + 1', '3*4', '%s(2)' % name(n - 1), '%s(3)' % name(0), 'clear %s' % name(n // 2), 'clear nope', 'clear %s' % name(0), '%s = 7' % name(0),
            '1 +', '%s(%s(%s(1)))' % ((name(5),) * 3), '%s(1,2)' % name(n - 1), 'max(' + ','.join('%s(1)' % name(i) for i in range(5)) + ')']
    return ls + tail


def run():
    ck = vf.Check('C26', rule='basic blocks per command observed against fixed bounds: operators on extreme operands, long lines of many shapes, sessions with many '
                  'definitions and results, simplification of random expressions of up to a dozen operands; distinct commands', min_cases=2000)
    r = ck.rng
    top = {}

    def note(kind, steps, line, bound):
        ck.case((kind, line))
        ck.count(kind)
        if steps > top.get(kind, (0, ''))[0]:
            top[kind] = (steps, line[:80])
        return steps > bound
    sessions = []
    num = numeric(ck)
    r.shuffle(num)
    for i in range(0, len(num), 50):
        sessions.append(vf.Session(num[i:i + 50], variant=vf.NORULES, budget=NUMERIC * 400, meta='numeric'))
    tx = texts(ck)
    for t in tx:
        sessions.append(vf.Session([t], variant=vf.NORULES, budget=text_bound(len(t)) * 3 + 10 ** 6, meta='text'))
    for _ in range(ck.n(12, 40)):
        sessions.append(vf.Session(many_state(r, r.choice((100, 400, 900))), variant=vf.NORULES, budget=10 ** 10, meta='state'))
    # operators on extreme operands with rules, and tables
    for _ in range(ck.n(60, 600)):
        sessions.append(vf.Session(r.sample(num, 10), variant=vf.RULES, budget=2 * 10 ** 9, meta='numeric_rules'))
    for n in (10, 100, 1000):
        sessions.append(vf.Session(['table x;1;%d;1' % n, 'table x^2+1/x;1;%d;1 fold x+y;0' % n], variant=vf.NORULES, budget=10 ** 9, meta='rows%d' % n))
    # simplification comes to an end
    for _ in range(ck.n(2600, 30000)):
        g = algebra.Typed(r, r.choice((['x'], ['x', 'y'], ['a', 'b', 'c'], ['x', 'y', 'z', 'w'])), misc=('asin', 'acos', 'asinh', 'sinh', 'floor'))
        k = r.random()
        if k < 0.5:
            t = algebra.related(r, g, r.randint(2, 9))
            s = ref.show(t)
        elif k < 0.8:
            t = g.real(r.randint(2, 12))
            s = ref.show(t)
        else:
            s = gen.ExprGen(r, vars=['x', 'y'][:r.randint(1, 2)], deriv=0.1).expr(r.randint(2, 12))
            try:
                t = ref.parse(s)
            except ref.Reject:
                continue
        if len([x for x in t.nodes() if x.k != 'o']) > 13:
            continue
        if k < 0.8 and r.random() < 0.2:
            s = 'deriv(%s, %s)' % (s, r.choice(g.vars))
        sessions.append(vf.Session([s], variant=vf.RULES, budget=3 * 10 ** 9, timeout=120, meta='simplify'))
    for res in vf.run_sessions(sessions):
        s = res.session
        kind = s.meta
        one = s
        if not res.clean:
            i = max(0, len(res.recs) - 1)
            if i >= len(s.lines):
                i = len(s.lines) - 1
            ck.violation('%s: %r is not answered: %s' % (kind, s.lines[i][:200], res.describe()), 'unanswered:' + s.lines[i], one)
            continue
        for i, line in enumerate(s.lines):
            if i >= len(res.recs):
                break
            z = res.recs[i + 1].steps if i + 1 < len(res.recs) else res.final.steps
            d = z - res.recs[i].steps
            if kind == 'numeric':
                bound = NUMERIC
            elif kind == 'text':
                bound = text_bound(len(line))
            elif kind == 'state':
                bound = STATE * 10
            elif kind.startswith('rows'):
                bound = (int(kind[4:]) + 1) * 40_000 + 20 * int(kind[4:]) ** 2
            else:
                bound = 10 ** 12
            if note(kind, d, line, bound):
                ck.violation('%s: %r took %d steps, more than %d' % (kind, line[:200], d, bound), 'steps:' + line, one)
    for k, (n, l) in sorted(top.items()):
        ck.counters['max_steps_' + k] = n
        ck.samples.append('%s: %d steps for %s' % (k, n, l))
    ck.finish()
