"""C03: constant expressions evaluate to the documented value, domain errors are rejected."""
import itertools, math, re
import gen, ref, vf
from common import *

EDGE = ['0', '1', '2', '3', '5', '10', '0.5', '1.5', '2.5', '0.1', '100', '170', '171', '1000', '12345678901', '-1', '-2', '-3', '-0.5',
        '-2.5', '1/3', '1/7', '0.999', '7', '12', '18', '25', '-7', '-12', '2^31', '2^53', '10^20', 'pi', 'e', 'pi/2', '10^-9', '10^300',
        'inf', '-inf', 'nan', '0.49999999', '1.00001', '20', '36', '-100', '4.7', '-4.7', '0.30000001', '1.9', '23', '64', '81']
# only as operands of single functions and in random pairs
FAR = ['2^-1060', '10^-200', '10^-300', '10^-310', '-(10^-250)', '-(2^-1074)', '0.000000000001', '10^15', '4503599627370497.5', '4503599627370495.5', '0.49999999999999994', '10^15+0.5', '2^52-0.5',
       '10^154', '10^155', '-(10^200)', '2^1023', '-(2^1023)', '2^63', '2^64', '-(2^63)', '2^32', '2^31-1', '10^9', '709', '710', '-745', '-746', '1.0000000001', '0.9999999999', '143', '144', '1476', '1477']


def cases(ck):
    r = ck.rng
    out = []
    # every operator over all pairs/singles of edge values
    for f in gen.FN1:
        for a in EDGE + FAR:
            out.append('%s(%s)' % (f, a))
    for q in ('!', '%'):
        for a in EDGE + FAR:
            out.append('(%s)%s' % (a, q))
    for p in ('-', '+', '$'):
        for a in EDGE:
            out.append('%s(%s)' % (p, a))
    pairs = list(itertools.product(EDGE, EDGE))
    for op in ref.INFIX:
        for a, b in (pairs if ck.thorough else r.sample(pairs, 420)):
            out.append('(%s) %s (%s)' % (a, op, b))
    for f in gen.FN2:
        for a, b in (pairs if ck.thorough else r.sample(pairs, 420)):
            out.append('%s(%s, %s)' % (f, a, b))
    far = lambda: (r.choice(FAR), r.choice(EDGE + FAR))[::r.choice((1, -1))]
    for op in ref.INFIX:
        for _ in range(ck.n(150, 2000)):
            out.append('(%s) %s (%s)' % (lambda a, b: (a, op, b))(*far()))
    for f in gen.FN2 + gen.FNN:
        for _ in range(ck.n(100, 1500)):
            out.append('%s(%s, %s)' % (f, *far()))
    for f in gen.FNN:
        out.append('%s()' % f)
        for _ in range(ck.n(60, 600)):
            out.append('%s(%s)' % (f, ', '.join(r.choice(EDGE[:42]) for _ in range(r.randint(1, 7)))))
        out.append('%s(%s)' % (f, ','.join(gen.literal(r) for _ in range(60))))
        # hundreds of operands
        for n in (100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 513, 700):
            lits = [str(r.randint(0, 99)) for _ in range(n)]
            if f == 'prod':
                lits = ['1' if r.random() < 0.98 else x for x in lits]
            out.append('%s(%s)' % (f, ','.join(lits)))
    out += list(ref.CONSTS)
    # integer-valued functions over many integers
    for _ in range(ck.n(900, 9000)):
        a, b = r.randint(0, 10 ** r.randint(1, 9)), r.randint(0, 10 ** r.randint(1, 9))
        s = r.random() < 0.2
        k = r.randint(1, 60)
        out.append('gcd(%s%d, %d)' % ('-' if s else '', a * k, b * k))
        out.append('lcm(%d, %s%d)' % (a % 100000, '-' if s else '', b % 100000))
        out.append('%d C %d' % (r.randint(0, 60), r.randint(0, 60)))
        out.append('%d mod %d' % (a, max(1, b)))
    for i in range(-40, 80):
        out.append('fib(%d)' % i)
        out.append('(%d)!' % i)
        out.append('gamma(%d.5)' % i)
        out.append('fib(%d.7)' % i)
    # halves, and their neighbours, where rounding changes direction
    for i in list(range(-12, 13)) + [25, 99, 1000, 123456, 2 ** 22, -25, -1000, -(2 ** 22)]:
        for d in ('.5', '.25', '.75', '.4990234375', '.5009765625', '.0009765625', '.9990234375'):
            a = ('-%d%s' if i < 0 else '%d%s') % (abs(i), d)
            out += ['%s(%s)' % (f, a) for f in ('round', 'floor', 'ceil', 'trunc', 'frac', 'abs', 'sgn')]
            out.append('%s(%d/2)' % (r.choice(('round', 'floor', 'ceil', 'trunc', 'frac')), 2 * i + 1))
            out.append('%s mod %d' % (a, r.randint(1, 9)) if i >= 0 else '(%s) mod %d' % (a, r.randint(1, 9)))
            out.append('fib(%s)' % a if abs(i) < 60 else a)
    # composed expressions
    for _ in range(ck.n(9000, 120000)):
        g = gen.ExprGen(r, wild=r.random() < 0.1, spaces=0.1)
        if r.random() < 0.3:
            g = gen.ExprGen(r, infix=['+', '-', '*', '/', '^'], fn1=['sqrt', 'ln', 'sin', 'abs', 'exp', 'floor'], fn2=['root', 'log'],
                            prefix=['-'], postfix=['%'], fnn=['max', 'sum'], lit=lambda r: str(r.randint(0, 9)))
        out.append(g.expr(r.randint(1, 12)))
    r.shuffle(out)
    return out


def exact(ck):
    """Integer-valued functions: what they return minus its exact value is zero"""
    r = ck.rng
    res = [('%d C %d' % (n, k), math.comb(n, k)) for n in range(0, 75) for k in range(0, n + 2)]
    res += [('%d C %d' % (n, k), math.comb(n, k)) for n, k in ((r.randint(70, 10 ** r.randint(2, 7)), r.randint(1, 7)) for _ in range(ck.n(400, 4000)))]
    res += [('%d!' % n, math.factorial(n)) for n in range(19)]
    a, b = 0, 1
    for n in range(79):
        res += [('fib(%d)' % n, a)]
        a, b = b, a + b
    for _ in range(ck.n(800, 20000)):
        g = r.randint(1, 10 ** r.randint(0, 9))
        x, y = g * r.randint(1, 10 ** r.randint(0, 6)), g * r.randint(1, 10 ** r.randint(0, 6))
        sx, sy = r.choice(('', '', '-')), r.choice(('', '', '-'))
        res += [('lcm(%s%d, %s%d)' % (sx, x, sy, y), math.lcm(x, y)), ('gcd(%s%d, %s%d)' % (sx, x, sy, y), math.gcd(x, y))]
        if max(x, y) < 1 << 53:
            res.append(('%d mod %d' % (x, y), x % y))
        x, y = r.randint(2, 99), r.randint(0, 20)
        res.append(('%d^%d' % (x, y), x ** y))
    res = [(t, v) for t, v in res if v < 1 << 53 and all(int(d) < 1 << 53 for d in re.findall('[0-9]+', t))]
    ses = [vf.Session(['(%s) - %d' % c for c in res[i:i + 100]], meta=res[i:i + 100], variant=vf.NORULES if r.random() < 0.7 else vf.RULES) for i in range(0, len(res), 100)]
    for x in vf.run_sessions(ses):
        for i, (t, v) in enumerate(x.session.meta):
            one = vf.Session([x.session.lines[i]], variant=x.session.variant)
            if x.step(i) is None or (not x.clean and i == len(x.recs) - 1):
                ck.violation('%r: no result, session %s' % (t, x.describe()), 'crash:' + t, one)
                break
            got = outcome(x, i)
            ck.case('exact:' + t)
            ck.count('exact_integers')
            if got[0] != 'out' or float(got[1]) != 0:
                ck.violation('%r must be exactly %d, but differs from it: %r' % (t, v, got), 'exact:' + t, one)


def run():
    ck = vf.Check('C03', rule='variable-free expressions: every operator over edge operands, random compositions; non-trivial: '
                  'the reference determines a stable value or a domain error', min_cases=2000)
    cs = []
    for s in cases(ck):
        try:
            t = ref.parse(s)
        except ref.Reject:
            raise vf.HarnessError('generator made malformed text %r' % s)
        if t.vars():
            continue
        want = ref.stable_eval(t, hist=[], seed=ck.seed)
        if want[0] in ('unstable', 'unknown'):
            ck.count('skipped_ill_conditioned_or_unspecified')
            want = None
        cs.append((s, t, want))
    per = 40
    sessions = []
    for i in range(0, len(cs), per):
        chunk = cs[i:i + per]
        v = vf.NORULES if ck.rng.random() < 0.5 else vf.RULES
        sessions.append(vf.Session([c[0] for c in chunk], variant=v, meta=chunk, tty=ck.rng.random() < 0.05))
    for res in vf.run_sessions(sessions):
        for i, (s, t, want) in enumerate(res.session.meta):
            one = vf.Session([s], variant=res.session.variant)
            st = res.step(i)
            if st is None or (not res.clean and i == len(res.recs) - 1):
                ck.violation('%r: no result, session %s' % (s, res.describe()), 'crash:' + s, one)
                break
            if want is None:
                continue
            got = outcome(res, i)
            ck.case((s, want), '%s -> %s' % (s, want))
            if want[0] == 'val':
                ck.count('values')
                if got[0] != 'out' or not value_matches(got[1], want[1]):
                    ck.violation('%r must be %.12g, got %r' % (s, want[1], got), 'value:' + s, one)
            else:
                ck.count('domain_errors')
                if got[0] != 'err' or not error_matches(got[1], want[1]):
                    ck.violation('%r must be rejected (%s), got %r' % (s, want[1], got), 'domain:' + s, one)
    exact(ck)
    ck.finish()
