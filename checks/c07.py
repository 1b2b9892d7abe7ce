"""C07: result history."""
import re
import ref, sess, vf
from common import *
from model import Model


def make(r, rules):
    g = sess.SessGen(r, tame=rules or r.random() < 0.3, hist=0.3, names=sess.NAMES[:8])
    out = []
    for _ in range(r.randint(3, 30)):
        k = r.random()
        if k < 0.25:
            i = r.randint(0, 12)
            out.append(r.choice(['ans', '@0', '@%d' % i, '@(%d)' % i, '@%d + 0' % i, '@(%d.9)' % i, '-@%d' % i, '@ %d' % i, '2ans', '@@%d' % i,
                                 '@%d * 1 - 0' % i, '@(1-1)', '@-1', '@(0-1)', '@(-0.5)', '@%d' % r.randint(100, 10 ** 12), '@inf', '@nan', '{ans}']))
        elif k < 0.33:
            out.append(r.choice(['-%d' % r.randint(1, 99), '0', '-0.5', '0-%d' % r.randint(1, 9), '10^300', '-10^300', 'x-x', 'x-x+%d' % r.randint(1, 9), '0*x', 'inf', '-inf', '1/3', 'x', 'x+1']))
        elif k < 0.38:
            out.append('table x*2 ; 1 ; %d ; 1 fold x+y ; %d' % (r.randint(0, 5), r.randint(-5, 5)))
        elif k < 0.40:
            out.append('table x ; 1 ; 2 ; 1')
        else:
            out.append(g.command(tables=0.0, bad=0.15))
    out += ['@%d' % i for i in range(len(out) + 2)] + ['ans']
    return out


def long_session(r):
    """Hundreds of results, references all over them"""
    out, n, i = [], 0, 0
    total = r.choice((130, 300, 600, 1100, 1900))
    while n < total:
        k = r.random()
        if k < 0.93:
            out.append('%d' % (7 * n + 3) if k < 0.8 else '%d.5 - %d' % (n, r.randint(0, 9)))
            n += 1
        elif k < 0.97:
            j = r.choice((n - 1, n, n + 1, n // 2, r.randint(0, n + 3), 100, 128, 255, 256, 257, 512, 1000, 1024))
            out.append('@%d' % j)
            n += 0 <= j < n
        else:
            out.append('f(x) = x' if i % 2 == 0 else 'clear')
            i += 1
    out += ['@%d' % (len(out) * 3 + 5)]
    for j in sorted({0, 1, 63, 64, 100, 127, 128, 255, 256, 257, 511, 512, 999, 1000, 1023, 1024, n // 3, n // 2, n - 2, n - 1, n} | {r.randrange(n) for _ in range(6)}):
        if j <= n:
            out.append('@%d - 0' % j)
    return out


FOLD = re.compile(r'table x\*2 ; 1 ; (\d+) ; 1 fold x\+y ; (-?\d+)$')


def fold_of(line):
    """value of the tables generated above: left fold of + over 2x"""
    a = FOLD.match(line)
    if a is None:
        return None
    n, init = int(a.group(1)), int(a.group(2))
    if n < 1:  # counts down from 1
        return float(init + sum(2 * i for i in range(n, 2)))
    return float(init + sum(2 * i for i in range(1, n + 1)))


def run():
    ck = vf.Check('C07', rule='sessions of evaluations, definitions, failures, clears, tables, help; every result and every history reference '
                  'compared with a list model; distinct: (line, expectation)', min_cases=500)
    sessions = []
    for i in range(ck.n(1100, 12000)):
        rules = ck.rng.random() < 0.5
        sessions.append(vf.Session(make(ck.rng, rules), variant=vf.RULES if rules else vf.NORULES, tty=ck.rng.random() < 0.03))
    for i in range(ck.n(20, 150)):
        sessions.append(vf.Session(long_session(ck.rng), variant=vf.NORULES))
    for res in vf.run_sessions(sessions):
        s = res.session
        m = Model(s.variant == vf.RULES)
        for i, line in enumerate(s.lines):
            st = res.step(i)
            if st is None or (i == len(res.recs) - 1 and not res.clean):
                ck.violation('line %d %r: %s' % (i, line, res.describe()), 'crash:' + '\n'.join(s.lines[:i + 1]), s)
                break
            if s.tty:
                break
            got = outcome(res, i)
            ck.count('references_into_long_histories', len(m.hist) > 100 and '@' in line)
            if fold_of(line) is not None:
                if got[0] == 'out' and b'Fold result: ' in got[1]:
                    want = fold_of(line)
                    v = got[1].split(b'Fold result: ')[1].strip()
                    if not ref.close(float(v), want):
                        ck.violation('%r must fold to %r, got %r' % (line, want, v), 'fold:' + line, s)
                    m.hist.append(want)
                    ck.count('folds')
                elif 'x' not in m.defs and 'y' not in m.defs:
                    ck.violation('%r must print a fold result, got %r' % (line, got), 'fold:' + line, s)
                continue
            refs = 'ans' in line or '@' in line
            n = len(m.hist)
            e, msg = m.step(line, got)
            if refs:
                ck.count('history_references')
                ck.case((line, repr(e)), '%s with %d results -> %r' % (line, n, e))
                if e.kind == 'error' and e.err == 'history':
                    ck.count('references_beyond_history')
            ck.count('lines')
            if msg:
                ck.violation('line %d %r with history %r: %s' % (i, line, m.hist[-8:], msg), 'hist:' + '\n'.join(s.lines[:i + 1]), s)
                break
    ck.finish()
