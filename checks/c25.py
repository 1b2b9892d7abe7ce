"""C25: rand stays within its bounds and covers them."""
import math, re
import chaos, ref, vf
from common import *


def lit(v):
    s = repr(float(v))
    if 'e' in s:
        s = '%d' % v if abs(v) >= 1 else '%.25f' % v
    return s if v >= 0 else '(0-%s)' % s[1:]


def bounds(r):
    k = r.random()
    if k < 0.3:
        a = r.randint(-20, 20)
        b = a + r.randint(-3, 12)
    elif k < 0.55:
        a = r.choice((-1, 1)) * r.randint(0, 60) / 8
        b = a + r.randint(-20, 40) / 8
    elif k < 0.7:
        a = r.choice((0, -1, 1, 0.5, -0.5, 0.999, -0.999, 1.5))
        b = r.choice((0, -1, 1, 0.5, -0.5, 0.999, -0.999, 1.5, 2))
    elif k < 0.85:
        a = r.choice((-1, 1)) * r.randint(0, 10 ** r.randint(3, 15))
        b = a + r.choice((-1, 1, 1)) * r.randint(0, 10 ** r.randint(0, 15))
    else:
        a = r.choice((0, 2 ** 31, -2 ** 31, 2 ** 31 - 1, 2 ** 32, -2 ** 32, 2 ** 52, -2 ** 52, 10 ** 15, 2 ** 31 + 0.5, 2 ** 63))
        b = r.choice((0, 2 ** 31, -2 ** 31, 2 ** 31 + 1, 2 ** 32, 2 ** 33, 2 ** 52, 10 ** 15, 10 ** 9, 2 ** 62))
    return a, b


def run():
    ck = vf.Check('C25', rule='single draws for random bounds (offset from the lower bound printed), long series of draws over small ranges in tables: range, integrality, coverage, frequencies '
                  'of values and of successive pairs; distinct (bounds, value)', min_cases=3000)
    r = ck.rng
    # single draws
    ses = []
    for _ in range(ck.n(400, 4000)):
        bs = [bounds(r) for _ in range(20)]
        lines = []
        for a, b in bs:
            lines.append('rand(%s, %s) - %s' % (lit(a), lit(b), lit(math.trunc(a))) if r.random() < 0.7 else 'rand(%s, %s)' % (lit(a), lit(b)))
        ses.append(vf.Session(lines, variant=vf.NORULES, time=r.randint(1, 2 ** 31), meta=bs, rare=r.choice((0, 0, 2, 5))))
    # long series
    series = []
    for _ in range(ck.n(100, 800)):
        a = r.choice((0, 0, 1, -3, -1, 5, -7, 100, -1000, 2.5, -2.5, 2 ** 31, -2 ** 33))
        n = r.choice((1, 2, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 25))
        rows = 60 * n * max(1, min(n, 6))
        if r.random() < 0.08:
            n = r.choice((257, 1000, 1025, 1500, 2500))
            rows = -(-30 * n // 1500) * 1500
        b = math.trunc(a) + n + (r.choice((0, 0.25, 0.75)) if math.trunc(a) + n >= 0 else -r.choice((0, 0.25, 0.75)))
        a2 = a
        series.append(vf.Session(['table rand(%s + frac(x), %s) ; 1 ; %d ; 1' % (lit(a2), lit(b), min(rows, 1500) if n > 100 else rows)] * (rows // 1500 if n > 100 else 1), variant=r.choice((vf.RULES, vf.NORULES)), time=r.randint(1, 2 ** 31), meta=(a, b, n, rows)))
    # ranges too wide to see every value: tenths of the range and residues
    wide = []
    for _ in range(ck.n(24, 200)):
        a = r.choice((0, 0, 1, -5, 1000, -10 ** 6, 2 ** 31))
        n = r.choice((2 ** r.randint(14, 31), 10 ** r.randint(4, 7), r.randint(20000, 3 * 10 ** 7)))
        wide.append(vf.Session(['table rand(%s + frac(x), %s) ; 1 ; 800 ; 1' % (lit(a), lit(a + n))], variant=vf.NORULES, time=r.randint(1, 2 ** 31), meta=(a, n)))
    # other commands do not start the series of numbers again
    OTHER = [['1+1'], ['f(x)=x+1', 'f(2)'], ['help'], ['clear'], ['load simplification ' + 'rules'], ['load simplification nofile'], ['load file'], ['table x ; 1 ; 3 ; 1'],
             ['table rand(0, x) ; 1 ; 3 ; 1 fold x+y ; 0'], ['rand(1, 0)'], ['rand(0, 1)'], ['1/0'], ['help operators'], ['license'], ['g = 4', 'clear g']]
    again = []
    for _ in range(ck.n(60, 400)):
        o = r.choice(OTHER) + (r.choice(OTHER) if r.random() < 0.5 else [])
        again.append(vf.Session(['rand(0, 2000000000)'] * 6 + o + ['rand(0, 2000000000)'] * 6, variant=r.choice((vf.RULES, vf.NORULES)), time=r.randint(1, 2 ** 31),
                                files={'rules': chaos.RULESET, 'file': '2\n3+4\n'}, meta=o))
    same = [vf.Session(['rand(0, 2000000000)'] * 4, variant=vf.NORULES, time=1000 + 7 * i) for i in range(12)]
    res = vf.run_sessions(ses + series + same + wide + again)
    for x in res[:len(ses)]:
        s = x.session
        for i, (a, b) in enumerate(s.meta):
            line = s.lines[i]
            st = x.step(i)
            lo, hi = math.trunc(a), math.trunc(b)
            if st is None or i == len(s.lines) - 1 and not x.clean:
                ck.violation('%s: %s' % (line, x.describe()), 'draw:' + line, s)
                break
            v = printed_value(st[0])
            if v is None or st[1]:
                ck.violation('%s answers %r' % (line, st), 'draw:' + line, s)
                continue
            off = v if ' - ' in line else v - lo
            ck.case((line, v), '%s: %r' % (line, v))
            if hi - lo < 1:
                ck.count('empty_ranges')
                want = -1 - lo if ' - ' in line else -1
                if not ref.close(v, float(want), 6e-10):
                    ck.violation('%s: no integer lies between the bounds, the answer is %r' % (line, v), 'draw:' + line, s)
                continue
            ck.count('draws')
            if abs(lo) > 2 ** 52 or abs(hi) > 2 ** 52:
                tol = max(abs(lo), abs(hi)) * 1e-9
            else:
                tol = 6e-10 * max(abs(off), abs(v)) if abs(v) >= 1e10 else 0
            if off < -tol or off > hi - lo - (1 if tol == 0 else 0) + tol:
                ck.violation('%s: %r is not within the bounds' % (line, v), 'draw:' + line, s)
            if abs(v) < 1e10 and off != math.floor(off) and abs(lo) < 2 ** 52:
                ck.violation('%s: %r is no integer' % (line, v), 'draw:' + line, s)
    for x in res[len(ses):len(ses) + len(series)]:
        s = x.session
        a, b, n, rows = s.meta
        line = s.lines[0]
        st = (x.out, x.err)
        if not x.clean or st[1]:
            ck.violation('%s: %s' % (line, x.describe() if not x.clean else st[1]), 'series:' + line, s)
            continue
        vs = [float(l.split()[-1]) - math.trunc(a) for l in st[0].decode().splitlines() if l.strip()]
        if len(vs) != rows:
            ck.violation('%s: %d draws instead of %d' % (line, len(vs), rows), 'series:' + line, s)
            continue
        ck.count('series')
        ck.count('series_draws', rows)
        ck.case((line, tuple(vs[:20])), '%s: %s' % (line, vs[:10]))
        wrong = [v for v in vs if not (0 <= v < n and v == math.floor(v))]
        if wrong:
            ck.violation('%s: values %r outside of the range of %d integers from %d' % (line, wrong[:5], n, math.trunc(a)), 'series:' + line, s)
            continue
        missing = [k for k in range(n) if k not in vs]
        if missing:
            ck.violation('%s: %d draws never yield %r' % (line, rows, [math.trunc(a) + k for k in missing]), 'series:' + line, s)
            continue
        # frequencies of values, and of pairs of successive ones
        for what, keys, m in (('values', vs, n), ('successive pairs', list(zip(vs[::2], vs[1::2])), n * n)):
            if m > 1 and len(keys) >= 5 * m:
                c = {}
                for k in keys:
                    c[k] = c.get(k, 0) + 1
                e = len(keys) / m
                chi = sum((k - e) ** 2 / e for k in c.values()) + (m - len(c)) * e
                # Wilson-Hilferty: about normal; 7 standard deviations
                d = m - 1
                z = ((chi / d) ** (1 / 3) - (1 - 2 / (9 * d))) / math.sqrt(2 / (9 * d))
                ck.count('frequency_tests')
                if z > 7:
                    ck.violation('%s: frequencies of %s differ strongly from even ones: %r' % (line, what, sorted(c.items())[:20]), 'series:' + line, s)
                    break
    seqs = [x.out for x in res[len(ses) + len(series):][:len(same)]]
    ck.case(tuple(seqs))
    if len(set(seqs)) < 10:
        ck.violation('only %d different series in 12 sessions started at different times: %r' % (len(set(seqs)), seqs[:2]), 'seed', same[0])
    res = res[len(ses) + len(series) + len(same):]
    for x in res[:len(wide)]:
        s = x.session
        a, n = s.meta
        line = s.lines[0]
        if not x.clean or x.err:
            ck.violation('%s: %s' % (line, x.describe() if not x.clean else x.err), 'series:' + line, s)
            continue
        vs = [float(l.split()[-1]) - a for l in x.out.decode().splitlines() if l.strip()]
        wrong = [v for v in vs if not (0 <= v < n and v == math.floor(v))]
        if wrong or len(vs) != 800:
            ck.violation('%s: %d draws, outside of the range: %r' % (line, len(vs), wrong[:5]), 'series:' + line, s)
            continue
        ck.case((line, tuple(vs[:20])), '%s: %s' % (line, vs[:10]))
        ck.count('wide_series')
        for what, m, f in (('tenths of the range', 10, lambda v: v * 10 // n), ('residues modulo 2', 2, lambda v: v % 2), ('residues modulo 16', 16, lambda v: v % 16)):
            c = {}
            for v in vs:
                c[f(v)] = c.get(f(v), 0) + 1
            e = len(vs) / m
            chi = sum((k - e) ** 2 / e for k in c.values()) + (m - len(c)) * e
            d = m - 1
            z = ((chi / d) ** (1 / 3) - (1 - 2 / (9 * d))) / math.sqrt(2 / (9 * d))
            ck.count('frequency_tests')
            if z > 7:
                ck.violation('%s: frequencies of %s differ strongly from even ones: %r' % (line, what, sorted(c.items())[:20]), 'series:' + line, s)
                break
    for x in res[len(wide):]:
        s = x.session
        if not x.clean:
            ck.violation('%s: %s' % (s.lines, x.describe()), 'again:%r' % s.meta, s)
            continue
        one = [x.step(i) for i in range(6)]
        two = [x.step(len(s.lines) - 6 + i) for i in range(6)]
        ck.case((tuple(s.meta), tuple(one)))
        ck.count('series_continued')
        if one == two:
            ck.violation('after %r the series of random numbers starts again: %r' % (s.meta, one), 'again:%r' % s.meta, s)
    ck.finish()
