"""C10: definitions behave as a map from names to meanings."""
import itertools, re
import ref, sess, vf
from common import *
from model import Model

ANSI = re.compile(rb'\x1b\[[0-9;]*m')


def user_section(text):
    """[(left, right)] as listed by help"""
    text = ANSI.sub(b'', text)
    if b'User-defined functions and constants:\n' not in text:
        return []
    res = []
    for l in text.split(b'User-defined functions and constants:\n')[1].split(b'\n'):
        if b' = ' in l:
            a, z = l.split(b' = ', 1)
            res.append((a.strip().decode('latin-1'), z.strip().decode('latin-1')))
    return res


def head_name(left):
    return re.match(r'[A-Za-z_\[\]]*', left).group(0)


# exhaustive histories over few operations, all observable state probed after each
OPS = ['f(x) = x + 10', 'g(x) = 2*x', 'fg(x) = f(x) + g(x)', 'k = 7', 'clear f', 'clear g', 'clear fg', 'clear', 'f = 4', 'g(x) = f(x)', 'k(x, y) = x - y', 'clear k']
PROBES = ['f(3)', 'g(3)', 'fg(3)', 'k', 'k(5, 2)', 'f']


def exhaustive(ck):
    seqs = list(itertools.product(OPS, repeat=3))
    r = ck.rng
    if ck.thorough:
        seqs += list(itertools.product(OPS[:10], repeat=4))
    else:
        seqs += [tuple(r.choice(OPS) for _ in range(5)) for _ in range(700)]
    return [vf.Session([l for o in s for l in [o] + (PROBES if o is s[-1] or r.random() < 0.3 else ['f(3)', 'k'])] + PROBES + ['help'], variant=vf.NORULES) for s in seqs]


NASTY = ['s', 'si', 'sin', 'sinn', 'sinx', 'p', 'pi', 'pii', 'e', 'ee', 'C', 'CC', 'mo', 'mod', 'modx', 'x', 'xx', 'a', 'an', 'ans', 'anss', 'A', 'Sin', 'PI', 'ma', 'max', 'maxx', 'm', 'f', 'ff', 'fff', 'inf', 'nan', 'INF',
         'infinity', 'infx', '_', '__', '_f', 'f_', '[f]', '[f', 'clear', 'help', 'license', 'load', 'quit', 'table', 'de', 'deriv', 'derivx', 'gam', 'gamma', 'y', 'z']


def heads(r, g, names):
    """Left sides of all kinds"""
    n = r.choice(names)
    ps = r.sample(['x', 'y', 'z', 'a', 'b', 'c', 'n', 't', 'u', 'q', 'w', 'v'], r.choice((0, 1, 1, 2, 2, 3, 9, 10, 11, 12)))
    k = r.random()
    if k < 0.5:
        pass
    elif k < 0.6 and ps:
        ps[r.randrange(len(ps))] = r.choice(ps)
    elif k < 0.7 and ps:
        ps[r.randrange(len(ps))] = r.choice(['2', 'x+1', 'sin', 'sin(x)', '', '-x', '(x)', 'pi', n, '[x]', 'x y', 'f', "x'", '1x', 'ans', 'inf', '_x', 'xX'])
    elif k < 0.75:
        return r.choice(['(%s)', '%s(x)(y)', '%s(x', '%s x', '%s()', '2 %s', '%s + x', '-%s', '%s(x))', '%s{x}', '%s (x}', ' %s ( x ) ', '$%s', '%s()()', '', '%s,x', "%s'", '@%s', '%s!', '%s;', '%s 2', '3%s']).replace('%s', n)
    b = r.choice((0, 0, 0, 1))
    s = ' ' * r.choice((0, 0, 1))
    if not ps and r.random() < 0.8:
        return s + n + s
    return s + n + s + '({'[b] + (s + ',' + s).join(ps) + ')}'[b] + s


def family(r):
    """Names that share beginnings or ends, some of them long"""
    base = ''.join(r.choice('abkqzw_') for _ in range(r.choice((1, 3, 4, 7, 8, 9, 15, 16, 31, 32, 40, 63, 64, 100))))
    tails = r.sample(['', 'x', 'y', 'xy', '_', 'q', 'qq', 'qqq', 'xq', 'Q', 'qQ', 'w', 'ww'], 7)
    return [base + t for t in tails] + [t + base for t in r.sample(['x', 'y', 'Q'], 2)]


def lefts(ck):
    r = ck.rng
    out = []
    for _ in range(ck.n(700, 8000)):
        names = NASTY if r.random() < 0.8 else family(r) + ['x', 'sin', 'ans']
        g = sess.SessGen(r, names=names)
        lines = []
        for _ in range(r.randint(5, 25)):
            k = r.random()
            if k < 0.6:
                h = heads(r, g, names)
                body = r.choice(['1', '5', 'x', 'x+y', 'x*2', 'a+b+c', 'y', 'pi', 'sin(x)', 'x y', 'f(x)', 'ff', 'x^2 + z', '', 'x +', '= 2', 'x = 3', '1/0', 'anss', '3 4', 'maxx(x)', 'sinx + 1', 'n t', head_name(h.strip()) + '(x)'])
                if r.random() < 0.15:
                    # its own name somewhere within
                    n = h.count(',') + 1 if '(' in h else 0
                    own = head_name(h.strip()) + ('(' + ', '.join(r.choice(['x', 'y', '1', 'x+1']) for _ in range(n)) + ')' if n else '')
                    body = r.choice(['1 + %s', '%s + 1', 'sin(%s)', 'max(1, 2, %s)', 'max(%s, 1)', '-%s', '2*(1 - %s)^2', 'x*%s', 'sum(x, sum(1, %s))', 'f(%s)', '(1+2)*3 - %s', '%s!', '0*%s']) % own
                lines.append(h + '=' + r.choice(('', ' ')) + body)
            elif k < 0.75:
                lines.append('clear' + r.choice(('', ' ' + r.choice(names), ' ' + r.choice(names), ' ' + r.choice(names))) + r.choice(('', '', '', ' ')))
            else:
                n = r.choice([x for x in names if x not in ('quit', 'help', 'license', 'table', 'load', 'clear')])
                lines.append(r.choice(['%s', '%s(2)', '%s(2,3)', '%s + 1', '2%s', '%s(%s(2))', '%s x', '(%s)']).replace('%s', n))
        out.append(vf.Session(lines + ['help'], variant=vf.NORULES))
    return out


def histories(ck):
    r = ck.rng
    out = []
    for _ in range(ck.n(20, 150)):
        # a lot of definitions at once
        names = [''.join(r.choice('abkqzw_') for _ in range(r.randint(3, 6))) + 'Q' for _ in range(r.choice((20, 40, 70, 140)))]
        names = list(dict.fromkeys(names))
        lines = ['%s%s = %s' % (n, r.choice(('', '(x)', '(x, y)')), r.randint(0, 99)) for n in names]
        for k in range(r.randint(1, 3)):
            some = r.sample(names, 6)
            lines += some[:3] + [r.choice(('clear', 'clear', 'clear ' + some[3]))] + some[:5] + ['help', '%s = 3' % some[0], some[0]]
            if k == 0:
                lines += ['clear ' + n for n in r.sample(names, 5)] + ['%s(x) = x' % n for n in r.sample(names, 5)]
        out.append(vf.Session(lines + ['help'], variant=vf.NORULES))
    for _ in range(ck.n(900, 9000)):
        rules = r.random() < 0.4
        names = r.choice((sess.NAMES[:4], sess.NAMES[:10], sess.NAMES, family(r)))
        g = sess.SessGen(r, tame=rules, names=names, hist=0.05)
        lines = []
        for _ in range(r.randint(5, 40)):
            k = r.random()
            if k < 0.35:
                lines.append(g.definition())
            elif k < 0.45:
                # redefinition of an existing name: refused
                saved = dict(g.defs)
                lines.append(g.definition(name=r.choice(list(g.defs) or ['sin'])))
                g.defs = saved
            elif k < 0.65:
                lines.append(g.clear())
            elif k < 0.7:
                lines.append(g.bad())
            else:
                lines.append(g.value(3))
        out.append(vf.Session(lines + ['help'], variant=vf.RULES if rules else vf.NORULES))
    return out


def run():
    ck = vf.Check('C10', rule='histories of definitions and clears (exhaustive over short sequences of twelve operations, random over clashing names and odd left sides) compared with a map '
                  'model after every line and in the help listing; distinct (line, defined names)', min_cases=3000)
    for res in vf.run_sessions(exhaustive(ck) + lefts(ck) + histories(ck)):
        s = res.session
        m = Model(s.variant == vf.RULES)
        for i, line in enumerate(s.lines):
            st = res.step(i)
            if st is None or (i == len(res.recs) - 1 and not res.clean):
                ck.violation('line %d %r: %s' % (i, line, res.describe()), 'crash:' + '\n'.join(s.lines[:i + 1]), s)
                break
            if line == 'help':
                got = [head_name(a) for a, _ in user_section(st[0])]
                ck.count('listings_compared')
                if got != list(m.defs):
                    ck.violation('help lists %r, defined are %r' % (got, list(m.defs)), 'help:' + '\n'.join(s.lines[:i + 1]), s)
                    break
                continue
            before = tuple(m.defs)
            e, msg = m.step(line, outcome(res, i))
            if '=' in line or line.startswith('clear'):
                ck.case((line, before), '%s with %s: %s' % (line, list(before)[:6], 'accepted' if not st[1] else 'refused'))
                ck.count('accepted' if not st[1] else 'refused')
            if msg:
                ck.violation('line %d %r with %r defined: %s' % (i, line, list(before), msg), 'map:' + '\n'.join(s.lines[:i + 1]), s)
                break
    ck.finish()
