"""Hostile sessions: everything the program may be fed, well-formed or not."""
import os
import gen, sess, vf

WEIRD = ['inf', 'nan', '-inf', '-nan', '10^308*10', '2^63', '-2^63', '2^64', '2^31', '-2^31', '2^53', '10^300', '10^-300', '0', '-0', '0.5', '-0.5', '-1', '1', '171', '170', '1e5',
         '4294967296', '18446744073709551616', '9223372036854775807', '-9223372036854775809', '0.1', 'x', 'x-x', '(1/3)', '2147483647', '2147483648', '-2147483649']
RULESET = open(os.path.join(vf.REPO, 'simplification.ruleset'), encoding='utf-8').read().encode()


def rand_bytes(r, n):
    k = r.random()
    if k < 0.3:
        return bytes(r.choice(b for b in range(1, 256) if b != 10) if False else r.choice([x for x in (r.randint(1, 255),) if x != 10] or [32]) for _ in range(n))
    if k < 0.6:
        return bytes(r.choice(b'()+-*/^!%\'$@{},.;=# 0123456789abcxyzCmodeinfat[]_"\t\r\\~&|<>?') for _ in range(n))
    return b''.join(r.choice([b'table ', b';', b' fold ', b'clear ', b'load ', b'simplification ', b'=', b'f(x)', b'sin', b'(', b')', b'x', b'1', b',', b' ', b'help', b'operators', b'license', b'quit ',
                              b'deriv(', b"'", b'@', b'ans', b'C', b'mod', b'#', b'\x1b[1;34m', b'\x1b[', b'%s', b'%n', b'%*d', b'max(', b'inf', b'nan']) for _ in range(max(1, n // 3)))


def extreme_call(r):
    w = lambda: r.choice(WEIRD)
    k = r.random()
    if k < 0.35:
        return '%s(%s)' % (r.choice(gen.FN1), w())
    if k < 0.5:
        return '%s(%s, %s)' % (r.choice(gen.FN2 + ['rand', 'rand']), w(), w())
    if k < 0.6:
        return '%s(%s)' % (r.choice(gen.FNN), ','.join(w() for _ in range(r.randint(0, 6))))
    if k < 0.8:
        return '(%s) %s (%s)' % (w(), r.choice(list(gen.INFIX)), w())
    if k < 0.86:
        return '(%s)%s' % (w(), r.choice("!%'"))
    if k < 0.93:
        return '@(%s)' % w()
    return 'deriv(%s, %s)' % (r.choice(['x^%s' % w(), '%s(x)' % r.choice(gen.FN1), 'x%s' % r.choice('!%'), w(), 'x*y', '%s^x' % w()]), r.choice(['x', 'y', '1', 'x+1', 'sin(x)']))


def long_line(r):
    n = r.randint(20, 400)
    k = r.randint(0, 11)
    if k == 0:
        return '(' * n + '1' + ')' * r.choice((n, n, n - 1))
    if k == 1:
        return '+'.join(str(i) for i in range(n))
    if k == 2:
        return '-' * n + '1'
    if k == 3:
        return 'sum(' + ','.join('x' if r.random() < 0.1 else str(i) for i in range(n % 14)) + ')'
    if k == 4:
        return '1' + '!' * min(n, 40)
    if k == 5:
        return 'sin(' * min(n, 150) + 'x' + ')' * min(n, 150)
    if k == 6:
        return 'a' * n + '(x) = x'
    if k == 7:
        return '^'.join(['1'] * n)
    if k == 8:
        return '1' * n + '.' + '3' * n
    if k == 9:
        return ' ' * n + '1' + ' ' * n
    if k == 10:
        return 'f(' + ','.join('p' + chr(97 + i % 26) + chr(97 + i // 26 % 26) for i in range(r.choice((9, 10, 11, 30)))) + ') = 1'
    return '$' * min(n, 100) + '1'


def rules_file(r):
    """Damaged or synthetic rule file"""
    k = r.random()
    if k < 0.15:
        return RULESET
    lines = RULESET.split(b'\n')
    if k < 0.6:
        for _ in range(r.randint(1, 6)):
            i = r.randrange(len(lines))
            j = r.random()
            if j < 0.2:
                del lines[i]
            elif j < 0.4:
                lines.insert(i, lines[r.randrange(len(lines))])
            elif j < 0.9:
                lines[i] = vf.b(gen.mutate(r, lines[i].decode('latin-1')))
            else:
                lines[i] = rand_bytes(r, r.randint(1, 40))
        return b'\n'.join(lines)
    if k < 0.7:
        d = bytearray(RULESET)
        for _ in range(r.randint(1, 4)):
            p = r.randrange(len(d))
            d[p] = r.randint(0, 255)
        if r.random() < 0.4:
            del d[r.randrange(len(d)):]
        return bytes(d)
    out = []
    if r.random() < 0.1:
        out += [b'RULESET'] * r.choice((1, 8, 9, 20, 300))
    vs = ['x', 'y', 'cx', '[xs]', '[ys]'] if r.random() < 0.8 else ['v' + c for c in 'abcdefghijklm'] + ['[xs]', '[ys]', '[zs]']
    for _ in range(r.choice((6, 7, 7, 7, 7, 8))):
        out.append(b'RULESET')
        for _ in range(r.randint(0, 3)):
            a = gen.ExprGen(r, vars=vs, deriv=0.05, glue=0, lit=lambda r: str(r.randint(0, 3)), prefix=('-', '+'), spaces=0, max_args=6, p_var=0.8,
                            fn1=['sin', 'ln', 'abs'], fnn=['sum', 'sum', 'prod', 'max']).expr(r.choice((1, 2, 3, 4, 14)))
            o = vf.b('  %s -> %s' % (a, r.choice(['x', '0', a, 'sum(x,y)', 'prod([xs])', 'y', 'sum([xs],x)', '[xs]', '1'])))
            if r.random() < 0.3:
                o += vf.b(' WHERE ' + ' ; '.join(condition(r) for _ in range(r.choice((1, 1, 2, 3, 4)))))
            if r.random() < 0.05:
                o = rand_bytes(r, 5) + o
            out.append(o + r.choice([b'', b'', b'  # comment']))
    return b'\n'.join(out)


def condition(r, depth=2):
    t = lambda: r.choice(['x', 'y', 'cx', '[xs]', '1', '0', '2', 'type(x)', 'type(y)', 'CONST', 'VAR', 'OP', 'x+1', 'sum([xs])', 'x mod 2', 'type([xs])'])
    k = r.randint(0, 9)
    if k < 5 or depth == 0:
        return '%s %s %s' % (t(), r.choice(['==', '!=', '<', '>', '<=', '>=']), t())
    if k == 5:
        return 'equal(%s, %s)' % (t(), t())
    if k == 6:
        return '%s || %s' % (condition(r, depth - 1), condition(r, depth - 1))
    if k == 7:
        return '!(%s)' % condition(r, depth - 1)
    return r.choice(['TRUE', 'FALSE', 'type(x) == CONST', '1/0 == 1', 'count([xs]) == 2', '!equal(x,y)'])


def line(r, g, depth=0):
    k = r.random()
    if k < 0.30:
        return g.command(bad=0.3, tables=0.1, clears=0.1)
    if k < 0.45:
        return extreme_call(r)
    if k < 0.60:
        return gen.mutate(r, g.command(bad=0.1, tables=0.2))
    if k < 0.72:
        return rand_bytes(r, r.randint(1, 60))
    if k < 0.82:
        return gen.token_soup(r, r.randint(1, 25))
    if k < 0.86:
        return long_line(r)
    if k < 0.93:
        e = gen.ExprGen(r, vars=['x', 'y', 'foo'], deriv=0.3, wild=True, hist=0.1, prefix=('-', '+', '$', '@'), postfix=('!', '%', "'"), userfuncs=list(g.defs.items())).expr(r.randint(1, 8))
        return e
    if k < 0.97:
        return r.choice(['load cmds', 'load rules', 'load simplification rules', 'load simplification ' + vf.REPO + '/simplification.ruleset', 'load self', 'load simplification cmds', 'load nope', 'load ', 'load /',
                         'load simplification /', 'load simplification ', 'load empty', 'load simplification empty', 'load nonl'])
    return r.choice(['help', 'help operators', 'license', 'clear', 'table', 'load', '', ' ', '#', 'quit '])


def clean(l):
    l = vf.b(l).replace(b'\n', b' ')
    return l


def safe(l):
    """Keeps tables within a few thousand rows (long tables are legitimate but not what is tested here)"""
    return l


def session(r, tty=None):
    g = sess.SessGen(r, hist=0.15)
    n = r.choice((3, 8, 15, 30))
    files = {}
    if r.random() < 0.5:
        files['cmds'] = b'\n'.join(clean(line(r, g)) for _ in range(r.randint(0, 8))) + r.choice([b'', b'\n', b'\nquit\n', b'\n\n\x00\n'])
        files['rules'] = rules_file(r)
        files['empty'] = b''
        files['nonl'] = clean(line(r, g))
    lines = [clean(line(r, g)) for _ in range(n)]
    lines = [l for l in lines if b'self' not in l]
    if files and r.random() < 0.5:
        for _ in range(r.randint(1, 2)):
            lines.insert(r.randint(0, len(lines)), b'load simplification rules')
        lines += [clean(gen.ExprGen(r, vars=['x', 'y'], deriv=0.1, fn1=['sin', 'ln'], lit=lambda r: str(r.randint(0, 3)), p_var=0.6).expr(r.randint(1, 6))) for _ in range(4)]
    args = []
    if r.random() < 0.15:
        args = r.choice([['-i'], ['-q'], ['-c'] + [clean(line(r, g)).replace(b'\0', b'') for _ in range(3)], ['-i', '-q', '-c', '1+1'], ['-h'], ['-v'], ['-x'], ['--', '-c'],
                         ['-i', '-c'] + [clean(line(r, g)).replace(b'\0', b'') for _ in range(2)], ['--quiet', '--interactive', '--commands', 'f(x)=x']])
    if tty is None:
        tty = int(r.random() < 0.2)
    raw = r.random() < 0.1
    if raw:
        blob = b'\n'.join(lines)
        lines = [l + b'\n' for l in blob.split(b'\n')]
        lines[-1] = lines[-1][:-1]
        if r.random() < 0.2:
            lines[r.randrange(len(lines))] += b'\0' + rand_bytes(r, 5) + b'\n'
    return vf.Session(lines, args=args, tty=tty, files=files, variant=vf.RULES if r.random() < 0.5 else vf.NORULES, raw=raw, time=r.randint(1, 10 ** 9), budget=30_000_000, timeout=20)
