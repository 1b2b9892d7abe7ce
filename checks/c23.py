"""C23: running out of memory ends the program cleanly."""
import chaos, gen, rulefile, sess, vf
from common import *

FIXED = [
    (['f(x, y) = x^2 + 2x y - sin(y)', 'k = f(2, 3)', 'g(x) = f(x, k) + f(k, x)', 'g(g(2))', 'clear f', 'f', 'g(1) + @0', 'help', 'clear', 'help', 'quit'], 0),
    (['sum(1,2,3,max(4,5,min(6,7,8)),avg(),prod(1,(2),{3}))', 'var(1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20)', '(((((((((((1+2)*3)^2)!)%)-4)/5)*6)*7)*8)*9)', '-+-+-+x y z', '1 2 3', "@0 + ans"], 0),
    (['1 +', ')', 'sin(1,2)', 'f(x) = ', 'f(2) = 3', '1/0', 'f(x,x)=1', 'sqrt(-1)', '@99', 'clear nope', 'foo(x', 'x = = 2', '1.2.3', 'load nofile', 'load simplification nofile', 'table x;1;2', 'a~b'], 0),
    (['table x^2 + x ; -2 ; 3 ; 0.5', 'table sin(x) ; 0 ; 2 ; 1 fold x + y ; 0', 'table x! ; 0 ; 4 ; 1', 'table 1/x ; -1 ; 1 ; 1', 'f(x) = x + 1', 'table f(x) ; 1 ; 5 ; 1 fold max(x, y) ; f(0)'], 0),
    (['help', 'help operators', 'license', 'longername(p, q, r, s, t, u, v, w, xx, yy) = p+q+r+s+t+u+v+w+xx+yy', 'longername(1,2,3,4,5,6,7,8,9,10)', 'help'], 1),
    (['load cmds', 'v', 'load cmds2', 'f(1)', 'load simplification rules', 'max(1, a, a)', 'load simplification bad', 'max(1, a)', 'f(x) + 0'], 0),
    (['load simplification few', 'x + 0', 'f(x) = x*1 + 0', 'f(y)', "deriv(x, x)", "(x^2)'", 'load simplification few', '2 + 2', 'table f(x) + 0 ; 1 ; 3 ; 1'], 1),
    (['a%d = %d' % (0, 0)] + [n + ' = 1' for n in sess.NAMES] + ['clear ' + n for n in sess.NAMES[:5]] + ['sinn + ff', 'clear'], 0),
    (['1' * 60 + '+' + 'verylongvariablename' * 8, 'x' * 300, ' ' * 100 + '1', '1 + (2'], 1),
]
FEW = b'RULESET\n  x + 0 -> x\n +x -> x\nRULESET\n deriv(x, x) -> 1\n deriv(x^cx, x) -> cx*x^(cx-1) WHERE type(cx) == CONST\nRULESET\n x*1 -> x\n' + b'RULESET\n' * 4 + b'# end'
FILES = {'cmds': 'v = 3\nf(x) = v x\nload deeper\n1/0\n# c\n', 'cmds2': 'f(2)\n\nquit', 'deeper': 'f(3) + 1', 'rules': rulefile.canonical(rulefile.read(b'RULESET\nmax(1, x, [xs]) -> min(x, [xs], 7) WHERE type(x) != CONST ; TRUE\n' + b'RULESET\n' * 6)),
         'bad': 'RULESET\nmax(1, x) -> x WHERE x == 1 ; y == 2\n' + 'RULESET\n' * 6, 'few': FEW}


def sessions(ck):
    r = ck.rng
    res = [vf.Session(l, tty=t, files=FILES, variant=vf.NORULES) for l, t in FIXED]
    res.append(vf.Session([], args=['-i', '-q', '-c', 'f(x) = x + 1', 'load cmds', 'nope(1'], files=FILES, variant=vf.NORULES))
    res.append(vf.Session(['1 + 1'], args=['--interactive', '--commands', 'f(x) = x + 1', 'f(2)'], files=FILES, variant=vf.NORULES, tty=1))
    res.append(vf.Session([], args=['-x'], variant=vf.NORULES))
    res.append(vf.Session(['x + x + 3', "deriv(sin(x)^2/x, x)", 'f(x) = 2x + x', "f(y)'", '(a - b)^2', 'load simplification bad', 'x*y*x', 'a + b - a'], files=FILES, variant=vf.RULES))
    for i in range(ck.n(12, 60)):
        g = sess.SessGen(r, tame=r.random() < 0.5, hist=0.2)
        rules = i % 4 == 0
        lines = [g.command(bad=0.25, tables=0.1, clears=0.15).replace('\n', ' ') for _ in range(r.choice((3, 6, 10)))]
        if rules:
            lines = lines[:3]
        res.append(vf.Session(lines, tty=i % 2, files=FILES, variant=vf.RULES if rules else vf.NORULES))
    for s in res:
        s.budget, s.timeout = 200_000_000, 60
    return res


def copy(s, k):
    return vf.Session(s.lines, s.args, s.tty, s.files, k, s.time, s.budget, s.timeout, variant=s.variant)


def run():
    ck = vf.Check('C23', level='exploration', rule='sessions that exercise every command, repeated with the k-th allocation failing (every k for sessions without the shipped rules, a random sample with them); '
                  'the run must end like the undisturbed one or with a diagnostic, failure status and a prefix of its output; distinct (session, k)', min_cases=2000)
    r = ck.rng
    base = [b for b in vf.run_sessions(sessions(ck)) if not b.budget_hit]
    todo = []
    for b in base:
        if not b.clean:
            ck.violation('%r: %s' % (b.session.lines, b.describe()), 'base:' + repr(b.session.lines), b.session)
            continue
        n = b.final.allocs
        ck.count('allocation_points', n)
        limit = ck.n(500, 10 ** 9 if b.session.variant == vf.NORULES else 8000)
        ks = range(1, n + 1)
        if n > limit:
            # the beginning and the end of a session are always included
            ks = sorted(set(list(range(1, 41)) + list(range(n - 40, n + 1)) + r.sample(ks, limit - 81)))
        todo += [(b, k) for k in ks]
    ck.count('sessions', len(base))
    for (b, k), x in zip(todo, vf.run_sessions([copy(b.session, k) for b, k in todo])):
        s = b.session
        what = '%r %r with allocation %d of %d failing' % (s.args, s.lines, k, b.final.allocs)
        bad = lambda m: ck.violation('%s: %s' % (what, m), 'alloc:%r:%d' % (s.lines, k), x.session)
        ck.case((tuple(s.lines), tuple(s.args), k), '%s: exit status %s, %r' % (what[:200], x.exit_code, x.err[-60:]))
        if x.failed_allocs == 0:
            # allocations may depend on addresses only; nothing failed then
            ck.count('nothing_failed')
            if not x.clean:
                bad(x.describe())
            continue
        if x.budget_hit or x.timed_out or x.exit_code not in (0, 1):
            bad(x.describe())
            continue
        if (x.out, x.err, x.exit_code) == (b.out, b.err, b.exit_code):
            ck.count('completed_normally')
            continue
        ck.count('ended_with_diagnostic')
        if x.exit_code == 0:
            bad('ends with success, but other output %r %r' % (x.out[-200:], x.err[-200:]))
            continue
        if not b.out.startswith(x.out):
            i = next((i for i in range(min(len(x.out), len(b.out))) if x.out[i] != b.out[i]), len(b.out))
            bad('prints %r instead of %r' % (x.out[max(0, i - 20):i + 60], b.out[max(0, i - 20):i + 60]))
            continue
        i = next((i for i in range(min(len(x.err), len(b.err))) if x.err[i] != b.err[i]), min(len(x.err), len(b.err)))
        if b'memory' not in x.err[max(0, i - 60):].lower():
            bad('ends with failure, but without diagnostic: %r' % x.err[-200:])
        elif x.err[i:].count(b'\n') > 1:
            bad('prints %r after the failure' % x.err[i:][:300])
    ck.finish()
