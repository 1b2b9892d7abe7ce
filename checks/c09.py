"""C09: a rejected command has no effect."""
import os
import chaos, gen, sess, vf
from common import *

RFILES = None


def rule_files(r):
    good = chaos.RULESET
    tiny = b'RULESET\n  x+x -> 77*x\n' + b'RULESET\n' * 6
    lines = good.split(b'\n')
    cut = list(lines)
    i = r.randrange(5, len(cut))
    cut.insert(i, r.choice([b'x ->', b'x y z', b'-> 3', b'x+ -> 2', b'x -> y', b'x -> 1 WHERE', b'x -> 1 WHERE y == 2', b'x -> 1 WHERE type(', b'sum(a,b,c,d,e2,f,g,h,i,j,k) -> 1',
                            b'x -> 1 WHERE 1==1 ; 1==1 ; 1==1 ; 1==1', b'\t', b'x => 2', b')']))
    short = good[:good.rindex(b'RULESET')]
    return {'good': good, 'tiny': tiny, 'bad': b'\n'.join(cut), 'short': short, 'none': b'x -> 1\n', 'tinybad': b'RULESET\n  x+x -> 55*x\n x ->\n' + b'RULESET\n' * 6}


def make(r):
    rules = r.random() < 0.5
    g = sess.SessGen(r, tame=r.random() < 0.5, hist=0.15, names=sess.NAMES[:r.choice((4, 10, 32))])
    n = r.randint(3, 25)
    lines = []
    for _ in range(n):
        k = r.random()
        if k < 0.08:
            lines.append('load simplification ' + r.choice(['good', 'tiny', 'bad', 'short', 'none', 'tinybad', 'nofile', 'bad', 'tinybad']))
        elif k < 0.15:
            nm = r.choice(g.names)
            lines.append('%s(x) = %s' % (nm, r.choice(['x +', 'x/0', '%s(x)' % nm, 'yy_', 'sum(x', 'x)(', 'sqrt(-1)*x', '@99', 'deriv(x, 2)', "(x*x)'", "(x yy_)'"])))
        elif k < 0.2:
            lines.append(r.choice(['table %s ; 1 ; 3 ; 1 fold x+y ; 1/0', 'table %s ; 1 ; 3 ; 0', 'table %s ; 1 ; 3 ; 1 fold x+qq ; 0', 'table %s ; 1 ; 3', 'table %s + ; 1 ; 3 ; 1', 'table %s ; x ; 3 ; 1']) % g.value(2))
        else:
            lines.append(g.command(bad=0.3, tables=0.05, clears=0.08, define=0.25))
    names = sorted(set(g.names[:12]) | set(g.defs))
    probes = ['help', 'x_q + x_q', '(x_q+1)*(x_q+1) - x_q', 'deriv(x_q^3, x_q)', 'ans', '@1', '@2', '@3', '@7']
    for nm in names:
        probes += [nm, '%s(3)' % nm, '%s(3,4)' % nm]
    for nm in r.sample(names, min(4, len(names))):
        probes += ['%s = 5' % nm, nm, 'clear %s' % nm, nm]
    return vf.Session(lines, variant=vf.RULES if rules else vf.NORULES, files=rule_files(r), tty=int(r.random() < 0.05), meta=(len(lines), probes))


def rejected(line, st):
    """Observed to be rejected without having printed a result"""
    o, e = st
    return e != b'' and o.strip() == b''


def run():
    ck = vf.Check('C09', rule='each session is run again without the commands that were rejected; all other answers and a set of probes must be identical; distinct rejected commands', min_cases=1500)
    r = ck.rng
    first = []
    for _ in range(ck.n(1300, 14000)):
        s = make(r)
        first.append(s)
    second = []
    for res in vf.run_sessions(first):
        s = res.session
        n, probes = s.meta
        if not res.clean or len(res.recs) != n + 1:
            ck.violation('line %d %r: %s' % (len(res.recs) - 1, s.lines[max(0, len(res.recs) - 1):][:1], res.describe()), 'crash:' + '\n'.join(s.lines[:len(res.recs)]), s)
            continue
        ref_ = rejected_lines(s, res)
        if not ref_:
            continue
        both = vf.Session(s.lines + probes, variant=s.variant, files=s.files, tty=s.tty)
        keep = [i for i in range(n) if i not in ref_]
        without = vf.Session([s.lines[i] for i in keep] + probes, variant=s.variant, files=s.files, tty=s.tty, meta=(both, keep, ref_, n))
        second += [both, without]
        for i in ref_:
            ck.case((s.lines[i], i), s.lines[i])
    out = vf.run_sessions(second)
    for k in range(0, len(out), 2):
        a, b = out[k], out[k + 1]
        both, keep, ref_, n = b.session.meta
        bad = None
        for name, x in (('with', a), ('without', b)):
            if not x.clean or len(x.recs) != len(x.session.lines) + 1:
                bad = '%s rejected commands: %s' % (name, x.describe())
        if bad is None:
            pos = keep + list(range(n, len(both.lines)))
            for j, i in enumerate(pos):
                ck.count('answers_compared')
                if a.step(i) != b.step(j):
                    bad = '%r answered %r after the rejected commands %r, and %r without them' % (both.lines[i], a.step(i), [both.lines[q] for q in ref_ if q < i][-6:], b.step(j))
                    break
        if bad:
            ck.violation(bad, 'twin:' + '\n'.join(both.lines), both, extra={'rejected': ref_})
    ck.finish()


def rejected_lines(s, res):
    return [i for i, l in enumerate(s.lines) if rejected(l, res.step(i)) and not (l.startswith('load ') and not l.startswith('load simplification '))]
