"""C05: exactly the well-formed expressions are accepted."""
import itertools
import api, gen, ref, vf
from common import *

ALPHA = ['2', 'x', '+', '-', '*', '!', '(', ')', ',', 'sin', 'sum', 'pi', '$', 'gcd', '{', '1..2']
EVALUATION = (b'Division by zero', b'Complex solution', b'not set yet', b'differentiable', b'No evaluation')


# Texts that resemble commands but are none
NEAR = [' ', '   ', 'quit ', ' quit', 'quitx', 'quit quit', 'quit+1', '(quit)', 'help ', ' help', 'help me', 'helper', 'help operator', 'help operators ', ' help operators',
        'license ', ' license', 'licence', 'licenses', ' clear', 'clearx', 'clear_x', 'clear(x)', 'table', 'tables', 'table_x', ' table x ; y', 'tablex ; 1 ; 2 ; 3', 'load', ' load x', 'loadx',
        'load_x', 'load(2)', 'Quit', 'HELP', 'Clear', ' # note', '1 # note', 'x #', '2 + 2 ; 3', ';', '? x', '1 ? 2', 'fold x']


def is_command(t):
    return (t == '' or t[0] == '#' or '=' in t or t in ('help', 'help operators', 'license', 'quit', 'clear') or
            any(t.startswith(p) for p in ('table ', 'clear ', 'load ')) or '\n' in t or '\0' in t)


def cases(ck):
    r = ck.rng
    out = []
    for k in (1, 2, 3):
        out += [' '.join(c) for c in itertools.product(ALPHA, repeat=k)]
    out += [' '.join(r.choice(ALPHA) for _ in range(r.randint(4, 8))) for _ in range(ck.n(20000, 250000))]
    for _ in range(ck.n(26000, 260000)):
        g = gen.ExprGen(r, vars=gen.VARS[:8], prefix=('-', '+', '$', '@'), postfix=('!', '%', "'"), deriv=0.03, hist=0.05, spaces=r.choice((0, 0.3)))
        s = g.expr(r.randint(1, 9))
        k = r.random()
        if k < 0.55:
            s = single(r, s)
        elif k < 0.85:
            s = gen.mutate(r, s)
        out.append(s)
    for _ in range(ck.n(900, 9000)):
        s = gen.long_text(r)
        for _ in range(r.choice((0, 1, 1, 1, 2))):
            s = single(r, s)
        out.append(s)
    out += [gen.token_soup(r, r.randint(1, 10)) for _ in range(ck.n(6000, 60000))]
    for _ in range(ck.n(4000, 40000)):
        out.append(''.join(chr(r.randint(1, 255)) for _ in range(r.randint(1, 12))).replace('\n', ' '))
    out += NEAR * 3
    return [t for t in out if not is_command(t)]


def single(r, s):
    """Deletes, inserts, duplicates, swaps or changes one token"""
    t = ref.tokenize(s)
    if not t:
        return s
    i = r.randrange(len(t))
    k = r.randint(0, 5)
    if k == 0:
        del t[i]
    elif k == 1:
        t.insert(i, r.choice(gen.TOKENS))
    elif k == 2:
        t.insert(i, t[i])
    elif k == 3 and len(t) > 1:
        j = r.randrange(len(t))
        t[i], t[j] = t[j], t[i]
    elif k == 4:
        br = [j for j, x in enumerate(t) if x in '(){},']
        if br:
            t[r.choice(br)] = r.choice(['(', ')', '{', '}', ',', ''])
    else:
        t[i] = r.choice(gen.TOKENS)
    return ''.join(t)


def verdict(t):
    try:
        return ref.parse(t)
    except ref.Reject as e:
        return e


def run():
    ck = vf.Check('C05', rule='acceptance by the real parser and by whole sessions compared with a reference grammar; distinct texts', min_cases=2000)
    texts = cases(ck)
    for t, a in zip(texts, api.run([('P', b'\0' + api.s(t)) for t in texts], 2500)):
        if isinstance(a, api.Crash):
            ck.violation('%r: parser died: %s' % (t[:200], a.what), 'crash:' + t, t)
            continue
        for _ in range(a.u32()):
            a.s()
        ok = a.u8() == ord('K')
        w = verdict(t)
        ck.case(t, '%r %s' % (t, 'accepted' if ok else 'rejected') if len(t) < 50 else None)
        ck.count('accepted' if ok else 'rejected')
        if ok != isinstance(w, ref.Node):
            ck.violation('%r is %s, but %s' % (t[:200], 'accepted' if ok else 'rejected', 'malformed: %s' % w if ok else 'well-formed: %s' % w), 'accept:' + t, t)
    # sessions: diagnostics, output and exit status
    r = ck.rng
    pick = r.sample(texts, min(len(texts), ck.n(9000, 90000)))
    ses = []
    long = [t for t in pick if len(t) > 120]
    for i in range(0, len(long), 30):
        ses.append(vf.Session(long[i:i + 30], variant=vf.NORULES))
    pick = [t for t in pick if len(t) <= 120]  # long sums take long to simplify
    for i in range(0, len(pick), 30):
        ses.append(vf.Session(pick[i:i + 30], variant=vf.NORULES if r.random() < 0.7 else vf.RULES))
    for t in pick[:ck.n(250, 2500)] + [t for t in NEAR if not is_command(t)]:
        ses.append(vf.Session([t], variant=vf.NORULES))
    for res in vf.run_sessions(ses):
        failed = False
        for i, t in enumerate(res.session.lines):
            one = vf.Session([t], variant=res.session.variant)
            if res.step(i) is None or (i == len(res.recs) - 1 and not res.clean):
                ck.violation('%r: %s' % (t, res.describe()), 'crash:' + t, one)
                break
            got = outcome(res, i)
            failed = failed or got[0] != 'out'
            ck.count('lines_in_sessions')
            w = verdict(t)
            if isinstance(w, ref.Node):
                if got[0] != 'out' and not (got[0] == 'err' and any(m in got[1] for m in EVALUATION)):
                    # only with rules, a derivative may be malformed in other ways
                    if not (w.ops() & {"q'", 'fderiv'} and got[0] == 'err'):
                        ck.violation('%r is well-formed (%s), got %r' % (t, w, got), 'session:' + t, one)
            elif got[0] != 'err' or not got[1].endswith(b'\n'):
                ck.violation('%r is malformed (%s), got %r' % (t, w, got), 'session:' + t, one)
        else:
            if res.clean and res.exit_code != (1 if failed else 0):
                ck.violation('exit status %r although %s' % (res.exit_code, 'a line was rejected' if failed else 'no line was rejected'), 'status:' + '\n'.join(res.session.lines), res.session)
            ck.count('exit_status_failure' if failed else 'exit_status_success')
    arities(ck, r)
    ck.finish()


def arities(ck, r):
    """User-defined functions of every arity with every number of operands"""
    ses = []
    for a in range(1, 11):
        ps = ['v' + chr(97 + i) for i in range(a)]
        for rules in (vf.NORULES, vf.RULES):
            lines, want = ['ufun(%s) = %s' % (', '.join(ps), r.choice((' + '.join(ps), ps[-1], 'max(%s)' % ', '.join(ps), '3')))], ['none']
            for n in list(range(14)) + [20, 40]:
                for _ in range(ck.n(2, 12)):
                    args = [r.choice(['x', 'y', '2', '7.5', '(1+x)', 'max(1, 2, x)', 'sin(q)', '-z', '{2}', 'ufun(%s)' % ','.join('x' * a)]) for _ in range(n)]
                    lines.append(r.choice(['%s', '%s + 1', '2 * (%s)', 'max(x, %s, y)', '-%s', '%s!', 'sin(%s) - x', '{%s}^2']) % ('ufun(' + r.choice((', ', ',')).join(args) + ')'))
                    want.append('out' if n == a else 'err')
            ses.append(vf.Session(lines, variant=rules, meta=want))
    for res in vf.run_sessions(ses):
        for i, (t, w) in enumerate(zip(res.session.lines, res.session.meta)):
            one = vf.Session([res.session.lines[0], t], variant=res.session.variant)
            if res.step(i) is None or (i == len(res.recs) - 1 and not res.clean):
                ck.violation('%r: %s' % (t, res.describe()), 'crash:' + t, one)
                break
            got = outcome(res, i)
            ck.case((res.session.lines[0], t))
            ck.count('calls_of_user_functions')
            if got[0] != w and not (w == 'out' and got[0] == 'err' and any(m in got[1] for m in EVALUATION)):
                ck.violation('%r after %r: must be %s, got %r' % (t, res.session.lines[0], 'accepted' if w != 'err' else 'refused', got), 'arity:' + t, one)
