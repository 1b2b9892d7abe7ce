"""C04: structure of accepted expressions and tokenising."""
import itertools, random
import api, gen, ref, vf
from common import *

USER = {'uf': 1, 'ug': 2, 'uconst': 0, 'umany': None, 'sinus': 1, 'ab': 1, 'max_': 2}
ALPHA = ['2', 'x', '+', '-', '*', '^', '/', '!', "'", '(', ')', ',', 'sin', 'C', '@', '$', 'sum', 'pi']


def funcs():
    f = dict(ref.FUNCS)
    f.update(USER)
    return f


def space_variants(r, s):
    """Same tokens, other spacing"""
    toks = [t for t in ref.tokenize(s) if not t.startswith(' ')]
    out = toks[0] if toks else ''
    for a, b in zip(toks, toks[1:]):
        glued = ref.tokenize(a + b) == [a, b]
        out += ('' if glued and r.random() < 0.6 else ' ' * r.choice((1, 1, 2, 4))) + b
    return ' ' * r.choice((0, 0, 1, 3)) + out + ' ' * r.choice((0, 0, 1, 2))


def cases(ck):
    r = ck.rng
    out = []
    for k in (1, 2, 3, 4):
        out += [' '.join(c) if 'sin' in c or 'sum' in c or 'pi' in c or 'C' in c else ''.join(c) for c in itertools.product(ALPHA, repeat=k)] if k < 4 else \
               [' '.join(r.choice(ALPHA) for _ in range(r.randint(4, 6))) for _ in range(ck.n(20000, 200000))]
    # every pair and triple of operators
    ops = [' %s ' % o for o in ref.INFIX] + ['']
    for a, b, c in itertools.product(ops, ops, ops):
        for pre, post in ((' -', ''), ('', '!'), ('@', ''), ('', "'"), ('$', ''), ('', '')):
            j = lambda l, o, x: l + (o if o else ' ') + x
            out.append(j(j(j('x', a, pre + 'y'), b, 'z' + post), c, pre + 'w' + post))
    for _ in range(ck.n(22000, 260000)):
        g = gen.ExprGen(r, vars=gen.VARS, prefix=('-', '+', '$', '@'), postfix=('!', '%', "'"), userfuncs=[(k, v) if v is not None else (k, r.randint(0, 4)) for k, v in USER.items()],
                        deriv=0.05, hist=0.05, spaces=r.choice((0, 0.2, 0.6)), glue=r.choice((0.1, 0.4)))
        s = g.expr(r.choice((2, 3, 4, 5, 8, 12, 20, 40 if r.random() < 0.1 else 6)))
        out.append(s)
        if r.random() < 0.3:
            out.append(space_variants(r, s))
    for _ in range(ck.n(3000, 30000)):
        out.append(''.join(r.choice(['1', '2', '.', 'a', 'b', 'C', 'mod', ' ', '_', '[', ']', '+', '-', '(', ')', 'sin', 'sinx', 'xsin', 'pi', 'pie', 'inf', 'nan', ',', '%', '!', "'", '\xe4', '~', '1e5', '0x1F'])
                           for _ in range(r.randint(1, 9))))
    out += [gen.long_text(r) for _ in range(ck.n(300, 3000))]
    n = ck.n(300, 3000)
    out += ['(' * n + 'x' + ')' * n, '-' * n + 'x', 'x' + '!' * n, '+'.join(['x'] * n), '^'.join(['x'] * n), 'sum(' + ','.join(['x'] * n) + ')', 'sin(' * n + 'x' + '}' * n, 'x ' * n, '$-' * n + 'x']
    return out


def run():
    ck = vf.Check('C04', rule='parse trees and tokens of the real parser compared with a precedence-climbing reference parser; distinct accepted texts', min_cases=2000)
    f = funcs()
    texts = cases(ck)
    setup = [('U', api.s(k) + api.u32(0xffffffff if v is None else v)) for k, v in USER.items()]
    reqs, back = [], []
    per = 2500
    for i in range(0, len(texts), per):
        for q in setup:
            reqs.append(q)
            back.append(None)
        for t in texts[i:i + per]:
            reqs.append(('P', b'\0' + api.s(t)))
            back.append(t)
    for t, a in zip(back, api.run(reqs, per + len(setup))):
        if t is None:
            if isinstance(a, api.Crash):
                ck.violation('adding a function died: %s' % a.what, 'crash:U')
            continue
        if isinstance(a, api.Crash):
            ck.violation('%r: parser died: %s' % (t[:200], a.what), 'crash:' + t, t)
            continue
        toks = [a.s() for _ in range(a.u32())]
        if toks != ref.tokenize(t):
            ck.violation('%r: tokens %r, expected %r' % (t[:200], toks, ref.tokenize(t)), 'tokens:' + t, t)
            continue
        ck.count('tokens', len(toks))
        try:
            want = ref.parse(t, f)
        except ref.Reject:
            ck.count('malformed')
            continue
        if a.u8() != ord('K'):
            ck.violation('%r: rejected (error %d), is %s' % (t[:200], a.u32(), want), 'reject:' + t, t)
            continue
        got = a.tree()
        ck.case(t, '%s => %s' % (t, got) if len(t) < 60 else None)
        ck.count('nodes', got.size())
        if got != want:
            ck.violation('%r: parsed as %s, must be %s' % (t[:200], got, want), 'tree:' + t, t)
    session_part(ck)
    ck.finish()


def session_part(ck):
    """The same at the level of commands: an expression and its fully parenthesised form print the same"""
    r = ck.rng
    f = dict(ref.FUNCS)
    pairs = []
    for _ in range(ck.n(3000, 30000)):
        g = gen.ExprGen(r, vars=['x', 'y', 'foo'], fn1=['sin', 'abs', 'ln'], fn2=['log', 'root'], spaces=0.2, glue=0.3, lit=lambda r: str(r.randint(1, 30)))
        s = g.expr(r.randint(2, 7))
        pairs.append((s, ref.show(ref.parse(s, f))))
    per = 40
    ses = []
    for i in range(0, len(pairs), per):
        ses.append(vf.Session([x for p in pairs[i:i + per] for x in p], variant=vf.NORULES, meta=pairs[i:i + per]))
    for res in vf.run_sessions(ses):
        for i, (s, p) in enumerate(res.session.meta):
            a, b_ = res.step(2 * i), res.step(2 * i + 1)
            if a is None or b_ is None:
                ck.violation('%r: %s' % (s, res.describe()), 'crash:' + s, res.session)
                break
            ck.case(('cli', s))
            ck.count('command_pairs')
            if a != b_ and not (classify(*a)[0] == 'err' == classify(*b_)[0]):
                ck.violation('%r prints %r, but %r prints %r' % (s, a, p, b_), 'cli:' + s, vf.Session([s, p], variant=vf.NORULES))
