"""C13: results depend only on the definitions, the history and the loaded rules."""
import c02, c09, chaos, gen, ref, sess, vf
from common import *

PROBE_NAMES = ['f', 'g', 'h', 'k']
BAD = b'RULESET\n x ->\n' + b'RULESET\n' * 6


def files(r):
    return {'good': chaos.RULESET, 'bad': BAD, 'bad2': chaos.RULESET[:r.randint(0, 300)], 'failing': b'# nothing\n1+\n)\n', 'nop': b'# nothing\n\n',
            'tiny': b'RULESET\n  x+x -> 77*x\n  sin(x) -> 3*x WHERE type(x) == OP\n' + b'RULESET\n' * 6}


def definitions(r, tame):
    """Independent layers: the order within a layer is free"""
    g = sess.SessGen(r, tame=tame, hist=0)
    names = r.sample(['f', 'g', 'h', 'k', 'ff', 'w', 'sinn', 'pp', 'u_v'], r.randint(1, 5))
    cut = r.randint(1, len(names))
    layers = []
    for part in (names[:cut], names[cut:]):
        defs = []
        base = dict(g.defs)
        new = {}
        for n in part:
            g.defs = dict(base)
            defs.append(g.definition(name=n, arity=r.choice((0, 1, 1, 2, 3))))
            new[n] = g.defs[n]
        g.defs = dict(base, **new)
        layers.append(defs)
    return g, layers


def probes(r, g):
    p = []
    for _ in range(r.randint(4, 12)):
        k = r.random()
        if k < 0.3:
            p.append(g.value())
        elif k < 0.6:
            p.append(g.gen(vars=['x', 'y', 'n']).expr(r.randint(2, 6)))
        elif k < 0.7:
            p.append(gen.ExprGen(r, vars=['x', 'y'], infix=['+', '-', '*', '/', '^'], fn1=['sin', 'cos', 'ln', 'sqrt'], fn2=[], fnn=['sum', 'prod'], lit=lambda r: str(r.randint(0, 4)), userfuncs=list(g.defs.items())).expr(r.randint(3, 8)))
        elif k < 0.8:
            p.append('deriv(%s, x)' % gen.ExprGen(r, vars=['x', 'x', 'y'], infix=['+', '-', '*', '/', '^'], prefix=['-'], postfix=[], fn1=['sin', 'cos', 'ln', 'exp'], fn2=[], fnn=[], consts=[], lit=lambda r: str(r.randint(0, 4))).expr(r.randint(2, 5)))
        elif k < 0.85:
            p.append(g.table())
        elif k < 0.9:
            p.append(g.bad())
        elif k < 0.95:
            p.append(r.choice(['ans', '@1', '@0', '@2', 'ans + x']))
        else:
            p.append(r.choice(['zz = 3', 'zz(x) = x + 1', 'clear zz', 'clear', 'clear f', 'zz(4)']))
    return p


def noise(r, g, rules, k):
    out = []
    for _ in range(k):
        grp = c02.leaves_nothing(r, g, rules)
        for i, l in enumerate(grp):
            out.append((l, len(grp)))
    return out


def harmless(line, group, st):
    """The noise did what it was meant to: nothing that counts as state"""
    l = vf.b(line)
    if b'=' in l and not l.startswith((b'table ', b'#')):
        return group > 1 or st[1] != b''
    if c02.grows(l, st[0]):
        return False
    return True


def twins(ck):
    r = ck.rng
    ses = []
    for _ in range(ck.n(1500, 15000)):
        rules = r.random() < 0.6
        g, layers = definitions(r, r.random() < 0.4)
        ps = probes(r, g)
        base = [d for l in layers for d in l]
        other = []
        for l in layers:
            l = list(l)
            r.shuffle(l)
            other += l
        results = [r.choice(['%d' % r.randint(0, 99), '1+%d' % r.randint(0, 9), '0-3']) for _ in range(r.randint(0, 3))]
        fs = files(r)
        tag = lambda ls: [(l, None) for l in ls]
        kind = r.choice(('noise', 'noise', 'order', 'reload', 'names'))
        pre = tag(['load simplification tiny'] if rules and r.random() < 0.15 else [])
        a = pre + tag(base + results)
        if kind == 'noise':
            b_, names_free = [], r.random() < 0.5
            for x in a:
                b_ += [(l, n) for l, n in noise(r, g, rules and not pre, r.randint(0, 2))] + [x]
            b_ += [(l, n) for l, n in noise(r, g, rules and not pre, r.randint(0, 3))]
        elif kind == 'order':
            b_ = pre + (tag(results + other) if r.random() < 0.5 else tag(other + results))
        elif kind == 'reload':
            if not rules:
                continue
            b_ = list(a)
            if pre:
                b_ = tag(['load simplification good', 'load simplification bad']) + a
            else:
                pos = sorted(r.randint(0, len(b_)) for _ in range(r.randint(1, 3)))
                for p in reversed(pos):
                    b_[p:p] = tag(['load simplification bad'] * r.randint(0, 1) + ['load simplification good'] * r.randint(1, 2))
        else:
            # names defined (with other meanings) and cleared before they get their final meaning
            b_ = list(pre)
            n = list(g.defs)
            r.shuffle(n)
            for x in n:
                if r.random() < 0.6:
                    b_ += tag(['%s(x, y) = x - %d*y' % (x, r.randint(1, 9))])
            if r.random() < 0.5:
                b_ += tag(['q_ + ' + '%s(q_, 2)' % n[0], 'q_ + x'])
            m = list(n)
            r.shuffle(m)
            b_ += tag(['clear ' + x for x in m] if r.random() < 0.7 else ['clear'])
            b_ += tag(base + results)
        v = vf.RULES if rules else vf.NORULES
        A = vf.Session([l for l, _ in a] + ps, variant=v, files=fs, meta=(a, b_, ps, kind))
        B = vf.Session([l for l, _ in b_] + ps, variant=v, files=fs)
        ses += [A, B]
    res = vf.run_sessions(ses)
    for i in range(0, len(res), 2):
        x, y = res[i], res[i + 1]
        a, b_, ps, kind = x.session.meta
        if not x.clean or not y.clean or len(x.recs) != len(x.session.lines) + 1 or len(y.recs) != len(y.session.lines) + 1:
            w = x if not x.clean else y
            ck.violation('session %r: %s' % (w.session.lines[-3:], w.describe()), 'crash:' + '\n'.join(map(str, w.session.lines)), w.session)
            continue
        if not all(harmless(l, n, y.step(j)) for j, (l, n) in enumerate(b_) if n is not None):
            ck.count('pairs_skipped')
            continue
        # the same definitions must have been accepted
        if sum(1 for j, (l, _) in enumerate(a) if x.step(j)[1]) and kind != 'noise':
            acc = lambda rs, ls: sorted(l for j, (l, n) in enumerate(ls) if n is None and '=' in l and not rs.step(j)[1])
            if acc(x, a) != [l for l in acc(y, b_) if l in acc(x, a)]:
                ck.count('pairs_skipped')
                continue
            if kind == 'order':
                ck.count('pairs_skipped')
                continue
        ck.count('pairs_' + kind)
        for j, p in enumerate(ps):
            ck.case((kind, p, repr(b_)), '%s: %r after %r' % (kind, p, [l for l, _ in b_][-4:]))
            u, w = x.step(len(a) + j), y.step(len(b_) + j)
            if u != w:
                ck.violation('%r answered %r after %r, and %r after %r' % (p, u, [l for l, _ in a], w, [l for l, _ in b_]), 'twin:%s:%s' % (kind, '\n'.join(map(str, y.session.lines[:len(b_) + j + 1]))), y.session,
                             extra={'other': x.session.to_json()})
                break


def with_and_without_rules(ck):
    r = ck.rng
    lines = []
    for _ in range(ck.n(12000, 150000)):
        g = gen.ExprGen(r, spaces=0.1, wild=False)
        if r.random() < 0.6:
            g = gen.ExprGen(r, infix=['+', '-', '*', '/', '^'], fn1=['sqrt', 'ln', 'sin', 'cos', 'exp', 'tan'], fn2=['root', 'log'], prefix=['-', '+'], postfix=['%'], fnn=['max', 'min', 'sum', 'prod', 'avg'], lit=sess.SMALL)
        lines.append(g.expr(r.randint(1, 9)))
    per = 30
    groups = [lines[i:i + per] for i in range(0, len(lines), per)]
    res = vf.run_sessions([vf.Session(g, variant=v) for g in groups for v in (vf.NORULES, vf.RULES)])
    for i in range(0, len(res), 2):
        a, b_ = res[i], res[i + 1]
        for j, l in enumerate(a.session.lines):
            x, y = a.step(j), b_.step(j)
            if x is None or y is None or (j == len(a.recs) - 1 and not a.clean) or (j == len(b_.recs) - 1 and not b_.clean):
                w = a if not a.clean else b_
                ck.violation('%r: %s' % (l, w.describe()), 'crash:' + l, vf.Session([l], variant=w.session.variant))
                break
            if x[1] or 'rand' in l:
                continue
            ck.count('values_compared')
            ck.case(('v', l))
            if x == y:
                continue
            u, w = printed_value(x[0]), printed_value(y[0])
            if u is not None and w is not None and not y[1]:
                if ref.close(u, w, 1e-9):
                    continue
                # ill-conditioned values may differ in more digits
                st = ref.stable_eval(ref.parse(l), hist=[])
                if st[0] != 'val':
                    ck.count('values_unstable')
                    continue
            ck.violation('%r is %r without rules and %r with rules' % (l, x, y), 'rules:' + l, vf.Session([l]))


def run():
    ck = vf.Check('C13', rule='pairs of histories with equal definitions, results and rules (other order, noise that leaves nothing behind, reloaded rules, reused names) followed by the same probes; '
                  'and constant expressions with and without rules; distinct (history, probe)', min_cases=3000)
    twins(ck)
    with_and_without_rules(ck)
    ck.finish()
