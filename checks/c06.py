"""C06: printed expressions read back as the same expression."""
import itertools, re
import api, gen, ref, vf
from common import *
from ref import Node, N, V, O

ANSI = re.compile('\x1b[^m]*m')
UN = ['p' + x for x in ref.PREFIX] + ['q' + x for x in ref.POSTFIX]
BIN = ['i' + x for x in ref.INFIX]
FN = [('f' + k, v) for k, v in ref.FUNCS.items()]
USER = {'uf': 1, 'ug': 2, 'uk': 0}


def literal(r):
    k = r.random()
    if k < 0.5:
        return float(r.randint(0, 20))
    if k < 0.7:
        return r.randint(0, 999999) / 1000
    if k < 0.8:
        return float(r.randint(0, 999999999))
    if k < 0.9:
        return r.uniform(0.001, 1)
    return r.choice((0.0001, 0.5, 1 / 3, 123456.789012, 9999999998.0, 3.14159265359, 0.1, 1e9, 4294967296.0))


def tree(r, n, neg=0.0):
    if n <= 1:
        k = r.random()
        if k < 0.45:
            return V(r.choice(gen.VARS + ['inf_', 'sinus', 'x', 'y']))
        if k < 0.55:
            return O('f' + r.choice([k for k, v in ref.FUNCS.items() if v == 0] + ['uk']))
        v = literal(r)
        return N(-v if r.random() < neg else v)
    k = r.random()
    h = r.randint(1, n - 1)
    if k < 0.5:
        return O(r.choice(BIN), tree(r, h, neg), tree(r, n - h, neg))
    if k < 0.8:
        return O(r.choice(UN), tree(r, n - 1, neg))
    f, a = r.choice(FN + [('fuf', 1), ('fug', 2)])
    if a is None:
        a = r.randint(0, 4)
    return O(f, *[tree(r, max(1, n // max(1, a)), neg) for _ in range(a)])


def cases(ck):
    r = ck.rng
    out = []
    x, y, z, two = V('x'), V('y'), V('z'), N(2)
    # every operator below every operator at every position, two and three levels
    one = [(lambda o: lambda c: O(o, c))(o) for o in UN]
    left = [(lambda o: lambda c: O(o, c, y))(o) for o in BIN]
    right = [(lambda o: lambda c: O(o, z, c))(o) for o in BIN]
    funs = [lambda c: O('fsin', c), lambda c: O('fsum', c, two), lambda c: O('fgcd', two, c), lambda c: O('fuf', c)]
    ctxs = one + left + right + funs
    for leaf in (x, two, N(-3), O('fpi')):
        for a in ctxs:
            out.append(a(leaf))
            for b in ctxs:
                out.append(a(b(leaf)))
                if leaf is x or (leaf is two and ck.thorough):
                    for c in ctxs:
                        out.append(a(b(c(leaf))))
    if ck.thorough:
        for a, b, c, d in itertools.product(one + left + right, repeat=4):
            if r.random() < 0.25:
                out.append(a(b(c(d(x)))))
    for a, b, c in itertools.product(BIN, BIN, BIN):
        out.append(O(a, O(b, x, two), O(c, y, O('q!', z))))
        out.append(O(a, O(b, O('p-', x), two), O(c, O('p-', y), O('p@', z))))
    for _ in range(ck.n(20000, 250000)):
        out.append(tree(r, r.choice((2, 3, 4, 5, 6, 8, 12, 25 if r.random() < 0.2 else 5)), r.choice((0, 0, 0.3))))
    # many operands
    for n in (10, 20, 32, 33, 64, 127, 128, 129, 255, 256, 257, 300, 520):
        kids = [tree(r, r.choice((1, 1, 1, 2, 3))) for _ in range(n)]
        out += [O('fsum', *kids), O('fsin', O('i*', N(2), O('fmax', *kids))), O('fprod', x, O('favg', *kids), y), O('p-', O('fsum', *kids[::-1]))]
        for o in ('i+', 'i-', 'i*', 'i^'):
            t = u = kids[0]
            for c in kids[1:]:
                t, u = O(o, t, c), O(o, c, u)
            out += [t, u]
    return out


def run():
    ck = vf.Check('C06', rule='trees printed by the real printer and read back by the real parser and by the reference parser; all operator nestings to depth three, random '
                  'trees; distinct printed texts', min_cases=2000)
    trees = cases(ck)
    setup = [('U', api.s(k) + api.u32(v)) for k, v in USER.items()]
    f = dict(ref.FUNCS)
    f.update(USER)
    texts = exchange(ck, setup, trees, lambda t: [('S', b'\0\0' + api.tree(t)), ('S', b'\0\1' + api.tree(t))])
    printed = []
    for t, a in zip(trees, texts):
        if a is None:
            continue
        s, c = a[0].s(), a[1].s()
        if ANSI.sub('', c) != s:
            ck.violation('%s prints %r, with colours %r' % (t, s, c), 'colour:' + repr(t), s)
        printed.append((t, s))
    back = exchange(ck, setup, printed, lambda p: [('P', b'\0' + api.s(p[1]))])
    for (t, s), a in zip(printed, back):
        if a is None:
            continue
        a = a[0]
        for _ in range(a.u32()):
            a.s()
        ck.case(s, '%s prints %s' % (t, s) if len(s) < 60 else None)
        if a.u8() != ord('K'):
            ck.violation('%s is printed as %r, which is rejected' % (t, s), 'reject:' + repr(t), s)
            continue
        got = a.tree()
        ck.count('nodes_compared', got.size())
        if not ref.same(ref.norm_neg(got), ref.norm_neg(t), 1e-9):
            ck.violation('%s is printed as %r, which reads back as %s' % (t, s, got), 'tree:' + repr(t), s)
    session_part(ck)
    ck.finish()


def exchange(ck, setup, items, mk):
    """Answers per item (list of Readers), None if the code under test died"""
    per = 1000
    reqs, owner = [], []
    width = len(mk(items[0]))
    for i in range(0, len(items), per):
        for q in setup:
            reqs.append(q)
            owner.append(-1)
        for j in range(i, min(len(items), i + per)):
            for q in mk(items[j]):
                reqs.append(q)
                owner.append(j)
    res = [[] for _ in items]
    for o, q, a in zip(owner, reqs, api.run(reqs, len(setup) + per * width)):
        if isinstance(a, api.Crash):
            ck.violation('%r died: %s' % (items[o] if o >= 0 else q, a.what), 'crash:%r' % (items[o] if o >= 0 else 'setup',), repr(items[o]))
            if o >= 0:
                res[o] = None
        elif o >= 0 and res[o] is not None:
            res[o].append(a)
    return res


def session_part(ck):
    """What an evaluation prints can be entered again and prints itself"""
    r = ck.rng
    ses = []
    for _ in range(ck.n(250, 2500)):
        lines = []
        for _ in range(20):
            g = gen.ExprGen(r, vars=['x', 'y', 'foo', 'n'], prefix=('-', '+', '$', '@'), postfix=('!', '%', "'"), lit=lambda r: str(r.randint(0, 40)) if r.random() < 0.8 else '0.%d' % r.randint(1, 999), p_var=0.7)
            lines.append(g.expr(r.randint(2, 7)))
        ses.append(vf.Session(lines, variant=vf.NORULES))
    first = vf.run_sessions(ses)
    again = []
    for res in first:
        outs = []
        for i, l in enumerate(res.session.lines):
            got = outcome(res, i)
            if got[0] == 'missing' or (i == len(res.recs) - 1 and not res.clean):
                ck.violation('%r: %s' % (l, res.describe()), 'crash:' + l, vf.Session([l], variant=vf.NORULES))
                break
            # numbers printed with an exponent or without a value are not literals of the language
            if got[0] == 'out' and not re.search(rb'\de[+-]\d|inf|nan', got[1]):
                outs.append((l, got[1]))
        if outs:
            again.append(vf.Session([o[:-1] for _, o in outs], variant=vf.NORULES, meta=outs))
    for res in vf.run_sessions(again):
        for i, (l, o) in enumerate(res.session.meta):
            ck.case(('cli', o))
            ck.count('outputs_entered_again')
            st = res.step(i)
            if st != (o, b''):
                ck.violation('%r prints %r, which prints %r' % (l, o, st), 'cli:' + l, vf.Session([l, o[:-1]], variant=vf.NORULES))
    # numbers of at least ten digits before the point are printed with an exponent, which is no literal
    res = vf.run_sessions([vf.Session(['10000000000', '1e+10'], variant=vf.NORULES)])[0]
    if res.step(0)[0] == b'1e+10\n' and res.step(1)[0] != b'1e+10\n':
        ck.violation('10000000000 is printed as 1e+10, which reads back as 1*e+10', 'exponent:10000000000', res.session)
