"""C14: pattern matching finds exactly the matchings a pattern denotes."""
import itertools, math
import api, ref, vf
import rewrite as rw
from ref import N, O, V, Node


def enumerated():
    """Every pattern with up to four operands over two list and two plain variables against every short operand list"""
    ops = [V('[la]'), V('[lb]'), V('a'), V('b'), N(1)]
    pats = [c for n in range(5) for c in itertools.product(ops, repeat=n)]
    trees = [c for n in range(5) for c in itertools.product((N(1), V('x')), repeat=n)]
    return pats, trees


def effort(p, t):
    """Number of ways to distribute the operands of t over the list variables of p, at most"""
    lists = max((sum(c.k == 'v' and c.x[0] == '[' for c in n.c) for n in p.nodes()), default=0)
    return math.comb(max(len(n.c) for n in t.nodes()) + lists, lists)


def canon(env):
    return tuple(sorted((k, tuple(n.key() for n in v)) for k, v in env.items()))


def read_matching(rd):
    env = {}
    for _ in range(rd.u32()):
        v = rd.s()
        env[v] = tuple(rd.tree() for _ in range(rd.u32()))
    return env


def cases(ck):
    r = ck.rng
    pats, trees = enumerated()
    pairs = [(p, t) for p in pats for t in trees]
    if not ck.thorough:
        pairs = r.sample(pairs, 6000)
    res = [(Node('o', 'fsum', p), [], Node('o', 'fsum', t)) for p, t in pairs]
    for _ in range(ck.n(60000, 400000)):
        g = rw.Gen(r)
        p = g.pattern(r.choice((1, 2, 3, 4, 5, 6, 8)), lists=r.choice((0, 1, 2, 3, 4)))
        conds = g.conds(p)
        k = r.random()
        t = g.near(p) if k < 0.85 else g.tree(5)
        if r.random() < 0.5:
            t = g.embed(t)
        if t.size() > 40 or effort(p, t) > 1500:
            continue
        res.append((p, conds, t))
    # list variables bound to many operands, again later, there differing in one place or length only
    for _ in range(ck.n(600, 6000)):
        g = rw.Gen(r)
        ops = [g.tree(r.choice((1, 1, 2))) for _ in range(r.randint(3, 14))]
        twin = list(ops)
        k = r.random()
        if k < 0.5:
            i = r.randrange(len(twin))
            twin[i] = g.damage(twin[i]) if r.random() < 0.5 else g.leaf()
        elif k < 0.6:
            twin = twin[:-1]
        elif k < 0.7:
            twin = twin + [g.leaf()]
        la, a = V('[la]'), V('a')
        f = lambda c: Node('o', 'f' + r.choice(('sum', 'prod')), c)
        shape = r.choice((lambda x, y: f([Node('o', 'fmax', x), Node('o', 'fmin', y)]), lambda x, y: Node('o', 'i+', [Node('o', 'fsum', x), Node('o', 'fsum', y)])))
        x, y = r.choice((([la], [la]), ([la, a], [la, a]), ([a, la], [la]), ([la], [la, a]), ([a, la], [a, la]), ([la], [V('[lb]'), la])))
        p = shape(x, y)
        t = Node('o', p.x, [Node('o', p.c[0].x, ops), Node('o', p.c[1].x, twin)])
        res.append((p, g.conds(p) if r.random() < 0.3 else [], t))
    # one list for very many operands
    for _ in range(ck.n(150, 1500)):
        g = rw.Gen(r)
        n = r.choice((16, 25, 31, 33, 50, 64, 65, 100, 130, 260))
        ops = [g.leaf() for _ in range(n)]
        la, lb, a = V('[la]'), V('[lb]'), V('a')
        c = r.choice(([la], [la, a], [a, la], [la, N(7), lb], [la, a, a, lb], [a, la, lb], [V('b'), la, a], [la, V('b'), la], [N(7), la, N(7)]))
        if N(7) in c:
            for i in r.sample(range(n), r.choice((1, 2, 3))) + ([0, n - 1] if c[0] == N(7) and r.random() < 0.7 else []):
                ops[i] = N(7)
        if sum(x.x in ('[la]', '[lb]') for x in c if x.k == 'v') > 1:
            ops = ops[:100]
        if c == [la, V('b'), la] and r.random() < 0.7:
            h = ops[:min(n, 64) // 2]
            ops = h + [g.leaf()] + h
        p, t = Node('o', 'fsum', c), Node('o', 'fsum', ops)
        if r.random() < 0.3:
            p, t = O('i*', p, V('z')), O('i*', t, g.leaf())
        res.append((p, [], t))
        ck.count('wide_matchings')
    # one variable each for many operands (up to the limit of ten distinct variables)
    for _ in range(ck.n(400, 4000)):
        g = rw.Gen(r)
        n = r.randint(6, 10)
        names = ['v' + chr(97 + i) for i in range(n)]
        c = [V(x) for x in names]
        if r.random() < 0.5:
            c[r.randrange(n)] = V('[l]')
        if r.random() < 0.3:
            c.append(r.choice(c))
        r.shuffle(c)
        p = Node('o', 'fprod', c)
        res.append((p, [g.cond(p.vars())] if r.random() < 0.5 else [], g.near(p)))
    return res


def run():
    ck = vf.Check('C14', level='exploration', rule='patterns (enumerated operand lists over two list and two plain variables; random nested ones with repeated variables, nested lists and '
                  'conditions) against trees built to match or nearly match, all matchings compared as sets with brute-force enumeration; distinct (pattern, conditions, tree)', min_cases=10000)
    todo = cases(ck)
    reqs = []
    for p, conds, t in todo:
        text = rw.show(p) + (' WHERE ' + ' ; '.join(map(rw.show, conds)) if conds else '')
        reqs.append(('M', api.s(text) + api.tree(t)))
    for (p, conds, t), rd in zip(todo, api.run(reqs)):
        text = rw.show(p) + (' WHERE ' + ' ; '.join(map(rw.show, conds)) if conds else '')
        what = 'pattern %s on %s' % (text, ref.sexpr(t))
        bad = lambda m: ck.violation('%s: %s' % (what, m), what, None, {'pattern': text, 'tree': ref.sexpr(t)})
        if isinstance(rd, api.Crash):
            bad(rd.what)
            continue
        if rd.u8() != ord('K'):
            bad('well-formed pattern is refused')
            continue
        try:
            for _, x in rw.positions(t):
                rw.matchings(p, conds, x)
        except rw.Undetermined:
            ck.count('undetermined_conditions')
            continue
        want = {canon(m) for m in rw.matchings(p, conds, t)}
        n = rd.u32()
        got = [read_matching(rd) for _ in range(n)]
        cg = [canon(m) for m in got]
        ck.count('matchings_compared', n)
        ck.case(what, '%s: %d matchings' % (what, n))
        if rd.u32() != n:
            bad('number of matchings depends on whether they are returned')
        if len(set(cg)) != n:
            bad('a matching is returned more than once')
        if set(cg) != want:
            miss, extra = [x for x in want if x not in set(cg)], [x for x in cg if x not in want]
            bad('%d matchings missing (%r), %d surplus (%r)' % (len(miss), miss[:1], len(extra), extra[:1]))
        found = rd.u8()
        if found != (n > 0):
            bad('single matching found: %r, all matchings: %d' % (found, n))
        if found and canon(read_matching(rd)) not in want:
            bad('single matching is none')
        # search
        first, ms = None, None
        for i, s in rw.positions(t):
            m = rw.matchings(p, conds, s)
            if m:
                first, ms = i, {canon(e) for e in m}
                break
        at = rd.u8()
        if at != (first is not None):
            bad('search %s, but %s' % ('succeeds' if at else 'fails', 'position %r matches' % first if first is not None else 'no subtree matches'))
            continue
        if at:
            inside, i = rd.u8(), rd.u32()
            if not inside or i != first:
                bad('search returns node %r instead of %r' % (i if inside else None, first))
            if canon(read_matching(rd)) not in ms:
                bad('search returns no matching of the node')
            ck.count('searches_succeeding')
        after = rd.tree()
        if after != t:
            bad('matching changed the tree')
    ck.finish()
