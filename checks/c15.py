"""C15: rewriting replaces a matched subtree by the instantiated right-hand side."""
import api, ref, vf
import rewrite as rw
from c14 import effort
from ref import N, V, Node


def rule(g):
    r = g.r
    for _ in range(20):
        p = g.pattern(r.choice((1, 2, 3, 4, 5, 6)), lists=r.choice((0, 1, 2, 3)))
        if p.k != 'v':
            return rw.Rule(p, g.right(p.vars(), r.choice((1, 2, 3, 4, 6))), g.conds(p))
    return rw.Rule(N(1), N(2))


# sets of rules that come to an end, used with unlimited steps
SETS = [
    ['x + y -> sum(x, y)', 'sum([la], sum([lb]), [lc]) -> sum([la], [lb], [lc])', 'sum(x) -> x'],
    ['-(-x) -> x', '-(x + y) -> (-x) + (-y)', '-(x * y) -> (-x) * y', '-x -> 0 WHERE equal(x, 0)'],
    ['max([la], x, [lb], x, [lc]) -> max([la], x, [lb], [lc])', 'max(x) -> x', 'max([la], max([lb]), [lc]) -> max([la], [lb], [lc])'],
    ['prod([la], 0, [lb]) -> 0', 'prod([la], 1, [lb]) -> prod([la], [lb])', 'prod() -> 1', 'prod(x) -> x', 'prod([la], prod([lb]), [lc]) -> prod([la], [lb], [lc])'],
    ['sum([la], x, [lb], y, [lc]) -> sum([la], y, [lb], x, [lc]) WHERE type(x) != CONST ; type(y) == CONST', 'sum([la], x, [lb], y, [lc]) -> sum([la], y, [lb], x, [lc]) WHERE x > y'],
    ['sin(x) -> cos(x)', 'x ^ 2 -> prod(x, x)', 'cos(prod([la])) -> sum([la])'],
]


def parse_rule(text):
    """The few fixed rules above, written without anything the reference parser does not know"""
    left, right = text.split(' -> ')
    conds = []
    if ' WHERE ' in right:
        right, c = right.split(' WHERE ')
        conds = c.split(' ; ')
    kw = dict(funcs=dict(ref.FUNCS, type=1, equal=2, CONST=0, VAR=0, OP=0, TRUE=0, FALSE=0), glue=False, infix=rw.PROP_INFIX)
    # comparison signs are tokens of their own here because they stand between spaces
    def p(s):
        toks = []
        for w in s.split(' '):
            toks += ([w] if w in rw.PROP_INFIX else ref.tokenize(w)) + [' ']
        return ref.Parser(toks, **kw).parse()
    return rw.Rule(p(left), p(right), [p(c) for c in conds])


def request(rules, t, cap, single=False):
    return ('Y', api.u32(len(rules)) + api.u32(cap) + bytes([single]) + b''.join(api.s(x.text()) for x in rules) + api.tree(t))


def singles(ck):
    r = ck.rng
    todo = []
    for _ in range(ck.n(25000, 250000)):
        g = rw.Gen(r)
        x = rule(g)
        t = g.near(x.left)
        if r.random() < 0.6:
            t = g.embed(t, r.choice((2, 4, 6)))
        if t.size() <= 40 and effort(x.left, t) <= 1500:
            todo.append((x, t))
    for (x, t), rd in zip(todo, api.run([request([x], t, 0, True) for x, t in todo])):
        what = 'rule %s on %s' % (x.text(), ref.sexpr(t))
        if isinstance(rd, api.Crash):
            ck.violation(what + ': ' + rd.what, what)
            continue
        good, applied, res = rd.u32(), rd.u32(), rd.tree()
        if not good:
            ck.violation('%s: well-formed rule is refused' % what, what)
            continue
        try:
            succ = x.successors(t)
        except rw.Undetermined:
            ck.count('undetermined_conditions')
            continue
        ck.case(what, '%s: %s' % (what, ref.sexpr(res) if applied else 'not applicable'))
        ck.count('applied' if applied else 'not_applicable')
        if succ is None:
            if applied or res != t:
                ck.violation('%s: no subtree matches, but the result is %s' % (what, ref.sexpr(res)), what)
        elif not applied:
            ck.violation('%s: a subtree matches, but the rule is not applied' % what, what)
        elif res not in succ:
            ck.violation('%s: gives %s, must be %s' % (what, ref.sexpr(res), ref.sexpr(succ[0])), what)


def sets(ck):
    """Rule sets with 1, 2, 3, ... applications allowed: every step must be one of the first applicable rule"""
    r = ck.rng
    runs = []
    fixed = [[parse_rule(x) for x in s] for s in SETS]
    for _ in range(ck.n(1800, 20000)):
        g = rw.Gen(r)
        if r.random() < 0.5:
            rules = list(r.choice(fixed))
            if r.random() < 0.4:
                r.shuffle(rules)
            t = g.tree(r.choice((4, 6, 8, 12)))
            if r.random() < 0.5:
                t = g.embed(g.near(r.choice(rules).left), 6)
        else:
            rules = [rule(g) for _ in range(r.randint(1, 4))]
            t = g.embed(g.near(r.choice(rules).left), r.choice((1, 4, 6)))
        if t.size() <= 30 and all(effort(x.left, t) <= 1500 for x in rules):
            runs.append((rules, t))
    cap = 6
    reqs = [request(x, t, k) for x, t in runs for k in range(1, cap + 1)]
    ans = api.run(reqs)
    for i, (rules, t) in enumerate(runs):
        cur, steps = t, 0
        what = 'rules %s on %s' % (' | '.join(x.text() for x in rules), ref.sexpr(t))
        for k in range(1, cap + 1):
            rd = ans[i * cap + k - 1]
            if isinstance(rd, api.Crash):
                if k == 1 or cur.size() < 200 and all(effort(x.left, cur) <= 1500 for x in rules):
                    ck.violation('%s, %d steps: %s' % (what, k, rd.what), what)
                break
            good, applied, res = rd.u32(), rd.u32(), rd.tree()
            if cur.size() > 60:
                break
            succ = None
            try:
                if steps == k - 1:
                    for x in rules:
                        succ = x.successors(cur)
                        if succ is not None:
                            break
            except rw.Undetermined:
                break
            ck.case((what, k), '%s, at most %d steps: %d made, %s' % (what, k, applied, ref.sexpr(res)[:200]))
            ck.count('set_steps', succ is not None)
            if succ is None:
                if applied != steps or res != cur:
                    ck.violation('%s: no rule applies after %d steps (%s), but with %d allowed %d are reported: %s' % (what, steps, ref.sexpr(cur), k, applied, ref.sexpr(res)), what)
                    break
            else:
                steps += 1
                if applied != steps or res not in succ:
                    ck.violation('%s: with %d steps %d are reported and the result is %s, must be %s' % (what, k, applied, ref.sexpr(res), ref.sexpr(succ[0])), what)
                    break
                cur = res
    # to the end
    runs = []
    for _ in range(ck.n(600, 6000)):
        g = rw.Gen(r)
        rules = r.choice(fixed)
        runs.append((rules, g.tree(r.choice((5, 8, 12)))))
    for (rules, t), rd in zip(runs, api.run([request(x, t, 500) for x, t in runs])):
        what = 'rules %s on %s' % (' | '.join(x.text() for x in rules), ref.sexpr(t))
        if isinstance(rd, api.Crash):
            ck.violation('%s: %s' % (what, rd.what), what)
            continue
        good, applied, res = rd.u32(), rd.u32(), rd.tree()
        ck.case((what, 'end'))
        ck.count('normal_forms')
        try:
            more = any(x.successors(res) for x in rules)
        except rw.Undetermined:
            continue
        if more and applied < 500:
            ck.violation('%s: ends with %s after %d steps although a rule applies' % (what, ref.sexpr(res), applied), what)
        if (applied == 0) != (res == t) and applied == 0:
            ck.violation('%s: changed without any application' % what, what)


def run():
    ck = vf.Check('C15', rule='single rules (random patterns, conditions and right-hand sides) on trees built to match or nearly match, and ordered rule sets with every number of allowed '
                  'applications, each step compared with brute-force rewriting; distinct (rules, tree, steps)', min_cases=10000)
    singles(ck)
    sets(ck)
    ck.finish()
