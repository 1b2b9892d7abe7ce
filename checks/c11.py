"""C11: simplification preserves values."""
import algebra, ref, vf
from common import *

VARS = [['x'], ['x', 'y'], ['a', 'b', 'c'], ['x', 'y', 'z', 'w'], ['velocity_x', 'velocity_y', 'velocity', 'velocity_xx']]


def cases(ck):
    r = ck.rng
    out = []
    for _ in range(ck.n(7000, 90000)):
        g = algebra.Typed(r, r.choice(VARS), misc=('asin', 'acos', 'asinh', 'sinh', 'floor'),
                          other=r.choice((('abs', 'exp', 'ln', 'sqrt', 'root', 'log'), (), ('sqrt',))),
                          trig=r.choice((('sin', 'cos', 'tan', 'atan'), (), ('sin', 'cos'))),
                          nary=r.choice((('max', 'min', 'sum', 'prod', 'avg'), (), ('sum', 'prod'))))
        k = r.random()
        n = r.randint(2, 7)
        t = algebra.related(r, g, n) if k < 0.5 else g.real(n) if k < 0.85 else g.pos(n)
        if t.vars() and t.size() <= 34:
            out.append(t)
    # instances of the left-hand sides of the loaded rules, so that every rule is exercised by itself
    rules = [x for x in algebra.loaded_rules((0, 2, 3, 4, 5, 6)) if not x.left.ops() & {'fcount', 'fderiv', "q'"}]
    for rule in rules:
        for _ in range(ck.n(20, 300)):
            g = algebra.Typed(r, r.choice(VARS), other=('sqrt', 'ln'), nary=(), trig=('sin', 'cos'), misc=())
            t = algebra.instance(r, g, rule)
            if t.vars() and t.size() <= 40:
                out.append(t)
                ck.count('rule_instances')
    return out


def text(r, t):
    s = ref.show(t)
    return s


def run():
    ck = vf.Check('C11', rule='typed random expressions (every base of a non-integer power positive by construction), printed result compared numerically '
                  'with the input at random positive points; distinct inputs with at least one defined point', min_cases=500)
    cs = cases(ck)
    sessions = []
    per = 20
    for i in range(0, len(cs), per):
        ch = cs[i:i + per]
        sessions.append(vf.Session([text(ck.rng, t) for t in ch], meta=ch))
    for res in vf.run_sessions(sessions):
        for i, t in enumerate(res.session.meta):
            line = res.session.lines[i]
            one = vf.Session([line])
            if res.step(i) is None or (i == len(res.recs) - 1 and not res.clean):
                ck.violation('%r: %s' % (line, res.describe()), 'crash:' + line, one)
                break
            got = outcome(res, i)
            judge(ck, line, t, got, one)
    ck.finish()


def judge(ck, line, t, got, one):
    pts = algebra.points(ck.rng, t.vars())
    out = parse_output(got[1]) if got[0] == 'out' else None
    if got[0] == 'out' and out is None:
        ck.violation('%r: unreadable result %r' % (line, got), 'unreadable:' + line, one)
        return
    if got[0] not in ('out', 'err'):
        ck.violation('%r: no answer: %r' % (line, got), 'answer:' + line, one)
        return
    defined = 0
    bad = []
    for env in pts:
        if out is None:
            w = ref.stable_eval(t, env, [], rounds=4)
            if w[0] == 'val' and not algebra.extreme(t, env):
                defined += 1
                bad.append((env, w, got))
            continue
        if any(v not in env for v in out.vars()):
            ck.violation('%r: result %r contains foreign variables' % (line, got[1]), 'vars:' + line, one)
            return
        verdict, want, have = algebra.compare(t, out, env, ck.rng)
        if verdict == 'same':
            defined += 1
            ck.count('points_compared')
        elif verdict == 'different':
            defined += 1
            bad.append((env, want, have))
        else:
            ck.count('points_' + verdict)
    if defined:
        ck.case(line, '%s -> %s' % (line, got[1][:100].decode('latin-1').strip()))
    # one point may be a removable or numerically degenerate one
    if len(bad) >= 2 or (bad and defined == 1 and len(pts) == 1):
        ck.violation('%r -> %r: at %s expected %s, result has %s (%d of %d points)' % (line, got[1], bad[0][0], bad[0][1], bad[0][2], len(bad), defined), 'value:' + line, one)
