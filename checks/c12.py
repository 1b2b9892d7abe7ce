"""C12: derivatives."""
import algebra, ref, vf
from common import *
from ref import Node, N, V, O

RULED = {'i+', 'i-', 'i*', 'i/', 'i^', 'p-', 'p+', 'p$', 'q%', 'fsqrt', 'fexp', 'fln', 'fsin', 'fcos', 'ftan', 'fasin', 'facos', 'fatan', 'fpi', 'fe', 'fderiv', "q'", 'froot'}


class Irregular(Exception):
    pass


def diff(t, v):
    """Textbook derivative, without any simplification"""
    if t.k == 'n':
        return N(0)
    if t.k == 'v':
        return N(1 if t.x == v else 0)
    if v not in t.vars():
        return N(0)
    op, c = t.x, t.c
    d = lambda i=0: diff(c[i], v)
    mul = lambda a, b: O('i*', a, b)
    div = lambda a, b: O('i/', a, b)
    sq = lambda a: O('i*', a, a)
    if op in ('i+', 'i-'):
        return O(op, d(0), d(1))
    if op == 'p-':
        return O('p-', d())
    if op in ('p+', 'p$'):
        return d()
    if op == 'q%':
        return div(d(), N(100))
    if op == 'i*':
        return O('i+', mul(d(0), c[1]), mul(c[0], d(1)))
    if op == 'i/':
        return div(O('i-', mul(d(0), c[1]), mul(c[0], d(1))), sq(c[1]))
    if op == 'i^':
        if v not in c[1].vars():
            return mul(mul(c[1], O('i^', c[0], O('i-', c[1], N(1)))), d(0))
        if v not in c[0].vars():
            return mul(mul(t, O('fln', c[0])), d(1))
        return mul(t, O('i+', mul(d(1), O('fln', c[0])), div(mul(c[1], d(0)), c[0])))
    if op == 'fsqrt':
        return div(d(), mul(N(2), t))
    if op == 'froot':
        return diff(O('i^', c[0], div(N(1), c[1])), v)
    if op == 'fexp':
        return mul(t, d())
    if op == 'fln':
        return div(d(), c[0])
    if op == 'fsin':
        return mul(O('fcos', c[0]), d())
    if op == 'fcos':
        return mul(O('p-', O('fsin', c[0])), d())
    if op == 'ftan':
        return div(d(), sq(O('fcos', c[0])))
    if op in ('fasin', 'facos'):
        r = div(d(), O('fsqrt', O('i-', N(1), sq(c[0]))))
        return r if op == 'fasin' else O('p-', r)
    if op == 'fatan':
        return div(d(), O('i+', N(1), sq(c[0])))
    raise Irregular(op)


def resolve(t):
    """Replaces all derivatives, innermost first"""
    if t.k != 'o':
        return t
    c = [resolve(x) for x in t.c]
    if t.x == 'fderiv':
        if t.c[1].k != 'v':
            raise Irregular('malformed')
        return diff(c[0], t.c[1].x)
    if t.x == "q'":
        vs = t.c[0].vars()
        if len(vs) > 1:
            # accepted only if simplification finds that all but one variable cancel out
            used = [v for v in vs if depends(c[0], v)]
            raise Irregular('malformed' if len(used) > 1 else 'unclear')
        return diff(c[0], vs[0]) if vs else N(0)
    return Node('o', t.x, c)


def depends(t, v):
    """The value of t certainly depends on v"""
    import random
    rng = random.Random(1)
    for env in algebra.points(rng, t.vars()):
        a = ref.stable_eval(t, env, [], rounds=3)
        b = ref.stable_eval(t, dict(env, **{v: env[v] * 1.1}), [], rounds=3)
        if a[0] == 'val' and b[0] == 'val' and not ref.close(a[1], b[1], 1e-6):
            return True
    return False


def embed(r, t):
    """t somewhere inside of a larger expression in which nothing cancels it"""
    for i in range(r.randint(1, 4)):
        o = V('fresh_' + 'abcd'[i]) if r.random() < 0.5 else N(r.choice((2, 3, 7, 0.5)))
        k = r.choice(('i+', 'i+', 'i-', 'i*', 'i/', 'p-', 'fsin', 'fatan', 'fmax', 'fsum', 'fdiff', 'q%'))
        if k in ('fsin', 'fatan', 'p-', 'q%'):
            t = O(k, t)
        elif k in ('fmax', 'fsum'):
            c = [V('more_' + 'abcdefghi'[j]) for j in range(r.choice((1, 2, 9)))]
            c.insert(r.randint(0, len(c)), t)
            t = Node('o', k, c)
        elif k == 'fdiff':
            t = O('i-', o, t)
        else:
            t = O(k, t, o) if r.random() < 0.5 else O(k, o, t) if k != 'i/' else O(k, t, o)
    return t


def cases(ck):
    r = ck.rng
    out = []
    for _ in range(ck.n(6000, 60000)):
        vs = r.choice([['x'], ['x', 'y'], ['a', 'b', 'z'], ['velocity_x', 'velocity_y', 'velocity']])
        g = algebra.Typed(r, vs, trig=('sin', 'cos', 'tan', 'atan'), other=r.choice((('exp', 'ln', 'sqrt', 'root'), ('sqrt', 'exp', 'ln'), ())), nary=(),
                          misc=('asin', 'acos') if r.random() < 0.4 else (), consts=('pi', 'e') if r.random() < 0.3 else ())
        n = r.randint(1, 5)
        e = g.real(n) if r.random() < 0.6 else g.pos(n) if r.random() < 0.6 else algebra.related(r, g, n)
        k = r.random()
        if k < 0.55:
            t = O('fderiv', e, V(r.choice(vs)))
        elif k < 0.75:
            t = O("q'", e)
        elif k < 0.82:
            t = O('fderiv', O('fderiv', e, V(r.choice(vs))), V(r.choice(vs)))
        elif k < 0.86:
            t = O("q'", O("q'", e))
        elif k < 0.9:
            t = O(r.choice(('i+', 'i-', 'i*')), O('fderiv', e, V(r.choice(vs))), g.real(2))
        elif k < 0.93:
            t = O('i*', O("q'", e), O('fderiv', g.real(2), V(r.choice(vs))))
        elif k < 0.95:
            t = O('fderiv', e, r.choice((N(2), O('i+', V('x'), N(1)), O('p-', V('x')), O('fpi'))))
        elif k < 0.98:
            t = O('fderiv', O('f' + r.choice(('abs', 'floor', 'sgn', 'max', 'sinh', 'gamma', 'asinh', 'frac', 'sum')), g.real(2)), V(r.choice(vs)))
        else:
            t = O('fderiv', O(r.choice(('imod', 'iC')), g.real(2), g.real(2)), V(r.choice(vs)))
        if t.size() <= 22 and r.random() < 0.25:
            t = embed(r, t)
            ck.count('embedded')
        if t.size() <= 32:
            out.append(t)
    # instances of the rules that eliminate derivatives, so that every rule is exercised by itself
    for rule in algebra.loaded_rules((1,)):
        for _ in range(ck.n(30, 400)):
            g = algebra.Typed(r, r.choice((['x'], ['x', 'y'])), trig=('sin', 'cos'), other=('sqrt', 'ln'), nary=(), consts=())
            t = algebra.instance(r, g, rule)
            if 'fderiv' not in t.ops():
                t = O('fderiv', t, V(r.choice(t.vars() or ['x'])))
            if t.size() <= 24:
                out.append(t)
                ck.count('rule_instances')
    return out


def run():
    ck = vf.Check('C12', rule='deriv(expr, v) and expr\' over random expressions, alone, nested and combined; printed result compared with an independently derived '
                  'derivative at random points; distinct inputs with at least one defined point', min_cases=500)
    cs = cases(ck)
    sessions = []
    per = 20
    for i in range(0, len(cs), per):
        ch = cs[i:i + per]
        lines, meta = [], []
        for t in ch:
            # sometimes differentiate through a user-defined function
            if t.x == 'fderiv' and ck.rng.random() < 0.15 and t.c[0].vars() and t.c[1].k == 'v':
                vs = t.c[0].vars()
                lines.append('ufun(%s) = %s' % (', '.join('p' + v for v in vs), ref.show(ref.subst(t.c[0], {v: V('p' + v) for v in vs}))))
                meta.append(None)
                lines.append('deriv(ufun(%s), %s)' % (', '.join(vs), t.c[1].x))
                meta.append(t)
                lines.append('clear')
                meta.append(None)
            else:
                lines.append(ref.show(t))
                meta.append(t)
        sessions.append(vf.Session(lines, meta=meta))
    for res in vf.run_sessions(sessions):
        for i, t in enumerate(res.session.meta):
            line = res.session.lines[i]
            one = vf.Session(res.session.lines[i - 1:i + 1] if 'ufun(' in line else [line])
            if res.step(i) is None or (i == len(res.recs) - 1 and not res.clean):
                ck.violation('%r: %s' % (line, res.describe()), 'crash:' + line, one)
                break
            if t is not None:
                judge(ck, line, t, outcome(res, i), one)
    ck.finish()


def judge(ck, line, t, got, one):
    try:
        want = resolve(t)
    except Irregular as e:
        ck.count('irregular')
        if str(e) == 'malformed':
            ck.case(line)
            if got[0] != 'err':
                ck.violation('%r: must be rejected as malformed, got %r' % (line, got), 'malformed:' + line, one)
            return
        if str(e) == 'unclear':
            return
        want = None
    if got[0] not in ('out', 'err'):
        ck.violation('%r: no answer: %r' % (line, got), 'answer:' + line, one)
        return
    if want is None:
        # no rule for some operator: whatever is printed must not be a wrong derivative; it is refused, unless its argument is constant
        ck.case(line)
        if got[0] == 'out' and t.x == 'fderiv':
            numeric(ck, line, t, parse_output(got[1]), got, one)
        return
    if got[0] == 'err' and any(not x.ops() <= RULED for x in t.nodes() if x.x in ('fderiv', "q'")):
        ck.count('refused_without_rule')
        return
    pts = algebra.points(ck.rng, t.vars() or ['x'])
    out = parse_output(got[1]) if got[0] == 'out' else None
    if got[0] == 'out' and out is None:
        ck.violation('%r: unreadable result %r' % (line, got), 'unreadable:' + line, one)
        return
    bad, defined = [], 0
    for env in pts:
        w = ref.stable_eval(want, env, [], rounds=4, tol=1e-6)
        o = [x.c[0] for x in t.nodes() if x.x in ('fderiv', "q'")]
        # the input itself must be defined (and smooth) there, too
        if w[0] != 'val' or w[1] != w[1] or algebra.extreme(want, env) or any(undefined(resolve(x), env) for x in o):
            ck.count('points_undefined')
            continue
        if out is None:
            defined += 1
            bad.append((env, w, got))
            continue
        verdict, want_v, have = algebra.compare(want, out, env, ck.rng)
        if verdict == 'same':
            defined += 1
            ck.count('points_compared')
        elif verdict == 'different':
            defined += 1
            bad.append((env, want_v, have))
        else:
            ck.count('points_' + verdict)
    if defined:
        ck.case(line, '%s -> %s' % (line, got[1][:100].decode('latin-1').strip()))
    if len(bad) >= 2:
        ck.violation('%r -> %r: at %s expected %s, result has %s (%d of %d points)' % (line, got[1], bad[0][0], bad[0][1], bad[0][2], len(bad), defined), 'value:' + line, one)


def undefined(t, env):
    w = ref.stable_eval(t, env, [], rounds=2, tol=1e-6)
    return w[0] != 'val' or w[1] != w[1]


def numeric(ck, line, t, out, got, one):
    """Difference quotient of an expression with operators the reference does not differentiate"""
    e, v = t.c[0], t.c[1].x
    bad = 0
    for env in algebra.points(ck.rng, t.vars()):
        h = 1e-5
        try:
            a = ref.evaluate(e, dict(env, **{v: env[v] + h}), [])
            b = ref.evaluate(e, dict(env, **{v: env[v] - h}), [])
            m = ref.evaluate(e, env, [])
            o = ref.evaluate(out, env, [])
        except (ref.Fail, ref.Unknown, OverflowError):
            continue
        d = (a - b) / (2 * h)
        if d != d or o != o or abs(d) > 1e6 or abs((a - m) - (m - b)) > 1e-6 * max(1, abs(m)):
            continue
        if abs(d - o) > 1e-3 * max(1, abs(d), abs(o)):
            bad += 1
    if bad >= 2:
        ck.violation('%r -> %r is not the derivative' % (line, got[1]), 'value:' + line, one)
