"""C17: the table command lists and folds the right values."""
import math, re
import gen, ref, sess, vf
from common import *
from model import Model

ANSI = re.compile(rb'\x1b\[[0-9;]*m')
BOX = re.compile('[─│┌┐└┘├┤┬┴┼═║╔╗╚╝╠╣╦╩╬╒╓╕╖╘╙╛╜╞╟╡╢╤╥╧╨╪╫]')
VARS = ['x', 't', 'n', 'foo', 'q', 'velocity_x', 'velocity_of_the_particle', 'a_very_long_name_of_a_variable_that_fills_a_column']


def num(v):
    """Text of a number that the program reads back exactly"""
    if v == math.floor(v) and abs(v) < 1e15:
        s = '%d' % abs(v)
    else:
        s = ('%.12f' % abs(v)).rstrip('0')
        if float(s) != abs(v):
            s = next(t for t in ('%.*f' % (d, abs(v)) for d in range(17, 1100)) if float(t) == abs(v))
    return '-' + s if v < 0 else s


def dress(r, v):
    """Constant expression with exactly the value v"""
    s = num(v)
    k = r.random()
    if k < 0.6:
        return s
    if k < 0.7:
        return '(%s)' % s
    if k < 0.8 and v == math.floor(v):
        d = r.randint(0, 9)
        return '%s%s%d' % (num(v + d), '-', d)
    if k < 0.9 and v == math.floor(v):
        return 'max(%s, %s)' % (s, num(v - r.randint(1, 5)))
    return '0+' + s if v >= 0 else s


def progression(r):
    """(start, end, step, values) such that the number of rows is beyond doubt"""
    k = r.random()
    rows = r.choice((0, 0, 1, 2, 3, 5, 8, 13, 20, r.randint(0, 60)))
    if k < 0.06:
        # large values and fine steps
        a, st = float(r.choice((-1, 1)) * r.choice((2 ** 20, 10 ** 6, 2 ** 33, 12345678))), r.choice((1, 0.5, 2.0 ** -10, 1024, 65536))
    elif k < 0.1:
        a, st = float(r.choice((0, 1, -1, 0.5))), r.choice((2.0 ** -10, 2.0 ** -14, 2.0 ** -20))
    elif k < 0.5:
        a, st = float(r.randint(-9, 9)), float(r.choice((1, 1, 1, 2, 3, 7)))
    elif k < 0.75:
        a, st = r.randint(-40, 40) / 8, r.choice((0.5, 0.25, 0.125, 0.75, 1.5, 0.0625))
    else:
        a, st = round(r.uniform(-20, 20), 3), round(r.uniform(0.01, 3), 3)
    up = r.random() < 0.6
    d = st if up else -st
    exact = k < 0.75
    if exact and r.random() < 0.6:
        end = a + d * rows
        if r.random() < 0.15 and abs(a) < 1000:
            # closely before the next row
            end += d * (1 - 2.0 ** -r.randint(8, 32))
            end = round(end * 2 ** 34) / 2 ** 34
            rows = int((end - a) / d)
    else:
        f = r.choice((0.5, 0.25, 0.75))
        end = a + d * (rows + f)
        end = end if exact else round(end, 6)
    vals = [a + d * i for i in range(rows + 1)]
    written = d if r.random() < 0.6 else -d
    return a, end, written, vals, exact


def make(r, rules):
    g = sess.SessGen(r, tame=rules, names=[n for n in sess.NAMES if n not in VARS][:8])
    lines, info = [], []
    for _ in range(r.randint(0, 4)):
        lines.append(r.choice([g.definition, lambda: '%d' % r.randint(1, 99), lambda: '%d*%d' % (r.randint(1, 9), r.randint(1, 9)), g.value])())
        info.append(None)
    for _ in range(r.randint(1, 5)):
        var = r.choice(VARS)
        k = r.random()
        e = None
        if k < 0.3 and not rules:
            e = r.choice(['1/%s', 'sqrt(%s)', '%s^0.5', '1/(%s-1)', 'root(%s, 3)', '%s^%s', '%s!', '1/(%s^2-4)', 'sqrt(4-%s^2)', '%s^-1', '10/floor(%s)',
                          '%s C 2', 'fib(%s)', '3', 'ln(%s)', 'sqrt(-%s)/%s', '1/(%s mod 2)', '100000000000%s', '%s/10^9']).replace('%s', var)
        elif k < 0.4:
            e = r.choice(['%s', '%s^2', '2%s+1', '%s%s', '-%s', 'max(%s, 0)', 'sum(%s, %s, 1)', 'abs(%s)', '7', '%s*%s-%s']).replace('%s', var)
        if e is None:
            e = g.gen(vars=[var] if r.random() < 0.9 else ()).expr(r.randint(1, 6))
        a, b, st, vals, exact = progression(r)
        fold = None
        if r.random() < 0.6:
            fold = (r.choice(['x+y', 'x*y', 'max(x,y)', 'min(x, y)', 'y', 'x', '2x-y', 'x-y', 'y-x', 'x+1', 'x/2+y', 'x+y^2', '(x+y)/2', '3', 'sum(x,y)', 'x + y*y - 1', 'y+y', 'x+x', '10x+y']),
                    r.choice([0, 1, -1, 5, 2.5, 100, r.randint(-9, 9)]))
        sp = lambda: ' ' * r.choice((0, 1, 1, 2))
        s = 'table ' + sp() + e + sp() + ';' + sp() + dress(r, a) + sp() + ';' + sp() + dress(r, b) + sp() + ';' + sp() + dress(r, st)
        if fold:
            s += sp() + ' fold ' + sp() + fold[0] + sp() + ';' + sp() + dress(r, fold[1])
        s += sp()
        lines.append(s)
        info.append((e, var, vals, exact, fold))
        if r.random() < 0.5:
            lines.append(r.choice(['ans', '@0', '@1', 'ans+0']))
            info.append(None)
    return lines, info


REFUSED = ['table x ; 1 ; 3 ; 0', 'table x ; 1 ; 3 ; 1-1', 'table x ; y ; 3 ; 1', 'table x ; 1 ; x ; 1', 'table x ; 1 ; 3 ; x', 'table x+y ; 1 ; 3 ; 1', 'table x*y*z;1;3;1',
           'table x ; 1 ; 3 ; 1 fold x+z ; 0', 'table x ; 1 ; 3 ; 1 fold x+y+a ; 0', 'table x ; 1 ; 3 ; 1 fold x+y ; x', 'table x ; 1 ; 3 ; 1 fold x+y ; q', 'table x ; 1 ; 3',
           'table x ; 1', 'table x', 'table x ; 1 ; 3 ; 1 fold x+y', 'table x + ; 1 ; 3 ; 1', 'table x ; 1 + ; 3 ; 1', 'table x ; 1 ; ) ; 1', 'table x ; 1 ; 3 ; sqrt(-1)', 'table x ; 1/0 ; 3 ; 1',
           'table 1/0 ; 1 ; 3 ; 1', 'table x ; 1 ; 3 ; 1 fold x+ ; 0', 'table x ; 1 ; 3 ; 1 fold x ; 1/0', 'table  ; 1 ; 3 ; 1', 'table x ; 1 ; 3 ; 1 ; 4', 'table x;1;3;1 fold x;1;2']


# expression, bounds, step and initial value in all combinations of constant and not constant
for _e in ('x', '7', 'x^2', 'pi', '2*t'):
    for _b in ('1 ; 3 ; 1', '3 ; 1 ; 1', '1 ; 1 ; 1', '1.5 ; 1 ; 2', 'x ; 3 ; 1', '1 ; t ; 1', '1 ; 3 ; q', 't ; t ; 1', '1 ; 3 ; 0'):
        _ok = not re.search('[a-z]|0$', _b)
        for _f, _o in (('', True), ('x+y ; 0', True), ('x+y ; t', False), ('7 ; x', False), ('x+t ; 1', False), ('y*z ; 1', False), ('3 ; y', False), ('t ; 0', False), ('x+y+z+y ; 0', False)):
            if not (_ok and _o) and 'table %s ; %s' % (_e, _b) not in REFUSED:
                REFUSED.append('table %s ; %s%s' % (_e, _b, ' fold ' + _f if _f else ''))


def cells(text, tty):
    """Rows of blank-separated entries; borders and colours do not count"""
    t = BOX.sub(' ', ANSI.sub(b'', text).decode('utf-8', 'replace'))
    return [l.split() for l in t.split('\n') if l.strip()]


def near(x, tok, scale):
    try:
        v = float(tok)
    except ValueError:
        return False
    if x != x or v != v:
        return x != x and v != v
    if abs(x) == math.inf or abs(v) == math.inf:
        return x == v
    return abs(x - v) <= 2e-10 + 1e-9 * max(abs(x), scale)


def value_at(t, var, x, m, exact, r):
    """('val', v) | ('fail',) | None if undetermined"""
    base = ref.stable_eval(t, {var: x}, m.history())
    if base[0] in ('unstable', 'unknown'):
        return None
    if m.rules and base[0] == 'val' and not abs(base[1]) < 1e300:
        return None
    if not exact:
        for _ in range(4):
            z = ref.stable_eval(t, {var: x + r.uniform(-1, 1) * 1e-12 * max(1, abs(x))}, m.history(), rounds=2)
            if z[0] != base[0] or (z[0] == 'val' and not ref.close(z[1], base[1], 1e-9, 1e-10)):
                return None
    return base


def judge(ck, m, line, info, got_out, got_err, tty, r):
    """Message or None; also advances the history of the model"""
    e, var, vals, exact, fold = info
    got = classify(got_out, got_err)
    try:
        t = m.parse(e)
        ft = m.parse(fold[0]) if fold else None
    except ref.Reject:
        ck.count('refused')
        return None if got[0] == 'err' else 'must be refused (malformed), got %r' % (got[:2],)
    if not m.tame(t) and m.rules or any(x not in (var,) for x in m.expand(t).vars()) or any(not m.defs[n][2] for n in m.uses(t)):
        m.apply(line, None, ('table', line), got)
        return 'skip'
    x = m.expand(t)
    if m.history() is None or any(h is None for h in m.hist) and x.ops() & {'fans', 'p@'} or 'frand' in x.ops():
        m.apply(line, None, ('table', line), got)
        return 'skip'
    bad = m.first_failing_part(x)
    if bad == 'unknown' or (bad and m.rules):
        m.apply(line, None, ('table', line), got)
        return 'skip'
    if bad:
        ck.count('refused')
        return None if got[0] == 'err' else 'must be refused (%s), got %r' % (bad, got[:2])
    if got[0] != 'out':
        return 'must print a table, got %r' % (got,)
    body, res = got_out, None
    if fold:
        if b'Fold result: ' not in body:
            return 'no fold result in %r' % body[-200:]
        if body.count(b'Fold result: ') != 1:
            return 'more than one fold result'
        body, res = body.split(b'Fold result: ')
        if res.count(b'\n') != 1:
            return 'fold result %r' % res
    elif b'Fold' in body:
        return 'unexpected fold result'
    rows = cells(body, tty)
    if tty:
        if not rows:
            return 'no header row'
        head = rows.pop(0)
        txt = ' '.join(head)
        hv = [var] if x.vars() and (not m.rules or txt.startswith(var + ' ')) else []
        h = parse_printed(txt[len(var):] if hv and txt.startswith(var + ' ') else txt, {n: a for n, a in m.funcs().items()})
        if hv and not txt.startswith(var + ' ') or h is None or not ref.same(ref.norm_neg(h), ref.norm_neg(t)):
            return 'header %r instead of variable %s and expression %s' % (txt, hv, e)
    if len(rows) != len(vals):
        return '%d rows instead of %d' % (len(rows), len(vals))
    scale = max(abs(v) for v in vals) * (0 if exact else 1)
    acc, known = [], True
    for i, (row, v) in enumerate(zip(rows, vals)):
        if tty:
            if not row or row[0] != str(i + 1):
                return 'row %d is numbered %r' % (i + 1, row[:1])
            row = row[1:]
        if len(row) != 2:
            return 'row %d is %r' % (i + 1, row)
        if not near(v, row[0], scale):
            return 'row %d starts with %r instead of %.12g' % (i + 1, row[0], v)
        w = value_at(x, var, v, m, exact, r)
        if w is None:
            known = False
            ck.count('rows_undetermined')
            continue
        ck.count('rows_' + w[0])
        if w[0] == 'fail':
            if row[1] != 'Error':
                return 'row %d (%.12g) shows %r instead of an error mark' % (i + 1, v, row[1])
        else:
            if not near(w[1], row[1], 0):
                return 'row %d (%.12g) shows %r instead of %.12g' % (i + 1, v, row[1], w[1])
            acc.append(w[1])
    after = None
    if fold and known:
        outs = []
        for j in range(5):
            f = float(fold[1])
            try:
                for y in acc:
                    f = ref.evaluate(ft, {'x': f, 'y': y * (1 + (1e-12 * r.uniform(-1, 1) if j and y == y and abs(y) < 1e15 and y != math.floor(y) else 0))}, m.hist)
            except (ref.Fail, ref.Unknown, OverflowError):
                f = None
            outs.append(f)
        if all(f is not None and ref.close(f, outs[0], 1e-9) for f in outs):
            ck.count('folds')
            if not ref.close(float(res), outs[0], 2e-9):
                return 'fold result %r instead of %.12g (values %r)' % (res, outs[0], acc[:12])
            after = outs[0]
        else:
            ck.count('folds_undetermined')
    if fold:
        m.hist.append(after)
    return None


def run():
    ck = vf.Check('C17', rule='sessions of tables with random progressions, expressions (also failing at some points) and folds, with user definitions; every row, '
                  'the fold result and the history compared with a reference; distinct: command lines', min_cases=300)
    r = ck.rng
    sessions = []
    for i in range(ck.n(1300, 12000)):
        rules = r.random() < 0.35
        lines, info = make(r, rules)
        sessions.append(vf.Session(lines, variant=vf.RULES if rules else vf.NORULES, tty=int(r.random() < 0.25), meta=info))
    two = []
    for _ in range(ck.n(60, 600)):
        # two and more variables in places where one less is allowed
        vs = r.sample(['x', 'y', 'foo', 'n'], r.choice((2, 2, 3)))
        g = gen.ExprGen(r, vars=vs, p_var=0.8, fn1=['sin', 'abs'], fn2=[], fnn=['max', 'sum'])
        e = g.expr(r.choice((2, 3, 5, 8)))
        if r.random() < 0.7:
            e = ' + '.join([e] + [g.leaf() + r.choice(('*', ' * ', ' - ')) + g.leaf() for _ in range(r.randint(1, 4))])
        if len(ref.tokenize(e)) < 2: continue
        n = len(ref.parse(e).vars())
        if n == 2:
            two.append('table %s ; 1 ; 3 ; 1' % e)
        elif n == 3:
            two.append('table x ; 1 ; 3 ; 1 fold %s ; 0' % e)
        elif n == 1:
            two.append(r.choice(['table x ; %s ; 3 ; 1', 'table x ; 1 ; %s ; 1', 'table x ; 1 ; 3 ; %s', 'table x ; 1 ; 3 ; 1 fold x ; %s']) % e)
    for s in REFUSED + two:
        for tty in (0, 1):
            sessions.append(vf.Session(['7', s, 'ans', '@2'], variant=vf.NORULES, tty=tty, meta='refused'))
    # many rows
    for n in (1000, 3000):
        sessions.append(vf.Session(['table x^2;1;%d;1 fold x+y;0' % n, 'ans'], variant=vf.NORULES, meta=[('x^2', 'x', [float(i) for i in range(1, n + 1)], True, ('x+y', 0)), None]))
    for res in vf.run_sessions(sessions):
        s = res.session
        if not res.clean:
            ck.violation('session %r: %s' % (s.lines, res.describe()), 'crash:' + '\n'.join(s.lines), s)
            continue
        if s.meta == 'refused':
            got = [outcome(res, i) for i in range(4)]
            ck.case(s.lines[1])
            ck.count('refused')
            if got[1][0] != 'err' or got[2][0] != 'out' or not value_matches(got[2][1], 7) or got[3][0] != 'err':
                ck.violation('%r must be refused without effect, got %r' % (s.lines[1], got[1:]), 'refused:' + s.lines[1], s)
            continue
        m = Model(s.variant == vf.RULES)
        for i, line in enumerate(s.lines):
            st = res.step(i)
            if s.meta[i] is None:
                if s.tty:  # whispers make definitions look different; only values matter here
                    o = classify(st[0], st[1], 1)
                    if o[0] == 'out' and not st[0].startswith(b'= '):
                        o = ('none',)
                else:
                    o = outcome(res, i)
                e, msg = m.step(line, o)
                if s.tty and msg and e.kind in ('tree', 'silent'):
                    msg = None
            else:
                msg = judge(ck, m, line, s.meta[i], st[0], st[1], s.tty, r)
                if msg == 'skip':
                    ck.count('skipped')
                    msg = None
                else:
                    ck.case(line, line)
            if msg:
                ck.violation('line %d %r: %s' % (i, line, msg), 'table:' + '\n'.join(s.lines[:i + 1]), s, extra=[st[0][-600:], st[1][-300:]])
                break
    ck.finish()
