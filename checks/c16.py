"""C16: a rule file is loaded completely or rejected as a whole."""
import c15, chaos, gen, ref, rulefile, vf
import rewrite as rw
from common import *


def base(r):
    """(file, number of its markers)"""
    k = r.random()
    if k < 0.25:
        return chaos.RULESET, 1
    if k < 0.8:
        return rulefile.markers(r)
    out = []
    g = rw.Gen(r)
    for _ in range(7):
        out.append('RULESET')
        for _ in range(r.choice((0, 0, 1, 2))):
            p = g.pattern(r.choice((2, 3, 4)))
            if p.k == 'o':
                out.append(rw.Rule(p, rw.N(r.randint(0, 9)) if r.random() < 0.5 else g.right(p.vars(), 2), g.conds(p)).text())
    return vf.b('\n'.join(out) + '\n'), 1


def probes(r, n):
    ks = [str(r.choice((r.randint(1, max(1, n)), 91, 92, 93, 94, 95, 96, 97, 98, 99) if r.random() < 0.2 else (r.randint(1, max(1, n)),))) for _ in range(6)]
    arg = lambda: r.choice(['a', 'b', 'a', '1', '3', '7', 'sin(a)', 'a*b', '2', '0', '2', '0.5'])
    res = ['max(%s)' % ', '.join([k] + [arg() for _ in range(r.choice((1, 1, 2, 2, 3)))] + ['a'] * r.randint(0, 1)) for k in ks]
    res = [r.choice(['%s', '%s', '%s', 'sin(%s)', '(%s)!', 'abs(%s)', 'max(%s)', '-%s', '1 + %s', 'root(%s, b)']) % x for x in res]
    res.append('max(%s, a) + max(%s, b, b)' % (ks[0], ks[1]))
    res += r.sample(['max(91, b)', 'sum(91,' + ','.join('abcdefghij') + ')', 'max(92, a, b)', 'max(93, 93, b)', 'max(95, a, 2, b)', 'max(96, b, 2)', 'max(97, 2*b, 2*b)'], 2)
    res += [gen.ExprGen(r, vars=['a', 'b'], deriv=0.15, fn1=['sin', 'ln', 'exp'], fn2=['root', 'log'], fnn=['sum', 'prod', 'max', 'avg'], lit=lambda r: str(r.randint(0, 3)), p_var=0.6).expr(r.randint(1, 6)) for _ in range(4)]
    return res


def marker_value(sets, text):
    """What a probe max(K, ...) becomes under a file of marker rules (the sets are tried in the documented order of phases)"""
    t = ref.fold_constants(ref.parse(text))
    for i in (0, 2, 3, 4, 5, 6, 1):
        while True:
            succ = None
            for x in sets[i]:
                succ = x.successors(t)
                if succ is not None:
                    break
            if succ is None:
                break
            if len(succ) > 1:
                return None
            t = ref.fold_constants(succ[0])
    return t


def run():
    ck = vf.Check('C16', rule='rule files (the shipped one, files of rules with individually visible effects, random rules) with other formatting, damaged or cut anywhere; a reference reader of the '
                  'format decides whether it has to be accepted; afterwards probes must answer as with a plainly formatted file of the accepted rules, or as if nothing had been loaded', min_cases=500)
    r = ck.rng
    todo = []
    for _ in range(ck.n(1600, 16000)):
        data, n = base(r)
        pure = data != chaos.RULESET and n > 1
        k = r.random()
        if k < 0.35:
            data = rulefile.format_edit(r, data)
        else:
            if k < 0.5:
                data = rulefile.format_edit(r, data)
            data = rulefile.damage(r, data)
            pure = False
        try:
            sets = rulefile.read(data)
        except rulefile.Undetermined:
            ck.count('undetermined_files')
            continue
        except RecursionError:
            continue
        # a session that may have loaded other rules and defined constants before
        before = []
        other, m = rulefile.markers(r)
        if r.random() < 0.5:
            before.append('load simplification other')
            n = max(n, m)
        defs = ['%s = %d' % (v, r.randint(2, 9)) for v in r.sample(['x', 'cx', 'xs', 'y', 'type', 'va', 'z', 'equal', 'CONST'], r.choice((0, 0, 1, 3)))]
        ps = probes(r, n)
        path = r.choice(['rules', 'dir/rules.txt', 'my rules', './rules'])
        named = path
        if r.random() < 0.06:
            # not readable at all
            named, data, sets = r.choice(['nofile', 'dir/nofile', 'dir', 'other/', 'rules.']), b'', None
            path = 'dir/some'
        canon = None if sets is None else rulefile.canonical(sets)
        kw = dict(variant=vf.RULES if r.random() < 0.3 else vf.NORULES, budget=40_000_000, timeout=15)
        tty = int(r.random() < 0.25)
        a = vf.Session(before + defs + ['load simplification ' + named] + ps, files={path: data, 'other': other}, tty=tty, **kw)
        b = vf.Session(before + ([] if sets is None else ['load simplification canon']) + defs + ps, files={'canon': canon or b'', 'other': other}, tty=tty, **kw)
        todo.append((a, b, sets, len(before) + len(defs), ps, pure and not defs))
    res = vf.run_sessions([s for t in todo for s in t[:2]], retry=False, stuck_ok=True)
    for k, (a, b, sets, at, ps, pure) in enumerate(todo):
        ra, rb = res[2 * k], res[2 * k + 1]
        data = a.files.get(a.lines[at][20:])
        what = 'unreadable file %s' % a.lines[at][20:] if data is None else 'file %r' % data[-400:].decode('latin-1')
        data = data or b''
        key = 'file:' + repr((data, a.lines))
        stuck = [x.budget_hit or x.timed_out for x in (ra, rb)]
        if all(stuck) or ra.timed_out or rb.timed_out:
            ck.count('endless_rules')
            # rules that never come to an end, or only with operand lists growing beyond all measure: still compare what was answered before
        elif not ra.clean or not rb.clean:
            if any(stuck) and len(ra.recs) - 1 == len(rb.recs):
                ck.count('endless_rules')
            else:
                ck.violation('%s: %s (expected like %s)' % (what, ra.describe(), rb.describe()), key, a)
                continue
        if len(ra.recs) <= at:
            continue
        o = ra.step(at)
        if at + 1 < len(ra.recs):
            failed = bool(o[1].strip())
            ck.case((data, tuple(a.lines)), '%s rules, %d lines: %s' % ('no' if sets is None else sum(map(len, sets)), data.count(b'\n') + 1, o[1][-120:].decode('latin-1') or 'accepted'))
            ck.count('files_rejected' if sets is None else 'files_accepted')
            if failed != (sets is None):
                ck.violation('%s must be %s, answer %r' % (what, 'rejected' if sets is None else 'accepted', o[1]), key, a)
                continue
            if a.tty and sets is not None and b'(%d rules)' % sum(map(len, sets)) not in o[0]:
                ck.violation('%s has %d rules, answer %r' % (what, sum(map(len, sets)), o[0]), key, a)
        shift = 0 if sets is not None else 1
        for i, p in enumerate(ps):
            ia, ib = at + 1 + i, at + 1 - shift + i
            if ia + 1 >= len(ra.recs) or ib + 1 >= len(rb.recs):
                break
            x, y = ra.step(ia), rb.step(ib)
            ck.count('probes')
            ck.count('probes_rewritten', p.replace(' ', '') not in x[0].decode('latin-1').replace(' ', ''))
            if x != y:
                ck.violation('%s (%s): %r answers %r, but %r with %s' % (what, 'rejected' if sets is None else 'accepted', p, x[0] or x[1], y[0] or y[1],
                                                                     'the earlier rules' if sets is None else 'the same rules plainly formatted'), key, a)
                break
            if pure and i < 6 and sets is not None:
                t = marker_value(sets, p)
                got = parse_output(x[0][2:] if x[0].startswith(b'= ') else x[0])
                if t is not None and t.vars() and got is not None and not x[1]:
                    ck.count('marker_probes')
                    if not ref.same(ref.norm_neg(t), ref.norm_neg(got)):
                        ck.violation('%s: %r answers %r, the rules give %s' % (what, p, x[0], ref.sexpr(t)), key, a)
                        break
    ck.finish()
