"""C02: all memory is released; work leaves none behind."""
import api, chaos, gen, ref, sess, vf
import rewrite as rw
import c15, c18, c22, c27
from common import *


def leaves_nothing(r, g, rules):
    """A group of commands after which definitions, history and rules are as before"""
    k = r.randint(0, 13)
    names = [n for n in sess.NAMES if n not in g.defs]
    sub = sess.SessGen(r, names=names[:6], hist=0.1)
    if k == 0:
        return [sub.bad()]
    if k == 1:
        return [gen.mutate(r, sub.value()).replace('=', '+') + ' + 1/0']
    if k == 2:
        return ['q_ + ' + sub.symbolic()]
    if k == 3:
        return [r.choice(['help', 'help operators', 'license', '# ' + sub.value(), ''])]
    if k == 4:
        e = gen.ExprGen(r, vars=['x']).expr(r.randint(1, 5))
        return ['table %s ; %d ; %d ; %d' % (e, r.randint(-3, 3), r.randint(-3, 6), r.choice((1, 2, -1)))]
    if k == 5:
        d = sub.definition()
        n = list(sub.defs)
        return [d] + ['q_ + ' + sub.symbolic() for _ in range(r.randint(0, 2))] + ['clear ' + x for x in n]
    if k == 6:
        ds = [sub.definition() for _ in range(r.randint(2, 4))]
        n = list(sub.defs)
        r.shuffle(n)
        return ds + ['clear ' + x for x in n]
    if k == 7:
        return [r.choice(['load nofile', 'load simplification nofile', 'load simplification bad', 'load simplification bad2', 'load failing'])]
    if k == 8:
        return ['load simplification good'] if rules else ['load nop']
    if k == 9:
        return [chaos.long_line(r).replace('=', '+') + ' + (']
    if k == 10:
        return ["(q_ * %s)'" % r.choice(['x', 'q_', 'sin(q_)', '1/q_', '1/0', 'f_(', 'q_!']), 'deriv(%s, %s)' % (r.choice(['q_^2', 'q_ ln(q_)', 'q_!', 'floor(q_)']), r.choice(['q_', '1+q_', '2']))]
    if k == 11:
        return ['clear ' + r.choice(['nope', 'sin', '', 'x'])]
    if k == 12:
        return ['table q_+x ; 1 ; 2 ; 1 fold %s ; %s' % (r.choice(['x+', 'x+z', '1/0', 'x']), r.choice(['q_', '1/0', '', '1 ; 2'])), 'table %s;%s;2;1' % (r.choice(['x', 'x+y', '(', '1/0']), r.choice(['y', '1/0', '', ')']))]
    return [chaos.rand_bytes(r, r.randint(1, 30)).replace(b'=', b'+').replace(b'load', b'lo_d').replace(b'table', b'ta_le').replace(b'\n', b' ') + b' + (']


def library(ck):
    """Requests against the library interfaces, each of which has to release what it acquired"""
    r = ck.rng
    reqs = []

    def ask(kind, op, payload):
        reqs.append((kind, op, payload))
    for _ in range(ck.n(1500, 15000)):
        ask('table', 'X', c18.gen_table(r).request())
    for f in (c22.vector, c22.linked, c22.prefix_tree, c22.builder):
        for _ in range(ck.n(150, 1500)):
            c, head = f(r)
            ask('container', c.op, head + b''.join(c.req))
    for _ in range(ck.n(3000, 30000)):
        g = rw.Gen(r)
        p = g.pattern(r.choice((1, 2, 3, 5, 8)), lists=r.choice((0, 1, 2, 3, 4)))
        t = g.near(p) if r.random() < 0.8 else g.tree(6)
        conds = g.conds(p)
        ask('matching', 'M', api.s(rw.show(p) + (' WHERE ' + ' ; '.join(map(rw.show, conds)) if conds else '')) + api.tree(t))
    for _ in range(ck.n(3000, 30000)):
        g = rw.Gen(r)
        xs = [c15.rule(g) for _ in range(r.randint(1, 4))]
        t = g.near(r.choice(xs).left)
        if r.random() < 0.6:
            t = g.embed(t, r.choice((2, 6)))
        if t.size() <= 40:
            op, payload = c15.request(xs, t, r.choice((1, 2, 5)), r.random() < 0.3)
            ask('rewriting', op, payload)
    for _ in range(ck.n(8000, 80000)):
        e = gen.ExprGen(r, vars=gen.VARS, prefix=('-', '+', '$', '@'), postfix=('!', '%', "'"), deriv=0.05, hist=0.05).expr(r.choice((1, 2, 4, 8, 15)))
        for _ in range(r.choice((0, 0, 1, 2))):
            e = gen.mutate(r, e)
        ask('parsing', 'P', bytes([r.randint(0, 1)]) + api.s(e))
    for _ in range(ck.n(1500, 15000)):
        t, by = c27.rand_tree(r, r.choice((1, 3, 8, 30))), c27.rand_tree(r, r.choice((1, 2, 5)))
        ask('tree', 'C', api.tree(t))
        ask('tree', 'Q', api.tree(t) + api.tree(by))
        ask('tree', 'R', api.tree(t) + api.tree(by) + api.s(r.choice(['x', 'y', 'zz'])))
        ask('tree', 'D', api.tree(t))
        ask("tree", "S", bytes([0, r.randint(0, 1)]) + api.tree(t))
    for (kind, op, payload), a in zip(reqs, api.run([x[1:] for x in reqs], leaks=True)):
        ck.count('requests_' + kind)
        if isinstance(a, api.Crash):
            if a.what.startswith('memory not released'):
                ck.violation('%s request %s %r: %s' % (kind, op, payload[:200], a.what), 'request:%s:%r' % (op, payload))
            else:
                ck.count('requests_crashed')
            continue
        ck.case(('request', op, payload))


def run():
    ck = vf.Check('C02', rule='live heap after every line and at exit of hostile sessions, and over repeated groups of commands that leave nothing behind; balance of every request to the library interfaces; distinct command groups and requests', min_cases=1500)
    r = ck.rng
    good = chaos.RULESET
    for _ in range(ck.n(2, 20)):
        ses = []
        for _ in range(700):
            s = chaos.session(r)
            if 'cmds' in s.files:
                s.files['cmds'] = s.files['cmds'].replace(b'\nquit', b'\nqui')
                s.files['nonl'] = s.files['nonl'].replace(b'quit', b'qui')
                s.files['rules'] = s.files['rules'].replace(b'quit', b'qui')
            if r.random() < 0.15 and not s.raw:
                s.lines.insert(r.randint(0, len(s.lines)), 'quit')
            ses.append(s)
        for res in vf.run_sessions(ses, retry=False):
            s = res.session
            if res.budget_hit or res.timed_out or not res.clean:
                ck.count('sessions_cut_off' if res.budget_hit or res.timed_out else 'sessions_crashed')
                continue
            ck.case(tuple(map(str, s.lines)))
            ck.count('sessions_ended')
            if res.final.live_blocks != 0:
                ck.violation('%d blocks (%d bytes) not released at exit' % (res.final.live_blocks, res.final.live_bytes), 'exit:' + repr(s.lines), s)
        # repeated groups
        ses = []
        for _ in range(700):
            rules = r.random() < 0.5
            g = sess.SessGen(r, hist=0.1)
            pre = [g.command(bad=0.1, tables=0) for _ in range(r.randint(0, 6))]
            group = leaves_nothing(r, g, rules)
            bad = chaos.rules_file(r) + b'\nx ->'
            ses.append(vf.Session(pre + group * 8, meta=(len(pre), len(group)), variant=vf.RULES if rules else vf.NORULES, tty=int(r.random() < 0.1), timeout=20, budget=60_000_000,
                                  files={'good': good, 'bad': bad, 'bad2': chaos.rules_file(r)[:r.randint(0, 3000)] + b'\nRULESET\nx y z', 'failing': b'# nothing\n1+\n)\n', 'nop': b'# nothing\n\n'}))
        for res in vf.run_sessions(ses, retry=False):
            s = res.session
            n, k = s.meta
            if not res.clean:
                ck.count('sessions_cut_off' if res.budget_hit or res.timed_out else 'sessions_crashed')
                continue
            ck.case(tuple(map(str, s.lines[n:n + k])), repr(s.lines[n:n + k])[:160])
            if len(res.recs) != len(s.lines) + 1:
                continue
            a, z = res.recs[n + 2 * k], res.recs[n + 8 * k]
            # a group that was answered with a constant result extends the history and is not counted
            outs = [res.step(n + 2 * k + i)[0] for i in range(k)]
            if any(grows(l, o) for l, o in zip(s.lines[n:n + k], outs)):
                ck.count('groups_skipped')
                continue
            ck.count('groups_repeated')
            if z.live_blocks > a.live_blocks or z.live_bytes > a.live_bytes:
                ck.violation('repeating %r six times leaves %d more blocks (%d bytes)' % (s.lines[n:n + k], z.live_blocks - a.live_blocks, z.live_bytes - a.live_bytes),
                             'growth:' + repr(s.lines[n:n + k]), s)
    if ck.counters.get('sessions_cut_off', 0) * 4 > ck.evaluations:
        raise vf.HarnessError('many sessions were cut off')
    if ck.counters.get('groups_repeated', 0) < 300:
        raise vf.HarnessError('too few groups observed')
    library(ck)
    ck.finish()


def grows(line, out):
    """The command may have added to the history or the definitions"""
    l = vf.b(line)
    if l in (b'help', b'help operators', b'license') or (l.startswith(b'table ') and b'Fold result' not in out):
        return False
    if b'=' in l or l.startswith((b'clear ', b'load ')):
        return b'=' not in l and out.strip() != b''
    if not out.strip():
        return False
    return b'q_' not in out
