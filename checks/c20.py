"""C20: command-line switches and the exit status are reliable."""
import re
import c19, gen, sess, vf
from common import *

SWITCHES = {'i': ('-i', '--interactive'), 'q': ('-q', '--quiet'), 'h': ('-h', '--help'), 'v': ('-v', '--version'), 'c': ('-c', '--commands')}
UNKNOWN = ['-x', '--', '-', '', '--interactiv', '--quiets', 'i', '-iq', '-C', '1+1', '--help=1', '-hh', '--h', '--versio', 'load f', '-ic', '--command', '-q ', 'quit', '%s%n']


FAILS = ['clear sin', 'clear max', 'clear nope', 'clear pi', 'clear +', '1 +', '1/0', 'sqrt(-1) + 2', '@5000', 'qq(x) = qq(x)', 'qq(x, x) = 1', 'qq(2) = 1', 'sin(x) = x', 'pi = 3', 'qq = zz', 'qq(x) = 1/0',
         'qq(x) = x + ', 'load nofile', 'load .', 'load simplification nofile', 'load simplification .', 'table x', 'table x; 1; 2; 0', 'table x; y; 2; 1', 'table x + y; 1; 2; 1', 'table x; 1; 2; 1 fold z; 0',
         'table x; 1; 2; 1 fold 1/0; 0', '= 3', 'max(1,,2)', 'sin(1, 2)', '~', ')', '(', 'deriv(1, 2, 3)', 'x C', "2'' +"]


def argument_vector(r):
    """(arguments, switches before the commands, unknown argument or None, commands or None)"""
    args, sw, unknown = [], set(), None
    for _ in range(r.choice((0, 0, 1, 1, 2, 3, 5))):
        k = r.choice('iqiqiqhv')
        if k in 'hv' and r.random() < 0.6:
            k = 'i'
        sw.add(k)
        args.append(r.choice(SWITCHES[k]))
    if r.random() < 0.15:
        unknown = r.choice(UNKNOWN)
        args.insert(r.randint(0, len(args)), unknown)
    if r.random() < 0.75:
        args.append(r.choice(SWITCHES['c']))
        cmds = [c.replace('\0', '') for c in c19.commands(r, r.choice((0, 1, 1, 2, 3, 6)), rules=0.06)]
        if r.random() < 0.5:  # mostly without failures
            cmds = [c for c in cmds if not c.startswith(('load', 'clear '))]
        if r.random() < 0.1:
            cmds.insert(r.randint(0, len(cmds)), r.choice(['-i', '-q', '-x', '--help', '-1', '-c', '--version', '-h+1']))
        return args + cmds, sw, unknown, cmds
    return args, sw, unknown, None


def run():
    ck = vf.Check('C20', rule='random argument vectors with commands, and standard input from a pipe or terminal, compared with sessions in which the same commands are typed; '
                  'exit status compared with the errors that were reported', min_cases=500)
    r = ck.rng
    ref = vf.run_sessions([vf.Session([], args=['-h']), vf.Session([], args=['-v'])])
    usage, version = ref[0].out, ref[1].out
    if not all(x.clean for x in ref):
        ck.violation('-h, -v: %s, %s' % (ref[0].describe(), ref[1].describe()), 'help', ref[0].session)
    for names in SWITCHES.values():
        if vf.b(names[1]) not in usage:
            ck.violation('usage text %r does not mention %s' % (usage, names[1]), 'usage', ref[0].session)
    if not version.strip() or ref[0].err or ref[1].err:
        ck.violation('version text %r, errors %r %r' % (version, ref[0].err, ref[1].err), 'version', ref[1].session)
    # what typing does, and how far the commands given as arguments go
    cases = []
    for _ in range(ck.n(2400, 24000)):
        args, sw, unknown, cmds = argument_vector(r)
        lines = c19.commands(r, r.choice((0, 1, 2, 4)), rules=0.03)
        if r.random() < 0.5:
            lines = [l for l in lines if not l.startswith(('load', 'clear '))]
        if r.random() < 0.25:
            # one failing command among successful ones
            good = lambda: r.choice([lambda: 'u%s(x) = x + %d' % (''.join(r.choice('abc') for _ in range(5)), r.randint(0, 9)), lambda: str(r.randint(0, 99)), lambda: 'clear', lambda: 'x + 2',
                                     lambda: 'w%s = 4' % ''.join(r.choice('abc') for _ in range(5))])()
            some = [good() for _ in range(r.choice((0, 1, 2, 4)))]
            g = sess.SessGen(r, tame=True)
            some.append(r.choice(FAILS) if r.random() < 0.7 else g.bad().replace('\n', ' '))
            some += [good() for _ in range(r.choice((0, 0, 1, 3)))]
            if cmds is not None and r.random() < 0.5:
                args = args[:len(args) - len(cmds)] + some
                cmds = some
            else:
                lines = some
        fs = c19.rule_files(r)
        fs['sub'] = '\n'.join(c19.commands(r, 2, rules=0))
        if r.random() < 0.15:
            (cmds if cmds else lines).append('load sub')
            if cmds:
                args.append('load sub')
        kw = dict(files=fs, variant=vf.RULES if r.random() < 0.15 else vf.NORULES, budget=60_000_000, timeout=30, time=r.randint(1, 1000))
        cases.append((args, sw, unknown, cmds, lines, int(r.random() < 0.3), kw))
    typed = vf.run_sessions([vf.Session(c[3] or [], **c[6]) for c in cases])
    plans = []
    for c, t in zip(cases, typed):
        args, sw, unknown, cmds, lines, tty, kw = c
        if not t.clean:
            ck.count('endless_rules')
            continue
        fail = next((i for i in range(len(cmds or [])) if i < len(t.recs) and t.step(i)[1].strip()), None)
        quits = next((i for i, x in enumerate(cmds or []) if i < len(t.recs) and len(t.recs) == i + 1), None)  # no further input was asked for
        run = vf.Session(lines, args=args, tty=tty, **kw)
        twin = None
        if unknown is None and not sw & {'h', 'v'} and fail is None and quits is None and (cmds is None or 'i' in sw):
            twin = vf.Session((cmds or []) + lines, tty=tty, **kw)
        pipe = vf.Session((cmds or []) + lines, **kw) if twin and tty else None
        plans.append((c, t, fail, quits, run, twin, pipe))
    res = vf.run_sessions([s for p in plans for s in p[4:] if s])
    pos = 0
    for c, t, fail, quits, run, twin, pipe in plans:
        args, sw, unknown, cmds, lines, tty, kw = c
        x = res[pos]
        w = res[pos + 1] if twin else None
        pos += 1 + bool(twin) + bool(pipe)
        what = 'arguments %r, input %r%s' % (args, lines, ' on a terminal' if tty else '')
        bad = lambda m: ck.violation('%s: %s' % (what, m), 'args:' + what, run)
        if not x.clean or w and not w.clean:
            if x.budget_hit or w and w.budget_hit:
                ck.count('endless_rules')
            else:
                bad(x.describe())
            continue
        ck.case((tuple(args), tuple(lines), tty), '%s: exit status %d' % (what[:300], x.exit_code))
        if unknown is not None:
            ck.count('unknown_switches')
            if x.exit_code == 0 or x.out or vf.b(unknown) not in x.err or len(x.recs):
                bad('unknown switch %r: exit status %d, output %r, errors %r, %d lines read' % (unknown, x.exit_code, x.out, x.err, len(x.recs)))
            continue
        if sw & {'h', 'v'}:
            ck.count('help_or_version')
            if x.exit_code or x.err or len(x.recs) or x.out not in [v for k, v in (('h', usage), ('v', version)) if k in sw]:
                bad('help or version: exit status %d, output %r, errors %r' % (x.exit_code, x.out, x.err))
            continue
        # the banner appears on terminals only
        banner = b''
        if tty and (cmds is None or 'i' in sw) and 'q' not in sw:
            banner = x.out[:len(version)]
            if banner != version:
                bad('version is not shown at the start of a terminal session: %r' % x.out[:200])
                continue
            k = x.out.find(b'conditions.\n')
            banner = x.out[:k + 12] if 0 <= k < 600 else banner
        out = x.out[len(banner):]
        if 'q' in sw or not tty or cmds is not None and 'i' not in sw:
            if version.split(b'\n')[0] in x.out and not any('license' in l for l in (cmds or []) + lines + [kw['files']['sub']]):
                bad('version is shown: %r' % x.out[:200])
                continue
        start = t.startup()
        n = len(cmds or [])
        if fail is not None:
            ck.count('failing_commands')
            end = t.recs[fail + 1] if fail + 1 < len(t.recs) else t.final
            wo, we = t.out[:end.out], t.err[:end.err]
            if fail + 1 >= len(t.recs):
                wo, we = t.out, t.err
            if not x.exit_code or len(x.recs):
                bad('command %d fails, but exit status is %d and %d input lines are read' % (fail + 1, x.exit_code, len(x.recs)))
            elif out != wo or x.err != we and not (x.err.startswith(we) and re.fullmatch(rb'[^\n]*command %d\b[^\n]*\n' % (fail + 1), x.err[len(we):])):
                bad('typed commands give %r, given as arguments %r' % ((wo, we), (out, x.err)))
        elif quits is not None or 'i' not in sw and cmds is not None:
            ck.count('commands_only')
            if x.exit_code or len(x.recs):
                bad('no command fails, but exit status is %d and %d input lines are read' % (x.exit_code, len(x.recs)))
            elif (out, x.err) != (t.out, t.err):
                bad('typed commands give %r, given as arguments %r' % ((t.out, t.err), (out, x.err)))
        else:
            ck.count('continued_sessions' if cmds is not None else 'plain_sessions')
            # commands first (not interactive), then the session as if the commands had been typed in it
            o, e = x.startup()
            if cmds is not None and (o[len(banner):], e) != (t.out, t.err):
                bad('typed commands give %r, given as arguments %r' % ((t.out, t.err), (o, e)))
                continue
            if len(x.recs) != len(w.recs) - n:
                bad('%d input lines are read, must be %d' % (len(x.recs), len(w.recs) - n))
                continue
            for i in range(len(x.recs)):
                if x.step(i) != w.step(n + i):
                    bad('line %r answers %r, with typed commands %r' % ((lines + ['<end>'])[i], x.step(i), w.step(n + i)))
                    break
            failed = any(x.step(i)[1].strip() for i in range(len(x.recs)))
            ck.count('sessions_failing', failed)
            if (x.exit_code != 0) != failed:
                bad('exit status %d, but %s' % (x.exit_code, 'a command failed' if failed else 'no command failed'))
    ck.finish()
