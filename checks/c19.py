"""C19: loading a file equals typing its lines."""
import chaos, gen, rulefile, sess, vf
from common import *

FILENAMES = ['f', 'file', 'my file', 'dir/f.txt', 'simplification', 'load', 'a;b', 'quit', 'x.', '%s', 'tab le', '-c', 'dir/dir2/simplification rules', '#f', "q'", 'f ', ' f', 'simplificationx']


def commands(r, n, rules=0.1):
    g = sess.SessGen(r, tame=True, hist=0.2)
    res = []
    for _ in range(n):
        k = r.random()
        if k < rules:
            res.append('load simplification ' + r.choice(('r0', 'r1', 'r2')))
        elif k < rules + 0.05:
            res.append(r.choice(['', '# comment', '#', ' ', '1+1#', '# quit', ' quit', 'quit ', 'help', 'license', 'load nofile', 'load .', 'load simplification nofile', 'clear', 'load', 'clear nope']))
        else:
            res.append(g.command(bad=0.2).replace('\n', ' '))
    if r.random() < 0.2:
        res.insert(r.randint(0, len(res)), 'quit')
    return res


def rule_files(r):
    res = {}
    for k in ('r0', 'r1', 'r2'):
        d = chaos.RULESET if r.random() < 0.3 else rulefile.markers(r)[0]
        res[k] = d
        if r.random() < 0.2:
            res[k] = rulefile.damage(r, d)
            try:
                rulefile.read(res[k])
            except rulefile.Undetermined:
                res[k] = d
    return res


def pack(r, lines, files, depth):
    """The same commands with parts of them moved into files"""
    res = []
    i = 0
    while i < len(lines):
        if r.random() < (0.35 if depth else 0.25):
            n = r.choice((0, 1, 1, 2, 3, 5))
            if depth:
                sub = pack(r, lines[i:i + n], files, depth - 1)
            else:
                sub = lines[i:i + n]
            name = r.choice([f for f in FILENAMES if f not in files] or ['n%d' % len(files)])
            if name in files:
                name = 'n%d' % len(files)
            data = '\n'.join(sub)
            # a missing final newline does not matter
            k = r.random()
            if sub and (k < 0.5 or sub[-1] == ''):
                data += '\n'
            elif k > 0.9:
                data += '\n\n'
            files[name] = data
            if name.startswith('simplification '):
                name = './' + name
            res.append('load ' + name)
            i += n
            if n == 0 and r.random() < 0.8:
                res.append(lines[i])
                i += 1
        else:
            res.append(lines[i])
            i += 1
    return res


PROBES = ['help', '@1', '@2', 'ans', 'max(1, a, a)', 'max(2, a)', 'a - -b', 'f(1)', 'g(2, 3)', 'h', 'A + 1']


def run():
    ck = vf.Check('C19', rule='random command sequences typed into a pipe, and with arbitrary parts moved into (nested) files that are loaded instead: same text on both channels, same later '
                  'answers, same exit status; also loaded on a terminal and from the command line', min_cases=500)
    r = ck.rng
    todo = []
    for _ in range(ck.n(2500, 25000)):
        lines = commands(r, r.choice((1, 2, 4, 8, 12)))
        if r.random() < 0.06:
            lines = ['%d + %d' % (r.randint(0, 99), r.randint(0, 99)) for _ in range(r.randint(30, 300))] + lines
        if r.random() < 0.06:
            lines.append(' + '.join(str(r.randint(0, 99)) for _ in range(r.choice((30, 60, 120, 250, 900)))) + r.choice(('', '', ' ', ' + 12345', ' +')))
        fs = rule_files(r)
        kw = dict(variant=vf.RULES if r.random() < 0.2 else vf.NORULES, budget=60_000_000, timeout=30, time=r.randint(1, 1000))
        probes = r.sample(PROBES, 4)
        k = r.random()
        files = {}
        if k < 0.75:
            packed = pack(r, lines, files, r.choice((0, 1, 1, 2)))
            if r.random() < 0.15:
                # files that do nothing but load another one before and after some commands
                i = r.randint(0, len(packed))
                j = r.randint(i, len(packed))
                part = packed[i:j]
                for k in range(r.randint(1, 12)):
                    files['deep%d' % k] = '\n'.join(part) + '\n'
                    part = ['load deep%d' % k]
                packed = packed[:i] + part + packed[j:]
            a = vf.Session(lines + probes, files=fs, **kw)
            b = vf.Session(packed + probes, files={**fs, **files}, **kw)
            mode = 'pipe'
        else:
            sub = pack(r, lines, files, 1) if r.random() < 0.5 else lines
            name = r.choice([f for f in FILENAMES[:6] if f not in files] or ['outer'])
            files[name] = '\n'.join(sub) + r.choice(['\n', '\n', '']) if sub[-1] else '\n'.join(sub) + '\n'
            if k < 0.87:
                # the file is processed as if read from a pipe, afterwards the terminal session goes on
                a = vf.Session(lines, files=fs, **kw)
                b = vf.Session(['load ' + name] + probes, files={**fs, **files}, tty=1, **kw)
                c = vf.Session(lines + probes, files=fs, tty=1, **kw)
                mode = 'terminal'
                todo.append((mode, lines, [a, b, c], probes))
                continue
            a = vf.Session(lines, files=fs, **kw)
            b = vf.Session([], args=['-c', 'load ' + name], files={**fs, **files}, **kw)
            mode = 'argument'
        todo.append((mode, lines, [a, b], probes))
    res = iter(vf.run_sessions([s for t in todo for s in t[2]]))
    for mode, lines, ss, probes in todo:
        rs = [next(res) for _ in ss]
        a, b = rs[:2]
        files = {k: v for k, v in ss[1].files.items() if k not in ('r0', 'r1', 'r2')}
        what = 'typed %r / loaded %r with files %r' % (lines, ss[1].lines or ss[1].args, files)
        key = 'load:' + what
        bad = lambda m: ck.violation('%s (%s): %s' % (what, mode, m), key, ss[1])
        if not all(x.clean for x in rs):
            if any(x.budget_hit for x in rs):
                ck.count('endless_rules')
            else:
                bad('; '.join(x.describe() for x in rs))
            continue
        ck.case((mode, tuple(lines), tuple(sorted(files.items()))), what[:300])
        ck.count('files_loaded', len(files))
        if mode == 'pipe':
            if (a.out, a.err) != (b.out, b.err):
                bad('typed gives %r, loaded %r' % (diff(a.out, b.out), diff(a.err, b.err)))
            elif a.exit_code != b.exit_code:
                bad('exit status %d typed, %d loaded' % (a.exit_code, b.exit_code))
        elif mode == 'argument':
            err = b.err
            if b.exit_code and err.endswith(b'Error occurred in command 1\n'):
                err = err[:-len(b'Error occurred in command 1\n')]
            if (a.out, a.err) != (b.out, err):
                bad('typed gives %r, loaded %r' % (diff(a.out, b.out), diff(a.err, err)))
            elif a.exit_code != b.exit_code:
                bad('exit status %d typed, %d loaded' % (a.exit_code, b.exit_code))
        else:
            c = rs[2]
            o = b.step(0)
            start = a.startup()
            want = (a.out[len(start[0]):], a.err[len(start[1]):])
            if o != want:
                bad('typed into a pipe gives %r, loaded on a terminal %r' % (diff(want[0], o[0]), diff(want[1], o[1])))
                continue
            if b.exit_code != c.exit_code:
                bad('exit status %d typed, %d loaded' % (c.exit_code, b.exit_code))
            if (len(b.recs) == 1) != (len(c.recs) <= len(lines)):
                bad('session ends in only one of the cases')
            for i, p in enumerate(probes):
                x, y = b.step(1 + i), c.step(len(lines) + i)
                if x != y:
                    bad('%r afterwards answers %r, after typing %r' % (p, x, y))
                    break
    ck.finish()


def diff(a, b):
    if a == b:
        return 'same'
    i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    i = max(0, i - 30)
    return (a[i:i + 120], b[i:i + 120])
